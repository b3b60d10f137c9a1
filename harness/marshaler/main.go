// Monitors for pkg/marshaler: C25 and C26.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/pq"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C25": {
			Rule: "generated query results of every kind with extreme values, times and labels, rendered by Marshal and by the encoder and read back by an independent JSON reader; other messages over a recording fallback; many goroutines on one marshaler; non-trivial: the result has a point or is an empty vector or matrix",
			Assumptions: []string{
				"labels are valid UTF-8, which protobuf requires",
				"results without a kind and series without points, which the engine never produces, only have to give valid JSON or an error",
			},
			Parts: []vk.Part{{Name: "render", Run: render}, {Name: "fallback", Run: fallback}, {Name: "concurrent", Run: concurrent}},
		},
		"C26": {
			Rule: "the results of C25 encoded and decoded again by Unmarshal and by the decoder (streams of several documents included), and documents broken in one place, whose decoding must fail; non-trivial: the result has a point, or the document is broken",
			Assumptions: []string{
				"a NaN is a NaN, whatever its bits",
				"Unmarshal is given one document; a decoder reads one document after the other",
			},
			Parts: []vk.Part{{Name: "roundtrip", Run: roundtrip}, {Name: "broken", Run: broken}, {Name: "streams", Run: streams}, {Name: "fuzz", Run: fuzz}, {Name: "concurrent", Run: concurrent}},
		},
	})
}

func newMarshaler() *marshaler.PromqlMarshaler {
	return marshaler.NewPromqlMarshaler(&runtime.JSONPb{OrigName: true, EmitDefaults: true})
}

// oddResults lack something; they need only give valid JSON or an error.
func oddResults() []proto.Message {
	return []proto.Message{
		&logcache_v1.PromQL_InstantQueryResult{},
		&logcache_v1.PromQL_RangeQueryResult{},
		(*logcache_v1.PromQL_InstantQueryResult)(nil),
		(*logcache_v1.PromQL_RangeQueryResult)(nil),
		&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{}},
		&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{}},
		&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{}},
		&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{}},
		&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{nil, {}}}}},
		&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{nil, {}, {Points: []*logcache_v1.PromQL_Point{nil}}}}}},
		&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"a": "b"}}}}}},
	}
}

// both renders by Marshal and by the encoder.
func both(r *vk.R, m *marshaler.PromqlMarshaler, v proto.Message) (a, b []byte, ea, eb error, ok bool) {
	ok = r.Safely("Marshal", func() { a, ea = m.Marshal(v) })
	var buf bytes.Buffer
	ok = r.Safely("Encode", func() { eb = m.NewEncoder(&buf).Encode(v) }) && ok
	return a, buf.Bytes(), ea, eb, ok
}

func render(r *vk.R) {
	m := newMarshaler()
	for i := 0; i < r.Scale(10000, 400000) && r.Violations() < 20; i++ {
		rnd := r.Rand("m", i)
		bad := false
		v := pq.Gen(rnd, &bad)
		want := pq.Flatten(v)
		r.Case(fmt.Sprintf("%+v", want))
		before := proto.MarshalTextString(v)
		a, b, ea, eb, ok := both(r, m, v)
		if !ok {
			continue
		}
		if proto.MarshalTextString(v) != before {
			r.Violate("input-changed", "rendering changed its input: %s -> %s", before, proto.MarshalTextString(v))
		}
		if (ea != nil) != (eb != nil) || (ea == nil && !bytes.Equal(a, b)) {
			r.Violate("encoder-differs", "Marshal: %s (%v)\nEncode: %s (%v)", a, ea, b, eb)
		}
		if eb != nil && len(b) > 0 {
			r.Violate("partial-output", "the encoder failed with %v after writing %q", eb, b)
		}
		if bad {
			r.Count("unrepresentable", 1)
			if ea == nil {
				r.Violate("bad-time-rendered", "a time that is no number was rendered: %s as %s", before, a)
			}
			continue
		}
		if ea != nil {
			r.Violate("refused", "a good result was refused: %v\n%s", ea, before)
			continue
		}
		if !bytes.HasSuffix(a, []byte("\n")) || bytes.Count(a, []byte("\n")) != 1 {
			r.Violate("newline", "the document is not one newline-terminated line: %q", a)
		}
		got, e := pq.ReadDoc(a)
		if e != "" {
			r.Violate("format", "%s\n%s", e, a)
			continue
		}
		if d := pq.Differs(got, want); d != "" {
			r.Violate("content", "%s\n%s", d, a)
		}
		r.Count("kind_"+want.Kind, 1)
		r.Count("points", want.Points())
		r.Eval(want.Key(), want.Points() > 0 || len(want.Series) == 0)
		if i < 5 {
			r.Sample(string(a))
		}
	}
	for i, v := range oddResults() {
		r.Case(fmt.Sprintf("odd %d", i))
		a, b, ea, eb, ok := both(r, m, v)
		if !ok {
			continue
		}
		if (ea != nil) != (eb != nil) || (ea == nil && !bytes.Equal(a, b)) {
			r.Violate("encoder-differs", "Marshal: %s (%v)\nEncode: %s (%v)", a, ea, b, eb)
		}
		if ea == nil && !json.Valid(a) {
			r.Violate("format", "odd result %d: invalid JSON %s", i, a)
		}
		if f := pq.Flatten(v); ea == nil && f.Kind != "" && len(f.Series) == 0 {
			if got, e := pq.ReadDoc(a); e != "" || got.Kind != f.Kind || len(got.Series) != 0 {
				r.Violate("empty-result", "an empty %s is rendered as %s (%s)", f.Kind, a, e)
			}
		}
		r.Count("odd", 1)
		r.Eval(fmt.Sprint("odd", i), true)
	}
	// A writer that fails is an error.
	for i := 0; i < 200; i++ {
		rnd := r.Rand("w", i)
		v := pq.Gen(rnd, nil)
		n := rnd.Intn(20)
		if err := m.NewEncoder(&failing{left: n}).Encode(v); err == nil {
			r.Violate("write-error-lost", "the encoder reports success although the writer failed after %d bytes", n)
		}
		r.Eval(fmt.Sprint("writer", i), true)
	}
}

type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("disk full")
	}
	f.left -= len(p)
	return len(p), nil
}

// recorder is a fallback marshaler.
type recorder struct {
	calls []string
	seen  []interface{}
	out   []byte
	err   error
}

func (c *recorder) note(s string, v interface{}) {
	c.calls = append(c.calls, s)
	c.seen = append(c.seen, v)
}
func (c *recorder) Marshal(v interface{}) ([]byte, error) {
	c.note("Marshal", v)
	return append([]byte(nil), c.out...), c.err
}
func (c *recorder) Unmarshal(d []byte, v interface{}) error {
	c.note("Unmarshal:"+string(d), v)
	return c.err
}
func (c *recorder) NewDecoder(rd io.Reader) runtime.Decoder {
	return runtime.DecoderFunc(func(v interface{}) error {
		b, _ := io.ReadAll(rd)
		c.note("Decode:"+string(b), v)
		return c.err
	})
}
func (c *recorder) NewEncoder(w io.Writer) runtime.Encoder {
	return runtime.EncoderFunc(func(v interface{}) error {
		c.note("Encode", v)
		w.Write(c.out)
		return c.err
	})
}
func (c *recorder) ContentType() string { return "x/y" }

func fallback(r *vk.R) {
	for i := 0; i < r.Scale(2000, 20000) && r.Violations() < 20; i++ {
		rnd := r.Rand("f", i)
		c := &recorder{out: []byte(fmt.Sprintf(`{"n":%d}`, i))}
		if rnd.Intn(3) == 0 {
			c.err = errors.New("fallback failed")
		}
		m := marshaler.NewPromqlMarshaler(c)
		v := []interface{}{&logcache_v1.ReadResponse{}, &logcache_v1.MetaResponse{}, &logcache_v1.PromQL_InstantQueryRequest{Query: "x"}, &logcache_v1.PromQL_Vector{}, &logcache_v1.PromQL_Matrix{}, &loggregator_v2.Envelope{}, "text", 5, nil, logcache_v1.PromQL_Scalar{}}[rnd.Intn(10)]
		op := []string{"Marshal", "Encode", "Unmarshal", "Decode"}[rnd.Intn(4)]
		r.Case(fmt.Sprintf("%s %T", op, v))
		var out bytes.Buffer
		var err error
		ok := r.Safely(op, func() {
			switch op {
			case "Marshal":
				var b []byte
				b, err = m.Marshal(v)
				out.Write(b)
			case "Encode":
				err = m.NewEncoder(&out).Encode(v)
			case "Unmarshal":
				err = m.Unmarshal([]byte("DATA"), v)
			case "Decode":
				err = m.NewDecoder(strings.NewReader("DATA")).Decode(v)
			}
		})
		if !ok {
			continue
		}
		want := op
		if op == "Unmarshal" || op == "Decode" {
			want += ":DATA"
		}
		if len(c.calls) != 1 || c.calls[0] != want || fmt.Sprintf("%T%v", c.seen[0], c.seen[0]) != fmt.Sprintf("%T%v", v, v) {
			r.Violate("fallback-not-asked", "%s of %T: the fallback saw %v %v", op, v, c.calls, c.seen)
		}
		if err != c.err {
			r.Violate("fallback-error", "%s of %T: %v, the fallback said %v", op, v, err, c.err)
		}
		if (op == "Marshal" || op == "Encode") && err == nil && strings.TrimSuffix(out.String(), "\n") != string(c.out) {
			r.Violate("fallback-output", "%s of %T: %q, the fallback wrote %q", op, v, out.String(), c.out)
		}
		if op == "Marshal" && err == nil && !strings.HasSuffix(out.String(), "\n") {
			r.Violate("newline", "Marshal of %T: %q is not newline-terminated", v, out.String())
		}
		r.Count("fallback_"+op, 1)
		r.Eval(fmt.Sprintf("%s %T %v", op, v, c.err), true)
	}
	if ct := newMarshaler().ContentType(); ct != "application/json" {
		r.Violate("content-type", "%q", ct)
	}
}

// blank is a target of the same type, already filled with something else.
func target(v proto.Message, r *rand.Rand) proto.Message {
	var t proto.Message
	switch v.(type) {
	case *logcache_v1.PromQL_RangeQueryResult:
		t = &logcache_v1.PromQL_RangeQueryResult{}
		if r.Intn(2) == 0 {
			t = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"old": "old"}}}}}}
		}
	default:
		t = &logcache_v1.PromQL_InstantQueryResult{}
		if r.Intn(2) == 0 {
			t = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "old", Value: 5}}}
		}
	}
	return t
}

func roundtrip(r *vk.R) {
	m := newMarshaler()
	for i := 0; i < r.Scale(7000, 250000) && r.Violations() < 20; i++ {
		rnd := r.Rand("r", i)
		n := 1 + rnd.Intn(3)
		var vs []proto.Message
		var stream []byte
		first := pq.Gen(rnd, nil)
		for len(vs) < n {
			v := first
			if len(vs) > 0 {
				v = pq.Gen(rnd, nil)
				// One stream holds one type of result.
				if fmt.Sprintf("%T", v) != fmt.Sprintf("%T", first) {
					continue
				}
			}
			var b []byte
			var err error
			if rnd.Intn(2) == 0 {
				b, err = m.Marshal(v)
			} else {
				var buf bytes.Buffer
				err = m.NewEncoder(&buf).Encode(v)
				b = buf.Bytes()
			}
			if err != nil {
				r.Violate("refused", "%v: %v", v, err)
				b = []byte("{}")
			}
			want := pq.Flatten(v)
			r.Case(string(b))
			t := target(v, rnd)
			if r.Safely("Unmarshal", func() { err = m.Unmarshal(b, t) }) {
				if err != nil {
					r.Violate("unmarshal-refused", "%v\n%s", err, b)
				} else if d := pq.Differs(pq.Flatten(t), want); d != "" {
					r.Violate("unmarshal-content", "%s\n%s", d, b)
				} else {
					again, err := m.Marshal(t)
					if err != nil || !bytes.Equal(again, b) {
						r.Violate("remarshal", "encoding what was decoded gives %s (%v), was %s", again, err, b)
					}
				}
			}
			vs = append(vs, v)
			stream = append(stream, b...)
			r.Count("kind_"+want.Kind, 1)
			r.Eval(want.Key(), want.Points() > 0 || len(want.Series) == 0)
		}
		// The decoder reads the stream in whatever pieces it comes.
		r.Case(string(stream))
		dec := m.NewDecoder(&pieces{b: stream, r: rnd})
		for k, v := range vs {
			t := target(v, rnd)
			var err error
			if !r.Safely("Decode", func() { err = dec.Decode(t) }) {
				break
			}
			if err != nil {
				r.Violate("decode-refused", "document %d: %v\n%s", k, err, stream)
				break
			}
			if d := pq.Differs(pq.Flatten(t), pq.Flatten(v)); d != "" {
				r.Violate("decode-content", "document %d: %s\n%s", k, d, stream)
			}
			r.Count("decoded", 1)
		}
		t := target(first, rnd)
		if err := dec.Decode(t); err == nil {
			r.Violate("decode-past-end", "decoding past the end succeeds: %v", t)
		}
		if i < 3 {
			r.Sample(string(stream))
		}
	}
}

// streams: every document of a stream decodes as it would alone, whatever came
// before it.
func streams(r *vk.R) {
	m := newMarshaler()
	for i := 0; i < r.Scale(4000, 120000) && r.Violations() < 20; i++ {
		rnd := r.Rand("st", i)
		var docs [][]byte
		var vs []proto.Message
		for n := 2 + rnd.Intn(4); n > 0; n-- {
			v := pq.Gen(rnd, nil)
			doc, err := m.Marshal(v)
			if err != nil {
				continue
			}
			if rnd.Intn(2) == 0 {
				// Leave something out or replace it.
				var top map[string]interface{}
				d := json.NewDecoder(bytes.NewReader(doc))
				d.UseNumber()
				if d.Decode(&top) != nil {
					continue
				}
				data, _ := top["data"].(map[string]interface{})
				switch k := rnd.Intn(6); {
				case k == 0:
					delete(top, "data")
				case k == 1 && data != nil:
					delete(data, "result")
				case k == 2 && data != nil:
					delete(data, "resultType")
				case k == 3:
					top["data"] = nil
				case k == 4 && data != nil:
					data["result"] = nil
				case k == 5:
					top = map[string]interface{}{"status": "error", "errorType": "internal", "error": "x"}
				}
				doc, _ = json.Marshal(top)
			}
			docs, vs = append(docs, doc), append(vs, v)
		}
		stream := bytes.Join(docs, []byte("\n"))
		r.Case(string(stream))
		dec := m.NewDecoder(&pieces{b: stream, r: rnd})
		for k, v := range vs {
			a := target(v, rnd)
			b := proto.Clone(a)
			var ea, eb error
			if !r.Safely("Unmarshal", func() { ea = m.Unmarshal(docs[k], a) }) || !r.Safely("Decode", func() { eb = dec.Decode(b) }) {
				break
			}
			if (ea != nil) != (eb != nil) || proto.MarshalTextString(a) != proto.MarshalTextString(b) {
				r.Violate("stream-differs", "document %d of a stream decodes to %v (%v), alone to %v (%v)\n%s", k, b, eb, a, ea, stream)
				break
			}
			if ea == nil {
				r.Count("stream_results", 1)
			} else {
				r.Count("stream_errors", 1)
			}
		}
		r.Eval(string(stream), len(docs) > 1)
	}
}

// pieces hands out a few bytes at a time.
type pieces struct {
	b []byte
	r *rand.Rand
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + p.r.Intn(40)
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	return n, nil
}

// expectError feeds a broken document to both decoders.
func expectError(r *vk.R, m *marshaler.PromqlMarshaler, rnd *rand.Rand, v proto.Message, what string, doc []byte) {
	for _, op := range []string{"Unmarshal", "Decode"} {
		t := target(v, rnd)
		before := proto.MarshalTextString(t)
		var err error
		if !r.Safely(op, func() {
			if op == "Unmarshal" {
				err = m.Unmarshal(doc, t)
			} else {
				err = m.NewDecoder(bytes.NewReader(doc)).Decode(t)
			}
		}) {
			continue
		}
		if err == nil {
			r.Violate("accepted:"+what, "%s took a document with %s:\n%s\nas %s", op, what, doc, proto.MarshalTextString(t))
		} else if proto.MarshalTextString(t) != before {
			r.Violate("target-touched", "%s failed with %v but changed its target to %s\n%s", op, err, proto.MarshalTextString(t), doc)
		}
	}
	r.Count("broken_"+what, 1)
	r.Eval(what+string(doc), true)
}

func broken(r *vk.R) {
	m := newMarshaler()
	for i := 0; i < r.Scale(7000, 250000) && r.Violations() < 20; i++ {
		rnd := r.Rand("b", i)
		v := pq.Gen(rnd, nil)
		f := pq.Flatten(v)
		doc, err := m.Marshal(v)
		if err != nil {
			r.Violate("refused", "%v", err)
			continue
		}
		r.Case(string(doc))
		var top map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(doc))
		d.UseNumber()
		if err := d.Decode(&top); err != nil {
			continue
		}
		data, _ := top["data"].(map[string]interface{})
		if data == nil {
			continue
		}
		// A random point of the document.
		var point []interface{}
		var put func([]interface{})
		switch f.Kind {
		case "scalar":
			point, _ = data["result"].([]interface{})
			put = func(p []interface{}) { data["result"] = p }
		default:
			if items, _ := data["result"].([]interface{}); len(items) > 0 {
				it, _ := items[rnd.Intn(len(items))].(map[string]interface{})
				if f.Kind == "vector" {
					point, _ = it["value"].([]interface{})
					put = func(p []interface{}) { it["value"] = p }
				} else if ps, _ := it["values"].([]interface{}); len(ps) > 0 {
					k := rnd.Intn(len(ps))
					point, _ = ps[k].([]interface{})
					put = func(p []interface{}) { ps[k] = p }
				}
			}
		}
		what := ""
		kinds := []string{"truncation", "result type", "data type", "point length", "time type", "value type", "value text", "field type"}
		k := kinds[rnd.Intn(len(kinds))]
		if point == nil && (k == "point length" || k == "time type" || k == "value type" || k == "value text") {
			k = "truncation"
		}
		if point != nil && len(point) != 2 {
			continue // C25's business
		}
		switch k {
		case "truncation":
			n := rnd.Intn(len(doc) - 2)
			expectError(r, m, rnd, v, "truncated JSON", doc[:n])
			// Unmarshal has the whole input, so something after the document
			// makes it no JSON.
			more := append(doc[:len(doc):len(doc)], []string{"x", "}", "{}", " ,", string(doc)}[rnd.Intn(5)]...)
			t := target(v, rnd)
			before := proto.MarshalTextString(t)
			var err error
			if r.Safely("Unmarshal", func() { err = m.Unmarshal(more, t) }) && (err == nil || proto.MarshalTextString(t) != before) {
				r.Violate("accepted:more", "Unmarshal took a document with something after it (%v):\n%s", err, more)
			}
			r.Count("followed", 1)
			continue
		case "result type":
			what = "another resultType"
			wrong := []string{"", "string", "Vector", "none", "streams"}
			if _, ok := v.(*logcache_v1.PromQL_RangeQueryResult); ok {
				wrong = append(wrong, "vector", "scalar", "vector", "scalar")
			}
			data["resultType"] = wrong[rnd.Intn(len(wrong))]
			if rnd.Intn(6) == 0 {
				delete(data, "resultType")
			}
		case "data type":
			what = "a result of another JSON type"
			data["result"] = []interface{}{"x", 5, true, map[string]interface{}{"a": 1}}[rnd.Intn(4)]
			if f.Kind != "scalar" && rnd.Intn(3) == 0 {
				data["result"] = []interface{}{[]interface{}{5, "x"}}
			}
			if rnd.Intn(6) == 0 {
				delete(data, "result")
			}
		case "point length":
			what = "a point of another length"
			put([][]interface{}{{}, {point[0]}, {point[0], point[1], point[1]}, {point[0], point[1], nil}, {point[0], point[1], 5, "x"}}[rnd.Intn(5)])
		case "time type":
			what = "a time that is no number"
			put([]interface{}{[]interface{}{"1.5", nil, true, []interface{}{}, map[string]interface{}{}, "", "abc"}[rnd.Intn(7)], point[1]})
		case "value type":
			what = "a value that is no string"
			put([]interface{}{point[0], []interface{}{1.5, nil, false, []interface{}{"1"}, map[string]interface{}{}, 0}[rnd.Intn(6)]})
		case "field type":
			what = "a field of another JSON type"
			odd := []interface{}{5, true, []interface{}{"x"}, map[string]interface{}{}, 0.5}[rnd.Intn(5)]
			items, _ := data["result"].([]interface{})
			switch x := rnd.Intn(5); {
			case x < 3:
				top[[]string{"status", "errorType", "error"}[x]] = odd
			case x == 3 && f.Kind != "scalar" && len(items) > 0:
				it := items[rnd.Intn(len(items))].(map[string]interface{})
				it["metric"] = []interface{}{5, "x", []interface{}{"a", "b"}, map[string]interface{}{"a": 5}, map[string]interface{}{"a": []interface{}{}}}[rnd.Intn(5)]
			default:
				data["resultType"] = odd
			}
		case "value text":
			what = "a value that is no float"
			put([]interface{}{point[0], []string{"", "abc", "1.2.3", "1,5", " 1", "1 ", "--1", "1e999999", "NaNa", "0xZZ", "１"}[rnd.Intn(11)]})
		}
		b, err := json.Marshal(top)
		if err != nil {
			r.Fatal("marshal: %v", err)
		}
		expectError(r, m, rnd, v, what, b)
		if i < 4 {
			r.Sample(map[string]string{"broken": what, "document": string(b)})
		}
	}
	for _, doc := range []string{"", " ", "null", "[]", "5", `"x"`, "{", "{}", `{"status":"success"}`, `{"data":null}`, `{"data":5}`, `{"data":[]}`, "\x00", "\xff\xfe", `{"status":"error","errorType":"bad_data","error":"x"}`, `nan`, `{"data":{"resultType":5}}`} {
		for _, v := range []proto.Message{&logcache_v1.PromQL_InstantQueryResult{}, &logcache_v1.PromQL_RangeQueryResult{}} {
			r.Case(doc)
			expectError(r, m, r.Rand("x", len(doc)), v, "no result", []byte(doc))
		}
	}
}

// fuzz changes bytes and compares the two decoders: no panic, and the same
// verdict and result.
func fuzz(r *vk.R) {
	m := newMarshaler()
	accepted := 0
	for i := 0; i < r.Scale(30000, 800000) && r.Violations() < 20; i++ {
		rnd := r.Rand("z", i)
		v := pq.Gen(rnd, nil)
		doc, err := m.Marshal(v)
		if err != nil {
			continue
		}
		doc = bytes.TrimSpace(doc)
		for k := 1 + rnd.Intn(3); k > 0 && len(doc) > 0; k-- {
			p := rnd.Intn(len(doc))
			switch rnd.Intn(5) {
			case 0:
				doc[p] = byte(rnd.Intn(256))
			case 1:
				doc = append(doc[:p:p], doc[p+1:]...)
			case 2:
				doc = append(doc[:p:p], append([]byte{`{}[],:"0.-enullt`[rnd.Intn(16)]}, doc[p:]...)...)
			case 3:
				q := rnd.Intn(len(doc))
				doc[p], doc[q] = doc[q], doc[p]
			case 4:
				doc[p] = `{}[],:"0.-enullt`[rnd.Intn(16)]
			}
		}
		r.Case(string(doc))
		a, b := target(v, rnd), target(v, rnd)
		before := proto.MarshalTextString(a)
		var ea, eb error
		if !r.Safely("Unmarshal", func() { ea = m.Unmarshal(doc, a) }) || !r.Safely("Decode", func() { eb = m.NewDecoder(bytes.NewReader(doc)).Decode(b) }) {
			continue
		}
		// Only the decoder may leave something unread behind the document.
		single := json.Valid(doc)
		if single && (ea != nil) != (eb != nil) {
			r.Violate("decoders-disagree", "Unmarshal: %v, Decode: %v\n%s", ea, eb, doc)
		}
		if !single && ea == nil {
			r.Violate("accepted:invalid JSON", "Unmarshal took %s", doc)
		}
		if ea != nil && proto.MarshalTextString(a) != before {
			r.Violate("target-touched", "Unmarshal failed with %v but changed its target\n%s", ea, doc)
		}
		if ea == nil && eb == nil {
			accepted++
			if proto.MarshalTextString(a) != proto.MarshalTextString(b) {
				r.Violate("decoders-disagree", "Unmarshal: %v\nDecode: %v\n%s", a, b, doc)
			}
		}
		r.Eval(string(doc), true)
	}
	r.Count("fuzzed_accepted", accepted)
}

// concurrent shares one marshaler.
func concurrent(r *vk.R) {
	m := newMarshaler()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < r.Scale(300, 6000); i++ {
				rnd := r.Rand(fmt.Sprint("c", w), i)
				v := pq.Gen(rnd, nil)
				a, b, ea, eb, ok := both(r, m, v)
				if !ok || ea != nil || eb != nil || !bytes.Equal(a, b) {
					r.Violate("concurrent", "%s (%v), %s (%v)", a, ea, b, eb)
					return
				}
				got, e := pq.ReadDoc(a)
				if d := pq.Differs(got, pq.Flatten(v)); e != "" || d != "" {
					r.Violate("concurrent", "%s %s\n%s", e, d, a)
				}
				t := target(v, rnd)
				if err := m.Unmarshal(a, t); err != nil {
					r.Violate("concurrent", "%v\n%s", err, a)
				} else if d := pq.Differs(pq.Flatten(t), pq.Flatten(v)); d != "" {
					r.Violate("concurrent", "%s\n%s", d, a)
				}
				r.Count("concurrent", 1)
				r.Eval(fmt.Sprint("c", w, i), true)
			}
		}(w)
	}
	wg.Wait()
}
