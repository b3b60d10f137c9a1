// Package pq generates PromQL results and reads their JSON form with a reader
// of its own.
package pq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"unicode/utf8"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
)

var Values = []float64{0, math.Copysign(0, -1), 1, -1, .1, 1.0 / 3, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e21, 1e-7, 123456789.123456789, 9007199254740993, 1e15, 4.35, 100}

func GenValue(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0, 1:
		return Values[r.Intn(len(Values))]
	case 2:
		return math.Float64frombits(r.Uint64())
	}
	return r.NormFloat64() * math.Pow(10, float64(r.Intn(20)-10))
}

var BadTimes = []string{"", "abc", "1h", "12.5.1", "NaN", "Inf", "-inf", "2018-02-07T16:00:00Z", "1,5", "1e999"}

func GenTime(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return strconv.Itoa(r.Intn(2e9))
	case 1:
		return "0"
	case 2:
		return fmt.Sprintf("-%d.%03d", r.Intn(1e9), r.Intn(1000))
	case 3:
		return fmt.Sprintf("%d.%09d", r.Intn(2e9), r.Intn(1e9))
	case 4:
		return []string{"1e3", "1.5e9", "0.0005", "0.0015", "-0", "253402300799.999", "9223372036.854775807", "1e15", ".5", "5."}[r.Intn(10)]
	case 5:
		return strconv.FormatFloat(r.Float64()*4e9, 'f', -1, 64)
	}
	return fmt.Sprintf("%d.%03d", 1500000000+r.Intn(3e8), r.Intn(1000))
}

func GenLabels(r *rand.Rand) map[string]string {
	n := r.Intn(5) - 1
	if n < 0 {
		return nil
	}
	m := map[string]string{}
	pool := []string{"", "a", "source_id", "x y", `q"uo\te`, "ü", "日本語", "</script>&", "\n\t\x00", "\u2028", "😀", "value", "metric", "null", "__name__"}
	for ; n > 0; n-- {
		m[pool[r.Intn(len(pool))]] = pool[r.Intn(len(pool))]
	}
	return m
}

func GenPoint(r *rand.Rand, bad *bool) *logcache_v1.PromQL_Point {
	t := GenTime(r)
	if bad != nil && r.Intn(100) == 0 {
		*bad = true
		t = BadTimes[r.Intn(len(BadTimes))]
	}
	return &logcache_v1.PromQL_Point{Time: t, Value: GenValue(r)}
}

func GenSeries(r *rand.Rand, bad *bool) *logcache_v1.PromQL_Matrix {
	m := &logcache_v1.PromQL_Matrix{}
	for n := r.Intn(6) - 1; n > 0; n-- {
		s := &logcache_v1.PromQL_Series{Metric: GenLabels(r)}
		for k := 1 + r.Intn(6); k > 0; k-- {
			s.Points = append(s.Points, GenPoint(r, bad))
		}
		m.Series = append(m.Series, s)
	}
	return m
}

// Gen makes a query result; bad says whether it holds a time no JSON number can
// say. A nil bad asks for a good one.
func Gen(r *rand.Rand, bad *bool) proto.Message {
	switch r.Intn(5) {
	case 0:
		p := GenPoint(r, bad)
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.Time, Value: p.Value}}}
	case 1, 2:
		v := &logcache_v1.PromQL_Vector{}
		for n := r.Intn(6) - 1; n > 0; n-- {
			v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: GenLabels(r), Point: GenPoint(r, bad)})
		}
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: v}}
	case 3:
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: GenSeries(r, bad)}}
	}
	return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: GenSeries(r, bad)}}
}

// Pt is a point in neutral form.
type Pt struct {
	T string
	V float64
}

type Ser struct {
	Labels map[string]string
	Pts    []Pt
}

// Flat is a result in neutral form.
type Flat struct {
	Kind   string
	Series []Ser
}

func Flatten(m proto.Message) Flat {
	matrix := func(x *logcache_v1.PromQL_Matrix) Flat {
		f := Flat{Kind: "matrix"}
		for _, s := range x.GetSeries() {
			n := Ser{Labels: s.GetMetric()}
			for _, p := range s.GetPoints() {
				n.Pts = append(n.Pts, Pt{p.GetTime(), p.GetValue()})
			}
			f.Series = append(f.Series, n)
		}
		return f
	}
	switch q := m.(type) {
	case *logcache_v1.PromQL_InstantQueryResult:
		switch q.GetResult().(type) {
		case *logcache_v1.PromQL_InstantQueryResult_Scalar:
			return Flat{"scalar", []Ser{{Pts: []Pt{{q.GetScalar().GetTime(), q.GetScalar().GetValue()}}}}}
		case *logcache_v1.PromQL_InstantQueryResult_Vector:
			f := Flat{Kind: "vector"}
			for _, s := range q.GetVector().GetSamples() {
				f.Series = append(f.Series, Ser{s.GetMetric(), []Pt{{s.GetPoint().GetTime(), s.GetPoint().GetValue()}}})
			}
			return f
		case *logcache_v1.PromQL_InstantQueryResult_Matrix:
			return matrix(q.GetMatrix())
		}
	case *logcache_v1.PromQL_RangeQueryResult:
		if _, ok := q.GetResult().(*logcache_v1.PromQL_RangeQueryResult_Matrix); ok {
			return matrix(q.GetMatrix())
		}
	}
	return Flat{}
}

// Points counts the points.
func (f Flat) Points() int {
	n := 0
	for _, s := range f.Series {
		n += len(s.Pts)
	}
	return n
}

// Key tells the case apart.
func (f Flat) Key() string { return fmt.Sprintf("%v", f) }

func SameFloat(a, b float64) bool {
	return math.IsNaN(a) && math.IsNaN(b) || math.Float64bits(a) == math.Float64bits(b)
}

// sameTime: the number says the time, rounded or cut to a whole millisecond.
func SameTime(number, orig string) bool {
	if f, err := strconv.ParseFloat(orig, 64); err == nil && number == strconv.FormatFloat(f, 'f', 3, 64) {
		return true
	}
	n, ok := new(big.Rat).SetString(number)
	if !ok {
		return false
	}
	f, err := strconv.ParseFloat(orig, 64)
	if err != nil {
		return false
	}
	o := new(big.Rat).SetFloat64(f)
	if o == nil {
		return false
	}
	d := new(big.Rat).Sub(n, o)
	d.Abs(d)
	if d.Cmp(big.NewRat(500001, 1e9)) > 0 {
		return false
	}
	ms := new(big.Rat).Mul(n, big.NewRat(1000, 1))
	return ms.IsInt()
}

func SameLabels(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// ReadDoc reads a document the way a client of the Prometheus API does.
func ReadDoc(b []byte) (Flat, string) {
	var top map[string]json.RawMessage
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&top); err != nil {
		return Flat{}, "invalid JSON: " + err.Error()
	}
	if !utf8.Valid(b) {
		return Flat{}, "invalid UTF-8"
	}
	if string(top["status"]) != `"success"` {
		return Flat{}, fmt.Sprintf("status %s", top["status"])
	}
	for k := range top {
		if k != "status" && k != "data" {
			return Flat{}, "unexpected member " + k
		}
	}
	var data map[string]json.RawMessage
	if err := json.Unmarshal(top["data"], &data); err != nil {
		return Flat{}, "data: " + err.Error()
	}
	var f Flat
	if err := json.Unmarshal(data["resultType"], &f.Kind); err != nil {
		return Flat{}, "resultType: " + err.Error()
	}
	point := func(raw json.RawMessage) (Pt, string) {
		var e []json.RawMessage
		if err := json.Unmarshal(raw, &e); err != nil || len(e) != 2 {
			return Pt{}, fmt.Sprintf("point %s", raw)
		}
		var n json.Number
		d := json.NewDecoder(bytes.NewReader(e[0]))
		d.UseNumber()
		if err := d.Decode(&n); err != nil || len(e[0]) == 0 || e[0][0] == '"' {
			return Pt{}, fmt.Sprintf("time %s is no number", e[0])
		}
		var s string
		if err := json.Unmarshal(e[1], &s); err != nil {
			return Pt{}, fmt.Sprintf("value %s is no string", e[1])
		}
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return Pt{}, fmt.Sprintf("value %q: %v", s, err)
		}
		return Pt{string(n), v}, ""
	}
	raw := bytes.TrimSpace(data["result"])
	if len(raw) == 0 || raw[0] != '[' {
		return f, fmt.Sprintf("result %s is no array", raw)
	}
	if f.Kind == "scalar" {
		p, e := point(raw)
		f.Series = []Ser{{Pts: []Pt{p}}}
		return f, e
	}
	var items []map[string]json.RawMessage
	if err := json.Unmarshal(raw, &items); err != nil {
		return f, "result: " + err.Error()
	}
	for _, it := range items {
		m := bytes.TrimSpace(it["metric"])
		if len(m) == 0 || m[0] != '{' {
			return f, fmt.Sprintf("metric %s is no object", m)
		}
		s := Ser{}
		if err := json.Unmarshal(m, &s.Labels); err != nil {
			return f, "metric: " + err.Error()
		}
		if f.Kind == "vector" {
			p, e := point(it["value"])
			if e != "" {
				return f, e
			}
			s.Pts = []Pt{p}
		} else {
			var ps []json.RawMessage
			if err := json.Unmarshal(it["values"], &ps); err != nil {
				return f, "values: " + err.Error()
			}
			for _, raw := range ps {
				p, e := point(raw)
				if e != "" {
					return f, e
				}
				s.Pts = append(s.Pts, p)
			}
		}
		f.Series = append(f.Series, s)
	}
	return f, ""
}

// Differs compares what was read with what was meant.
func Differs(got, want Flat) string {
	if got.Kind != want.Kind {
		return fmt.Sprintf("resultType %q, want %q", got.Kind, want.Kind)
	}
	if len(got.Series) != len(want.Series) {
		return fmt.Sprintf("%d entries, want %d", len(got.Series), len(want.Series))
	}
	for i := range got.Series {
		g, w := got.Series[i], want.Series[i]
		if !SameLabels(g.Labels, w.Labels) {
			return fmt.Sprintf("entry %d has labels %q, want %q", i, g.Labels, w.Labels)
		}
		if len(g.Pts) != len(w.Pts) {
			return fmt.Sprintf("entry %d has %d points, want %d", i, len(g.Pts), len(w.Pts))
		}
		for k := range g.Pts {
			if !SameFloat(g.Pts[k].V, w.Pts[k].V) {
				return fmt.Sprintf("entry %d point %d has value %v, want %v", i, k, g.Pts[k].V, w.Pts[k].V)
			}
			if !SameTime(g.Pts[k].T, w.Pts[k].T) {
				return fmt.Sprintf("entry %d point %d has time %s, want %s", i, k, g.Pts[k].T, w.Pts[k].T)
			}
		}
	}
	return ""
}
