// Package env generates envelopes and says what they look like in JSON.
package env

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

var strs = []string{"", "a", "some-id", "ü/日本", `q"uo\te`, "</script>&", "\n\t", " spaced ", "😀", "x:y", "a,b=c"}

// Str is a string that needs care.
func Str(r *rand.Rand) string { return strs[r.Intn(len(strs))] }

// Int is an int64, extremes included.
func Int(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, -1, 1, 1 << 53, 1<<53 + 1}[r.Intn(6)]
	case 2:
		return int64(r.Uint64())
	}
	return r.Int63n(2e18)
}

// Uint is a uint64, extremes included.
func Uint(r *rand.Rand) uint64 { return uint64(Int(r)) }

// Float is a float64, extremes included.
func Float(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return []float64{0, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, -1.5, 1e21, 9007199254740993}[r.Intn(9)]
	case 1:
		return float64(r.Intn(100))
	}
	return r.NormFloat64() * 1000
}

func tags(r *rand.Rand) map[string]string {
	if r.Intn(3) == 0 {
		return nil
	}
	m := map[string]string{}
	for n := r.Intn(4); n > 0; n-- {
		m["k"+Str(r)] = Str(r)
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

// Kinds of payload.
const (
	Log = iota
	Counter
	Gauge
	Timer
	Event
	None
)

// Of makes an envelope of a kind with every field filled at random.
func Of(r *rand.Rand, kind int) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{Timestamp: Int(r), SourceId: Str(r), InstanceId: Str(r), Tags: tags(r)}
	if r.Intn(4) == 0 {
		e.DeprecatedTags = map[string]*loggregator_v2.Value{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			v := &loggregator_v2.Value{}
			switch r.Intn(3) {
			case 0:
				v.Data = &loggregator_v2.Value_Text{Text: Str(r)}
			case 1:
				v.Data = &loggregator_v2.Value_Integer{Integer: Int(r)}
			default:
				v.Data = &loggregator_v2.Value_Decimal{Decimal: Float(r)}
			}
			e.DeprecatedTags["d"+Str(r)] = v
		}
	}
	switch kind {
	case Log:
		var p []byte
		if n := r.Intn(30); n > 0 {
			p = make([]byte, n)
			r.Read(p)
		}
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: p, Type: loggregator_v2.Log_Type(r.Intn(2))}}
	case Counter:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: Str(r), Delta: Uint(r), Total: Uint(r)}}
	case Gauge:
		g := &loggregator_v2.Gauge{}
		for n := r.Intn(4); n > 0; n-- {
			if g.Metrics == nil {
				g.Metrics = map[string]*loggregator_v2.GaugeValue{}
			}
			g.Metrics["g"+Str(r)] = &loggregator_v2.GaugeValue{Unit: Str(r), Value: Float(r)}
		}
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: g}
	case Timer:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: Str(r), Start: Int(r), Stop: Int(r)}}
	case Event:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: Str(r), Body: Str(r)}}
	}
	return e
}

// Any makes an envelope of any kind.
func Any(r *rand.Rand) *loggregator_v2.Envelope { return Of(r, r.Intn(6)) }

type obj = map[string]interface{}

func i64(v int64) string  { return strconv.FormatInt(v, 10) }
func u64(v uint64) string { return strconv.FormatUint(v, 10) }

func flt(v float64) interface{} {
	switch {
	case math.IsNaN(v):
		return "NaN"
	case math.IsInf(v, 1):
		return "Infinity"
	case math.IsInf(v, -1):
		return "-Infinity"
	}
	return v
}

// JSON is the protobuf JSON form (original names, defaults written) of an
// envelope; members that are null are left out.
func JSON(e *loggregator_v2.Envelope) obj {
	o := obj{"timestamp": i64(e.Timestamp), "source_id": e.SourceId, "instance_id": e.InstanceId}
	t := obj{}
	for k, v := range e.Tags {
		t[k] = v
	}
	o["tags"] = t
	d := obj{}
	for k, v := range e.DeprecatedTags {
		switch x := v.Data.(type) {
		case *loggregator_v2.Value_Text:
			d[k] = obj{"text": x.Text}
		case *loggregator_v2.Value_Integer:
			d[k] = obj{"integer": i64(x.Integer)}
		case *loggregator_v2.Value_Decimal:
			d[k] = obj{"decimal": flt(x.Decimal)}
		}
	}
	o["deprecated_tags"] = d
	switch m := e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		l := obj{"payload": nil, "type": m.Log.Type.String()}
		if len(m.Log.Payload) > 0 {
			l["payload"] = base64.StdEncoding.EncodeToString(m.Log.Payload)
		}
		o["log"] = l
	case *loggregator_v2.Envelope_Counter:
		o["counter"] = obj{"name": m.Counter.Name, "delta": u64(m.Counter.Delta), "total": u64(m.Counter.Total)}
	case *loggregator_v2.Envelope_Gauge:
		g := obj{}
		for k, v := range m.Gauge.Metrics {
			g[k] = obj{"unit": v.Unit, "value": flt(v.Value)}
		}
		o["gauge"] = obj{"metrics": g}
	case *loggregator_v2.Envelope_Timer:
		o["timer"] = obj{"name": m.Timer.Name, "start": i64(m.Timer.Start), "stop": i64(m.Timer.Stop)}
	case *loggregator_v2.Envelope_Event:
		o["event"] = obj{"title": m.Event.Title, "body": m.Event.Body}
	}
	return o
}

// ReadJSON is the JSON form of a read response.
func ReadJSON(m *logcache_v1.ReadResponse) obj {
	if m.Envelopes == nil {
		return obj{}
	}
	l := []interface{}{}
	for _, e := range m.Envelopes.Batch {
		l = append(l, JSON(e))
	}
	return obj{"envelopes": obj{"batch": l}}
}

// MetaJSON is the JSON form of a meta response.
func MetaJSON(m *logcache_v1.MetaResponse) obj {
	o := obj{}
	for k, v := range m.Meta {
		o[k] = obj{"count": i64(v.Count), "expired": i64(v.Expired), "oldest_timestamp": i64(v.OldestTimestamp), "newest_timestamp": i64(v.NewestTimestamp)}
	}
	return obj{"meta": o}
}

// SameJSON compares a document with what it should hold. Members that are null
// are the same as absent ones.
func SameJSON(doc []byte, want obj) string {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var got interface{}
	if err := d.Decode(&got); err != nil {
		return "invalid JSON: " + err.Error()
	}
	if d.More() {
		return "more than one document"
	}
	return same("", got, want)
}

func same(at string, got, want interface{}) string {
	switch w := want.(type) {
	case nil:
		if got != nil && got != "" {
			return fmt.Sprintf("%s is %v, not empty", at, got)
		}
	case obj:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s is %v, not an object", at, got)
		}
		for k, v := range w {
			x, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s lacks %q", at, k)
			}
			if s := same(at+"."+k, x, v); s != "" {
				return s
			}
		}
		for k, v := range g {
			if _, ok := w[k]; !ok && v != nil {
				return fmt.Sprintf("%s has an unexpected %q: %v", at, k, v)
			}
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s is %v, not an array", at, got)
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d elements, want %d", at, len(g), len(w))
		}
		for i := range w {
			if s := same(fmt.Sprintf("%s[%d]", at, i), g[i], w[i]); s != "" {
				return s
			}
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("%s is %#v, want %q", at, got, w)
		}
	case float64:
		n, ok := got.(json.Number)
		if !ok {
			return fmt.Sprintf("%s is %#v, want %v", at, got, w)
		}
		f, err := strconv.ParseFloat(string(n), 64)
		if err != nil || f != w {
			return fmt.Sprintf("%s is %v, want %v", at, got, w)
		}
	}
	return ""
}
