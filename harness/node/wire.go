package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"code.cloudfoundry.org/log-cache/verif/env"
	"google.golang.org/grpc"
)

// raw is a gRPC codec that sends and receives bytes as they are.
type raw struct{}

func (raw) Marshal(v interface{}) ([]byte, error) { return v.([]byte), nil }
func (raw) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte(nil), b...)
	return nil
}
func (raw) Name() string   { return "proto" }
func (raw) String() string { return "proto" }

var _ grpc.Codec = raw{}

// A schema of the requests, for generating wire forms that Go values cannot
// express.
type field struct {
	num  int
	kind string // varint, f64, bytes, str, time, query, expr, src, msg
	msg  string
	rep  bool
}

var schema = map[string][]field{
	"SendRequest": {{1, "msg", "Batch", false}, {2, "varint", "", false}},
	"Batch":       {{1, "msg", "Envelope", true}},
	"Envelope": {
		{1, "time", "", false}, {2, "src", "", false}, {8, "str", "", false}, {3, "msg", "ValueEntry", true}, {9, "msg", "TagEntry", true},
		{4, "msg", "Log", false}, {5, "msg", "Counter", false}, {6, "msg", "Gauge", false}, {7, "msg", "Timer", false}, {10, "msg", "Event", false},
	},
	"ValueEntry":   {{1, "str", "", false}, {2, "msg", "Value", false}},
	"TagEntry":     {{1, "str", "", false}, {2, "str", "", false}},
	"Value":        {{1, "str", "", false}, {2, "varint", "", false}, {3, "f64", "", false}},
	"Log":          {{1, "bytes", "", false}, {2, "varint", "", false}},
	"Counter":      {{1, "str", "", false}, {2, "varint", "", false}, {3, "varint", "", false}},
	"Gauge":        {{1, "msg", "GaugeEntry", true}},
	"GaugeEntry":   {{1, "str", "", false}, {2, "msg", "GaugeValue", false}},
	"GaugeValue":   {{1, "str", "", false}, {2, "f64", "", false}},
	"Timer":        {{1, "str", "", false}, {2, "time", "", false}, {3, "time", "", false}},
	"Event":        {{1, "str", "", false}, {2, "str", "", false}},
	"ReadRequest":  {{1, "src", "", false}, {2, "time", "", false}, {3, "time", "", false}, {4, "limit", "", false}, {5, "varint", "", true}, {6, "varint", "", false}, {7, "expr", "", false}},
	"MetaRequest":  {{1, "varint", "", false}},
	"Range":        {{1, "varint", "", false}, {2, "varint", "", false}},
	"RangeRequest": {{1, "msg", "Range", false}},
	"Ranges":       {{1, "msg", "Range", true}},
	"RangesEntry":  {{1, "addr", "", false}, {2, "msg", "Ranges", false}},
	"SetRanges":    {{1, "msg", "RangesEntry", true}},
	"Empty":        {},
	"Instant":      {{1, "query", "", false}, {2, "qtime", "", false}},
	"RangeQuery":   {{1, "query", "", false}, {2, "qtime", "", false}, {3, "qtime", "", false}, {4, "qstep", "", false}},
}

type method struct{ path, req string }

var methods = []method{
	{"/logcache.v1.Ingress/Send", "SendRequest"},
	{"/logcache.v1.Egress/Read", "ReadRequest"},
	{"/logcache.v1.Egress/Meta", "MetaRequest"},
	{"/logcache.v1.PromQLQuerier/InstantQuery", "Instant"},
	{"/logcache.v1.PromQLQuerier/RangeQuery", "RangeQuery"},
	{"/logcache.v1.Orchestration/AddRange", "RangeRequest"},
	{"/logcache.v1.Orchestration/RemoveRange", "RangeRequest"},
	{"/logcache.v1.Orchestration/ListRanges", "Empty"},
	{"/logcache.v1.Orchestration/SetRanges", "SetRanges"},
}

// wire generates requests.
type wire struct {
	rnd   *rand.Rand
	now   int64
	srcs  []string
	addrs []string
	// damage is how often, in 1/1000, a part of the encoding is damaged in a
	// way that may make it no message at all.
	damage int
	nested int
}

func (w *wire) uvarint(b []byte, v uint64) []byte {
	var t [binary.MaxVarintLen64]byte
	return append(b, t[:binary.PutUvarint(t[:], v)]...)
}

func (w *wire) bytes(b []byte, num int, v []byte) []byte {
	b = w.uvarint(b, uint64(num)<<3|2)
	n := uint64(len(v))
	if w.rnd.Intn(1000) < w.damage {
		n += uint64(w.rnd.Intn(5))
	}
	return append(w.uvarint(b, n), v...)
}

func (w *wire) message(name string) []byte {
	rnd := w.rnd
	w.nested++
	defer func() { w.nested-- }()
	var b []byte
	if name == "RangeQuery" && rnd.Intn(3) > 0 {
		a := w.now/1e9 - int64(rnd.Intn(2000))
		b = w.bytes(b, 1, []byte(w.query()))
		b = w.bytes(b, 2, []byte(fmt.Sprint(a)))
		b = w.bytes(b, 3, []byte(fmt.Sprint(a+int64(rnd.Intn(2000)))))
		return w.bytes(b, 4, []byte(pick(rnd, "1", "15s", "1m", "7.5", "100y")))
	}
	if name == "Instant" && rnd.Intn(3) > 0 {
		b = w.bytes(b, 1, []byte(w.query()))
		return w.bytes(b, 2, []byte(pick(rnd, "", fmt.Sprint(w.now/1e9))))
	}
	fs := schema[name]
	for _, i := range rnd.Perm(len(fs)) {
		f := fs[i]
		n := 1
		switch {
		case rnd.Intn(6) == 0:
			n = 0
		case f.rep:
			n = rnd.Intn(5)
		case name == "Envelope" && f.kind == "msg" && rnd.Intn(3) > 0:
			n = 0
		case rnd.Intn(30) == 0:
			n = 2 // the last one counts
		}
		for ; n > 0; n-- {
			b = w.field(b, f)
		}
	}
	if rnd.Intn(20) == 0 { // an unknown field
		b = w.bytes(b, 100+rnd.Intn(1000), []byte("unknown"))
	}
	if len(b) > 0 && rnd.Intn(1000) < w.damage {
		switch rnd.Intn(3) {
		case 0:
			b = b[:rnd.Intn(len(b))]
		case 1:
			b[rnd.Intn(len(b))] ^= 1 << uint(rnd.Intn(8))
		case 2:
			b = append(b, byte(rnd.Intn(256)))
		}
	}
	return b
}

func (w *wire) varint() uint64 {
	switch w.rnd.Intn(4) {
	case 0:
		return uint64(w.rnd.Intn(8))
	case 1:
		return []uint64{math.MaxUint64, math.MaxInt64, 1 << 63, math.MaxUint32, math.MaxInt32, 1 << 31}[w.rnd.Intn(6)]
	}
	return env.Uint(w.rnd)
}

func (w *wire) time() int64 {
	switch w.rnd.Intn(4) {
	case 0:
		return env.Int(w.rnd)
	case 1:
		return 0
	}
	return w.now - w.rnd.Int63n(600e9) + 60e9
}

func (w *wire) field(b []byte, f field) []byte {
	rnd := w.rnd
	str := func(s string) []byte { return w.bytes(b, f.num, []byte(s)) }
	num := func(v uint64) []byte { return w.uvarint(w.uvarint(b, uint64(f.num)<<3), v) }
	switch f.kind {
	case "varint":
		return num(w.varint())
	case "time":
		return num(uint64(w.time()))
	case "limit":
		return num(uint64([]int64{0, 1, 2, 100, 1000, 1001, -1, math.MaxInt64, math.MinInt64, int64(rnd.Intn(1200))}[rnd.Intn(10)]))
	case "f64":
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], math.Float64bits(env.Float(rnd)))
		return append(w.uvarint(b, uint64(f.num)<<3|1), t[:]...)
	case "bytes":
		p := make([]byte, rnd.Intn(60))
		rnd.Read(p)
		return w.bytes(b, f.num, p)
	case "str":
		if rnd.Intn(40) == 0 {
			return str("\xff\xfe")
		}
		return str(pick(rnd, "m", "n", "job", "__name__", "source_id", "a.b-c", env.Str(rnd)))
	case "src":
		return str(w.srcs[rnd.Intn(len(w.srcs))])
	case "addr":
		return str(w.addrs[rnd.Intn(len(w.addrs))])
	case "expr":
		if rnd.Intn(3) > 0 {
			return b
		}
		return str(pick(rnd, "m", ".*", "(", "[", "a{1001}", "(?P<x", `\`, "^$", strings.Repeat("(", 2000), strings.Repeat("a*", 500), "(((a{30}){30}){30}", "\xff"))
	case "query":
		return str(w.query())
	case "qtime":
		return str(w.qtime())
	case "qstep":
		return str(pick(rnd, "1", "15s", "1m", "0", "-1", "1e-9", "1e300", "NaN", "Inf", "x", "", "9223372036854775807", "100y"))
	case "msg":
		return w.bytes(b, f.num, w.message(f.msg))
	}
	panic(f.kind)
}

func (w *wire) qtime() string {
	switch w.rnd.Intn(5) {
	case 0:
		return pick(w.rnd, "", "0", "-1", "NaN", "Inf", "1e30", "-1e30", "x", "9223372036854775807", "9223372036854775807.5", "2006-01-02T15:04:05Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", "1e-320")
	case 1:
		return fmt.Sprint(env.Float(w.rnd))
	}
	return fmt.Sprintf("%.3f", float64(w.time())/1e9)
}

// query is a PromQL query, more or less.
func (w *wire) query() string {
	rnd := w.rnd
	sel := func() string {
		s := w.srcs[rnd.Intn(len(w.srcs))]
		return fmt.Sprintf("%s{source_id%s%q}", pick(rnd, "m", "n", "a_b_c", ""), pick(rnd, "=", "=", "=", "=~", "!=", "!~"), pick(rnd, s, s, s+"|x", "", ".*", "(", "|", "a|"+s))
	}
	switch rnd.Intn(14) {
	case 0:
		return pick(rnd, "", " ", "m", "{}", "1", "time()", `"x"`, "m{", ")", "sum(", "m[5m", "#", "m{source_id=}", "\x00", "🙂", "1/0", "vector(1)", `m{source_id=~"["}`, "m{a=\"b\"}")
	case 1:
		n := []int{10, 100, 800}[rnd.Intn(3)]
		if rnd.Intn(20) == 0 {
			n = 2000000
		}
		return strings.Repeat(pick(rnd, "(", "-", "sum(", "abs("), n) + sel() + strings.Repeat(")", rnd.Intn(2)*n)
	case 2:
		return sel() + strings.Repeat(pick(rnd, "+1", "*"+sel(), " or "+sel()), rnd.Intn(60))
	case 3:
		return sel() + pick(rnd, "[1s]", "[5m]", "[100y]", "[9999999999y]", "[0s]", "[5m] offset 100y", " offset 1h", " offset -1h", "[5m:1m]")
	case 4:
		return pick(rnd, "rate", "increase", "quantile_over_time", "holt_winters", "predict_linear", "deriv", "absent", "no_such") + "(" + pick(rnd, "", "0.5,", "1e300,") + sel() + pick(rnd, "[5m]", "", "[5m],0.1,0.1", "[5m],1e300") + ")"
	case 5:
		return pick(rnd, "topk", "bottomk", "quantile", "count_values") + pick(rnd, " by (a)", "", " without (source_id)") + "(" + pick(rnd, "1", "0", "-1", "1e300", "NaN", `"x"`, `""`, `"\xff"`, "9223372036854775807") + "," + sel() + ")"
	case 6:
		return "label_replace(" + sel() + `,"` + pick(rnd, "x", "", "source_id", "__name__", "1") + `","` + pick(rnd, "$1", "$x", "${1", "") + `","source_id","` + pick(rnd, "(.*)", "(", "", "x{1001}") + `")`
	case 7:
		return "label_join(" + sel() + `,"` + pick(rnd, "x", "", "1") + `","-","source_id","")`
	case 8:
		return sel() + pick(rnd, " + on(source_id) group_left(x) ", " and ", " unless ", " == bool ", " + on() ", " ^ ", " / ignoring(x) group_right() ") + sel()
	case 9:
		return pick(rnd, "histogram_quantile(0.9,", "day_of_month(", "days_in_month(", "timestamp(", "scalar(", "minute(", "sort_desc(", "round(", "clamp_max(") + sel() + pick(rnd, ")", ",0)", ",NaN)")
	}
	return sel()
}

func pick(rnd *rand.Rand, l ...string) string { return l[rnd.Intn(len(l))] }
