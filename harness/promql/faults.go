package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/promql"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/prometheus/prometheus/pkg/labels"
	prom "github.com/prometheus/prometheus/promql"
)

const failMetric = "log_cache_promql_timeout"

// ---- C16

func failingReads(r *vk.R) {
	n := r.Scale(700, 20000)
	r.Bubble(func() {
		for c := 0; c < n; c++ {
			rnd := r.Rand("reads", c)
			w := genWorld(rnd)
			g := newGen(rnd)
			x := genQuery(rnd, w, g)
			mood := map[string]string{}
			wait := map[string]time.Duration{}
			for _, s := range sources {
				switch rnd.Intn(8) {
				case 0:
					mood[s] = "error"
				case 1:
					mood[s] = "partial"
				case 2:
					mood[s] = "hang"
				case 3, 4:
					mood[s] = "slow"
					wait[s] = time.Duration(rnd.Intn(4500)) * time.Millisecond
				}
			}
			if rnd.Intn(4) == 0 {
				for s, m := range mood {
					if m != "slow" {
						delete(mood, s)
					}
				}
			}
			var mu sync.Mutex
			failures := 0
			fail := func() {
				mu.Lock()
				failures++
				mu.Unlock()
			}
			rd := &reader{w: w}
			rd.hook = func(ctx context.Context, src string) (bool, error) {
				switch mood[src] {
				case "error", "partial":
					fail()
					return mood[src] == "partial", errors.New("no such luck")
				case "hang":
					fail()
					<-ctx.Done()
					return false, ctx.Err()
				case "slow":
					select {
					case <-time.After(wait[src]):
					case <-ctx.Done():
						fail()
						return false, ctx.Err()
					}
				}
				return false, nil
			}
			timeout := time.Duration(1+rnd.Intn(12)) * time.Second
			ql, m := newQL(rd, timeout)
			r.Case(map[string]interface{}{"case": c, "query": x, "mood": mood, "timeout": timeout.String()})
			ctx, cancel := context.WithCancel(context.Background())
			if rnd.Intn(10) == 0 {
				d := time.Duration(rnd.Intn(3000)) * time.Millisecond
				time.AfterFunc(d, cancel)
			}
			t0 := time.Now()
			var got *answer
			var err error
			ok := r.Safely("query", func() { got, err = ask(ql, ctx, x) })
			took := time.Since(t0)
			cancel()
			mu.Lock()
			failed := failures
			mu.Unlock()
			if !ok {
				continue
			}
			what := fmt.Sprintf("%+v, reads %v %v, timeout %v (case %d)", x, mood, wait, timeout, c)
			if odd := rd.oddity(); odd != "" {
				r.Violate("unbounded-read", "%s: %s", what, odd)
			}
			if took > timeout+time.Second {
				r.Violate("overrun", "%s took %v", what, took)
			}
			if failed > 0 && err == nil {
				r.Violate("failure-hidden", "%s: %d read(s) failed, the answer has %d series and no error", what, failed, len(got.keys))
			}
			if failed > 0 && m.get(failMetric) < 1 {
				r.Violate("failure-not-counted", "%s: %d read(s) failed, the counter is at %v", what, failed, m.get(failMetric))
			}
			if failed == 0 && err == nil {
				want, werr, same := reference(rnd, w, x)
				if same && werr == nil {
					if d := diff(got, want); d != "" {
						r.Violate("result", "%s: %s", what, d)
					}
				}
				r.Count("answered", 1)
			}
			if err != nil {
				r.Count("errors", 1)
			}
			r.Count("failed_reads", failed)
			r.Eval(fmt.Sprintf("%d/%d/%v", c, failed, err == nil), failed > 0)
			if c%150 == 0 {
				r.Sample(map[string]interface{}{"query": x.Text, "reads": mood, "error": fmt.Sprint(err)})
			}
		}
		r.Finish()
	})
}

var syntax = regexp.MustCompile(`[()\[\]{}*+?^$\\]`)

// judge says what must become of a text: "error", "answer" or "" when only
// survival is asked.
func judge(text string) string {
	expr, err := prom.ParseExpr(text)
	if err != nil {
		return "error"
	}
	out := "answer"
	see := func(ms []*labels.Matcher) {
		src, name := false, false
		for _, m := range ms {
			switch {
			case m.Name == "source_id" && m.Type == labels.MatchEqual:
				src = true
			case m.Name == "source_id" && m.Type == labels.MatchRegexp:
				src = true
				if syntax.MatchString(m.Value) && out != "error" {
					out = ""
				}
			case m.Name == "__name__" && m.Type == labels.MatchEqual && !name:
				name = true
			case m.Name == "__name__":
				if out != "error" {
					out = ""
				}
			}
		}
		if !src || !name {
			out = "error"
		}
	}
	prom.Inspect(expr, func(n prom.Node, _ []prom.Node) error {
		switch s := n.(type) {
		case *prom.VectorSelector:
			see(s.LabelMatchers)
		case *prom.MatrixSelector:
			see(s.LabelMatchers)
		}
		return nil
	})
	return out
}

var bits = []string{"(", ")", "{", "}", "[", "]", "[5m]", `"`, "'", "`", ",", "=", "=~", "!=", "!~", "-", "+", "^", " by ", " on ", " bool ", " offset 5m", "sum", "rate(", "0x", "NaN", "Inf", "1e400", "__name__", "source_id", `"|"`, `"(("`, "#", "\n", "\x00", "é", "\xff", ":", "source_id=~", "foo", "[1000y]", " offset 900y", " group_left() "}

func mutate(rnd *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + rnd.Intn(3); n > 0; n-- {
		i, j := rnd.Intn(len(b)+1), rnd.Intn(len(b)+1)
		if i > j {
			i, j = j, i
		}
		switch rnd.Intn(5) {
		case 0:
			if j-i > 6 {
				j = i + rnd.Intn(6)
			}
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 1:
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 2, 3:
			b = append(append(append([]byte{}, b[:i]...), bits[rnd.Intn(len(bits))]...), b[i:]...)
		case 4:
			if len(b) > 0 {
				b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
			}
		}
		if len(b) > 4000 {
			b = b[:4000]
		}
	}
	return string(b)
}

func texts(r *vk.R) {
	// Texts whose nesting is deep: they must not take the process down.
	for _, n := range []int{300, 2000, 1300000} {
		for name, text := range map[string]string{
			"parentheses": strings.Repeat("(", n) + "1" + strings.Repeat(")", n),
			"unary":       strings.Repeat("-", 3*n) + "1",
			"power":       strings.Repeat("1^", n) + "1",
			"sum":         strings.Repeat("1+", n) + "1",
			"call":        strings.Repeat("abs(", n/2) + "vector(1)" + strings.Repeat(")", n/2),
			"open":        strings.Repeat("sum(", n/2),
			"braces":      strings.Repeat("{", n),
			"brackets":    strings.Repeat("[", n),
		} {
			r.Case(map[string]interface{}{"nesting": name, "depth": n})
			rd := &reader{w: &world{}}
			ql, _ := newQL(rd, 20*time.Second)
			r.Safely("deep "+name, func() {
				res, err := ql.InstantQuery(context.Background(), &rpc.PromQL_InstantQueryRequest{Query: text, Time: "1"})
				if n == 300 && name != "open" && name != "braces" && name != "brackets" {
					if err != nil || res.GetResult() == nil {
						r.Violate("deep-refused", "300 levels of %s are refused: %v", name, err)
					}
				}
			})
			r.Safely("deep range "+name, func() {
				ql.RangeQuery(context.Background(), &rpc.PromQL_RangeQueryRequest{Query: text, Start: "1", End: "2", Step: "1"})
			})
			r.Safely("deep extract "+name, func() { promql.ExtractSourceIds(text) })
			r.Safely("deep replace "+name, func() { promql.ReplaceSourceIdSets(text, map[string][]string{"a": {"b"}}) })
			r.Count("deep", 1)
			r.Eval(fmt.Sprintf("deep/%s/%d", name, n), true)
		}
	}
	n := r.Scale(6000, 200000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("texts", c)
		w := genWorld(r.Rand("textworld", c/200))
		g := newGen(rnd)
		x := genQuery(rnd, w, g)
		switch rnd.Intn(12) {
		case 0:
			x.Text = pick(rnd, `"text"`, `'x'`, "", " ", "#", "{}", `{source_id="x"}`, "cpu", `cpu{job="a"}`, `cpu{source_id!="x"}`, `cpu{source_id!~"x"}`, `sum(cpu) + sum(cpu{source_id="x"})`,
				`cpu{source_id="x"} + http_total`, `rate(cpu[5m])`, `{__name__=~"cpu|_x",source_id="x"}`, `count_values("a", cpu{source_id="x"})`, `vector(1) + on() group_left() vector(2)`, `label_join(cpu{source_id="x"}, "", ",", "job")`,
				`label_replace(cpu{source_id="x"}, "0", "", "job", "(")`, `holt_winters(cpu{source_id="x"}[5m], 2, 2)`, `histogram_quantile(0.9, cpu{source_id="x"})`, `quantile(NaN, cpu{source_id="x"})`, `topk(NaN, cpu{source_id="x"})`, `topk(1e300, cpu{source_id="x"})`, `topk(-1, cpu{source_id="x"})`, `round(cpu{source_id="x"}, 0)`, `cpu{source_id="x"}[1000y]`, `cpu{source_id="x"} offset 1000y`, `day_of_month(vector(1e300))`, `predict_linear(cpu{source_id="x"}[5m], 1e300)`)
		case 1, 2:
		default:
			x.Text = mutate(rnd, x.Text)
		}
		if x.Range && rnd.Intn(6) == 0 {
			x.Step = []int64{0, 1}[rnd.Intn(2)]
			if x.Step == 1 {
				x.End = x.Start + int64(rnd.Intn(3000))
			}
		}
		r.Case(map[string]interface{}{"case": c, "query": x})
		verdict := judge(x.Text)
		if x.Range && x.Step == 0 {
			verdict = "error"
		}
		rd := &reader{w: w}
		ql, _ := newQL(rd, 30*time.Second)
		var got *answer
		var err error
		if !r.Safely("query", func() { got, err = ask(ql, context.Background(), x) }) {
			continue
		}
		what := fmt.Sprintf("%+v (case %d)", x, c)
		switch verdict {
		case "error":
			if err == nil {
				r.Violate("answered", "%s is answered with %d series, no error", what, len(got.keys))
			}
		case "answer":
			want, werr, same := reference(rnd, w, x)
			if !same {
				break
			}
			if (err == nil) != (werr == nil) {
				r.Violate("result:error", "%s: error is %v, Prometheus says %v", what, err, werr)
			} else if err == nil {
				if d := diff(got, want); d != "" {
					r.Violate("result", "%s: %s", what, d)
				}
			}
		}
		r.Count("text_"+verdict, 1)
		r.Eval(fmt.Sprint(c, x.Text), verdict == "error")
		if c%1000 == 0 {
			r.Sample(map[string]interface{}{"query": x, "verdict": verdict, "error": fmt.Sprint(err)})
		}
	}
}

// ---- times and steps

var decimal = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// decimalMs is the value of decimal seconds in ms; ok is false for other texts.
func decimalMs(s string) (*big.Float, bool) {
	if !decimal.MatchString(s) {
		return nil, false
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 400 || e < -400 {
			return nil, false
		}
	}
	f, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven)
	if err != nil {
		return nil, false
	}
	return f.Mul(f, big.NewFloat(1000)), true
}

var rfc = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)$`)

var oddTimes = []string{"", " ", "abc", "1h", "12.5.1", "NaN", "nan", "Inf", "+Inf", "-inf", "infinity", "1e30", "-1e30", "1e999", "1e400", "9223372036.9", "-9223372037", "1,5", "1 ", " 1", "--1", "0x1p3", "1_000",
	"2015-07-01T20:10:30.781", "2015-07-01", "2015-13-01T00:00:00Z", "2015-02-30T00:00:00Z", "2015-07-01 20:10:30Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", "1500000000\x00", "٣", "253402300799", "1e15"}

func genTime(rnd *rand.Rand) string {
	switch rnd.Intn(10) {
	case 0, 1:
		return oddTimes[rnd.Intn(len(oddTimes))]
	case 2:
		return fmt.Sprint(rnd.Intn(2e9))
	case 3, 4:
		return fmt.Sprintf("%d.%03d", rnd.Intn(2e9), rnd.Intn(1000))
	case 5:
		return fmt.Sprintf("%d.%d", rnd.Intn(2e9), rnd.Intn(1e9))
	case 6:
		return fmt.Sprintf("-%d.%03d", rnd.Intn(1e9), rnd.Intn(1000))
	case 7:
		return fmt.Sprintf("%de%d", rnd.Intn(20)+1, rnd.Intn(9))
	}
	t := time.Unix(rnd.Int63n(4e9)-1e9, int64(rnd.Intn(1000))*1e6).In(time.FixedZone("", (rnd.Intn(53)-26)*1800))
	return t.Format(pick(rnd, time.RFC3339, time.RFC3339Nano))
}

// timeMs is what a time text means, in ms: "ms" with a value, "error" when it
// means nothing, "" when nothing is claimed.
func timeMs(s string) (string, float64) {
	if f, ok := decimalMs(s); ok {
		v, _ := f.Float64()
		if math.Abs(v) > 9.2e12 {
			return "far", v
		}
		return "ms", v
	}
	if m := rfc.FindStringSubmatch(s); m != nil {
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return "error", 0
		}
		v := float64(t.Unix())*1000 + float64(t.Nanosecond())/1e6
		if math.Abs(v) > 9.2e12 {
			return "far", v
		}
		return "ms", v
	}
	if strings.ContainsAny(s, "xX_") {
		return "", 0
	}
	return "error", 0
}

var units = map[string]float64{"ms": 1, "s": 1e3, "m": 6e4, "h": 36e5, "d": 864e5, "w": 6048e5, "y": 31536e6}

var oddSteps = []string{"", "abc", "0", "-1", "-0.5", "NaN", "Inf", "-Inf", "1e30", "0s", "0.0000001", "-1s", "1.5s", "4q", "1m30s", "9223372036854775807y", "99999999999999999999y", "1e400", "1M", "1 s", "99999999999d", "300y", "0m"}

func genStep(rnd *rand.Rand) (string, string, float64) {
	switch rnd.Intn(5) {
	case 0, 1:
		s := oddSteps[rnd.Intn(len(oddSteps))]
		if s == "300y" {
			return s, "far", 0
		}
		return s, "error", 0
	case 2:
		u := pick(rnd, "ms", "s", "m", "h", "d", "w", "y")
		k := 1 + rnd.Intn(40)
		return fmt.Sprint(k, u), "ms", float64(k) * units[u]
	case 3:
		k := 1 + rnd.Intn(100000)
		return fmt.Sprintf("%d.%03d", k/1000, k%1000), "ms", float64(k)
	}
	k := 1 + rnd.Intn(5000)
	return fmt.Sprint(k), "ms", float64(k) * 1000
}

func params(r *vk.R) {
	n := r.Scale(8000, 200000)
	rd := &reader{w: &world{}}
	ql, _ := newQL(rd, 20*time.Second)
	for c := 0; c < n; c++ {
		rnd := r.Rand("params", c)
		ts := genTime(rnd)
		what, v := timeMs(ts)
		r.Case(map[string]interface{}{"case": c, "time": ts})
		if ts != "" { // an empty time is now
			var res *rpc.PromQL_InstantQueryResult
			var err error
			text, scale := "1", 0.0
			if rnd.Intn(2) == 0 {
				text, scale = "time()", 1
			}
			if rnd.Intn(5) == 0 {
				text = pick(rnd, `cpu{source_id="x"}`, `cpu{source_id="x"}[300y]`, `cpu{source_id="x"}[5m] offset 250y`)
			}
			if !r.Safely("instant", func() {
				res, err = ql.InstantQuery(context.Background(), &rpc.PromQL_InstantQueryRequest{Query: text, Time: ts})
			}) {
				continue
			}
			sc := res.GetScalar()
			switch {
			case what == "error" && err == nil:
				r.Violate("time-accepted", "time %q is answered: %v", ts, res)
			case what == "ms" && (err != nil && !strings.HasPrefix(text, "cpu")):
				r.Violate("time-refused", "time %q is refused: %v", ts, err)
			case (what == "ms" || what == "far") && err == nil && sc != nil:
				got := float64(parseMs(sc.GetTime()))
				// a float64 holds about 16 digits
				if math.Abs(got-v) > 1.01 {
					r.Violate("time-wrong", "time %q is understood as %s", ts, sc.GetTime())
				}
				if scale > 0 && math.Abs(sc.GetValue()*1000-v) > 1.01 {
					r.Violate("time-wrong", "time() at %q is %v", ts, sc.GetValue())
				}
				// whole milliseconds that a float64 holds exactly stay so
				if v == math.Trunc(v) && math.Mod(v, 125) == 0 && got != v {
					r.Violate("time-inexact", "time %q is understood as %s", ts, sc.GetTime())
				}
			}
			r.Eval(fmt.Sprint("t", c, ts), what == "error")
			r.Count("time_"+what, 1)
		}

		// a range
		start := int64(rnd.Intn(2e9)) * 1000
		step, swhat, sms := genStep(rnd)
		points := int64(rnd.Intn(40))
		end := start + points*int64(sms) + int64(rnd.Intn(3))*1000
		ss, es := fmtMs(start), fmtMs(end)
		bad := swhat == "error"
		far := swhat == "far"
		switch rnd.Intn(8) {
		case 0:
			if end > start {
				ss, es = es, ss
				bad = true
			}
		case 1:
			if w, _ := timeMs(ts); w == "error" {
				bad = true
				if rnd.Intn(2) == 0 {
					ss = ts
				} else {
					es = ts
				}
			}
		case 2:
			// far too many points: an error, or all of them
			ss, es, step = "0", fmt.Sprint(1000000000+rnd.Intn(1000000000)), pick(rnd, "0.001", "1ms")
			bad = true
		case 3:
			// what cannot be read is not taken for zero
			if w, _ := timeMs(ts); w == "error" {
				bad = true
				if step = pick(rnd, "60", "1m", "100"); rnd.Intn(2) == 0 {
					ss, es = pick(rnd, "0", "-5", "0.000"), ts
				} else {
					ss, es = ts, pick(rnd, "0", "30", "0.5")
				}
			}
		}
		if end > 9.2e12 || (end-start)/maxi(1, int64(sms)) > 5000 {
			far = true
		}
		r.Case(map[string]interface{}{"case": c, "start": ss, "end": es, "step": step})
		var res *rpc.PromQL_RangeQueryResult
		var err error
		if !r.Safely("range", func() {
			res, err = ql.RangeQuery(context.Background(), &rpc.PromQL_RangeQueryRequest{Query: pick(rnd, "1", "vector(1)", "time()"), Start: ss, End: es, Step: step})
		}) {
			continue
		}
		desc := fmt.Sprintf("start %q end %q step %q", ss, es, step)
		r.Eval(fmt.Sprint("r", c, desc), bad)
		switch {
		case bad:
			r.Count("range_error", 1)
			if err == nil {
				r.Violate("range-accepted", "%s is answered with %d series", desc, len(res.GetMatrix().GetSeries()))
			}
		case far:
		case err != nil:
			r.Violate("range-refused", "%s is refused: %v", desc, err)
		default:
			r.Count("range_answered", 1)
			l := res.GetMatrix().GetSeries()
			// Prometheus cuts a step that is just below a millisecond.
			width := int64(sms)
			if len(l) == 1 && len(l[0].GetPoints()) > 1 && parseMs(l[0].GetPoints()[1].GetTime()) == start+width-1 && strings.Contains(step, ".") {
				width--
			}
			want := int((end-start)/width) + 1
			if len(l) != 1 || len(l[0].GetPoints()) != want {
				r.Violate("range-points", "%s gives %d series, want one with %d points", desc, len(l), want)
				break
			}
			for i, p := range l[0].GetPoints() {
				if w := start + int64(i)*width; parseMs(p.GetTime()) != w {
					r.Violate("range-times", "%s: point %d is at %s, want %s", desc, i, p.GetTime(), fmtMs(w))
					break
				}
			}
		}
	}
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---- C17

func set(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return vk.Sorted(m)
}

func extract(r *vk.R) {
	n := r.Scale(5000, 120000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("extract", c)
		w := &world{}
		g := newGen(rnd)
		x := q{Start: base * 1000}
		x.Text = g.text(false)
		bad := rnd.Intn(5) == 0
		if bad {
			x.Text = mutate(rnd, x.Text)
		}
		r.Case(map[string]interface{}{"case": c, "query": x.Text})
		var ids []string
		var err error
		if !r.Safely("ExtractSourceIds", func() { ids, err = promql.ExtractSourceIds(x.Text) }) {
			continue
		}
		_, perr := prom.ParseExpr(x.Text)
		if (err == nil) != (perr == nil) {
			r.Violate("extract:error", "%q: error is %v, Prometheus says %v", x.Text, err, perr)
			continue
		}
		sort.Strings(ids)
		if len(set(ids)) != len(ids) {
			r.Violate("extract:repeated", "%q yields %q", x.Text, ids)
		}
		if !bad && !reflect.DeepEqual(set(ids), vk.Sorted(g.used)) {
			r.Violate("extract:ids", "%q yields %q, it names %q", x.Text, ids, vk.Sorted(g.used))
		}
		// what evaluating reads
		rd := &reader{w: w}
		ql, _ := newQL(rd, time.Hour)
		x.Range = rnd.Intn(2) == 0
		if x.Range {
			x.End, x.Step = x.Start+5000, 1000
		}
		var qerr error
		if !r.Safely("query", func() { _, qerr = ask(ql, context.Background(), x) }) {
			continue
		}
		seen, _ := rd.seen()
		read := vk.Sorted(seen)
		for _, id := range read {
			if i := sort.SearchStrings(ids, id); i >= len(ids) || ids[i] != id {
				r.Violate("extract:missing", "%q reads %q, extraction says %q", x.Text, read, ids)
			}
		}
		// A source which another matcher rules out need not be read.
		if qerr == nil && !ruledOut(x.Text) && !reflect.DeepEqual(set(ids), set(read)) {
			r.Violate("extract:reads", "%q reads %q, extraction says %q", x.Text, read, ids)
		}
		r.Count("ids", len(ids))
		r.Eval(fmt.Sprint(c, x.Text), len(ids) > 1)
		if c%1000 == 0 {
			r.Sample(map[string]interface{}{"query": x.Text, "ids": ids})
		}
	}
}

// ruledOut tells whether a selector of the query has several matchers for the
// source.
func ruledOut(text string) bool {
	expr, err := prom.ParseExpr(text)
	if err != nil {
		return false
	}
	out := false
	look := func(ms []*labels.Matcher) {
		n := 0
		for _, m := range ms {
			if m.Name == "source_id" {
				n++
			}
		}
		out = out || n > 1
	}
	prom.Inspect(expr, func(n prom.Node, _ []prom.Node) error {
		switch s := n.(type) {
		case *prom.VectorSelector:
			look(s.LabelMatchers)
		case *prom.MatrixSelector:
			look(s.LabelMatchers)
		}
		return nil
	})
	return out
}

func nameOf(ms []*labels.Matcher) string {
	for _, m := range ms {
		if m.Name == "__name__" {
			return m.Value
		}
	}
	return ""
}

// canonical prints a query with its source matchers in one form.
func canonical(text string) (string, error) {
	expr, err := prom.ParseExpr(text)
	if err != nil {
		return "", err
	}
	fix := func(ms []*labels.Matcher) {
		for _, m := range ms {
			if m.Name == "source_id" && (m.Type == labels.MatchEqual || m.Type == labels.MatchRegexp) {
				l := alternatives(m)
				m.Type = labels.MatchRegexp
				m.Value = strings.Join(set(l), "|")
			}
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].String() < ms[j].String() })
	}
	prom.Inspect(expr, func(n prom.Node, _ []prom.Node) error {
		// The printer forgets names given by a matcher.
		switch s := n.(type) {
		case *prom.VectorSelector:
			s.Name = nameOf(s.LabelMatchers)
			fix(s.LabelMatchers)
		case *prom.MatrixSelector:
			s.Name = nameOf(s.LabelMatchers)
			fix(s.LabelMatchers)
		}
		return nil
	})
	return expr.String(), nil
}

func replace(r *vk.R) {
	n := r.Scale(2200, 80000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("replace", c)
		w := genWorld(r.Rand("replaceworld", c/50))
		exp := map[string][]string{}
		for _, s := range sources {
			switch rnd.Intn(5) {
			case 0: // not in the map
			case 1:
				exp[s] = []string{s}
			default:
				perm := rnd.Perm(len(sources))
				for i := 0; i < 1+rnd.Intn(3); i++ {
					exp[s] = append(exp[s], sources[perm[i]])
				}
				if rnd.Intn(4) == 0 {
					exp[s] = append(exp[s], "c0ffee-"+s)
				}
			}
		}
		if rnd.Intn(3) == 0 {
			exp["someone-else"] = []string{"nobody"}
		}
		before := fmt.Sprint(exp)
		seed := rnd.Int63()
		gen := func(srcs func([]string, bool) string) (string, map[string]bool) {
			g := newGen(rand.New(rand.NewSource(seed)))
			g.srcs, g.plain = srcs, true
			return g.text(false), g.used
		}
		text, _ := gen(defaultSrc)
		ids := map[string]bool{}
		want, _ := gen(func(l []string, regex bool) string {
			var out []string
			for _, id := range l {
				if e, ok := exp[id]; ok {
					out = append(out, e...)
				} else {
					out = append(out, id)
				}
			}
			for _, id := range out {
				ids[id] = true
			}
			return defaultSrc(out, regex || len(out) > 1)
		})
		r.Case(map[string]interface{}{"case": c, "query": text, "expansions": exp})
		var got string
		var err error
		if !r.Safely("ReplaceSourceIdSets", func() { got, err = promql.ReplaceSourceIdSets(text, exp) }) {
			continue
		}
		what := fmt.Sprintf("%q with %v", text, exp)
		if err != nil {
			r.Violate("replace:error", "%s: %v", what, err)
			continue
		}
		if fmt.Sprint(exp) != before {
			r.Violate("replace:map", "%s: the expansions are %v afterwards", what, exp)
		}
		a, err := canonical(got)
		if err != nil {
			r.Violate("replace:parse", "%s becomes %q: %v", what, got, err)
			continue
		}
		b, err := canonical(want)
		if err != nil {
			r.Fatal("harness: %q: %v", want, err)
		}
		if a != b {
			r.Violate("replace:text", "%s becomes %q, want %q", what, got, want)
		}
		found, err := promql.ExtractSourceIds(got)
		if err != nil || !reflect.DeepEqual(set(found), vk.Sorted(ids)) {
			r.Violate("replace:ids", "%s becomes %q, which names %q, want %q", what, got, found, vk.Sorted(ids))
		}
		t := w.queryTime(rnd)
		wa, werr, same := reference(rnd, w, q{Text: want, Start: t})
		if same {
			rd := &reader{w: w}
			ql, _ := newQL(rd, time.Hour)
			ga, gerr := ask(ql, context.Background(), q{Text: got, Start: t})
			if (gerr == nil) != (werr == nil) {
				r.Violate("replace:meaning", "%s becomes %q: error is %v, want %v", what, got, gerr, werr)
			} else if gerr == nil {
				if d := diff(ga, wa); d != "" {
					r.Violate("replace:meaning", "%s becomes %q: %s", what, got, d)
				}
				r.Count("series", len(wa.keys))
			}
		}
		r.Eval(fmt.Sprint(c, text), len(ids) > 1)
		if c%600 == 0 {
			r.Sample(map[string]interface{}{"query": text, "expansions": exp, "becomes": got})
		}
	}
}
