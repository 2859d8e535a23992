package seq

import (
	"fmt"
	"math"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P01", p01)
	core.Register("P02", p02)
	core.Register("P03", p03)
	core.Register("P04", p04)
	core.Register("P05", p05)
	core.Register("P06", p06)
	core.Register("P07", p07)
}

var nan, inf = math.NaN(), math.Inf(1)

func fl(x float64) string { return fmt.Sprintf("%.10g", x+0) }

func clamp01(v float64) float64 {
	if v > 1 {
		return 1
	}
	if v >= 0 {
		return v
	}
	return 0
}

type pcell struct {
	v, min, max float64
	unknown     bool
}

// p01 is the sequential part: every history of writes leaves the clamped
// last write; also every special float.
func p01(r *core.Run) {
	for _, rg := range [][2]float64{{0, 1}, {-80, 12}, {5, 5}, {20, 20000}} {
		min, max := rg[0], rg[1]
		norm := func(p float64) float64 {
			if max <= min {
				return 0
			}
			return clamp01((p - min) / (max - min))
		}
		h := &core.Hist[*param.Parameter, *pcell]{Name: fmt.Sprintf("parameter[%v,%v]", min, max),
			New:   func() *param.Parameter { return &param.Parameter{ID: 1, Min: min, Max: max} },
			Model: func() *pcell { return &pcell{min: min, max: max} },
			Obs: func(p *param.Parameter) string {
				v := p.GetValue()
				if !(v >= 0 && v <= 1) {
					return "value out of 0..1: " + fl(v)
				}
				return ""
			},
			ObsSpec: func(m *pcell) string { return "" },
			Inv: func(p *param.Parameter, m *pcell) string {
				if !m.unknown && math.Abs(p.GetValue()-m.v) > 1e-12 {
					return fmt.Sprintf("value %v, last write %v", p.GetValue(), m.v)
				}
				pl := p.GetPlainValue()
				if !m.unknown && !core.Close(pl, m.min+m.v*(m.max-m.min), 1e-9) {
					return fmt.Sprintf("plain value %v, last write %v", pl, m.min+m.v*(m.max-m.min))
				}
				return ""
			}}
		set := func(v float64) {
			h.Ops = append(h.Ops, core.HOp[*param.Parameter, *pcell]{Name: fmt.Sprintf("SetValue(%v)", v),
				Do:   func(p *param.Parameter) string { p.SetValue(v); return "" },
				Spec: func(m *pcell) string { m.v, m.unknown = clamp01(v), math.IsNaN(v); return "" }})
		}
		setp := func(v float64) {
			h.Ops = append(h.Ops, core.HOp[*param.Parameter, *pcell]{Name: fmt.Sprintf("SetPlainValue(%v)", v),
				Do:   func(p *param.Parameter) string { p.SetPlainValue(v); return "" },
				Spec: func(m *pcell) string { m.v, m.unknown = norm(v), math.IsNaN(v) && max > min; return "" }})
		}
		for _, v := range []float64{0, 1, 0.5, 1e-300, 0.3333333333333333, -1e-9, 1 + 1e-9, -inf, inf, nan, math.MaxFloat64} {
			set(v)
		}
		for _, v := range []float64{min, max, (min + max) / 2, min - 1, max + 1, nan, -inf, inf} {
			setp(v)
		}
		h.Run(r, r.Pick(3, 4))
	}
	// all float64 patterns of a coarse lattice over sign, exponent, mantissa
	p := &param.Parameter{Max: 1}
	n := int64(0)
	for s := uint64(0); s < 2; s++ {
		for e := uint64(0); e < 2048; e++ {
			for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x5555555555555} {
				v := math.Float64frombits(s<<63 | e<<52 | m)
				p.SetValue(v)
				g := p.GetValue()
				n++
				if !(g >= 0 && g <= 1) || (v >= 0 && v <= 1 && g != v) || (v > 1 && g != 1) || (v < 0 && g != 0) {
					r.Failf("SetValue", "SetValue(%v) left %v", v, g)
				}
			}
		}
	}
	r.Count(n, n)
	r.Part("float_patterns", n)
}

func p02(r *core.Run) {
	N := r.Pick(2000, 100000)
	ranges := [][2]float64{{0, 1}, {-1, 1}, {-80, 12}, {-96, 0}, {20, 20000}, {0.1, 10}, {0, 100}, {-100, 100}, {1, 20},
		{0, 360}, {0.01, 5}, {1e-6, 1e-5}, {-1e6, 1e6}, {1000, 1001}, {0, 127}, {-24, -23.5}}
	for _, rg := range ranges {
		min, max := rg[0], rg[1]
		span := max - min
		for _, steps := range []int32{0, 1, 4, 100} {
			// a step count tells the host about a parameter, it does not round its values
			p := param.New(1, "x").Range(min, max).Steps(steps).Build()
			for k := 0; k <= 97; k++ {
				n := float64(k) / 97
				pl := min + n*span
				tol := 1e-9 * math.Max(1, math.Max(math.Abs(min), math.Abs(max))/span)
				if d := p.Denormalize(n); math.Abs(d-pl) > 1e-9*math.Max(1, math.Abs(pl)) || math.Abs(p.Normalize(pl)-n) > tol {
					r.Failf("steps", "range [%v,%v] with %d steps: %v is plain %v, which is %v", min, max, steps, n, d, p.Normalize(pl))
				}
				p.SetPlainValue(pl)
				if math.Abs(p.GetValue()-n) > tol || math.Abs(p.GetPlainValue()-pl) > 1e-9*math.Max(1, math.Abs(pl)) {
					r.Failf("steps", "range [%v,%v] with %d steps: SetPlainValue(%v) reads back %v, %v", min, max, steps, pl, p.GetValue(), p.GetPlainValue())
				}
			}
		}
		p := param.New(1, "x").Range(min, max).Default(min + span/4).Build()
		name := fmt.Sprintf("range[%v,%v]", min, max)
		if math.Abs(p.DefaultValue-0.25) > 1e-9 || math.Abs(p.GetValue()-0.25) > 1e-9 {
			r.Failf("default", "%s: a default a quarter up the range is reported as %v and starts at %v", name, p.DefaultValue, p.GetValue())
		}
		for _, d := range []float64{min - span, min, min + span/2, max, max + span} {
			q := param.New(1, "x").Range(min, max).Default(d).Build()
			want := clamp01((d - min) / span)
			if math.Abs(q.DefaultValue-want) > 1e-9 || math.Abs(q.GetValue()-want) > 1e-9 {
				r.Failf("default", "%s: Default(%v) reported as %v, starts at %v, want %v", name, d, q.DefaultValue, q.GetValue(), want)
			}
		}
		prev := math.Inf(-1)
		prevN := -1.0
		tol := 1e-9 * math.Max(1, math.Max(math.Abs(min), math.Abs(max))/span)
		for k := 0; k <= N; k++ {
			n := float64(k) / float64(N)
			pl := p.Denormalize(n)
			if !(pl >= prev) {
				r.Failf("monotone", "%s: Denormalize(%v)=%v after %v: not increasing", name, n, pl, prev)
			}
			prev = pl
			if math.Abs(pl-(min+n*span)) > 1e-9*math.Max(1, math.Abs(pl)) {
				r.Failf("linear", "%s: Denormalize(%v)=%v", name, n, pl)
			}
			b := p.Normalize(pl)
			if math.Abs(b-n) > tol {
				r.Failf("inverse", "%s: Normalize(Denormalize(%v))=%v", name, n, b)
			}
			if b < prevN {
				r.Failf("monotone", "%s: Normalize not increasing at %v", name, n)
			}
			prevN = b
			p.SetValue(n)
			if p.GetValue() != n {
				r.Failf("cell", "%s: SetValue(%v) read back as %v", name, n, p.GetValue())
			}
			if g := p.GetPlainValue(); math.Abs(g-pl) > 1e-9*math.Max(1, math.Abs(pl)) {
				r.Failf("plain", "%s: SetValue(%v) gives plain %v, Denormalize gives %v", name, n, g, pl)
			}
			p.SetPlainValue(pl)
			if math.Abs(p.GetValue()-n) > tol {
				r.Failf("plain", "%s: SetPlainValue(%v) gives %v, want %v", name, pl, p.GetValue(), n)
			}
			if g := p.GetPlainValue(); math.Abs(g-pl) > span*1e-9+1e-9*math.Abs(pl) {
				r.Failf("plain", "%s: SetPlainValue(%v) reads back %v", name, pl, g)
			}
		}
		r.Count(int64(N+1), int64(6*(N+1)))
		r.Trace(int64(N + 1))
		r.Nontrivial(int64(N + 1))
		if math.Abs(p.Denormalize(0)-min) > 1e-12*math.Abs(min) || math.Abs(p.Denormalize(1)-max) > 1e-9*math.Max(1e-6, math.Abs(max)) {
			r.Failf("ends", "%s: ends map to %v and %v", name, p.Denormalize(0), p.Denormalize(1))
		}
		for _, x := range []float64{min - 1e-3*span, min - 1e9, -inf} {
			if p.Normalize(x) != 0 {
				r.Failf("clamp", "%s: Normalize(%v)=%v, want 0", name, x, p.Normalize(x))
			}
		}
		for _, x := range []float64{max + 1e-3*span, max + 1e9, inf} {
			if p.Normalize(x) != 1 {
				r.Failf("clamp", "%s: Normalize(%v)=%v, want 1", name, x, p.Normalize(x))
			}
		}
		if v := p.Normalize(nan); !(v >= 0 && v <= 1) {
			r.Failf("clamp", "%s: Normalize(NaN)=%v", name, v)
		}
	}
	for _, rg := range [][2]float64{{3, 3}, {5, 2}} { // degenerate ranges never divide by zero
		p := &param.Parameter{Min: rg[0], Max: rg[1]}
		for _, v := range []float64{0, 1, 2, 3, 4, 5, -inf, inf, nan} {
			if n := p.Normalize(v); n != 0 {
				r.Failf("degenerate", "range %v: Normalize(%v)=%v", rg, v, n)
			}
			p.SetValue(0.75)
			p.SetPlainValue(v)
			if n := p.GetValue(); n != 0 {
				r.Failf("degenerate", "range %v: SetPlainValue(%v) gives %v", rg, v, n)
			}
		}
	}
	r.Bound("grid", N)
	r.Bound("ranges", len(ranges))
	r.Sample("range[-80,12] n=0.25 -> plain -57 -> 0.25")
}

type fmtCase struct {
	name string
	p    *param.Parameter
	res  func(v float64) float64 // display resolution in plain units
}

func decRes(v float64) float64  { return 0.05 }
func pctRes(v float64) float64  { return 0.5 }
func freqRes(v float64) float64 { return pick(v >= 1000, 5, 0.05) }
func timeRes(v float64) float64 { return pick(v >= 1000, 5, 0.05) }
func pick(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func fmtCases() []fmtCase {
	raw := func(name string, min, max float64, f func(float64) string, g func(string) (float64, error), res func(float64) float64) fmtCase {
		return fmtCase{name, param.New(1, name).Range(min, max).Formatter(f, g).Build(), res}
	}
	later := func(name string, min, max float64, f func(float64) string, g func(string) (float64, error), res func(float64) float64) fmtCase {
		p := param.New(1, name).Range(min, max).Formatter(param.PercentFormatter, param.PercentParser).Build()
		p.SetFormatter(f, g)
		return fmtCase{name, p, res}
	}
	step := param.New(1, "steps").Range(0, 10).Steps(10).Build()
	cs := []fmtCase{
		{"default", param.New(1, "d").Range(-3, 7).Build(), func(float64) float64 { return 0.005 }},
		{"steps", step, func(float64) float64 { return 0.5 }},
		{"gain", param.GainParameter(1, "x").Build(), decRes},
		{"mix", param.MixParameter(1, "x").Build(), pctRes},
		{"frequency", param.FrequencyParameter(1, "x", 20, 20000, 1000).Build(), freqRes},
		{"frequency-low", param.FrequencyParameter(1, "x", 0.1, 1500, 10).Build(), freqRes},
		{"time", param.TimeParameter(1, "x", 0.1, 5000, 100).Build(), timeRes},
		{"time-long", param.TimeParameter(1, "x", 0, 100000, 100).Build(), timeRes},
		{"attack", param.AttackParameter(1, "x", 100).Build(), timeRes},
		{"release", param.ReleaseParameter(1, "x", 2000).Build(), timeRes},
		{"ratio", param.RatioParameter(1, "x", 1, 20, 4).Build(), decRes},
		{"ratio-inf", param.RatioParameter(1, "x", 1, 100, 4).Build(), decRes},
		{"q", param.QParameter(1, "x", 0.1, 10, 0.7).Build(), func(float64) float64 { return 0.005 }},
		{"pan", param.PanParameter(1, "x").Build(), pctRes},
		{"phase", param.PhaseParameter(1, "x").Build(), decRes},
		{"feedback", param.FeedbackParameter(1, "x").Build(), pctRes},
		{"resonance", param.ResonanceParameter(1, "x").Build(), func(float64) float64 { return 0.0005 }},
		{"drive", param.DriveParameter(1, "x").Build(), pctRes},
		{"threshold", param.ThresholdParameter(1, "x", -60, 0, -20).Build(), decRes},
		{"threshold-wide", param.ThresholdParameter(1, "x", -90, 6, -20).Build(), decRes},
		{"rate", param.RateParameter(1, "x", 0.01, 20, 1).Build(), func(v float64) float64 { return pick(v < 1, 0.0005, 0.005) }},
		{"depth", param.DepthParameter(1, "x").Build(), pctRes},
		later("FrequencyFormatter set later", 1, 22050, param.FrequencyFormatter, param.FrequencyParser, freqRes),
		raw("FrequencyFormatter", 1, 22050, param.FrequencyFormatter, param.FrequencyParser, freqRes),
		raw("DecibelFormatter", -96, 24, param.DecibelFormatter, param.DecibelParser, decRes),
		raw("PercentFormatter", 0, 100, param.PercentFormatter, param.PercentParser, pctRes),
		raw("TimeFormatter", 0.001, 3000, param.TimeFormatter, param.TimeParser, func(v float64) float64 {
			return pick(v < 1, 5e-6, pick(v < 1000, 0.05, 5))
		}),
		raw("RatioFormatter", 1, 50, param.RatioFormatter, param.RatioParser, decRes),
		raw("PanFormatter", -1, 1, param.PanFormatter, param.PanParser, func(v float64) float64 { return pick(math.Abs(v) < 0.01, 0.01, 0.005) }),
	}
	return cs
}

func p03(r *core.Run) {
	N := r.Pick(20000, 400000)
	cases := fmtCases()
	r.Each(len(cases), func(i int) string { return cases[i].name }, func(i int, w *core.Worker) {
		c := cases[i]
		span := c.p.Max - c.p.Min
		for k := 0; k <= N; k++ {
			n := float64(k) / float64(N)
			v := c.p.Denormalize(n)
			s := c.p.FormatValue(n)
			back, err := c.p.ParseValue(s)
			if err != nil {
				r.Failf("roundtrip:"+c.name, "%s: %v displays as %q, which does not parse: %v", c.name, v, s, err)
				return
			}
			got := c.p.Denormalize(back)
			if strings.Contains(s, "∞") {
				if t := c.p.FormatValue(back); t != s {
					r.Failf("roundtrip:"+c.name, "%s: %v displays as %q, parses to %v which displays as %q", c.name, v, s, got, t)
				}
				// the infinite reading is reserved for the last 40 % of the range
				if f := math.Abs(n - 0.5); f < 0.12 {
					r.Failf("roundtrip:"+c.name, "%s: %v in mid-range displays as %q", c.name, v, s)
				}
				continue
			}
			if math.Abs(got-v) > c.res(v)*1.001+1e-9*math.Abs(v)+1e-12*span {
				r.Failf("roundtrip:"+c.name, "%s: %v displays as %q, parses back to %v", c.name, v, s, got)
				return
			}
			// surrounding space must not change the meaning
			if k%97 == 0 {
				b2, err := c.p.ParseValue("  " + s + " ")
				if err == nil && math.Abs(b2-back) > 1e-9 {
					r.Failf("space:"+c.name, "%s: %q parses to %v but padded with spaces to %v", c.name, s, back, b2)
				}
			}
		}
		r.Count(int64(N+1), int64(2*(N+1)))
		r.Trace(int64(N + 1))
		r.Nontrivial(int64(N + 1))
	})
	r.Bound("grid_per_formatter", N)
	r.Bound("formatters", len(cases))
	// lists of n options: n states, each displaying and parsing its own option
	for n := 1; n <= r.Pick(130, 400); n++ {
		for _, base := range []float64{0, 1, -3} {
			for _, stride := range []float64{1, 5, 0.25} {
				var o []param.ChoiceOption
				for k := 0; k < n; k++ {
					o = append(o, param.ChoiceOption{Value: base + stride*float64(k), Name: fmt.Sprintf("Option %d", k), Aliases: []string{fmt.Sprintf("o%d", k), fmt.Sprintf("Mixed Case%d", k), fmt.Sprintf("UPPER%d", k)}})
				}
				p := param.Choice(1, "c", o).Build()
				if int(p.StepCount) != n-1 {
					r.Failf("choice:steps", "a list of %d options reports step count %d (VST3: states minus one)", n, p.StepCount)
				}
				for k := 0; k < n; k++ {
					x := 0.0
					if n > 1 {
						x = float64(k) / float64(n-1)
					}
					if s := p.FormatValue(x); s != o[k].Name {
						r.Failf("choice:format", "option %d of %d (values %v+%v*k) displays as %q", k, n, base, stride, s)
					}
					ins := []string{o[k].Name, strings.ToUpper(o[k].Name), strings.ToLower(o[k].Name)}
					for _, a := range o[k].Aliases {
						ins = append(ins, a, strings.ToUpper(a), strings.ToLower(a), " "+a+" ")
					}
					for _, in := range ins {
						v, err := p.ParseValue(in)
						if err != nil || math.Abs(v-x) > 1e-9 {
							r.Failf("choice:parse", "option %d of %d: %q parses to %v, %v; want %v", k, n, in, v, err, x)
						}
					}
				}
				if p.DefaultValue != 0 || p.GetValue() != 0 {
					r.Failf("choice:default", "a list of %d options (values %v+%v*k) starts at %v, not at its first option", n, base, stride, p.GetValue())
				}
				if _, err := p.ParseValue("no such option"); err == nil {
					r.Failf("choice:unknown", "unknown option name accepted")
				}
				r.Count(int64(n), int64(5*n))
			}
		}
	}
	_ = param.Choice(1, "empty", nil).Build().FormatValue(0)
	// named lists
	for k, name := range param.FilterTypeNames {
		if s := param.FilterTypeFormatter(float64(k)); s != name {
			r.Failf("filtertype", "filter type %d displays as %q", k, s)
		}
		if v, err := param.FilterTypeParser(name); err != nil || v != float64(k) {
			r.Failf("filtertype", "%q parses to %v %v", name, v, err)
		}
	}
	for k, name := range param.GateTypeNames {
		if s := param.GateTypeFormatter(float64(k)); s != name {
			r.Failf("gatetype", "gate type %d displays as %q", k, s)
		}
		if v, err := param.GateTypeParser(name); err != nil || v != float64(k) {
			r.Failf("gatetype", "%q parses to %v %v", name, v, err)
		}
	}
	spellings(r)
	bp := param.BypassParameter(1, "b").Build()
	for k, s := range []string{"Active", "Bypassed"} {
		if bp.FormatValue(float64(k)) != s {
			r.Failf("bypass", "bypass %d displays as %q", k, bp.FormatValue(float64(k)))
		}
		if v, err := bp.ParseValue(s); err != nil || v != float64(k) {
			r.Failf("bypass", "%q parses to %v %v", s, v, err)
		}
	}
	for _, v := range []float64{0, 0.2, 0.8, 1} {
		b, err := param.OnOffParser(param.OnOffFormatter(v))
		if err != nil || b != math.Round(v) {
			r.Failf("onoff", "%v -> %q -> %v", v, param.OnOffFormatter(v), b)
		}
	}
	// notes: all numbers, all spellings
	for k := 0; k <= 127; k++ {
		s := param.NoteFormatter(float64(k))
		if v, err := param.NoteParser(s); err != nil || v != float64(k) {
			r.Failf("note", "note %d displays as %q, parses to %v %v", k, s, v, err)
		}
		if v, err := param.NoteParser(" " + strings.ToLower(s) + " "); err != nil || v != float64(k) {
			r.Failf("note", "note %d as lower case %q parses to %v %v", k, s, v, err)
		}
	}
	letters := map[string]int{"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
	for l, off := range letters {
		for acc, d := range map[string]int{"": 0, "#": 1, "b": -1} {
			for oct := -1; oct <= 9; oct++ {
				s := fmt.Sprintf("%s%s%d", l, acc, oct)
				want := (oct+1)*12 + off + d
				if v, err := param.NoteParser(s); err != nil || v != float64(want) {
					r.Failf("note", "%q parses to %v %v, want %d", s, v, err, want)
				}
			}
		}
	}
	// robustness: every string over the alphabet; an error or a value in 0..1
	alpha := []string{"", "0", "9", ".", "-", "+", "e", " ", "d", "b", "m", "s", "k", "Hz", "%", ":1", "L", "r", "c", "inf", "∞", "nan", "°", "\x00", "x", "#", "Q:", "1e999", "µ"}
	L := r.Pick(3, 4)
	rest := append([]fmtCase(nil), cases...)
	for _, q := range []*param.Parameter{
		param.New(1, "n").Range(0, 127).Formatter(param.NoteFormatter, param.NoteParser).Build(),
		param.New(1, "n").Range(0, 1).Formatter(param.OnOffFormatter, param.OnOffParser).Build(),
		param.New(1, "n").Range(0, 7).Formatter(param.FilterTypeFormatter, param.FilterTypeParser).Build(),
		param.New(1, "n").Range(0, 3).Formatter(param.GateTypeFormatter, param.GateTypeParser).Build(),
		bp} {
		rest = append(rest, fmtCase{"list", q, nil})
	}
	r.Each(len(rest), func(i int) string { return "parse " + rest[i].name }, func(i int, w *core.Worker) {
		n := int64(0)
		core.Tuples(L, len(alpha), func(v []int) bool {
			s := ""
			for _, k := range v {
				s += alpha[k]
			}
			n++
			x, err := rest[i].p.ParseValue(s)
			if err == nil && !(x >= 0 && x <= 1) {
				r.Failf("parse:range", "%s: %q parses to normalized %v", rest[i].name, s, x)
				return false
			}
			return true
		})
		r.Count(n, n)
	})
	r.Bound("parse_string_pieces", L)
	r.Bound("parse_alphabet", len(alpha))
	r.Sample("gain: -3.2 -> \"-3.2 dB\" -> -3.2")
}

type regM struct {
	order []uint32
	name  map[uint32]string
}

func p04(r *core.Run) {
	h := &core.Hist[*param.Registry, *regM]{Name: "registry",
		New:   param.NewRegistry,
		Model: func() *regM { return &regM{name: map[uint32]string{}} },
		Obs: func(g *param.Registry) string {
			var s []string
			for _, p := range g.All() {
				s = append(s, fmt.Sprintf("%d/%s", p.ID, p.Name))
			}
			s = append(s, fmt.Sprint(g.Count()))
			for i := int32(-1); i <= g.Count(); i++ {
				if p := g.GetByIndex(i); p != nil {
					s = append(s, fmt.Sprintf("#%d=%d/%s", i, p.ID, p.Name))
				} else {
					s = append(s, fmt.Sprintf("#%d=nil", i))
				}
			}
			for _, id := range []uint32{0, 1, 2, 3, 4, math.MaxUint32} {
				if p := g.Get(id); p != nil {
					s = append(s, fmt.Sprintf("%d=%s", id, p.Name))
				}
			}
			for _, x := range []int32{math.MinInt32, math.MaxInt32} {
				if g.GetByIndex(x) != nil {
					s = append(s, "index out of range answered")
				}
			}
			return strings.Join(s, " ")
		},
		ObsSpec: func(m *regM) string {
			var s []string
			for _, id := range m.order {
				s = append(s, fmt.Sprintf("%d/%s", id, m.name[id]))
			}
			s = append(s, fmt.Sprint(len(m.order)), "#-1=nil")
			for i, id := range m.order {
				s = append(s, fmt.Sprintf("#%d=%d/%s", i, id, m.name[id]))
			}
			s = append(s, fmt.Sprintf("#%d=nil", len(m.order)))
			for _, id := range []uint32{0, 1, 2, 3, 4, math.MaxUint32} {
				if n, ok := m.name[id]; ok {
					s = append(s, fmt.Sprintf("%d=%s", id, n))
				}
			}
			return strings.Join(s, " ")
		}}
	add := func(tag string, ids ...uint32) {
		h.Ops = append(h.Ops, core.HOp[*param.Registry, *regM]{Name: fmt.Sprintf("Add(%s%v)", tag, ids),
			Do: func(g *param.Registry) string {
				var ps []*param.Parameter
				for k, id := range ids {
					ps = append(ps, &param.Parameter{ID: id, Name: fmt.Sprintf("%s%d", tag, k)})
				}
				return fmt.Sprint(g.Add(ps...))
			},
			Spec: func(m *regM) string {
				for k, id := range ids {
					if _, ok := m.name[id]; !ok {
						m.name[id] = fmt.Sprintf("%s%d", tag, k)
						m.order = append(m.order, id)
					}
				}
				return "<nil>"
			}})
	}
	add("a", 2)
	add("b", 1)
	add("c", 0)
	add("d", 3, 2)
	add("e", 2, 2)
	add("f")
	add("g", 4, 1, 0)
	add("h", math.MaxUint32)
	add("i", 1)
	h.Run(r, r.Pick(5, 6))
}

// autoM models automatic numbering: names and numbers are unique, order is
// registration order, numbers never repeat a taken or reserved number.
type autoEnt struct {
	id   uint32
	name string
	tag  int
}
type autoM struct {
	ents     []autoEnt
	reserved map[uint32]bool
	tag      int
	enabled  bool
}
type autoI struct {
	g   *param.AutoRegistry
	tag int
	// facts observed
	reserved map[uint32]bool
	live     []autoEnt // what the harness registered successfully, in order
	enabled  bool
	cleared  bool
}

// p05: the automatic numbers themselves are the implementation's choice, so
// the oracle is a set of invariants over what it answered.
func p05(r *core.Run) {
	type op struct {
		name string
		f    func(i *autoI) string
	}
	find := func(i *autoI, id uint32) int {
		for k, e := range i.live {
			if e.id == id {
				return k
			}
		}
		return -1
	}
	byName := func(i *autoI, n string) int { // the latest registration under a name
		for k := len(i.live) - 1; k >= 0; k-- {
			if i.live[k].name == n {
				return k
			}
		}
		return -1
	}
	p0 := &param.Parameter{Name: "a"}
	if err := param.NewAutoRegistry().Register(p0); err != nil {
		r.Failf("autoregistry", "a new registry refuses a parameter: %v", err)
		return
	}
	first := p0.ID
	reg := func(i *autoI, name string, id uint32) string {
		i.tag++
		p := &param.Parameter{ID: id, Name: name, UnitID: int32(i.tag)}
		err := i.g.Register(p)
		if k := byName(i, name); k >= 0 {
			if err != nil {
				return fmt.Sprintf("re-registering %q failed: %v", name, err)
			}
			if p.ID != i.live[k].id {
				return fmt.Sprintf("re-registering %q changed its ID from %d to %d", name, i.live[k].id, p.ID)
			}
			i.live[k].tag = i.tag
			return ""
		}
		if id == 0 && i.enabled {
			if err != nil {
				return fmt.Sprintf("automatic registration of %q failed: %v", name, err)
			}
			if find(i, p.ID) >= 0 {
				return fmt.Sprintf("automatic ID %d of %q is already in use", p.ID, name)
			}
			if i.reserved[p.ID] {
				return fmt.Sprintf("automatic ID %d of %q was reserved", p.ID, name)
			}
			if i.cleared && len(i.live) == 0 && len(i.reserved) == 0 && p.ID != first {
				return fmt.Sprintf("the first automatic ID after clearing is %d, that of a new registry %d", p.ID, first)
			}
			i.live = append(i.live, autoEnt{p.ID, name, i.tag})
			return ""
		}
		if find(i, id) >= 0 {
			if err == nil {
				return fmt.Sprintf("explicit ID %d registered twice", id)
			}
			return ""
		}
		if err != nil || p.ID != id {
			return fmt.Sprintf("explicit ID %d: %v, became %d", id, err, p.ID)
		}
		i.live = append(i.live, autoEnt{id, name, i.tag})
		return ""
	}
	regID := func(i *autoI, id uint32, name string) string {
		i.tag++
		p := &param.Parameter{Name: name, UnitID: int32(i.tag)}
		err := i.g.RegisterWithID(id, p)
		if find(i, id) >= 0 {
			if err == nil {
				return fmt.Sprintf("explicit ID %d registered twice", id)
			}
			return ""
		}
		if err != nil || p.ID != id {
			return fmt.Sprintf("explicit ID %d: %v, became %d", id, err, p.ID)
		}
		i.live = append(i.live, autoEnt{id, name, i.tag})
		return ""
	}
	reserve := func(i *autoI, n uint32) string {
		first := i.g.Reserve(n)
		for k := uint32(0); k < n; k++ {
			if find(i, first+k) >= 0 {
				return fmt.Sprintf("reserved ID %d is already in use", first+k)
			}
			if i.reserved[first+k] {
				return fmt.Sprintf("ID %d reserved twice", first+k)
			}
			i.reserved[first+k] = true
		}
		return ""
	}
	ops := []op{
		{"Register(a)", func(i *autoI) string { return reg(i, "a", 0) }},
		{"Register(b)", func(i *autoI) string { return reg(i, "b", 0) }},
		{"Register(c)", func(i *autoI) string { return reg(i, "c", 0) }},
		{"Register(d,2)", func(i *autoI) string { return reg(i, "d", 2) }},
		{"Register(e,1)", func(i *autoI) string { return reg(i, "e", 1) }},
		{"RegisterWithID(3,f)", func(i *autoI) string { return regID(i, 3, "f") }},
		{"RegisterWithID(1,g)", func(i *autoI) string { return regID(i, 1, "g") }},
		{"RegisterWithID(0,h)", func(i *autoI) string { return regID(i, 0, "h") }},
		{"Reserve(1)", func(i *autoI) string { return reserve(i, 1) }},
		{"RegisterWithID(4,a)", func(i *autoI) string { return regID(i, 4, "a") }},
		{"EnableAutoID(false)", func(i *autoI) string { i.g.EnableAutoID(false); i.enabled = false; return "" }},
		{"EnableAutoID(true)", func(i *autoI) string { i.g.EnableAutoID(true); i.enabled = true; return "" }},
		{"Register ten", func(i *autoI) string {
			for k := 0; k < 10; k++ {
				if m := reg(i, fmt.Sprintf("x%d", k), 0); m != "" {
					return m
				}
			}
			return ""
		}},
		{"Reserve(3)", func(i *autoI) string { return reserve(i, 3) }},
		{"Clear", func(i *autoI) string {
			i.g.Clear()
			i.cleared = true
			i.live, i.reserved = nil, map[uint32]bool{}
			return ""
		}},
	}
	h := &core.Hist[*autoI, *autoM]{Name: "autoregistry",
		New:   func() *autoI { return &autoI{g: param.NewAutoRegistry(), reserved: map[uint32]bool{}, enabled: true} },
		Model: func() *autoM { return &autoM{} },
		Obs:   func(i *autoI) string { return "" }, ObsSpec: func(m *autoM) string { return "" },
		Inv: func(i *autoI, _ *autoM) string {
			all := i.g.All()
			if len(all) != len(i.live) || int(i.g.Count()) != len(i.live) {
				return fmt.Sprintf("%d parameters listed, %d counted, %d registered", len(all), i.g.Count(), len(i.live))
			}
			for k, e := range i.live {
				for what, p := range map[string]*param.Parameter{"All": all[k], "GetByIndex": i.g.GetByIndex(int32(k)), "Get": i.g.Get(e.id)} {
					if p == nil || p.ID != e.id || p.Name != e.name || p.UnitID != int32(e.tag) {
						return fmt.Sprintf("%s for entry %d: %+v, want %+v", what, k, p, e)
					}
				}
			}
			for _, n := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "x0", "x9", "zz"} {
				k := byName(i, n)
				id, ok := i.g.GetID(n)
				p := i.g.GetByName(n)
				if k < 0 {
					if ok || p != nil {
						return fmt.Sprintf("unknown name %q is found: %v %v", n, id, p)
					}
				} else if !ok || id != i.live[k].id || p == nil || p.ID != id {
					return fmt.Sprintf("name %q maps to %v,%v,%+v, want ID %d", n, id, ok, p, i.live[k].id)
				}
			}
			return ""
		}}
	for _, o := range ops {
		o := o
		h.Ops = append(h.Ops, core.HOp[*autoI, *autoM]{Name: o.name, Do: o.f, Spec: func(*autoM) string { return "" }})
	}
	h.Run(r, r.Pick(5, 6))
	// a builder registers what it can and reports every refusal
	core.Tuples(r.Pick(4, 5), 4, func(v []int) bool {
		g := param.NewAutoRegistry()
		b := param.NewRegistryBuilder(g)
		taken, refused, want := map[uint32]string{}, 0, 0
		for k, o := range v {
			id, name := uint32(10+o%2), fmt.Sprintf("n%d", k)
			p := &param.Parameter{Name: name, ID: id}
			if o < 2 {
				b = b.Add(p)
			} else {
				p.ID = 0
				b = b.AddWithID(id, p)
			}
			if _, ok := taken[id]; ok {
				refused++
			} else {
				taken[id] = name
				want++
			}
		}
		err := b.Build()
		if (err != nil) != (refused > 0) {
			r.Failf("builder", "registrations %v: %d refused, Build says %v", v, refused, err)
		}
		if err != nil && strings.Count(err.Error(), "already") != refused {
			r.Failf("builder", "registrations %v: %d refused, Build reports %v", v, refused, err)
		}
		if int(g.Count()) != want {
			r.Failf("builder", "registrations %v: %d parameters registered, want %d", v, g.Count(), want)
		}
		for id, name := range taken {
			if p := g.Get(id); p == nil || p.Name != name {
				r.Failf("builder", "registrations %v: ID %d holds %+v, want %q", v, id, p, name)
			}
		}
		r.Count(1, int64(len(v)))
		return true
	})
	// prepared control groups never collide
	g := param.NewAutoRegistry()
	for _, err := range []error{g.RegisterStandardControls(), g.RegisterCompressorControls(), g.RegisterEQBand(1), g.RegisterEQBand(2)} {
		if err != nil {
			r.Failf("groups", "prepared control groups: %v", err)
		}
	}
	seen := map[uint32]bool{}
	for _, p := range g.All() {
		if seen[p.ID] {
			r.Failf("groups", "ID %d used twice in the prepared control groups", p.ID)
		}
		seen[p.ID] = true
	}
	if len(seen) != 20 {
		r.Failf("groups", "prepared control groups register %d parameters, want 20", len(seen))
	}
}

// spellings holds every text the parsers document or list, with its value.
func spellings(r *core.Run) {
	try := func(what string, f func(string) (float64, error), want float64, texts ...string) {
		for _, t := range texts {
			for _, s := range []string{t, " " + t, t + "  "} {
				v, err := f(s)
				if err != nil || math.Abs(v-want) > 1e-9*math.Max(1, math.Abs(want)) {
					r.Failf("spelling:"+what, "%s: %q parses to %v, %v; want %v", what, s, v, err, want)
				}
				r.Count(1, 1)
			}
		}
	}
	for k, l := range [][]string{{"lowpass", "low pass", "lpf", "lp"}, {"highpass", "high pass", "hpf", "hp"}, {"bandpass", "band pass", "bpf", "bp"},
		{"notch", "band reject", "band stop", "br", "bs"}, {"allpass", "all pass", "apf", "ap"}, {"peaking", "peaking eq", "peak", "bell", "parametric"},
		{"low shelf", "lowshelf", "ls", "bass"}, {"high shelf", "highshelf", "hs", "treble"}} {
		for _, t := range l {
			try("filter type", param.FilterTypeParser, float64(k), t, strings.ToUpper(t), strings.ToUpper(t[:1])+t[1:])
		}
	}
	for k, l := range [][]string{{"hard", "hard gate", "gate"}, {"soft", "soft gate"}, {"expander", "expand", "expansion"}, {"ducker", "duck", "ducking"}} {
		for _, t := range l {
			try("gate type", param.GateTypeParser, float64(k), t, strings.ToUpper(t), strings.ToUpper(t[:1])+t[1:])
		}
	}
	for _, t := range []string{"", "x", "gates", "lowpas", "unknown"} {
		for what, f := range map[string]func(string) (float64, error){"filter type": param.FilterTypeParser, "gate type": param.GateTypeParser, "on/off": param.OnOffParser, "note": param.NoteParser} {
			if v, err := f(t); err == nil {
				r.Failf("spelling:"+what, "%s: unknown %q parses to %v", what, t, v)
			}
		}
	}
	for v := -3; v <= 12; v++ { // types outside the lists have no name, and do no harm
		if s := param.FilterTypeFormatter(float64(v)); (s == "Unknown") != (v < 0 || v >= len(param.FilterTypeNames)) {
			r.Failf("spelling:filter type", "filter type %d displays as %q", v, s)
		}
		if s := param.GateTypeFormatter(float64(v)); (s == "Unknown") != (v < 0 || v >= len(param.GateTypeNames)) {
			r.Failf("spelling:gate type", "gate type %d displays as %q", v, s)
		}
	}
	try("on/off", param.OnOffParser, 1, "on", "ON", "yes", "Yes", "true", "1")
	try("on/off", param.OnOffParser, 0, "off", "Off", "no", "NO", "false", "0")
	try("frequency", param.FrequencyParser, 2500, "2.5 kHz", "2.5kHz", "2.5 khz", "2.5khz", "2500", "2500 Hz", "2500Hz", "2500 hz", "2500hz")
	try("decibel", param.DecibelParser, -3.5, "-3.5", "-3.5 dB", "-3.5dB", "-3.5 db", "-3.5db")
	try("percent", param.PercentParser, 42, "42", "42%")
	try("time", param.TimeParser, 250, "250", "250 ms", "250ms", "0.25 s", "0.25s", "250000 us", "250000 µs", "250000us")
	try("ratio", param.RatioParser, 4, "4", "4:1", "4.0:1")
	try("pan", param.PanParser, 0, "C", "c", "center", "Center", "0")
	try("pan", param.PanParser, -0.5, "50L", "50l", "50 L", "-0.5")
	try("pan", param.PanParser, 0.5, "50R", "50r", "50 R", "0.5")
	of := func(b *param.Builder) func(string) (float64, error) {
		p := b.Build()
		return func(s string) (float64, error) {
			n, err := p.ParseValue(s)
			return p.Denormalize(n), err
		}
	}
	gain := of(param.GainParameter(1, "g"))
	try("gain parameter", gain, -80, "-inf", "-Inf", "-INF dB", "-∞", "-∞ dB")
	try("gain parameter", gain, -6, "-6", "-6 dB", "-6.0dB")
	pan := of(param.PanParameter(1, "p"))
	try("pan parameter", pan, 0, "center", "Center", "CENTER", "c", "C", "0")
	try("pan parameter", pan, -30, "30 L", "30L", "30% L", "30l", "-30", "-30%", "30 left", "30% Left")
	try("pan parameter", pan, 30, "30 R", "30R", "30% R", "30r", "30", "30%", "30 right", "30% Right")
	ms := of(param.TimeParameter(1, "t", 0, 10000, 100))
	try("time parameter", ms, 1500, "1500", "1500 ms", "1500MS", "1.5 s", "1.5S", "1.5s")
	ratio := of(param.RatioParameter(1, "r", 1, 100, 4))
	try("ratio parameter", ratio, 100, "inf", "Inf:1", "∞", "∞:1")
	try("ratio parameter", ratio, 8, "8", "8:1", "8.0:1", "8 :1")
	try("Q parameter", of(param.QParameter(1, "q", 0.1, 10, 1)), 2, "2", "Q: 2", "q:2", "Q:2.00")
	try("phase parameter", of(param.PhaseParameter(1, "p")), 90, "90", "90°", "90 °", "90deg")
}

// p07: a parameter carries exactly what its builder was told, in any order.
func p07(r *core.Run) {
	type model struct {
		short, unit   string
		min, max      float64
		def           float64
		steps         int32
		flags         uint32
		defOpen, text bool
	}
	type op struct {
		name string
		do   func(b *param.Builder) *param.Builder
		spec func(m *model)
	}
	rng := func(lo, hi float64) op {
		return op{fmt.Sprintf("Range(%v,%v)", lo, hi), func(b *param.Builder) *param.Builder { return b.Range(lo, hi) },
			func(m *model) { m.min, m.max = lo, hi; m.defOpen = m.def != 0 }}
	}
	def := func(v float64) op {
		return op{fmt.Sprintf("Default(%v)", v), func(b *param.Builder) *param.Builder { return b.Default(v) }, func(m *model) {
			if m.max > m.min {
				m.def, m.defOpen = clamp01((v-m.min)/(m.max-m.min)), false
			}
		}}
	}
	flags := func(f uint32) op {
		return op{fmt.Sprintf("Flags(%#x)", f), func(b *param.Builder) *param.Builder { return b.Flags(f) }, func(m *model) { m.flags = f }}
	}
	ops := []op{
		rng(-20, 60), rng(0, 1), rng(5, 5), def(0), def(0.5), def(-100), def(50),
		flags(0), flags(param.CanAutomate), flags(param.IsReadOnly | param.IsList), flags(param.IsWrapAround | param.IsProgramChange | param.CanAutomate),
		{"ShortName", func(b *param.Builder) *param.Builder { return b.ShortName("sn") }, func(m *model) { m.short = "sn" }},
		{"Unit", func(b *param.Builder) *param.Builder { return b.Unit("u") }, func(m *model) { m.unit = "u" }},
		{"Steps(3)", func(b *param.Builder) *param.Builder { return b.Steps(3) }, func(m *model) { m.steps = 3 }},
		{"Toggle", func(b *param.Builder) *param.Builder { return b.Toggle() }, func(m *model) { m.min, m.max, m.steps, m.def, m.defOpen = 0, 1, 1, 0, false }},
		{"ReadOnly", func(b *param.Builder) *param.Builder { return b.ReadOnly() }, func(m *model) { m.flags = m.flags&^param.CanAutomate | param.IsReadOnly }},
		{"Hidden", func(b *param.Builder) *param.Builder { return b.Hidden() }, func(m *model) { m.flags |= param.IsHidden }},
		{"Bypass", func(b *param.Builder) *param.Builder { return b.Bypass() }, func(m *model) { m.flags |= param.IsBypass }},
		{"Formatter", func(b *param.Builder) *param.Builder {
			return b.Formatter(func(v float64) string { return fmt.Sprintf("<%g>", v) }, func(s string) (float64, error) {
				var v float64
				_, err := fmt.Sscanf(s, "<%g>", &v)
				return v, err
			})
		}, func(m *model) { m.text = true }},
	}
	D := r.Pick(5, 6)
	r.Bound("builder_alphabet", len(ops))
	r.Bound("builder_depth", D)
	r.Each(len(ops)*len(ops), func(i int) string { return ops[i/len(ops)].name + "; " + ops[i%len(ops)].name }, func(i int, w *core.Worker) {
		n := int64(0)
		for d := 0; d <= D-2; d++ {
			core.Tuples(d, len(ops), func(v []int) bool {
				seq := append([]int{i / len(ops), i % len(ops)}, v...)
				m := model{short: "name", max: 1, flags: param.CanAutomate}
				b := param.New(77, "name")
				for _, k := range seq {
					b = ops[k].do(b)
					ops[k].spec(&m)
				}
				p := b.Build()
				n++
				bad := ""
				switch {
				case p.ID != 77 || p.Name != "name":
					bad = "ID or name changed"
				case p.ShortName != m.short || p.Unit != m.unit || p.UnitID != 0:
					bad = "short name or unit"
				case p.Min != m.min || p.Max != m.max:
					bad = fmt.Sprintf("range, want [%v,%v]", m.min, m.max)
				case p.StepCount != m.steps:
					bad = fmt.Sprintf("step count, want %d", m.steps)
				case p.Flags != m.flags:
					bad = fmt.Sprintf("flags, want %#x", m.flags)
				case !(p.DefaultValue >= 0 && p.DefaultValue <= 1) || p.GetValue() != p.DefaultValue:
					bad = "does not start at its default in 0..1"
				case !m.defOpen && math.Abs(p.DefaultValue-m.def) > 1e-12:
					bad = fmt.Sprintf("default, want %v", m.def)
				}
				if bad == "" {
					x := m.min + 0.25*(m.max-m.min)
					want := fmt.Sprintf("%.2f", x)
					if m.steps > 0 {
						want = fmt.Sprintf("%.0f", x)
					}
					if m.text {
						want = fmt.Sprintf("<%g>", x)
					}
					if s := p.FormatValue(0.25); s != want {
						bad = fmt.Sprintf("a quarter displays as %q, want %q", s, want)
					}
				}
				if bad != "" {
					var t []string
					for _, k := range seq {
						t = append(t, ops[k].name)
					}
					r.Failf("builder", "%s: %s: %+v", strings.Join(t, "; "), bad, p)
					return false
				}
				return true
			})
		}
		r.Count(n, n*int64(D))
		r.Nontrivial(n)
	})
	// ready-made parameters declare what their documentation says
	type kind struct {
		b             *param.Builder
		min, max, def float64
		unit          string
		flags         uint32
		steps         int32
	}
	for k, c := range []kind{
		{param.GainParameter(9, "n"), -80, 12, 0, "dB", param.CanAutomate, 0},
		{param.MixParameter(9, "n"), 0, 100, 100, "%", param.CanAutomate, 0},
		{param.FrequencyParameter(9, "n", 30, 18000, 440), 30, 18000, 440, "Hz", param.CanAutomate, 0},
		{param.TimeParameter(9, "n", 2, 900, 77), 2, 900, 77, "ms", param.CanAutomate, 0},
		{param.RatioParameter(9, "n", 1.5, 30, 3), 1.5, 30, 3, "", param.CanAutomate, 0},
		{param.QParameter(9, "n", 0.2, 12, 0.8), 0.2, 12, 0.8, "", param.CanAutomate, 0},
		{param.PanParameter(9, "n"), -100, 100, 0, "", param.CanAutomate, 0},
		{param.PhaseParameter(9, "n"), 0, 360, 0, "°", param.CanAutomate, 0},
		{param.FeedbackParameter(9, "n"), 0, 100, 0, "%", param.CanAutomate, 0},
		{param.ResonanceParameter(9, "n"), 0, 1, 0.707, "", param.CanAutomate, 0},
		{param.DriveParameter(9, "n"), 0, 100, 0, "%", param.CanAutomate, 0},
		{param.OutputLevelMeter(9, "n"), -60, 0, -60, "dB", param.IsReadOnly, 0},
		{param.ThresholdParameter(9, "n", -48, 6, -12), -48, 6, -12, "dB", param.CanAutomate, 0},
		{param.AttackParameter(9, "n", 250), 0.1, 250, 10, "ms", param.CanAutomate, 0},
		{param.ReleaseParameter(9, "n", 2500), 1, 2500, 100, "ms", param.CanAutomate, 0},
		{param.RateParameter(9, "n", 0.02, 15, 3), 0.02, 15, 3, "Hz", param.CanAutomate, 0},
		{param.DepthParameter(9, "n"), 0, 100, 50, "%", param.CanAutomate, 0},
		{param.BypassParameter(9, "n"), 0, 1, 0, "", param.CanAutomate, 1},
	} {
		p := c.b.Build()
		if p.ID != 9 || p.Name != "n" || p.Min != c.min || p.Max != c.max || p.Unit != c.unit || p.Flags != c.flags || p.StepCount != c.steps ||
			math.Abs(p.GetPlainValue()-c.def) > 1e-9*math.Max(1, c.max) || p.GetValue() != p.DefaultValue {
			r.Failf("kinds", "ready-made parameter %d declares %+v (plain value %v), want %+v", k, p, p.GetPlainValue(), c)
		}
		r.Count(1, 1)
	}
	r.Sample("Range(-20,60); Default(50); ReadOnly; Hidden")
}

// p06: smoothers.
func p06(r *core.Run) {
	type sm struct {
		kind param.SmoothingType
		name string
		rate float64
	}
	kinds := []sm{{param.LinearSmoothing, "linear", 4}, {param.LinearSmoothing, "linear", 1}, {param.LinearSmoothing, "linear", 7.5},
		{param.LinearSmoothing, "linear", 0}, {param.LinearSmoothing, "linear", 480},
		{param.ExponentialSmoothing, "exponential", 0.5}, {param.ExponentialSmoothing, "exponential", 0.9}, {param.ExponentialSmoothing, "exponential", 0},
		{param.ExponentialSmoothing, "exponential", 0.999}, {param.LogarithmicSmoothing, "logarithmic", 5}, {param.LogarithmicSmoothing, "logarithmic", 1},
		{param.LogarithmicSmoothing, "logarithmic", 100}}
	targets := []float64{0, 1, 0.5, 0.25, -2, 440, 0.0005, 0.30005}
	logTargets := []float64{1, 0.5, 20, 20000, 0, 0.002, 0.0005}
	// a history: pairs (target, number of samples taken before the next
	// target); after the last target the smoother must settle.
	waits := []int{0, 1, 2, 5, 2000}
	for _, k := range kinds {
		tg := targets
		if k.kind == param.LogarithmicSmoothing {
			tg = logTargets
		}
		k := k
		depth := r.Pick(3, 4)
		settle := func(from, to float64) int { // samples the smoother may need
			switch k.kind {
			case param.ExponentialSmoothing:
				if k.rate <= 0 {
					return 1
				}
				return int(math.Ceil(math.Log(1e-4/(math.Abs(from-to)+1e-3))/math.Log(k.rate))) + 2
			}
			return int(math.Ceil(k.rate)) + 2
		}
		alpha := len(tg) * len(waits)
		n := 1
		for i := 0; i < depth; i++ {
			n *= alpha
		}
		chunk := n / alpha
		r.Each(alpha, func(i int) string { return fmt.Sprintf("%s(%v) history group %d", k.name, k.rate, i) }, func(g int, w *core.Worker) {
			for c := 0; c < chunk; c++ {
				if r.Expired() || r.Failed("smoother:"+k.name) {
					return
				}
				code := g*chunk + c
				s := param.NewSmoother(k.kind, k.rate)
				start := tg[0]
				s.Reset(start)
				cur := start
				target := start
				desc := fmt.Sprintf("%s(%v) from %v:", k.name, k.rate, start)
				check := func(v float64) string {
					lo, hi := math.Min(cur, target), math.Max(cur, target)
					e := 1e-9 * (1 + math.Abs(hi) + math.Abs(lo))
					if !(v >= lo-e && v <= hi+e) {
						return fmt.Sprintf("%s output %v leaves the way from %v to %v", desc, v, cur, target)
					}
					cur = v
					return ""
				}
				bad := ""
				x := code
				for d := 0; d < depth && bad == ""; d++ {
					t, wt := tg[x%len(tg)], waits[x/len(tg)%len(waits)]
					x /= alpha
					if d < depth-1 && wt == 2000 && k.name == "exponential" && k.rate == 0.999 {
						wt = 300
					}
					s.SetTarget(t)
					if math.Abs(t-target) >= 1e-4 {
						target = t
					}
					desc += fmt.Sprintf(" target %v,", t)
					if d == depth-1 {
						break
					}
					for i := 0; i < wt && bad == ""; i++ {
						bad = check(s.Next())
					}
					desc += fmt.Sprintf(" %d samples;", wt)
				}
				if bad == "" {
					nn := settle(cur, target)
					for i := 0; i < nn && bad == ""; i++ {
						bad = check(s.Next())
					}
					if bad == "" && (math.Abs(cur-target) > 1e-9*(1+math.Abs(target)) || s.IsSmoothing()) {
						bad = fmt.Sprintf("%s is at %v (still smoothing: %v) %d samples later", desc, cur, s.IsSmoothing(), nn)
					}
					if v := s.Next(); bad == "" && v != cur {
						bad = fmt.Sprintf("%s moved from %v to %v after it finished", desc, cur, v)
					}
				}
				if bad != "" {
					r.Fail("smoother:"+k.name, bad, map[string]any{"history": desc})
				}
				r.Count(1, int64(depth))
			}
		})
		r.Trace(int64(n))
		r.Nontrivial(int64(n))
	}
	p06histories(r)
	// linear ramps hit the exact straight line; logarithmic ones the geometric line
	for _, from := range []float64{0, 1, -3, 100} {
		for _, to := range []float64{0, 1, 5, 1000} {
			for _, n := range []int{1, 2, 10, 64, 441} {
				if from == to {
					continue
				}
				s := param.NewSmoother(param.LinearSmoothing, float64(n))
				s.Reset(from)
				s.SetTarget(to)
				for i := 1; i <= n; i++ {
					v := s.Next()
					if want := from + (to-from)*float64(i)/float64(n); math.Abs(v-want) > 1e-6*(math.Abs(from)+math.Abs(to)) {
						r.Failf("line", "linear %v->%v in %d: sample %d is %v, want %v", from, to, n, i, v, want)
						break
					}
				}
				if from > 0 && to > 0 {
					s := param.NewSmoother(param.LogarithmicSmoothing, float64(n))
					s.Reset(from)
					s.SetTarget(to)
					for i := 1; i <= n; i++ {
						v := s.Next()
						if want := from * math.Pow(to/from, float64(i)/float64(n)); math.Abs(v-want) > 1e-6*want {
							r.Failf("line", "logarithmic %v->%v in %d: sample %d is %v, want %v", from, to, n, i, v, want)
							break
						}
					}
				}
				r.Count(1, int64(n))
			}
		}
	}
	// smoothed parameters: every history of writes through any of the
	// handles, enabling and disabling, then settles on the parameter's value.
	type spI struct {
		p  *param.Parameter
		ps *param.ParameterSmoother
		sp *param.SmoothedParameter
	}
	for _, k := range []sm{{param.LinearSmoothing, "linear", 4}, {param.ExponentialSmoothing, "exponential", 0.5}, {param.LogarithmicSmoothing, "logarithmic", 4}} {
		for _, rg := range [][2]float64{{1, 11}, {20, 20000}} {
			k, rg := k, rg
			h := &core.Hist[*spI, *int]{Name: fmt.Sprintf("smoothedparam-%s[%v,%v]", k.name, rg[0], rg[1]),
				New: func() *spI {
					p := param.New(3, "x").Range(rg[0], rg[1]).Default(rg[0]).Build()
					ps := param.NewParameterSmoother()
					ps.Add(3, p, k.kind, k.rate)
					sp, _ := ps.Get(3)
					return &spI{p, ps, sp}
				},
				Model: func() *int { return new(int) },
			}
			do := func(name string, f func(i *spI)) {
				h.Ops = append(h.Ops, core.HOp[*spI, *int]{Name: name, Do: func(i *spI) string { f(i); return "" }, Spec: func(*int) string { return "" }})
			}
			do("manager.SetValue(1)", func(i *spI) { i.ps.SetValue(3, 1) })
			do("manager.SetValue(0.25)", func(i *spI) { i.ps.SetValue(3, 0.25) })
			do("smoothed.SetValue(0.5)", func(i *spI) { i.sp.SetValue(0.5) })
			do("parameter.SetValue(0.75)", func(i *spI) { i.p.SetValue(0.75) })
			do("parameter.SetPlainValue(min)", func(i *spI) { i.sp.SetPlainValue(rg[0]) })
			do("SetSmoothing(false)", func(i *spI) { i.ps.SetSmoothing(3, false) })
			do("SetSmoothing(true)", func(i *spI) { i.ps.SetSmoothing(3, true) })
			do("sample", func(i *spI) { i.ps.GetSmoothed(3) })
			do("UpdateAll", func(i *spI) { i.ps.UpdateAll() })
			do("SetSmoothingRate(2x)", func(i *spI) { i.sp.SetSmoothingRate(k.rate / 2) })
			h.Inv = func(i *spI, _ *int) string { return "" }
			last := func(i *spI) string {
				// settle
				prev := i.ps.GetSmoothed(3)
				want := i.p.GetPlainValue()
				for n := 0; n < 64; n++ {
					v := i.ps.GetSmoothed(3)
					e := 1e-9 * (rg[1] + 1)
					if (prev <= want && (v < prev-e || v > want+e)) || (prev > want && (v > prev+e || v < want-e)) {
						return fmt.Sprintf("went from %v to %v on the way to %v", prev, v, want)
					}
					prev = v
				}
				if math.Abs(prev-want) > 2e-4 {
					return fmt.Sprintf("settles on %v, the parameter is %v", prev, want)
				}
				return "settled"
			}
			h.Ops = append(h.Ops, core.HOp[*spI, *int]{Name: "settle", Do: last, Spec: func(*int) string { return "settled" }})
			h.Run(r, r.Pick(5, 6))
		}
	}
	// two managed parameters against reference smoothers that follow them
	type mgM struct {
		v   [2]float64
		on  [2]bool
		ref [2]*smoothm
	}
	rgs := [2][2]float64{{1, 11}, {2, 20}}
	for _, k := range []sm{{param.LinearSmoothing, "linear", 4}, {param.LinearSmoothing, "linear", 200}, {param.ExponentialSmoothing, "exponential", 0.5}, {param.LogarithmicSmoothing, "logarithmic", 4}} {
		k := k
		plain := func(m *mgM, i int) float64 { return rgs[i][0] + m.v[i]*(rgs[i][1]-rgs[i][0]) }
		get := func(m *mgM, i int) float64 {
			if !m.on[i] {
				return plain(m, i)
			}
			m.ref[i].target(plain(m, i))
			return m.ref[i].next()
		}
		set := func(m *mgM, i int, v float64) { m.v[i] = v }
		write := func(m *mgM, i int, v float64) {
			m.v[i] = v
			if m.on[i] {
				m.ref[i].target(plain(m, i))
			}
		}
		var ops []nop[*param.ParameterSmoother, *mgM]
		sp := func(i *param.ParameterSmoother, k int) *param.SmoothedParameter { q, _ := i.Get(uint32(3 + k)); return q }
		add := func(name string, f func(i *param.ParameterSmoother) []float64, g func(m *mgM) []float64) {
			ops = append(ops, nop[*param.ParameterSmoother, *mgM]{name, f, g})
		}
		none := func(f func(i *param.ParameterSmoother)) func(i *param.ParameterSmoother) []float64 {
			return func(i *param.ParameterSmoother) []float64 { f(i); return nil }
		}
		for _, n := range []int{1, 3} {
			n := n
			add(fmt.Sprintf("%d samples of the first", n), func(i *param.ParameterSmoother) []float64 {
				return times(n, func() float64 { return i.GetSmoothed(3) })
			}, func(m *mgM) []float64 { return times(n, func() float64 { return get(m, 0) }) })
		}
		add("a sample of both", func(i *param.ParameterSmoother) []float64 {
			return []float64{sp(i, 0).GetSmoothedValue(), i.GetSmoothed(4)}
		}, func(m *mgM) []float64 { return []float64{get(m, 0), get(m, 1)} })
		add("UpdateAll", none(func(i *param.ParameterSmoother) { i.UpdateAll() }), func(m *mgM) []float64 { get(m, 0); get(m, 1); return nil })
		add("manager.SetValue(1)", none(func(i *param.ParameterSmoother) { i.SetValue(3, 1) }), func(m *mgM) []float64 { write(m, 0, 1); return nil })
		add("smoothed.SetValue(0.25)", none(func(i *param.ParameterSmoother) { sp(i, 0).SetValue(0.25) }), func(m *mgM) []float64 { write(m, 0, 0.25); return nil })
		add("parameter.SetValue(0.75)", none(func(i *param.ParameterSmoother) { sp(i, 0).Parameter.SetValue(0.75) }), func(m *mgM) []float64 { set(m, 0, 0.75); return nil })
		add("second.SetValue(0.5)", none(func(i *param.ParameterSmoother) { sp(i, 1).Parameter.SetValue(0.5) }), func(m *mgM) []float64 { set(m, 1, 0.5); return nil })
		add("unknown parameter", func(i *param.ParameterSmoother) []float64 { i.SetValue(5, 1); i.SetSmoothing(5, false); return []float64{i.GetSmoothed(5)} },
			func(m *mgM) []float64 { return []float64{0} })
		for _, on := range []bool{false, true} {
			on := on
			add(fmt.Sprintf("smoothing %v", on), none(func(i *param.ParameterSmoother) { i.SetSmoothing(3, on) }), func(m *mgM) []float64 {
				if on != m.on[0] || !on {
					m.ref[0].cur, m.ref[0].to, m.ref[0].moving = plain(m, 0), plain(m, 0), false
				}
				m.on[0] = on
				return nil
			})
		}
		add("sample rate", none(func(i *param.ParameterSmoother) { sp(i, 0).UpdateSampleRate(1000, 8) }), func(m *mgM) []float64 {
			switch k.kind {
			case param.LinearSmoothing:
				m.ref[0].rate = 8
			case param.ExponentialSmoothing:
				m.ref[0].rate = math.Exp(-6.908 / 8)
			}
			return nil
		})
		h := nhist[*param.ParameterSmoother, *mgM]{name: fmt.Sprintf("managed_%s_%v", k.name, k.rate), tol: 1e-9, ops: ops,
			mk: func() *param.ParameterSmoother {
				ps := param.NewParameterSmoother()
				for i, rg := range rgs {
					ps.Add(uint32(3+i), param.New(uint32(3+i), "x").Range(rg[0], rg[1]).Default(rg[0]).Build(), k.kind, k.rate)
				}
				return ps
			},
			model: func() *mgM {
				m := &mgM{on: [2]bool{true, true}}
				for i, rg := range rgs {
					m.ref[i] = &smoothm{kind: k.kind, rate: k.rate, thr: 1e-4, cur: rg[0], to: rg[0]}
				}
				return m
			},
			inv: func(i *param.ParameterSmoother, m *mgM) string { return "" }}
		h.run(r, r.Pick(5, 6))
	}
	// -60 dB in the requested time
	for _, sr := range []float64{8000, 44100, 48000, 96000} {
		for _, ms := range []float64{1, 5, 20, 100} {
			for _, kind := range []param.SmoothingType{param.LinearSmoothing, param.ExponentialSmoothing} {
				p := param.New(1, "x").Range(0, 100).Build()
				sp := param.NewSmoothedParameter(p, kind, 0.5)
				sp.UpdateSampleRate(sr, ms)
				sp.SetValue(1)
				n := int(math.Ceil(sr * ms / 1000))
				v := 0.0
				half := 0.0
				for i := 0; i < n; i++ {
					v = sp.GetSmoothedValue()
					if i == n/20 {
						half = v
					}
				}
				if math.Abs(v-100) > 0.11 {
					r.Failf("time", "smoothing set to %v ms at %v Hz (kind %d) is at %v%% after that time", ms, sr, kind, v)
				}
				if n >= 40 && half > 50 {
					r.Failf("time", "smoothing set to %v ms at %v Hz (kind %d) is already at %v%% after a twentieth of that time", ms, sr, kind, half)
				}
				r.Count(1, int64(n))
			}
		}
	}
	r.Sample("linear(4) from 0: target 1, 2 samples; target 0.25, settles in 4 samples")
}

// smoothm is the reference smoother: a ramp from where it was to the target.
type smoothm struct {
	kind             param.SmoothingType
	rate, thr        float64
	cur, from, to, n float64
	steps            float64
	moving           bool
}

func (m *smoothm) target(t float64) {
	if math.Abs(t-m.to) < m.thr {
		return
	}
	m.from, m.to, m.n, m.steps, m.moving = m.cur, t, m.rate, 0, true
}

func (m *smoothm) next() float64 {
	if !m.moving {
		return m.cur
	}
	m.steps++
	f := m.steps / m.n
	switch {
	case m.kind == param.ExponentialSmoothing:
		m.cur += (m.to - m.cur) * (1 - m.rate)
		if math.Abs(m.cur-m.to) < m.thr {
			m.cur, m.moving = m.to, false
		}
	case m.n <= 0 || f >= 1-1e-9 || m.from == m.to:
		m.cur, m.moving = m.to, false
	case m.kind == param.LinearSmoothing:
		m.cur = m.from + (m.to-m.from)*f
	default:
		m.cur = m.from * math.Pow(m.to/m.from, f)
	}
	return m.cur
}

// p06histories runs every history of targets, samples, resets, rates and
// thresholds against the reference smoother.
func p06histories(r *core.Run) {
	type I = *param.Smoother
	type M = *smoothm
	for _, k := range []struct {
		kind  param.SmoothingType
		name  string
		rates []float64
	}{{param.LinearSmoothing, "linear", []float64{4, 1, 0, 7.5, 480}}, {param.ExponentialSmoothing, "exponential", []float64{0.5, 0.9, 0, 0.999}}, {param.LogarithmicSmoothing, "logarithmic", []float64{4, 0, 7.5, 200}}} {
		k := k
		var ops []nop[I, M]
		for _, n := range []int{1, 3, 60} {
			n := n
			ops = append(ops, nop[I, M]{fmt.Sprintf("%d samples", n), func(i I) []float64 { return times(n, i.Next) }, func(m M) []float64 { return times(n, m.next) }})
		}
		ops = append(ops, nop[I, M]{"block of 2", func(i I) []float64 {
			b := []float32{1, 2}
			var o []float64
			i.Process(b, func(v float64, x float32) float32 { o = append(o, v); return 3 * x })
			return append(o, f64s(b)...)
		}, func(m M) []float64 { return append(times(2, m.next), 3, 6) }})
		for _, t := range []float64{1, 0.25, 8, 1.05} {
			t := t
			ops = append(ops, sets(fmt.Sprint("target ", t), func(i I) { i.SetTarget(t) }, func(m M) { m.target(t) }))
		}
		for _, v := range []float64{1, 2} {
			v := v
			ops = append(ops, sets(fmt.Sprint("reset ", v), func(i I) { i.Reset(v) }, func(m M) { m.cur, m.to, m.moving = v, v, false }))
		}
		ops = append(ops, sets("threshold 0.1", func(i I) { i.SetThreshold(0.1) }, func(m M) { m.thr = 0.1 }))
		if k.kind == param.ExponentialSmoothing {
			ops = append(ops, sets("rate 0.8", func(i I) { i.SetRate(0.8) }, func(m M) { m.rate = 0.8 }))
		} else {
			ops = append(ops, sets("rate 2", func(i I) { i.SetRate(2) }, func(m M) { m.rate = 2 }))
		}
		for _, rate := range k.rates {
			rate := rate
			h := nhist[I, M]{name: fmt.Sprintf("smoother_%s_%v", k.name, rate), tol: 1e-9, ops: ops,
				mk:    func() I { s := param.NewSmoother(k.kind, rate); s.Reset(1); return s },
				model: func() M { return &smoothm{kind: k.kind, rate: rate, thr: 1e-4, cur: 1, to: 1} },
				inv: func(i I, m M) string {
					if i.IsSmoothing() && !m.moving && m.cur != m.to {
						return "still smoothing"
					}
					if !i.IsSmoothing() && m.moving {
						return "no longer smoothing although the target was not reached"
					}
					return ""
				}}
			h.run(r, r.Pick(5, 6))
		}
	}
}
