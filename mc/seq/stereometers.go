package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/verifmc/core"
)

// ---- P62: stereo meters ----

type sblock struct{ l, r []float64 }

func (b sblock) String() string { return fmt.Sprint(b.l, b.r) }

// stereoBlocks has dyadic values only, so that means and variances are exact.
var stereoBlocks = []sblock{
	{[]float64{0.5}, []float64{-0.5}},
	{[]float64{1}, []float64{0.5}},
	{[]float64{0, 0, 0, 0}, []float64{0, 0, 0, 0}},
	{[]float64{0.5, -1, 0.25}, []float64{0.5, -1, 0.25}},
	{[]float64{0, 0}, []float64{1, -0.5}},
	{[]float64{0.5, 1, -0.25, -1, 0, 0.5}, []float64{1, -0.25, -1, 0.5, 0.5, 0}},
	{[]float64{0.25, -0.5, 0.75, 1}, []float64{-0.25, 0.5, -0.75, -1}},
}

type cmm struct {
	l, r                        []float64
	avg, hold, holdTime, sr, co float64
	left                        int
}

func pearson(l, r []float64) float64 {
	n := float64(len(l))
	ml, mr := 0.0, 0.0
	for i := range l {
		ml += l[i] / n
		mr += r[i] / n
	}
	a, b, c := 0.0, 0.0, 0.0
	for i := range l {
		a += (l[i] - ml) * (r[i] - mr)
		b += (l[i] - ml) * (l[i] - ml)
		c += (r[i] - mr) * (r[i] - mr)
	}
	switch {
	case b == 0 && c == 0:
		return 1
	case b == 0 || c == 0:
		return 0
	}
	return a / math.Sqrt(b*c)
}

func (m *cmm) process(b sblock) {
	m.l, m.r = append(m.l, b.l...), append(m.r, b.r...)
	if len(m.l) < 4 {
		return
	}
	c := pearson(m.l[len(m.l)-4:], m.r[len(m.r)-4:])
	m.co = m.co*m.avg + c*(1-m.avg)
	if c < m.hold {
		m.hold, m.left = c, int(m.holdTime*m.sr)
		return
	}
	if m.left -= len(b.l); m.left <= 0 {
		m.hold, m.left = m.co, 0
	}
}

type pwm struct{ pl, pr, pm, ps float64 }

func (m *pwm) process(b sblock) {
	if len(b.l) == 0 {
		return
	}
	n := float64(len(b.l))
	add := func(p *float64, f func(l, r float64) float64) {
		s := 0.0
		for i := range b.l {
			s += f(b.l[i], b.r[i]) * f(b.l[i], b.r[i])
		}
		*p = *p*0.95 + s/n*0.05
	}
	add(&m.pl, func(l, r float64) float64 { return l })
	add(&m.pr, func(l, r float64) float64 { return r })
	add(&m.pm, func(l, r float64) float64 { return (l + r) / 2 })
	add(&m.ps, func(l, r float64) float64 { return (l - r) / 2 })
}

func (m *pwm) see() []float64 {
	bal, w := 0.0, 0.0
	if m.pl+m.pr > 0 {
		bal = (m.pr - m.pl) / (m.pl + m.pr)
	}
	if m.pm > 0 {
		w = math.Sqrt(m.ps / m.pm)
	} else if m.ps > 0 {
		w = math.Inf(1)
	}
	dbr := func(a, b float64) float64 {
		switch {
		case a == 0 && b == 0:
			return math.NaN()
		case b == 0:
			return math.Inf(1)
		}
		return dbinf(math.Sqrt(a / b))
	}
	bdb := dbr(m.pr, m.pl)
	if math.IsNaN(bdb) {
		bdb = 0
	}
	wdb := dbr(m.ps, m.pm)
	if math.IsNaN(wdb) {
		wdb = math.Inf(-1)
	}
	return []float64{bal, bdb, w, wdb}
}

type psm struct {
	n           int
	l, r, x, y  []float64
	bright      []float64
	rot         bool
	scale, fade float64
}

func (m *psm) process(b sblock) {
	for i := range m.bright {
		m.bright[i] *= m.fade
	}
	for i := range b.l {
		l, r := b.l[i]*m.scale, b.r[i]*m.scale
		if m.rot {
			l, r = (l-r)/math.Sqrt2, (l+r)/math.Sqrt2
		}
		m.l, m.r = append(m.l, b.l[i]), append(m.r, b.r[i])
		m.x, m.y = append(m.x, l), append(m.y, r)
		m.bright = append(m.bright, 1)
	}
	if k := len(m.l) - m.n; k > 0 {
		m.l, m.r, m.x, m.y, m.bright = m.l[k:], m.r[k:], m.x[k:], m.y[k:], m.bright[k:]
	}
}

// see lists points, polar data and statistics; the dominant angle is that of
// a line, so it counts doubled, and only where there is one.
func (m *psm) see() []float64 {
	var o []float64
	mid, side, rad, sx, cx, n := 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
	for i := range m.l {
		l, r := m.l[i], m.r[i]
		rr := math.Hypot(l, r)
		o = append(o, m.x[i], m.y[i], m.bright[i], rr*m.scale, l*m.scale, r*m.scale)
		mid += math.Abs(l+r) / 2
		side += math.Abs(l-r) / 2
		rad = math.Max(rad, rr)
		if rr > 0 {
			sx += 2 * l * r / rr / rr
			cx += (l*l - r*r) / rr / rr
			n++
		}
	}
	if len(m.l) == 0 {
		return append(o, 0, 0, 0, 0, 0, 0, 0)
	}
	k := float64(len(m.l))
	w := 0.0
	if mid > 0 {
		w = side / mid
	} else if side > 0 {
		w = math.Inf(1)
	}
	o = append(o, mid/k, side/k, rad, w)
	res := math.Hypot(sx, cx)
	if res < 1e-9 {
		return append(o, 0, 0, 0)
	}
	mean := math.Atan2(sx, cx) / 2
	v := 0.0
	for i := range m.l {
		if l, r := m.l[i], m.r[i]; l != 0 || r != 0 {
			d := math.Abs(math.Atan2(r, l) - mean)
			for d > math.Pi/2 {
				d = math.Abs(d - math.Pi)
			}
			v += d * d / n
		}
	}
	return append(o, sx/res, cx/res, 1/(1+math.Sqrt(v)))
}

func seeScope(i *analysis.PhaseScope, scale float64, m *psm) []float64 {
	var o []float64
	p, b := i.GetPoints()
	rad, ang, br := i.GetPolarData()
	if len(p) != len(b) || len(p) != len(rad) || len(p) != len(ang) || len(p) != len(br) {
		return nil
	}
	for k := range p {
		if b[k] != br[k] {
			return nil
		}
		o = append(o, p[k].X, p[k].Y, b[k], rad[k], rad[k]*math.Cos(ang[k]), rad[k]*math.Sin(ang[k]))
	}
	return append(o, seeStats(i.GetStatistics(), m)...)
}

// seeStats leaves out the angle where the reference has none.
func seeStats(s analysis.PhaseScopeStats, m *psm) []float64 {
	o := []float64{s.AverageMid, s.AverageSide, s.MaxRadius, s.Width}
	want := m.see()
	if w := want[len(want)-3:]; w[0] == 0 && w[1] == 0 && w[2] == 0 {
		bad := 0.0
		if !(s.PhaseConcentration >= 0 && s.PhaseConcentration <= 1) {
			bad = 1
		}
		return append(o, 0, 0, bad)
	}
	return append(o, math.Sin(2*s.DominantAngle), math.Cos(2*s.DominantAngle), s.PhaseConcentration)
}

func p62(r *core.Run) {
	if !r.Shard0() {
		return
	}
	{
		type op = nop[*analysis.CorrelationMeter, *cmm]
		see := func(i *analysis.CorrelationMeter) []float64 {
			c := i.GetCorrelation()
			return []float64{c, i.GetPeakHold(), i.GetMonoCompatibility(), status(i.GetPhaseStatus(), c)}
		}
		seem := func(m *cmm) []float64 { return []float64{m.co, m.hold, (m.co + 1) / 2, 0} }
		var ops []op
		for _, b := range stereoBlocks {
			b := b
			ops = append(ops, op{fmt.Sprint("Process", b), func(i *analysis.CorrelationMeter) []float64 { i.Process(b.l, b.r); return see(i) }, func(m *cmm) []float64 { m.process(b); return seem(m) }})
		}
		ops = append(ops, op{"Process([1] [])", func(i *analysis.CorrelationMeter) []float64 { i.Process([]float64{1}, nil); return see(i) }, seem})
		for _, a := range []float64{0, 0.5, 1, -1, 2} {
			a := a
			ops = append(ops, sets(fmt.Sprintf("SetAveraging(%v)", a), func(i *analysis.CorrelationMeter) { i.SetAveraging(a) }, func(m *cmm) {
				if a >= 0 && a <= 1 {
					m.avg = a
				}
			}))
		}
		for _, t := range []float64{0, 0.05} {
			t := t
			ops = append(ops, sets(fmt.Sprintf("SetPeakHoldTime(%v)", t), func(i *analysis.CorrelationMeter) { i.SetPeakHoldTime(t) }, func(m *cmm) { m.holdTime = t }))
		}
		ops = append(ops, op{"Reset", func(i *analysis.CorrelationMeter) []float64 { i.Reset(); return see(i) }, func(m *cmm) []float64 {
			*m = cmm{avg: m.avg, hold: 1, holdTime: m.holdTime, sr: m.sr}
			return seem(m)
		}})
		h := &nhist[*analysis.CorrelationMeter, *cmm]{"correlation meter", func() *analysis.CorrelationMeter { return analysis.NewCorrelationMeter(4, 100) },
			func() *cmm { return &cmm{avg: 0.9, hold: 1, holdTime: 3, sr: 100} }, ops, 1e-9, func(i *analysis.CorrelationMeter, m *cmm) string {
				if c := i.GetCorrelation(); !(c >= -1 && c <= 1) {
					return fmt.Sprint("correlation ", c)
				}
				return ""
			}}
		h.run(r, r.Pick(5, 6))
	}
	// the same signal at any two gains is fully correlated, inverted or not,
	// and balance, width and the scope's line follow the gains
	var gains []float64
	for g := -5; g <= 5; g++ {
		gains = append(gains, float64(g)/4)
	}
	r.Each(len(gains)*len(gains), func(i int) string { return fmt.Sprint("gains ", gains[i%11], " ", gains[i/11]) }, func(i int, w *core.Worker) {
		a, b := gains[i%11], gains[i/11]
		c := analysis.NewCorrelationMeter(64, 48000)
		c.SetAveraging(0)
		bm, sm, ps, vs, sf := analysis.NewBalanceMeter(64), analysis.NewStereoWidthMeter(64), analysis.NewPhaseScope(50), analysis.NewVectorScope(50), analysis.NewStereoFieldAnalyzer(64, 48000)
		ref := &pwm{}
		m := &psm{n: 50, scale: 1, fade: 0.95}
		for k := 0; k < 3; k++ {
			s := mat64(40, 40*k)
			x := sblock{make([]float64, 40), make([]float64, 40)}
			for j := range s {
				x.l[j], x.r[j] = a*s[j], b*s[j]
			}
			c.Process(x.l, x.r)
			bm.Process(x.l, x.r)
			sm.Process(x.l, x.r)
			ps.Process(x.l, x.r)
			vs.Process(x.l, x.r)
			sf.Process(x.l, x.r)
			ref.process(x)
			m.process(x)
		}
		want := 0.0
		switch {
		case a == 0 && b == 0, a*b > 0:
			want = 1
		case a*b < 0:
			want = -1
		}
		fail := func(sig string, got, exp any) {
			r.Failf(sig, "left at gain %v, right at gain %v: %s %v, want %v", a, b, sig, got, exp)
		}
		if got := c.GetCorrelation(); math.Abs(got-want) > 1e-9 {
			fail("correlation", got, want)
		}
		an := sf.GetAnalysis()
		p := ref.see()
		for k, got := range []float64{bm.GetBalance(), bm.GetBalanceDB(), sm.GetWidth(), sm.GetWidthDB()} {
			if !core.Close(got, p[k], 1e-9) {
				fail([]string{"balance", "balance in dB", "width", "width in dB"}[k], got, p[k])
			}
		}
		if !core.Close(an.Balance, p[0], 1e-9) || !core.Close(an.Width, p[2], 1e-9) || !core.Close(an.WidthDB, p[3], 1e-9) || status(an.PhaseStatus, an.Correlation) != 0 || an.MonoCompatibility != (an.Correlation+1)/2 {
			fail("analysis", an, p)
		}
		if a != 0 || b != 0 {
			st := ps.GetStatistics()
			line := math.Atan2(b, a)
			if d := math.Remainder(st.DominantAngle-line, math.Pi); !(math.Abs(d) < 1e-6) || !(st.PhaseConcentration > 1-1e-6) {
				fail("dominant angle", fmt.Sprint(st.DominantAngle, " with concentration ", st.PhaseConcentration), line)
			}
			if !core.Close(st.Width, math.Abs(a-b)/math.Abs(a+b), 1e-9) {
				fail("scope width", st.Width, math.Abs(a-b)/math.Abs(a+b))
			}
			got, exp := seeStats(vs.GetStatistics(), m), m.see()
			exp = exp[len(exp)-7:]
			for k := range exp {
				if !core.Close(got[k], exp[k], 1e-9) {
					fail("vector scope statistics", got, exp)
					break
				}
			}
		}
		// in goniometer display a mono signal is vertical, a side signal horizontal
		pts, _, grid, labels := vs.GetDisplay()
		if len(pts) != 50 || len(grid) == 0 || len(labels) == 0 {
			fail("display", len(pts), 50)
			return
		}
		for k, q := range pts {
			if x := m.l[k] * m.scale; math.Abs(math.Hypot(q.X, q.Y)-math.Hypot(m.l[k], m.r[k])) > 1e-12 || a == b && math.Abs(q.X) > 1e-12 || a == -b && math.Abs(q.Y) > 1e-12 || a == b && math.Abs(q.Y-x*math.Sqrt2) > 1e-12 {
				fail("goniometer", q, [2]float64{m.l[k], m.r[k]})
				return
			}
		}
		vs.Reset()
		pts, _, _, _ = vs.GetDisplay()
		for k, q := range pts {
			if q.X != 0 || q.Y != 0 {
				fail("display after a reset", fmt.Sprint(k, q), "nothing")
				return
			}
		}
		r.Count(1, 1)
		r.Nontrivial(1)
		r.Trace(1)
	})
	{
		type ins struct {
			b *analysis.BalanceMeter
			w *analysis.StereoWidthMeter
		}
		type op = nop[*ins, *pwm]
		var ops []op
		for _, b := range append(stereoBlocks, sblock{}) {
			b := b
			ops = append(ops, op{fmt.Sprint("Process", b), func(i *ins) []float64 {
				i.b.Process(b.l, b.r)
				i.w.Process(b.l, b.r)
				return []float64{i.b.GetBalance(), i.b.GetBalanceDB(), i.w.GetWidth(), i.w.GetWidthDB()}
			}, func(m *pwm) []float64 { m.process(b); return m.see() }})
		}
		h := &nhist[*ins, *pwm]{"balance and width meters", func() *ins { return &ins{analysis.NewBalanceMeter(4), analysis.NewStereoWidthMeter(4)} }, func() *pwm { return &pwm{} }, ops, 1e-9, nil}
		h.run(r, r.Pick(5, 6))
	}
	{
		type ins struct {
			*analysis.PhaseScope
			m *psm // a reference of its own, to know where there is no angle
		}
		type op = nop[*ins, *psm]
		var ops []op
		both := func(name string, do func(*ins), spec func(*psm)) {
			ops = append(ops, op{name, func(i *ins) []float64 { do(i); spec(i.m); return seeScope(i.PhaseScope, 1, i.m) }, func(m *psm) []float64 { spec(m); return m.see() }})
		}
		for _, b := range stereoBlocks {
			b := b
			both(fmt.Sprint("Process", b), func(i *ins) { i.Process(b.l, b.r) }, func(m *psm) { m.process(b) })
		}
		both("Process([1] [])", func(i *ins) { i.Process([]float64{1}, nil) }, func(m *psm) {})
		for k := 0; k < 3; k++ {
			k := k
			both(fmt.Sprintf("SetMode(%d)", k), func(i *ins) { i.SetMode(analysis.PhaseScopeMode(k)) }, func(m *psm) { m.rot = k == 1 })
		}
		for _, s := range []float64{2, -1} {
			s := s
			both(fmt.Sprintf("SetScale(%v)", s), func(i *ins) { i.SetScale(s) }, func(m *psm) {
				if s > 0 {
					m.scale = s
				}
			})
			both(fmt.Sprintf("SetDecay(%v)", s/4), func(i *ins) { i.SetDecay(s / 4) }, func(m *psm) {
				if s > 0 {
					m.fade = s / 4
				}
			})
		}
		both("SetDecay(0)", func(i *ins) { i.SetDecay(0) }, func(m *psm) { m.fade = 0 })
		both("SetDecay(1.5)", func(i *ins) { i.SetDecay(1.5) }, func(m *psm) {})
		both("Reset", func(i *ins) { i.PhaseScope.Reset() }, func(m *psm) { *m = psm{n: m.n, rot: m.rot, scale: m.scale, fade: m.fade} })
		h := &nhist[*ins, *psm]{"phase scope", func() *ins {
			return &ins{analysis.NewPhaseScope(5), &psm{n: 5, scale: 1, fade: 0.95}}
		}, func() *psm { return &psm{n: 5, scale: 1, fade: 0.95} }, ops, 1e-9, nil}
		h.run(r, r.Pick(5, 6))
	}
}

// status is 0 where the phase status is the documented one for correlation c.
func status(s analysis.PhaseStatus, c float64) float64 {
	want := analysis.PhaseOutOfPhase
	switch {
	case c > 0.9:
		want = analysis.PhaseInPhase
	case c > 0.5:
		want = analysis.PhaseMostlyInPhase
	case c > -0.5:
		want = analysis.PhasePartiallyCorrelated
	case c > -0.9:
		want = analysis.PhaseMostlyOutOfPhase
	}
	return float64(s - want)
}
