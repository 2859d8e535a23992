package conc

import (
	"fmt"
	"math"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	dspdebug "github.com/justyntemme/vst3go/pkg/dsp/debug"
	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/lin"
)

func init() { core.Register("P64", p64) }

// same gives an operation whose specification is the object itself, run alone.
func same(name string, f func(o any) string) lin.Op { return lin.Op{Name: name, Do: f, Spec: f} }

func show(v ...float64) string {
	var s []string
	for _, x := range v {
		s = append(s, fmt.Sprintf("%.9g", x+0))
	}
	return strings.Join(s, " ")
}

// diff is a family whose model is the same object used by one thread.
func diff(name string, mk func() any, final func(o any) string, ops ...lin.Op) *lin.Family {
	return &lin.Family{Name: name, New: mk, Model: mk, Final: final, FinalSpec: final, Alphabet: ops, Bound: -1}
}

// p64: meters and debugging tools shared by the audio thread and a display.
func p64(r *core.Run) {
	A, B := []float64{0.5, -0.25, 1}, []float64{-0.125, 0.75}
	AR, BR := []float64{0.5, 0.25, -1}, []float64{0.5, 0.25}
	get := func(name string, f func(o any) float64) lin.Op {
		return same(name, func(o any) string { return show(f(o)) })
	}
	do := func(name string, f func(o any)) lin.Op {
		return same(name, func(o any) string { f(o); return "" })
	}
	var fams []*lin.Family

	pk := func(o any) *analysis.PeakMeter { return o.(*analysis.PeakMeter) }
	fams = append(fams, diff("peak", func() any { m := analysis.NewPeakMeter(10); m.Process([]float64{0.6}); return m },
		func(o any) string { return show(pk(o).GetPeak(), pk(o).GetHold()) },
		do("Process(A)", func(o any) { pk(o).Process(A) }), do("Process(B)", func(o any) { pk(o).Process(B) }),
		get("GetPeak", func(o any) float64 { return pk(o).GetPeak() }), get("GetHold", func(o any) float64 { return pk(o).GetHold() }),
		get("GetPeakDB", func(o any) float64 { return pk(o).GetPeakDB() }), get("GetHoldDB", func(o any) float64 { return pk(o).GetHoldDB() }),
		do("SetHoldTime(0.1)", func(o any) { pk(o).SetHoldTime(0.1) }), do("SetDecayRate(60)", func(o any) { pk(o).SetDecayRate(60) }),
		do("Reset", func(o any) { pk(o).Reset() })))

	rm := func(o any) *analysis.RMSMeter { return o.(*analysis.RMSMeter) }
	fams = append(fams, diff("rms", func() any { m := analysis.NewRMSMeter(4); m.Process([]float64{0.6}); return m },
		func(o any) string { return show(rm(o).GetRMS()) },
		do("Process(A)", func(o any) { rm(o).Process(A) }), do("Process(B)", func(o any) { rm(o).Process(B) }),
		get("GetRMS", func(o any) float64 { return rm(o).GetRMS() }), get("GetRMSDB", func(o any) float64 { return rm(o).GetRMSDB() }),
		do("Reset", func(o any) { rm(o).Reset() })))

	lm := func(o any) *analysis.LUFSMeter { return o.(*analysis.LUFSMeter) }
	loud := make([]float64, 2*260)
	soft := make([]float64, 2*150)
	for i := range loud {
		loud[i] = 0.7 * math.Sin(float64(i)*0.9)
	}
	for i := range soft {
		soft[i] = 0.1 * math.Sin(float64(i)*1.1)
	}
	fams = append(fams, diff("lufs", func() any { m := analysis.NewLUFSMeter(1000, 2); m.Process(loud); return m },
		func(o any) string {
			return show(lm(o).GetMomentaryLUFS(), lm(o).GetShortTermLUFS(), lm(o).GetIntegratedLUFS(), lm(o).GetLoudnessRange())
		},
		do("Process(loud)", func(o any) { lm(o).Process(loud) }), do("Process(soft)", func(o any) { lm(o).Process(soft) }),
		get("Momentary", func(o any) float64 { return lm(o).GetMomentaryLUFS() }), get("ShortTerm", func(o any) float64 { return lm(o).GetShortTermLUFS() }),
		get("Integrated", func(o any) float64 { return lm(o).GetIntegratedLUFS() }), get("Range", func(o any) float64 { return lm(o).GetLoudnessRange() }),
		do("Reset", func(o any) { lm(o).Reset() })))

	cm := func(o any) *analysis.CorrelationMeter { return o.(*analysis.CorrelationMeter) }
	fams = append(fams, diff("correlation", func() any {
		m := analysis.NewCorrelationMeter(3, 10)
		m.SetAveraging(0.5)
		m.Process(A, AR)
		return m
	}, func(o any) string { return show(cm(o).GetCorrelation(), cm(o).GetPeakHold()) },
		do("Process(A)", func(o any) { cm(o).Process(A, AR) }), do("Process(B)", func(o any) { cm(o).Process(B, BR) }),
		get("GetCorrelation", func(o any) float64 { return cm(o).GetCorrelation() }), get("GetPeakHold", func(o any) float64 { return cm(o).GetPeakHold() }),
		same("GetPhaseStatus", func(o any) string { return cm(o).GetPhaseStatus().String() }), get("GetMonoCompatibility", func(o any) float64 { return cm(o).GetMonoCompatibility() }),
		do("SetAveraging(0)", func(o any) { cm(o).SetAveraging(0) }), do("SetPeakHoldTime(0.1)", func(o any) { cm(o).SetPeakHoldTime(0.1) }), do("Reset", func(o any) { cm(o).Reset() })))

	bm := func(o any) *analysis.BalanceMeter { return o.(*analysis.BalanceMeter) }
	fams = append(fams, diff("balance", func() any { return analysis.NewBalanceMeter(4) }, func(o any) string { return show(bm(o).GetBalance()) },
		do("Process(A)", func(o any) { bm(o).Process(A, AR) }), do("Process(B)", func(o any) { bm(o).Process(B, BR) }),
		get("GetBalance", func(o any) float64 { return bm(o).GetBalance() }), get("GetBalanceDB", func(o any) float64 { return bm(o).GetBalanceDB() })))

	wm := func(o any) *analysis.StereoWidthMeter { return o.(*analysis.StereoWidthMeter) }
	fams = append(fams, diff("width", func() any { return analysis.NewStereoWidthMeter(4) }, func(o any) string { return show(wm(o).GetWidth()) },
		do("Process(A)", func(o any) { wm(o).Process(A, AR) }), do("Process(B)", func(o any) { wm(o).Process(B, BR) }),
		get("GetWidth", func(o any) float64 { return wm(o).GetWidth() }), get("GetWidthDB", func(o any) float64 { return wm(o).GetWidthDB() })))

	sf := func(o any) *analysis.StereoFieldAnalyzer { return o.(*analysis.StereoFieldAnalyzer) }
	fams = append(fams, diff("stereofield", func() any { m := analysis.NewStereoFieldAnalyzer(3, 10); m.Process(A, A); return m },
		func(o any) string { return fmt.Sprintf("%.9v", sf(o).GetAnalysis()) },
		do("Process(A)", func(o any) { sf(o).Process(A, AR) }), do("Process(B)", func(o any) { sf(o).Process(B, BR) }),
		same("GetAnalysis", func(o any) string { return fmt.Sprintf("%.9v", sf(o).GetAnalysis()) })))

	ps := func(o any) *analysis.PhaseScope { return o.(*analysis.PhaseScope) }
	pts := func(p []analysis.PhasePoint, b []float64) string { return fmt.Sprintf("%.9v %.9v", p, b) }
	fams = append(fams, diff("phasescope", func() any { m := analysis.NewPhaseScope(3); m.Process(B, BR); return m },
		func(o any) string { return pts(ps(o).GetPoints()) },
		do("Process(A)", func(o any) { ps(o).Process(A[:2], AR[:2]) }), do("Process(B)", func(o any) { ps(o).Process(B, BR) }),
		same("GetPoints", func(o any) string { return pts(ps(o).GetPoints()) }),
		same("GetPolarData", func(o any) string { a, b, c := ps(o).GetPolarData(); return show(a...) + show(b...) + show(c...) }),
		same("GetStatistics", func(o any) string { return fmt.Sprintf("%.9v", ps(o).GetStatistics()) }),
		do("SetMode(goniometer)", func(o any) { ps(o).SetMode(analysis.ModeGoniometer) }), do("SetDecay(0.5)", func(o any) { ps(o).SetDecay(0.5) }),
		do("SetScale(2)", func(o any) { ps(o).SetScale(2) }), do("SetPersistence(0.5)", func(o any) { ps(o).SetPersistence(0.5) }), do("Reset", func(o any) { ps(o).Reset() })))

	vs := func(o any) *analysis.VectorScope { return o.(*analysis.VectorScope) }
	fams = append(fams, diff("vectorscope", func() any { m := analysis.NewVectorScope(3); m.Process(B, BR); return m },
		func(o any) string { return fmt.Sprintf("%.9v", vs(o).GetStatistics()) },
		do("Process(A)", func(o any) { vs(o).Process(A, AR) }),
		same("GetDisplay", func(o any) string { p, b, g, l := vs(o).GetDisplay(); return pts(p, b) + fmt.Sprint(len(g), len(l)) }),
		same("GetStatistics", func(o any) string { return fmt.Sprintf("%.9v", vs(o).GetStatistics()) }), do("Reset", func(o any) { vs(o).Reset() })))

	sa := func(o any) *analysis.SpectrumAnalyzer { return o.(*analysis.SpectrumAnalyzer) }
	x8 := []float64{0.1, 0.7, -0.3, 0.2, 0.9, -0.8, 0.4, -0.1}
	y8 := []float64{-0.5, 0.1, 0.6, -0.2, 0.3, 0.8, -0.9, 0.2}
	for _, mode := range []analysis.AveragingMode{analysis.ExponentialAveraging, analysis.LinearAveraging, analysis.PeakHold} {
		mode := mode
		fams = append(fams, diff(fmt.Sprint("spectrum-mode", int(mode)), func() any {
			m := analysis.NewSpectrumAnalyzer(8, 8000, analysis.HannWindow)
			m.SetAveraging(mode, 2)
			m.Process(y8)
			return m
		}, func(o any) string { return show(sa(o).GetSpectrum()...) },
			same("Process(x)", func(o any) string { return fmt.Sprint(sa(o).Process(x8)) }), same("Process(y half)", func(o any) string { return fmt.Sprint(sa(o).Process(y8[:4])) }),
			same("GetSpectrum", func(o any) string { return show(sa(o).GetSpectrum()...) }), same("GetSpectrumDB", func(o any) string { return show(sa(o).GetSpectrumDB()...) }),
			same("GetSpectrumInRange", func(o any) string { return show(sa(o).GetSpectrumInRange()...) }), same("GetSpectrumDBInRange", func(o any) string { return show(sa(o).GetSpectrumDBInRange()...) }),
			same("GetPeakFrequency", func(o any) string { return show(two(sa(o).GetPeakFrequency())...) }), get("GetBandEnergy", func(o any) float64 { return sa(o).GetBandEnergy(900, 2100) }),
			same("GetOctaveBands", func(o any) string { return show(sa(o).GetOctaveBands([]float64{1000, 2000})...) }),
			do("SetFrequencyRange", func(o any) { sa(o).SetFrequencyRange(1500, 3000) }), do("SetHopSize(4)", func(o any) { sa(o).SetHopSize(4) }),
			do("SetSmoothing(0.5)", func(o any) { sa(o).SetSmoothing(0.5) }), do("SetAveraging(peak)", func(o any) { sa(o).SetAveraging(analysis.PeakHold, 2) }), do("Reset", func(o any) { sa(o).Reset() })))
	}

	fams = append(fams, p64profiler(), p64logger(), p64pool(), p64tracker())
	for _, f := range fams {
		switch f.Name {
		case "stereofield", "pool", "tracker": // calls of many steps
			f.Bound = r.Pick(2, 3)
		}
		t0 := time.Now()
		f.Programs(r, []int{1, 1})
		f.Programs(r, []int{2, 1})
		if f.Name == "pool" && !r.Thorough {
			continue
		}
		if len(f.Alphabet) < 12 || r.Thorough {
			f.Programs(r, []int{2, 2})
		}
		if len(f.Alphabet) < 10 || r.Thorough {
			f.Programs(r, []int{1, 1, 1})
		}
		if r.Thorough && len(f.Alphabet) < 8 && f.Bound < 0 {
			f.Programs(r, []int{3, 2})
			f.Programs(r, []int{2, 1, 1})
		}
		r.Part("ms_"+f.Name, time.Since(t0).Milliseconds())
	}
	if r.Shard0() {
		p64allocation(r)
	}
	r.Bound("threads", 3)
	r.Bound("operations", r.Pick(4, 5))
	r.Bound("preemptions", "unbounded; stereo field, pool and tracker "+fmt.Sprint(r.Pick(2, 3)))
}

func two(a, b float64) []float64 { return []float64{a, b} }

type profObj struct {
	p     *debug.Profiler
	stops []func()
}

var countRe = regexp.MustCompile(`(?m)^(\w+):\n  Count:   (\d+)\n`)

// p64profiler: sections end on any thread while others read the results.
func p64profiler() *lin.Family {
	p := func(o any) *profObj { return o.(*profObj) }
	counts := func(o any) string {
		var s []string
		for _, g := range countRe.FindAllStringSubmatch(p(o).p.Report(), -1) {
			s = append(s, g[1]+g[2])
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	read := func(m *debug.Measurement) bool {
		return m.Average() >= 0 && m.Percentile(0) <= m.Percentile(50) && m.Percentile(50) <= m.Percentile(100)
	}
	stop := func(k int, n string) lin.Op {
		return same("stop "+n, func(o any) string { p(o).stops[k](); return "" })
	}
	return diff("profiler", func() any {
		x := &profObj{p: debug.NewProfiler(2)}
		x.p.Time("a", func() {})
		x.p.Time("b", func() {})
		x.stops = []func(){x.p.Start("a"), x.p.Start("b"), x.p.Start("c")}
		return x
	}, counts, stop(0, "a"), stop(1, "b"), stop(2, "c"), same("Report", counts),
		same("GetMeasurement(a)", func(o any) string {
			m, ok := p(o).p.GetMeasurement("a")
			return fmt.Sprint(ok, !ok || read(m))
		}),
		same("GetAllMeasurements", func(o any) string {
			var s []string
			for n, m := range p(o).p.GetAllMeasurements() {
				s = append(s, fmt.Sprint(n, read(m)))
			}
			sort.Strings(s)
			return strings.Join(s, " ")
		}),
		same("Reset", func(o any) string { p(o).p.Reset(); return "" }))
}

type logObj struct {
	l   *debug.Logger
	out [2]strings.Builder
}

// p64logger: whole lines, each once, to the output then set.
func p64logger() *lin.Family {
	l := func(o any) *logObj { return o.(*logObj) }
	do := func(n string, f func(x *logObj)) lin.Op {
		return same(n, func(o any) string { f(l(o)); return "" })
	}
	return diff("logger", func() any {
		x := &logObj{}
		x.l = debug.New(&x.out[0], "p", debug.FlagLevel|debug.FlagPrefix|debug.FlagShortFile)
		return x
	}, func(o any) string { return l(o).out[0].String() + "\x00" + l(o).out[1].String() },
		do("Info", func(x *logObj) { x.l.Info("i%d", 1) }), do("Debug", func(x *logObj) { x.l.Debug("d") }), do("Error", func(x *logObj) { x.l.Error("e\nf") }),
		do("SetLevel(Debug)", func(x *logObj) { x.l.SetLevel(debug.LogLevelDebug) }), do("SetPrefix(q)", func(x *logObj) { x.l.SetPrefix("q") }),
		do("SetFlags(0)", func(x *logObj) { x.l.SetFlags(0) }), do("SetOutput(1)", func(x *logObj) { x.l.SetOutput(&x.out[1]) }),
		do("SetEnabled(false)", func(x *logObj) { x.l.SetEnabled(false) }), same("IsEnabled", func(o any) string { return fmt.Sprint(l(o).l.IsEnabled()) }))
}

type poolObj struct {
	p    *dspdebug.BufferPool
	held [][]float32
}

// p64pool: buffers in use are never shared, and the statistics add up.
func p64pool() *lin.Family {
	p := func(o any) *poolObj { return o.(*poolObj) }
	use := func(id float32) lin.Op {
		f := func(o any) string {
			b := p(o).p.Get()
			if len(b) != 4 {
				return fmt.Sprint("buffer of ", len(b))
			}
			for i := range b {
				b[i] = id
			}
			c := p(o).p.Get()
			for i := range c {
				c[i] = -id
			}
			for i := range b {
				if b[i] != id {
					return "a buffer in use was handed out again"
				}
			}
			p(o).p.Put(b)
			p(o).p.Put(c)
			return ""
		}
		return lin.Op{Name: fmt.Sprintf("use two (%v)", id), Do: f, Spec: func(any) string { return "" }}
	}
	f := diff("pool", func() any { return &poolObj{p: dspdebug.NewBufferPool(4)} }, func(o any) string {
		_, n := p(o).p.Stats()
		return fmt.Sprint("in use ", n)
	}, use(1), use(2))
	f.FinalSpec = func(any) string { return "in use 0" }
	return f
}

// p64tracker: every use of a buffer is counted, from any thread.
func p64tracker() *lin.Family {
	type m struct{ a, b, frame int }
	buf := make([]float32, 3, 8)
	buf64 := make([]float64, 2)
	rx := regexp.MustCompile(`Total Allocations: (\d+)\nTotal Bytes: (\d+)`)
	ac := regexp.MustCompile(`Buffer: (\w+)\n  Size: (\d+), Capacity: (\d+)\n  Access Count: (\d+)\n  Total Bytes: (\d+)`)
	report := func(any) string {
		rep := dspdebug.GetAllocationReport()
		s := []string{}
		for _, g := range ac.FindAllStringSubmatch(rep, -1) {
			s = append(s, strings.Join(g[1:], ","))
		}
		sort.Strings(s)
		return fmt.Sprint(rx.FindStringSubmatch(rep)[1:], s)
	}
	spec := func(o any) string {
		x := o.(*m)
		s := []string{}
		if x.a > 0 {
			s = append(s, fmt.Sprintf("a,3,8,%d,%d", x.a, 12*x.a))
		}
		if x.b > 0 {
			s = append(s, fmt.Sprintf("b,4,4,%d,%d", x.b, 16*x.b))
		}
		return fmt.Sprint([]string{fmt.Sprint(x.a + x.b), fmt.Sprint(12*x.a + 16*x.b)}, s)
	}
	return &lin.Family{Name: "tracker", New: func() any {
		dspdebug.ResetAllocationTracking()
		dspdebug.EnableAllocationTracking()
		dspdebug.CheckAllocation(buf, "a")
		return &m{}
	}, Model: func() any { return &m{a: 1, frame: 1} }, Bound: -1,
		Final: report, FinalSpec: spec,
		Alphabet: []lin.Op{
			{Name: "CheckAllocation(a)", Do: func(any) string { dspdebug.CheckAllocation(buf, "a"); return "" }, Spec: func(o any) string { o.(*m).a++; o.(*m).frame++; return "" }},
			{Name: "CheckAllocation64(b)", Do: func(any) string { dspdebug.CheckAllocation64(buf64, "b"); return "" }, Spec: func(o any) string { o.(*m).b++; o.(*m).frame++; return "" }},
			{Name: "StartFrame", Do: func(any) string { dspdebug.StartFrame(); return "" }, Spec: func(o any) string { o.(*m).frame = 0; return "" }},
			{Name: "EndFrame", Do: func(any) string { n, _ := dspdebug.EndFrame(); return fmt.Sprint(n) }, Spec: func(o any) string { return fmt.Sprint(o.(*m).frame) }},
			{Name: "Report", Do: report, Spec: spec},
			{Name: "Reset", Do: func(any) string { dspdebug.ResetAllocationTracking(); return "" }, Spec: func(o any) string { *o.(*m) = m{}; return "" }},
		}}
}

var sink []byte

// p64allocation: allocations are detected, also when they are freed at once.
func p64allocation(r *core.Run) {
	detect := func(f func()) (hit bool) {
		defer func() { hit = recover() != nil }()
		dspdebug.DetectAllocation(f)
		return
	}
	for _, n := range []int{1, 64, 4096, 1 << 20} {
		for _, gc := range []bool{false, true} {
			if !detect(func() {
				sink = make([]byte, n)
				if gc {
					sink = nil
					runtime.GC()
				}
			}) {
				r.Failf("detect", "DetectAllocation missed an allocation of %d bytes (collected at once: %v)", n, gc)
			}
		}
	}
	quiet := false
	for k := 0; k < 50 && !quiet; k++ {
		quiet = !detect(func() {})
	}
	if !quiet {
		r.Failf("detect", "DetectAllocation reports allocations of a function that does nothing")
	}
	bad := func(name string, f func()) {
		defer func() {
			if recover() == nil {
				r.Failf("unallocated", "%s was accepted", name)
			}
		}()
		f()
	}
	dspdebug.EnableAllocationTracking()
	bad("a nil buffer", func() { dspdebug.CheckAllocation(nil, "x") })
	bad("an empty buffer", func() { dspdebug.CheckAllocation([]float32{}, "x") })
	bad("a nil buffer", func() { dspdebug.CheckAllocation64(nil, "x") })
	bad("an empty buffer", func() { dspdebug.CheckAllocation64([]float64{}, "x") })
	a, b := make([]float32, 4), make([]float32, 4)
	p := dspdebug.VerifyBufferReuse(a, "x", 0)
	if dspdebug.VerifyBufferReuse(a, "x", p) != p {
		r.Failf("unallocated", "the same buffer has another address")
	}
	bad("a reallocated buffer", func() { dspdebug.VerifyBufferReuse(b, "x", p) })
	bad("a buffer of another size", func() { dspdebug.NewBufferPool(3).Put(a) })
	dspdebug.DisableAllocationTracking()
	dspdebug.CheckAllocation(nil, "x")
	dspdebug.ResetAllocationTracking()
}
