package seq

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P63", p63) }

// ---- P63: debugging tools ----

func p63(r *core.Run) {
	p63logger(r)
	p63profiler(r)
	if r.Shard0() {
		p63global(r)
		p63file(r)
		p63audio(r)
		p63views(r)
	}
}

type logI struct {
	l    *debug.Logger
	out  [2]*strings.Builder
	file string
	line int
}

// at records the caller's position; used on the same source line as a log call.
func (i *logI) at() { _, i.file, i.line, _ = runtime.Caller(1) }

// take returns and clears what was written to both outputs.
func (i *logI) take() string {
	s := ""
	for k, o := range i.out {
		if o.Len() > 0 {
			s += fmt.Sprintf("out%d:%s", k, o.String())
			o.Reset()
		}
	}
	return s
}

type logM struct {
	out     int
	level   debug.LogLevel
	prefix  string
	flags   int
	enabled bool
}

var stampRe = regexp.MustCompile(`\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} `)

const here = "\x01HERE\x01"

// want is the line a message gives, with placeholders for time and place.
func (m *logM) want(level debug.LogLevel, msg string) string {
	if !m.enabled || level < m.level {
		return ""
	}
	s := fmt.Sprintf("out%d:", m.out)
	if m.flags&debug.FlagTime != 0 {
		s += "<time>"
	}
	if m.flags&debug.FlagLevel != 0 {
		s += "[" + []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}[level] + "] "
	}
	if m.flags&debug.FlagPrefix != 0 && m.prefix != "" {
		s += "[" + m.prefix + "] "
	}
	switch {
	case m.flags&debug.FlagShortFile != 0:
		s += "<short>: "
	case m.flags&debug.FlagLongFile != 0:
		s += "<long>: "
	}
	s += msg
	if !strings.HasSuffix(msg, "\n") {
		s += "\n"
	}
	return s
}

// canon replaces time and place in what was written by placeholders.
func (i *logI) canon(s string, before time.Time) string {
	if loc := stampRe.FindStringIndex(s); loc != nil {
		t, err := time.ParseInLocation("2006-01-02 15:04:05.000 ", s[loc[0]:loc[1]], time.Local)
		if err == nil && !t.Before(before.Truncate(time.Millisecond).Add(-time.Millisecond)) && !t.After(time.Now().Add(time.Millisecond)) {
			s = s[:loc[0]] + "<time>" + s[loc[1]:]
		}
	}
	s = strings.Replace(s, fmt.Sprintf("%s:%d: ", i.file, i.line), "<long>: ", 1)
	return strings.Replace(s, fmt.Sprintf("%s:%d: ", filepath.Base(i.file), i.line), "<short>: ", 1)
}

type logT interface {
	SetLevel(debug.LogLevel)
}

type logOp struct {
	name string
	do   func(i *logI) // on a logger of its own
	glob func(i *logI) // on the default logger
	spec func(m *logM) string
}

func logOps() []logOp {
	var ops []logOp
	add := func(n string, do, glob func(*logI), spec func(*logM) string) {
		ops = append(ops, logOp{n, do, glob, spec})
	}
	type msg = func(*logM) string
	w := func(l debug.LogLevel, s string) msg { return func(m *logM) string { return m.want(l, s) } }
	add("Debug", func(i *logI) { i.at(); i.l.Debug("d%d", 1) }, func(i *logI) { i.at(); debug.Debug("d%d", 1) }, w(debug.LogLevelDebug, "d1"))
	add("Info", func(i *logI) { i.at(); i.l.Info("i%s%%\n", "x") }, func(i *logI) { i.at(); debug.Info("i%s%%\n", "x") }, w(debug.LogLevelInfo, "ix%\n"))
	add("Warn", func(i *logI) { i.at(); i.l.Warn("") }, func(i *logI) { i.at(); debug.Warn("") }, w(debug.LogLevelWarn, ""))
	add("Error", func(i *logI) { i.at(); i.l.Error("a\nb%s", "c\n") }, func(i *logI) { i.at(); debug.Error("a\nb%s", "c\n") }, w(debug.LogLevelError, "a\nbc\n"))
	fatal := func(f func()) {
		defer func() {
			if v := recover(); fmt.Sprint(v) != "f 7" {
				panic(fmt.Sprintf("Fatal panicked with %v", v))
			}
		}()
		f()
	}
	add("Fatal", func(i *logI) { fatal(func() { i.at(); i.l.Fatal("f %d", 7) }) }, func(i *logI) { fatal(func() { i.at(); debug.Fatal("f %d", 7) }) }, w(debug.LogLevelFatal, "f 7"))
	for _, c := range []bool{true, false} {
		c := c
		cond := func(l debug.LogLevel, s string) msg {
			return func(m *logM) string {
				if !c {
					return ""
				}
				return m.want(l, s)
			}
		}
		add(fmt.Sprint("DebugIf ", c), nil, func(i *logI) { i.at(); debug.DebugIf(c, "d%d", 2) }, cond(debug.LogLevelDebug, "d2"))
		add(fmt.Sprint("WarnIf ", c), nil, func(i *logI) { i.at(); debug.WarnIf(c, "w%d", 2) }, cond(debug.LogLevelWarn, "w2"))
		add(fmt.Sprint("ErrorIf ", c), nil, func(i *logI) { i.at(); debug.ErrorIf(c, "e%d", 2) }, cond(debug.LogLevelError, "e2"))
	}
	for l := debug.LogLevelDebug; l <= debug.LogLevelOff; l++ {
		l := l
		add(fmt.Sprint("SetLevel ", int(l)), func(i *logI) { i.l.SetLevel(l) }, func(i *logI) { debug.SetLevel(l) }, func(m *logM) string { m.level = l; return "" })
	}
	for _, p := range []string{"", "pre"} {
		p := p
		add("SetPrefix "+p, func(i *logI) { i.l.SetPrefix(p) }, func(i *logI) { debug.SetPrefix(p) }, func(m *logM) string { m.prefix = p; return "" })
	}
	for _, f := range []int{0, debug.DefaultFlags, debug.FlagLongFile | debug.FlagLevel, debug.FlagShortFile | debug.FlagLongFile | debug.FlagPrefix, debug.FlagTime} {
		f := f
		add(fmt.Sprint("SetFlags ", f), func(i *logI) { i.l.SetFlags(f) }, func(i *logI) { debug.SetFlags(f) }, func(m *logM) string { m.flags = f; return "" })
	}
	for _, e := range []bool{true, false} {
		e := e
		chk := func(got bool) {
			if got != e {
				panic(fmt.Sprintf("IsEnabled() = %v after SetEnabled(%v)", got, e))
			}
		}
		add(fmt.Sprint("SetEnabled ", e), func(i *logI) { i.l.SetEnabled(e); chk(i.l.IsEnabled()) }, func(i *logI) { debug.SetEnabled(e); chk(debug.Default().IsEnabled()) }, func(m *logM) string { m.enabled = e; return "" })
	}
	for k := 0; k < 2; k++ {
		k := k
		add(fmt.Sprint("SetOutput ", k), func(i *logI) { i.l.SetOutput(i.out[k]) }, func(i *logI) { debug.SetOutput(i.out[k]) }, func(m *logM) string { m.out = k; return "" })
	}
	return ops
}

func p63logger(r *core.Run) {
	for _, fl := range []int{debug.DefaultFlags, debug.FlagLongFile | debug.FlagPrefix} {
		fl := fl
		h := &core.Hist[*logI, *logM]{Name: fmt.Sprint("logger-flags", fl),
			New: func() *logI {
				i := &logI{out: [2]*strings.Builder{{}, {}}}
				i.l = debug.New(i.out[0], "own", fl)
				return i
			},
			Model: func() *logM { return &logM{level: debug.LogLevelInfo, prefix: "own", flags: fl, enabled: true} }}
		for _, o := range logOps() {
			o := o
			if o.do == nil {
				continue
			}
			h.Ops = append(h.Ops, core.HOp[*logI, *logM]{Name: o.name, Do: func(i *logI) string {
				t := time.Now()
				o.do(i)
				return i.canon(i.take(), t)
			}, Spec: o.spec})
		}
		h.Run(r, r.Pick(3, 4))
	}
	r.Bound("logger history depth", r.Pick(3, 4))
}

// p63global: the package-level functions act on the one default logger.
func p63global(r *core.Run) {
	defer func() {
		debug.SetOutput(os.Stderr)
		debug.SetPrefix("")
		debug.SetFlags(debug.DefaultFlags)
		debug.SetLevel(debug.LogLevelInfo)
		debug.SetEnabled(true)
	}()
	ops := logOps()
	n := int64(0)
	core.Tuples(r.Pick(2, 3), len(ops), func(v []int) bool {
		n++
		i := &logI{out: [2]*strings.Builder{{}, {}}}
		debug.SetOutput(i.out[0])
		debug.SetPrefix("dflt")
		debug.SetFlags(debug.FlagShortFile | debug.FlagLevel | debug.FlagPrefix)
		debug.SetLevel(debug.LogLevelInfo)
		debug.SetEnabled(true)
		m := &logM{level: debug.LogLevelInfo, prefix: "dflt", flags: debug.FlagShortFile | debug.FlagLevel | debug.FlagPrefix, enabled: true}
		id := func() string {
			var s []string
			for _, o := range v {
				s = append(s, ops[o].name)
			}
			return "default logger: " + strings.Join(s, "; ")
		}
		r.Guard("default-logger", id, func() {
			for _, o := range v {
				t := time.Now()
				ops[o].glob(i)
				if got, want := i.canon(i.take(), t), ops[o].spec(m); got != want {
					r.Failf("default-logger", "%s: wrote %q, want %q (caller %s:%d)", id(), got, want, i.file, i.line)
				}
			}
		})
		return !r.Failed("default-logger")
	})
	r.Count(n, n*int64(r.Pick(2, 3)))
	// audio checks go through the default logger
	i := &logI{out: [2]*strings.Builder{{}, {}}}
	debug.SetOutput(i.out[0])
	debug.SetPrefix("")
	debug.SetFlags(debug.FlagLevel)
	debug.SetLevel(debug.LogLevelDebug)
	debug.SetEnabled(true)
	vals := []float32{0, 0.005, 0.5, -0.995, 1.5, float32(math.NaN())}
	for _, k := range tuples(3, len(vals)) {
		b := []float32{vals[k[0]], vals[k[1]], vals[k[2]]}
		debug.CheckAudioBuffer(b, "bus")
		want := ""
		for _, s := range debug.CheckBuffer(b, "bus") {
			want += "[WARN] " + s + "\n"
		}
		if got := strings.TrimPrefix(i.take(), "out0:"); got != want {
			r.Failf("check-log", "CheckAudioBuffer(%v) wrote %q, want %q", b, got, want)
		}
		debug.LogBufferStats(b, "bus")
		a := debug.AnalyzeBuffer(b)
		got := i.take()
		for _, s := range []struct {
			text string
			on   bool
		}{{"[INFO] Audio buffer 'bus' stats:\n", true}, {"[INFO]   Samples: 3\n", true}, {fmt.Sprintf("[INFO]   Peak: %.3f\n", a.Peak), true}, {fmt.Sprintf("[INFO]   RMS: %.3f\n", a.RMS), true},
			{fmt.Sprintf("[INFO]   DC: %.6f\n", a.DC), true}, {fmt.Sprintf("[WARN]   Clipping: %d samples\n", a.ClippedSamples), a.Clipping}, {"[INFO]   Status: Silent\n", a.Silent}, {fmt.Sprintf("[ERROR]   NaN values: %d\n", a.NaNCount), a.HasNaN}} {
			if strings.Contains(got, s.text) != s.on {
				r.Failf("stats-log", "LogBufferStats(%v) wrote %q; %q expected: %v", b, got, s.text, s.on)
			}
		}
	}
	r.Nontrivial(1)
}

// p63file: log files are created with their directory and appended to.
func p63file(r *core.Run) {
	dir, err := os.MkdirTemp("", "p63-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	for _, n := range []string{"a.log", "x/a.log", "x/y/z.log"} {
		name := filepath.Join(dir, n)
		want := ""
		for k := 0; k < 3; k++ {
			l, err := debug.NewFileLogger(name, "f", debug.FlagPrefix)
			if err != nil {
				r.Failf("file", "NewFileLogger(%s): %v", n, err)
				return
			}
			for j := 0; j <= k; j++ {
				l.Info("%d.%d", k, j)
				want += fmt.Sprintf("[f] %d.%d\n", k, j)
				if b, _ := os.ReadFile(name); string(b) != want {
					r.Failf("file", "log file %s opened %d times holds %q, want %q", n, k+1, b, want)
				}
			}
		}
	}
	if _, err := debug.NewFileLogger(filepath.Join(dir, "a.log", "b.log"), "", 0); err == nil {
		r.Failf("file", "a log file below a file was opened without an error")
	}
	r.Count(9, 18)
}

type profI struct {
	p     *debug.Profiler
	n     int
	names []string
	rec   map[string][]time.Duration
	on    bool
	open  []prof1
	held  []profHeld
}

type prof1 struct {
	name string
	stop func()
	a, b time.Time
	live bool
}

type profHeld struct {
	name string
	m    *debug.Measurement
	obs  string
}

func busy(d time.Duration) {
	for t := time.Now(); time.Since(t) < d; {
	}
}

// pobs shows the average and percentiles of a measurement.
func pobs(m *debug.Measurement) string {
	s := fmt.Sprint(m.Average())
	for _, p := range []float64{0, 10, 50, 90, 100} {
		s += fmt.Sprint(" ", m.Percentile(p))
	}
	return s
}

var repRe = regexp.MustCompile(`(?m)^(\w+):\n  Count:   (\d+)\n  Total:   (\S+)\n  Average: (\S+)\n  Min:     (\S+)\n  Max:     (\S+)\n  Last:    (\S+)\n`)

// report parses the text report.
func (i *profI) report() map[string][6]time.Duration {
	res := map[string][6]time.Duration{}
	for _, g := range repRe.FindAllStringSubmatch(i.p.Report(), -1) {
		var v [6]time.Duration
		c, _ := strconv.Atoi(g[2])
		v[0] = time.Duration(c)
		for k := 1; k < 6; k++ {
			v[k], _ = time.ParseDuration(g[k+2])
		}
		res[g[1]] = v
	}
	return res
}

func (i *profI) start(name string) string {
	a := time.Now()
	s := i.p.Start(name)
	i.open = append(i.open, prof1{name, s, a, time.Now(), i.on})
	return ""
}

// finish takes note of one recorded duration, which must lie within [lo, hi].
func (i *profI) finish(name string, lo, hi time.Duration, live bool) string {
	if live {
		g, ok := i.report()[name]
		if !ok {
			return "section " + name + " is not in the report"
		}
		if g[5] < lo || g[5] > hi {
			return fmt.Sprintf("section %s took between %v and %v but %v was recorded", name, lo, hi, g[5])
		}
		i.rec[name] = append(i.rec[name], g[5])
	}
	return i.check()
}

func (i *profI) stopAt(k int, wait time.Duration) string {
	if k < 0 || k >= len(i.open) {
		return ""
	}
	o := i.open[k]
	i.open = append(i.open[:k:k], i.open[k+1:]...)
	busy(wait)
	c := time.Now()
	o.stop()
	return i.finish(o.name, c.Sub(o.b), time.Since(o.a), o.live)
}

func (i *profI) check() string {
	rep := i.report()
	if len(rep) != len(i.rec) {
		return fmt.Sprintf("the report names %d sections, %d were measured", len(rep), len(i.rec))
	}
	all := i.p.GetAllMeasurements()
	if len(all) != len(i.rec) {
		return fmt.Sprintf("%d measurements of %d sections", len(all), len(i.rec))
	}
	for _, n := range []string{"a", "b", "c"} {
		m, ok := i.p.GetMeasurement(n)
		d := i.rec[n]
		if ok != (len(d) > 0) {
			return fmt.Sprintf("section %s measured %d times, GetMeasurement finds it: %v", n, len(d), ok)
		}
		if !ok {
			continue
		}
		sum := time.Duration(0)
		for _, x := range d {
			sum += x
		}
		want := [6]time.Duration{time.Duration(len(d)), sum, sum / time.Duration(len(d)), slices.Min(d), slices.Max(d), d[len(d)-1]}
		if rep[n] != want {
			return fmt.Sprintf("section %s measured %v: count, total, average, min, max, last reported %v, want %v", n, d, rep[n], want)
		}
		if m.Average() != want[2] || all[n] == nil || pobs(all[n]) != pobs(m) {
			return fmt.Sprintf("section %s measured %v: average %v", n, d, m.Average())
		}
		last := append([]time.Duration(nil), d[max(0, len(d)-i.n):]...)
		sort.Slice(last, func(a, b int) bool { return last[a] < last[b] })
		for _, p := range []float64{-5, 0, 10, 25, 50, 75, 90, 99, 100, 150} {
			x := float64(len(last)-1) * clampf(p, 0, 100) / 100
			got := m.Percentile(p)
			if got < last[int(math.Floor(x))] || got > last[int(math.Ceil(x))] {
				return fmt.Sprintf("section %s, last %d durations %v: percentile %v is %v", n, len(last), last, p, got)
			}
		}
	}
	for _, h := range i.held {
		if o := pobs(h.m); o != h.obs {
			return fmt.Sprintf("a measurement of %s obtained earlier changed from %s to %s", h.name, h.obs, o)
		}
	}
	return ""
}

func p63profiler(r *core.Run) {
	for _, n := range []int{1, 2, 3} {
		n := n
		h := &core.Hist[*profI, *int]{Name: fmt.Sprint("profiler-window", n),
			New: func() *profI {
				return &profI{p: debug.NewProfiler(n), n: n, rec: map[string][]time.Duration{}, on: true}
			}, Model: func() *int { return new(int) }}
		op := func(name string, f func(i *profI) string) {
			h.Ops = append(h.Ops, core.HOp[*profI, *int]{Name: name, Do: f, Spec: func(*int) string { return "" }})
		}
		op("Start a", func(i *profI) string { return i.start("a") })
		op("Start b", func(i *profI) string { return i.start("b") })
		op("stop newest", func(i *profI) string { return i.stopAt(len(i.open)-1, 0) })
		op("stop oldest late", func(i *profI) string { return i.stopAt(0, 3*time.Microsecond) })
		time1 := func(name string, d time.Duration) func(i *profI) string {
			return func(i *profI) string {
				k := 0
				a := time.Now()
				i.p.Time(name, func() { k++; busy(d) })
				if k != 1 {
					return fmt.Sprintf("Time ran its function %d times", k)
				}
				return i.finish(name, d, time.Since(a), i.on)
			}
		}
		op("Time a", time1("a", 0))
		op("Time a slow", time1("a", 2*time.Microsecond))
		op("Time c panicking", func(i *profI) string {
			a := time.Now()
			v := func() (v any) {
				defer func() { v = recover() }()
				i.p.Time("c", func() { panic("x") })
				return
			}()
			if v != "x" {
				return fmt.Sprint("a panic became ", v)
			}
			return i.finish("c", 0, time.Since(a), i.on)
		})
		op("Reset", func(i *profI) string {
			i.p.Reset()
			i.rec = map[string][]time.Duration{}
			return i.check()
		})
		for _, e := range []bool{false, true} {
			e := e
			op(fmt.Sprint("SetEnabled ", e), func(i *profI) string {
				i.p.SetEnabled(e)
				i.on = e
				if i.p.IsEnabled() != e {
					return "IsEnabled disagrees"
				}
				return i.check()
			})
		}
		op("hold a", func(i *profI) string {
			if m, ok := i.p.GetMeasurement("a"); ok {
				i.held = append(i.held, profHeld{"a", m, pobs(m)})
			}
			if m := i.p.GetAllMeasurements()["a"]; m != nil {
				i.held = append(i.held, profHeld{"a", m, pobs(m)})
			}
			return ""
		})
		h.Run(r, r.Pick(4, 5))
	}
	r.Bound("profiler history depth", r.Pick(4, 5))
	if !r.Shard0() {
		return
	}
	// any window size works; the load is the average time over the block's duration
	for n := -1; n <= 4; n++ {
		n := n
		r.Guard("profiler-size", func() string { return fmt.Sprintf("NewProfiler(%d)", n) }, func() {
			p := debug.NewProfiler(n)
			for k := 0; k < 6; k++ {
				p.Time("a", func() {})
				if m, ok := p.GetMeasurement("a"); !ok || m.Percentile(0) > m.Percentile(100) {
					r.Failf("profiler-size", "NewProfiler(%d): no measurement", n)
				}
			}
		})
	}
	// the profiler everyone shares, through every history of its functions
	core.Tuples(4, 5, func(v []int) bool {
		debug.EnableProfiling()
		debug.ResetProfiling()
		on, n := true, uint64(0)
		for _, k := range v {
			ran := false
			switch k {
			case 0:
				debug.EnableProfiling()
				on = true
			case 1:
				debug.DisableProfiling()
				on = false
			case 2:
				debug.ResetProfiling()
				n = 0
			case 3:
				debug.Time("shared", func() { ran = true })
				if !ran {
					r.Failf("profiler-shared", "history %v: the function timed did not run", v)
				}
				if on {
					n++
				}
			case 4:
				debug.Start("shared")()
				if on {
					n++
				}
			}
		}
		_, ok := debug.DefaultProfiler.GetMeasurement("shared")
		if ok != (n > 0) || strings.Contains(debug.ProfilingReport(), "shared") != ok {
			r.Failf("profiler-shared", "history %v of enable, disable, reset, time, start: %d measurements, found %v, report %q", v, n, ok, debug.ProfilingReport())
			return false
		}
		r.Count(1, 4)
		return true
	})
	debug.ResetProfiling()
	for _, sr := range []float64{44100, 48000, 192000} {
		for _, bs := range []int{1, 32, 512, 4096} {
			a := debug.NewAudioProcessProfiler(sr, bs)
			a.UpdateCPULoad()
			if a.GetCPULoad() != 0 {
				r.Failf("cpu-load", "load %v before any measurement", a.GetCPULoad())
			}
			for k := 0; k < 4; k++ {
				a.Time("ProcessAudio", func() { busy(time.Duration(k) * time.Microsecond) })
				a.Time("Other", func() { busy(10 * time.Microsecond) })
				a.UpdateCPULoad()
				m, _ := a.GetMeasurement("ProcessAudio")
				want := float64(m.Average()) / (float64(bs) / sr * 1e9) * 100
				if got := a.GetCPULoad(); math.Abs(got-want) > 0.011+want*1e-3 {
					r.Failf("cpu-load", "%d samples at %v Hz, average %v: load %v%%, want %v%%", bs, sr, m.Average(), got, want)
				}
				if s := fmt.Sprintf("  Sample Rate:  %.0f Hz\n  Buffer Size:  %d samples\n  CPU Load:     %.2f%%\n", sr, bs, a.GetCPULoad()); !strings.HasSuffix(a.AudioReport(), s) {
					r.Failf("cpu-load", "audio report ends %q, want %q", a.AudioReport(), s)
				}
			}
		}
	}
}

// p63audio: analysis, checks and comparison of all short buffers.
func p63audio(r *core.Run) {
	nan := float32(math.NaN())
	vals := []float32{0, 0.00005, -0.00005, 0.25, -0.5, 0.9899, 0.99, -0.99, 1.5, -2, nan}
	L := r.Pick(4, 5)
	n := int64(0)
	a := debug.NewAudioAnalyzer()
	for l := 0; l <= L; l++ {
		core.Tuples(l, len(vals), func(v []int) bool {
			n++
			b := make([]float32, l)
			nans, clipped, cross := 0, 0, 0
			peak := float32(0)
			sum, sq := 0.0, 0.0
			for k := range b {
				b[k] = vals[v[k]]
				x := b[k]
				if x != x {
					nans++
					continue
				}
				m := max(x, -x)
				peak = max(peak, m)
				if m >= 0.99 {
					clipped++
				}
				sum += float64(x)
				sq += float64(x) * float64(x)
				if k > 0 && (b[k-1] < 0) != (x < 0) {
					cross++
				}
			}
			g := a.Analyze(b)
			bad := g.Peak != peak || g.Clipping != (clipped > 0) || g.ClippedSamples != clipped || g.HasNaN != (nans > 0) || g.NaNCount != nans
			rms, dc := 0.0, 0.0
			if l > 0 && nans == 0 {
				rms, dc = math.Sqrt(sq/float64(l)), sum/float64(l)
				bad = bad || !core.Close(float64(g.RMS), rms, 1e-6) || math.Abs(float64(g.DC)-dc) > 1e-6 || g.ZeroCrossings != cross || (math.Abs(rms-1e-4) > 1e-8 && g.Silent != (rms < 1e-4))
			}
			if bad {
				r.Failf("analyze", "Analyze(%v) = %+v", b, g)
				return false
			}
			if nans > 0 || math.Abs(math.Abs(dc)-0.01) < 1e-6 {
				if got := debug.CheckBuffer(b, "nm"); nans > 0 && (len(got) == 0 || got[0] != fmt.Sprintf("nm: Contains %d NaN values", nans)) {
					r.Failf("check", "CheckBuffer(%v) = %q", b, got)
				}
				return true
			}
			kinds := ""
			for _, s := range debug.CheckBuffer(b, "nm") {
				switch {
				case strings.HasPrefix(s, fmt.Sprintf("nm: Clipping detected (%d samples)", clipped)):
					kinds += "c"
				case strings.HasPrefix(s, "nm: DC offset"):
					kinds += "d"
				case strings.HasPrefix(s, fmt.Sprintf("nm: Peak exceeds 1.0 (%.3f)", peak)):
					kinds += "p"
				default:
					kinds += "?" + s
				}
			}
			want := ""
			if clipped > 0 {
				want += "c"
			}
			if math.Abs(dc) > 0.01 {
				want += "d"
			}
			if peak > 1 {
				want += "p"
			}
			if kinds != want {
				r.Failf("check", "CheckBuffer(%v) = %q", b, debug.CheckBuffer(b, "nm"))
			}
			return true
		})
	}
	// a sample that is no number neither makes nor hides a zero crossing, and
	// one spike does not make a silent buffer loud
	for _, c := range []struct {
		x    []float32
		want int
	}{{[]float32{-1, nan, -1}, 0}, {[]float32{1, nan, 1}, 0}, {[]float32{1, nan, -1}, 1}, {[]float32{-1, nan, nan, 1}, 1}} {
		if g := a.Analyze(c.x); g.ZeroCrossings != c.want {
			r.Failf("analyze", "Analyze(%v) = %+v", c.x, g)
		}
	}
	for _, k := range []int{0, 500, 999} {
		b := make([]float32, 1000)
		b[k] = 0.001
		if g := a.Analyze(b); !g.Silent || g.Peak != 0.001 {
			r.Failf("analyze", "Analyze(one sample of 0.001 in 1000) = %+v", g)
		}
	}
	// comparison
	cv := []float32{0, 0.125, 0.25, -0.5, nan}
	for l := 0; l <= 3; l++ {
		core.Tuples(2*l, len(cv), func(v []int) bool {
			for _, tol := range []float32{0, 0.125, 0.3} {
				n++
				x, y := make([]float32, l), make([]float32, l)
				diff, nd, maxd, at := 0, 0, float32(0), 0
				for k := range x {
					x[k], y[k] = cv[v[k]], cv[v[l+k]]
					if (x[k] != x[k]) != (y[k] != y[k]) {
						nd++
					} else if d := max(x[k]-y[k], y[k]-x[k]); d > tol {
						diff++
						if d > maxd {
							maxd, at = d, k
						}
					}
				}
				g := debug.CompareBuffers(x, y, tol)
				if diff+nd == 0 {
					if g != "Buffers are identical within tolerance" {
						r.Failf("compare", "CompareBuffers(%v, %v, %v) = %q", x, y, tol, g)
					}
					continue
				}
				if !strings.Contains(g, fmt.Sprintf("Samples different: %d / %d (%.1f%%)", diff+nd, l, 100*float64(diff+nd)/float64(l))) ||
					nd == 0 && !strings.Contains(g, fmt.Sprintf("Max difference: %.6f at sample %d\n", maxd, at)) {
					r.Failf("compare", "CompareBuffers(%v, %v, %v) = %q", x, y, tol, g)
				}
			}
			return !r.Failed("compare")
		})
		for k := 0; k <= 3; k++ {
			if k != l && debug.CompareBuffers(make([]float32, l), make([]float32, k), 1) != fmt.Sprintf("Buffer length mismatch: %d vs %d", l, k) {
				r.Failf("compare", "buffers of %d and %d samples compare equal", l, k)
			}
		}
	}
	r.Count(n, n)
	r.Nontrivial(n)
	r.Bound("buffer length", L)
}

// p63views: dumps show the first samples exactly, the picture shows them all.
func p63views(r *core.Run) {
	n := int64(0)
	for l := 1; l <= 6; l++ {
		for m := -1; m <= 7; m++ {
			b := make([]float32, l)
			for k := range b {
				b[k] = []float32{0.1, -1, 1, 2.5, -0.25, float32(math.Inf(1))}[k]
			}
			show := m
			if m <= 0 || m > l {
				show = l
			}
			g := strings.Split(debug.DumpBuffer(b, m), "\n")
			n++
			ok := len(g) >= 3+show
			// the mark moves right with the sample and shows where it is from -1 on
			for k := 0; ok && k < show; k++ {
				x := max(-1, min(1, float64(b[k])))
				if at := strings.Index(strings.SplitN(g[3+k], "|", 4)[3], "|"); x < 1 && at != 1+int((x+1)*10) {
					r.Failf("dump", "DumpBuffer marks %v at column %d:\n%s", b[k], at-1, g[3+k])
				}
			}
			for k := 0; ok && k < show; k++ {
				f := strings.SplitN(g[3+k], "|", 4)
				idx, e := strconv.Atoi(strings.TrimSpace(f[0]))
				ok = len(f) == 4 && e == nil && idx == k && strings.TrimSpace(f[1]) == fmt.Sprintf("%+.6f", b[k]) && strings.TrimSpace(f[2]) == fmt.Sprintf("0x%08X", math.Float32bits(b[k]))
			}
			more := ""
			if ok && show < l {
				more = fmt.Sprintf("... %d more samples ...", l-show)
			}
			if !ok || len(g) < 4+show || g[3+show] != more {
				r.Failf("dump", "DumpBuffer of %d samples, at most %d:\n%s", l, m, strings.Join(g, "\n"))
			}
		}
	}
	// with room for every sample the picture has a row for each
	for l := 1; l <= 90; l++ {
		for _, w := range []int{l, l + 1, 100} {
			b := make([]float32, l)
			for k := range b {
				b[k] = 1
			}
			if g := debug.PrintBuffer(b, w); strings.Count(g, "\n")-1 != l {
				r.Failf("picture", "PrintBuffer of %d samples, width %d, has %d rows", l, w, strings.Count(g, "\n")-1)
			}
		}
	}
	maxN := r.Pick(40, 120)
	for l := 1; l <= maxN; l++ {
		for _, w := range []int{1, 2, 3, 5, 8, 16, 40, 80, 0} {
			ew := w
			if w == 0 {
				ew = 80
			}
			if (l+ew-1)/ew > 10 {
				continue
			}
			prev := 0
			for k := 0; k < l; k++ {
				n++
				b := make([]float32, l)
				b[k] = 0.5
				rows := strings.Split(strings.TrimSuffix(debug.PrintBuffer(b, w), "\n"), "\n")[1:]
				marked := []int{}
				for i, s := range rows {
					if strings.ContainsRune(s, '█') {
						marked = append(marked, i)
					}
				}
				if len(rows) > ew || len(marked) != 1 || marked[0] < prev || k == 0 && marked[0] != 0 || k == l-1 && marked[0] != len(rows)-1 {
					r.Failf("picture", "PrintBuffer of %d samples, width %d, only sample %d nonzero: %d rows, marked %v (sample before: %d)", l, w, k, len(rows), marked, prev)
					return
				}
				prev = marked[0]
			}
		}
	}
	r.Count(n, n)
}
