package wrap

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"unicode/utf8"
	"unsafe"

	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/pkg/vst3"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P50", checkCOM)
	core.Register("P51", checkFactory)
}

type comState struct {
	i     *inst
	ptr   [3]unsafe.Pointer
	count uint32
}

var comNames = []string{"component", "processor", "controller"}

func comOps() []op[*comState] {
	var ops []op[*comState]
	home := map[int]int{iUnknown: 0, iBase: 0, iComponent: 0, iAudio: 1, iController: 2}
	for x := range comNames {
		for k := range iidName {
			ops = append(ops, op[*comState]{fmt.Sprintf("%s.queryInterface(%s)", comNames[x], iidName[k]), func(s *comState) string {
				if s.count == 0 {
					return ""
				}
				p, rc := qi(s.ptr[x], k)
				h, known := home[k]
				if !known {
					if rc == 0 || p != nil {
						return fmt.Sprintf("an interface the plugin does not have: result %d, pointer nil %v", rc, p == nil)
					}
					return ""
				}
				s.count++
				if rc != 0 || p != s.ptr[h] {
					return fmt.Sprintf("result %d, pointer is the %s's: %v", rc, comNames[h], p == s.ptr[h])
				}
				return ""
			}})
		}
		ops = append(ops, op[*comState]{comNames[x] + ".addRef", func(s *comState) string {
			if s.count == 0 {
				return ""
			}
			s.count++
			if n := addRef(s.ptr[x]); n != s.count {
				return fmt.Sprintf("addRef returned %d, %d references are held", n, s.count)
			}
			return ""
		}}, op[*comState]{comNames[x] + ".release", func(s *comState) string {
			if s.count == 0 {
				return ""
			}
			s.count--
			if n := release(s.ptr[x]); n != s.count {
				return fmt.Sprintf("release returned %d, %d references are held", n, s.count)
			}
			return ""
		}})
	}
	return ops
}

func checkCOM(r *core.Run) {
	var made, gone atomic.Int64
	mk := func() *comState {
		p := newProc()
		p.lat = 17
		made.Add(1)
		runtime.SetFinalizer(p, func(*proc) { gone.Add(1) })
		i := create(p)
		return &comState{i, [3]unsafe.Pointer{i.c, i.a, i.e}, 3}
	}
	done := func(s *comState) string {
		if s.count > 0 {
			if n := s.i.latency(); n != 17 {
				return fmt.Sprintf("a live component answers latency %d, its plugin said 17", n)
			}
			if n := s.i.paramCount(); n != 2 {
				return fmt.Sprintf("a live component reports %d parameters of 2", n)
			}
		}
		for s.count > 0 {
			s.count--
			if n := release(s.ptr[s.count%3]); n != s.count {
				return fmt.Sprintf("release returned %d, %d references are held", n, s.count)
			}
		}
		return ""
	}
	histories(r, "reference counting", mk, done, comOps(), r.Pick(4, 5))

	// only the interface asked for, to the last bit of its ID
	r.Once("unknown interfaces", func() {
		one := create(newProc())
		f := getFactory()
		objs := []unsafe.Pointer{one.c, one.a, one.e, f}
		for k := range iidName {
			for bit := 0; bit < 128; bit++ {
				id := iid(k)
				id[bit/8] ^= 1 << (bit % 8)
				for x, o := range objs {
					if set, rc := qiBytes(o, id); rc == 0 || set {
						r.Failf("unknown interface", "%s.queryInterface(%s with bit %d changed): result %d, pointer set %v", append(comNames, "factory")[x], iidName[k], bit, rc, set)
					}
					r.Count(1, 1)
				}
			}
		}
		release(f)
		if n := one.free(); n != 0 {
			r.Failf("unknown interface", "asking for unknown interfaces left %d references", n)
		}
	})

	// several instances at a time: each answers for its own plugin
	r.Each(27, func(i int) string { return fmt.Sprint("instances ", i) }, func(n int, _ *core.Worker) {
		var is []*inst
		for k := 0; k < 3; k++ {
			p := newProc()
			p.lat = int32(100 + k)
			is = append(is, create(p))
		}
		order := []int{n % 3, n / 3 % 3, n / 9 % 3}
		dead := map[int]bool{}
		for _, k := range order {
			if !dead[k] {
				dead[k] = true
				if c := is[k].free(); c != 0 {
					r.Failf("instances", "order %v: the last release left %d references", order, c)
				}
			}
			for j, i := range is {
				if !dead[j] && i.latency() != uint32(100+j) {
					r.Failf("instances", "release order %v: instance %d answers for another plugin or not at all", order, j)
				}
			}
			r.Count(1, 3)
		}
		for j, i := range is {
			if !dead[j] {
				i.free()
			}
		}
		r.Nontrivial(1)
	})

	// nothing the host released stays behind
	for k := 0; k < 5 && gone.Load() < made.Load()*9/10; k++ {
		runtime.GC()
	}
	if gone.Load() < made.Load()*9/10 {
		r.Failf("released plugin stays reachable", "%d components were created and released, but only %d of their processors could be collected", made.Load(), gone.Load())
	}
	r.Once("leaks", func() {
		base := heapInUse()
		const rounds = 2000
		for k := 0; k < rounds; k++ {
			i := create(newProc())
			i.free()
		}
		if d := heapInUse() - base; d > rounds*16 {
			r.Failf("component leaks", "creating and releasing %d components left %d bytes of C memory in use", rounds, d)
		}
		r.Count(rounds, rounds)
	})
}

type facState struct {
	p    unsafe.Pointer
	held int
}

// texts around the size of a field
func texts(size int) []string {
	return []string{"", "A", strings.Repeat("x", size-2), strings.Repeat("x", size-1), strings.Repeat("x", size), strings.Repeat("y", size+1),
		strings.Repeat("z", 3*size), strings.Repeat("x", size-2) + "é", strings.Repeat("é", size), strings.Repeat("x", size-3) + "語語"}
}

// fits is what s must become in a field of size bytes.
func fits(s string, size int) string {
	if len(s) <= size-1 {
		return s
	}
	n := size - 1
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

func checkFactory(r *core.Run) {
	if !r.Shard0() {
		return // the factory is global, one history at a time
	}
	defer func() { plugin.SetFactoryInfo(plugin.FactoryInfo{}) }()
	plugMu.Lock()
	defer plugMu.Unlock()
	pl := &plug{info: thePlug.info, mk: func() plugin.Processor { return newProc() }}
	plugin.Register(pl)

	// reference counting of the factory: one history at a time, it is global
	ops := []op[*facState]{
		{"GetPluginFactory", func(s *facState) string {
			p := getFactory()
			if p == nil {
				return "no factory"
			}
			if s.held > 0 && p != s.p {
				return "another factory while one is in use"
			}
			s.p, s.held = p, s.held+1
			return ""
		}},
		{"addRef", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			s.held++
			if n := addRef(s.p); int(n) != s.held {
				return fmt.Sprintf("addRef returned %d, %d references are held", n, s.held)
			}
			return ""
		}},
		{"release", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			s.held--
			if n := release(s.p); int(n) != s.held {
				return fmt.Sprintf("release returned %d, %d references are held", n, s.held)
			}
			return ""
		}},
		{"queryInterface(IPluginFactory)", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			s.held++
			if p, rc := qi(s.p, iFactory); rc != 0 || p != s.p {
				return fmt.Sprintf("result %d", rc)
			}
			return ""
		}},
		{"queryInterface(FUnknown)", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			s.held++
			if p, rc := qi(s.p, iUnknown); rc != 0 || p != s.p {
				return fmt.Sprintf("result %d", rc)
			}
			return ""
		}},
		{"queryInterface(IComponent)", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			if p, rc := qi(s.p, iComponent); rc == 0 || p != nil {
				return fmt.Sprintf("result %d for an interface a factory does not have", rc)
			}
			return ""
		}},
		{"ModuleEntry", func(s *facState) string {
			if moduleEntry() == 0 {
				return "ModuleEntry failed"
			}
			return ""
		}},
		{"ModuleExit", func(s *facState) string {
			if s.held > 0 {
				return ""
			}
			if moduleExit() == 0 {
				return "ModuleExit failed"
			}
			return ""
		}},
		{"countClasses", func(s *facState) string {
			if s.held == 0 {
				return ""
			}
			if n := countClasses(s.p); n != 1 {
				return fmt.Sprintf("%d classes", n)
			}
			return ""
		}},
	}
	depth := r.Pick(6, 7)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for n := 0; n < total && !r.Failed("factory references") && !r.Expired(); n++ {
		s := &facState{}
		var names []string
		for d, x := 0, n; d < depth; d, x = d+1, x/len(ops) {
			o := &ops[x%len(ops)]
			names = append(names, o.name)
			if e := o.f(s); e != "" {
				r.Failf("factory references", "%s: %s", strings.Join(names, "; "), e)
				break
			}
		}
		for ; s.held > 0; s.held-- {
			release(s.p)
		}
		r.Count(int64(depth), int64(depth))
		r.Nontrivial(1)
	}
	r.Bound("factory_depth", depth)

	f := getFactory()
	defer release(f)

	// strings of every length around the field sizes
	for _, v := range texts(64) {
		for _, u := range texts(256) {
			for _, e := range texts(128) {
				plugin.SetFactoryInfo(plugin.FactoryInfo{Vendor: v, URL: u, Email: e})
				gv, gu, ge, flags, err := factoryInfo(f)
				if err == "" && (gv != fits(v, 64) || gu != fits(u, 256) || ge != fits(e, 128)) {
					err = fmt.Sprintf("got %q, %q, %q", gv, gu, ge)
				}
				if err == "" && flags&16 == 0 {
					err = "unicode flag missing"
				}
				if err != "" {
					r.Failf("factory info", "vendor of %d, URL of %d, email of %d bytes: %s", len(v), len(u), len(e), err)
				}
				r.Count(1, 1)
				r.Nontrivial(1)
			}
		}
	}
	base := heapInUse()
	for k := 0; k < 2000; k++ {
		factoryInfo(f)
		getClassInfo(f, 0)
	}
	if d := heapInUse() - base; d > 2000*16 {
		r.Failf("factory leaks", "reading the factory and class info 2000 times left %d bytes in use", d)
	}

	// class info
	for _, id := range []string{"org.verif.probe", "com.vst3go.examples.gain", "a", "com.vst3go.examples.delay"} {
		for _, name := range texts(64) {
			pl.info = fplugin.Info{ID: id, Name: name}
			uid := pl.info.UID()
			for _, n := range []int{-2147483648, -2, -1, 0, 1, 2, 7} {
				c := getClassInfo(f, n)
				switch {
				case c.err != "":
					r.Failf("class info", "class %d named with %d bytes: %s", n, len(name), c.err)
				case n != 0 && c.rc == 0:
					r.Failf("class info", "class %d does not exist but was described", n)
				case n == 0 && (c.rc != 0 || c.cid != uid || c.card != 0x7FFFFFFF || c.category != "Audio Module Class" || c.name != fits(name, 64)):
					r.Failf("class info", "ID %s name %q: %+v", id, name, c)
				}
				r.Count(1, 1)
				r.Nontrivial(1)
			}
			// creation: exactly this class, exactly the interface asked for
			for bit := -1; bit < 128; bit++ {
				cid := uid
				if bit >= 0 {
					cid[bit/8] ^= 1 << (bit % 8)
				}
				for k := range iidName {
					if bit >= 0 && k != iComponent {
						continue
					}
					p, rc := createRaw(f, cid, k)
					ok := bit < 0 && k <= iController
					if ok != (rc == 0 && p != nil) || !ok && p != nil {
						r.Failf("create", "createInstance(bit %d of the class ID changed, %s): result %d, object %v", bit, iidName[k], rc, p != nil)
					}
					if p != nil && rc == 0 {
						q, rc2 := qi(p, k)
						if rc2 != 0 || q != p {
							r.Failf("create", "createInstance(%s) returned an object that is not its own %s", iidName[k], iidName[k])
						} else if n := release(q); n != 1 {
							r.Failf("create", "createInstance(%s): %d references after creation, want 1", iidName[k], n)
						}
						release(p)
					}
					r.Count(1, 1)
				}
			}
		}
	}
	// no plugin, or one that cannot make a processor
	uid := pl.info.UID()
	pl.mk = func() plugin.Processor { return nil }
	if p, rc := createRaw(f, uid, iComponent); p != nil || rc == 0 {
		r.Failf("create", "a plugin without a processor was created (result %d)", rc)
	}
	plugin.Register(nil)
	if n := countClasses(f); n != 0 {
		r.Failf("no plugin", "%d classes without a plugin", n)
	}
	if c := getClassInfo(f, 0); c.rc == 0 {
		r.Failf("no plugin", "a class was described without a plugin")
	}
	if p, rc := createRaw(f, uid, iComponent); p != nil || rc == 0 {
		r.Failf("no plugin", "an instance was created without a plugin (result %d)", rc)
	}
	plugin.Register(pl)

	// the interface IDs Go code compares with are the C API's
	for name, ids := range map[string][2][16]byte{"IComponent": {vst3.IIDIComponent, iid(iComponent)}, "IAudioProcessor": {vst3.IIDIAudioProcessor, iid(iAudio)},
		"IEditController": {vst3.IIDIEditController, iid(iController)}, "FUnknown": {vst3.IIDFUnknown, iid(iUnknown)}, "IPluginFactory": {vst3.IIDIPluginFactory, iid(iFactory)}} {
		if ids[0] != ids[1] {
			r.Failf("interface IDs", "%s is %x, the C API says %x", name, ids[0], ids[1])
		}
		r.Count(1, 1)
	}
	r.Sample("factory: GetPluginFactory; GetPluginFactory; release; release; GetPluginFactory")
}
