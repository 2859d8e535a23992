package conc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/lin"
	"github.com/justyntemme/vst3go/verifmc/sched"
)

func init() {
	core.Register("P01", pa01)
	core.Register("P04", pa04)
	core.Register("P05", pa05)
	core.Register("P10", st01)
}

func fl(x float64) string { return fmt.Sprintf("%.12g", x+0) }

// cell is the model of one parameter value.
type cell struct{ v, min, max float64 }

func clamp01(v float64) float64 {
	if !(v >= 0) { // also NaN
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

func pa01(r *core.Run) {
	mk := func(min, max float64) *lin.Family {
		norm := func(p float64) float64 {
			if max <= min {
				return 0
			}
			return clamp01((p - min) / (max - min))
		}
		setv := func(v float64) lin.Op {
			return lin.Op{Name: fmt.Sprintf("SetValue(%v)", v),
				Do:   func(o any) string { o.(*param.Parameter).SetValue(v); return "" },
				Spec: func(m any) string { m.(*cell).v = clamp01(v); return "" }}
		}
		setp := func(v float64) lin.Op {
			return lin.Op{Name: fmt.Sprintf("SetPlainValue(%v)", v),
				Do:   func(o any) string { o.(*param.Parameter).SetPlainValue(v); return "" },
				Spec: func(m any) string { m.(*cell).v = norm(v); return "" }}
		}
		return &lin.Family{
			Name: fmt.Sprintf("parameter[%v,%v]", min, max),
			New: func() any {
				p := &param.Parameter{ID: 1, Min: min, Max: max}
				return p
			},
			Model: func() any { return &cell{0, min, max} },
			Alphabet: []lin.Op{
				setv(0.25), setv(1), setv(-0.5), setv(7), setp(min + (max-min)*0.75), setp(max + 10),
				{Name: "GetValue", Do: func(o any) string { return fl(o.(*param.Parameter).GetValue()) }, Spec: func(m any) string { return fl(m.(*cell).v) }},
				{Name: "GetPlainValue", Do: func(o any) string { return fl(o.(*param.Parameter).GetPlainValue()) },
					Spec: func(m any) string { c := m.(*cell); return fl(c.min + c.v*(c.max-c.min)) }},
			},
			Final:     func(o any) string { return fl(o.(*param.Parameter).GetValue()) },
			FinalSpec: func(m any) string { return fl(m.(*cell).v) },
			Invariant: func(o any) string {
				if v := o.(*param.Parameter).GetValue(); !(v >= 0 && v <= 1) {
					return fmt.Sprintf("value %v outside 0..1", v)
				}
				return ""
			},
			Bound: -1,
		}
	}
	for _, rg := range [][2]float64{{-24, 24}, {0, 1}} {
		f := mk(rg[0], rg[1])
		f.Programs(r, []int{1, 1, 1})
		f.Programs(r, []int{2, 2})
		if r.Thorough {
			f.Programs(r, []int{3, 2})
			f.Programs(r, []int{2, 1, 1})
			f.Programs(r, []int{1, 1, 1, 1})
		}
	}
	r.Bound("threads", r.Pick(3, 4))
	r.Bound("operations", r.Pick(4, 5))
	r.Bound("preemptions", "unbounded")
}

// regModel is the model of a registry: ordered, first registration of an id wins.
type regModel struct {
	order []uint32
	who   map[uint32]string
}

func newRegModel() any { return &regModel{who: map[uint32]string{}} }

func pname(p *param.Parameter) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("%d/%s", p.ID, p.Name)
}

func pa04(r *core.Run) {
	add := func(ids ...uint32) lin.Op {
		tag := fmt.Sprint(ids)
		return lin.Op{Name: "Add" + tag,
			Do: func(o any) string {
				var ps []*param.Parameter
				for _, id := range ids {
					ps = append(ps, &param.Parameter{ID: id, Name: tag})
				}
				return fmt.Sprint(o.(*param.Registry).Add(ps...))
			},
			Spec: func(m any) string {
				g := m.(*regModel)
				for _, id := range ids {
					if _, ok := g.who[id]; !ok {
						g.who[id] = tag
						g.order = append(g.order, id)
					}
				}
				return "<nil>"
			}}
	}
	get := func(id uint32) lin.Op {
		return lin.Op{Name: fmt.Sprintf("Get(%d)", id),
			Do: func(o any) string { return pname(o.(*param.Registry).Get(id)) },
			Spec: func(m any) string {
				if n, ok := m.(*regModel).who[id]; ok {
					return fmt.Sprintf("%d/%s", id, n)
				}
				return "nil"
			}}
	}
	at := func(i int32) lin.Op {
		return lin.Op{Name: fmt.Sprintf("GetByIndex(%d)", i),
			Do: func(o any) string { return pname(o.(*param.Registry).GetByIndex(i)) },
			Spec: func(m any) string {
				g := m.(*regModel)
				if int(i) < len(g.order) && i >= 0 {
					id := g.order[i]
					return fmt.Sprintf("%d/%s", id, g.who[id])
				}
				return "nil"
			}}
	}
	allOf := func(o any) string {
		var s []string
		for _, p := range o.(*param.Registry).All() {
			s = append(s, pname(p))
		}
		return strings.Join(s, ",")
	}
	allSpec := func(m any) string {
		g := m.(*regModel)
		var s []string
		for _, id := range g.order {
			s = append(s, fmt.Sprintf("%d/%s", id, g.who[id]))
		}
		return strings.Join(s, ",")
	}
	f := &lin.Family{Name: "registry",
		New: func() any { return param.NewRegistry() }, Model: newRegModel,
		Alphabet: []lin.Op{add(7), add(7, 9), add(9, 3), get(7), get(9), at(0), at(1),
			{Name: "Count", Do: func(o any) string { return fmt.Sprint(o.(*param.Registry).Count()) }, Spec: func(m any) string { return fmt.Sprint(len(m.(*regModel).order)) }},
			{Name: "All", Do: allOf, Spec: allSpec}},
		Final: allOf, FinalSpec: allSpec, Bound: -1}
	f.Programs(r, []int{1, 1})
	f.Programs(r, []int{1, 1, 1})
	f.Programs(r, []int{2, 2})
	if r.Thorough {
		f.Programs(r, []int{2, 1, 1})
		f.Alphabet = append(f.Alphabet[:3:3], f.Alphabet[4:]...) // one way of asking for an ID by number
		f.Alphabet = append(f.Alphabet[:4:4], f.Alphabet[5:]...) // and one reservation
		f.Programs(r, []int{3, 2})
		f.Programs(r, []int{1, 1, 1, 1})
	}
	r.Bound("threads", r.Pick(3, 4))
	r.Bound("operations", r.Pick(4, 5))
	r.Bound("preemptions", "unbounded")
}

// pa05: automatic ids.  Differential linearizability against the real
// registry run one operation at a time, plus the uniqueness invariant.
func pa05(r *core.Run) {
	type reg struct {
		r       *param.AutoRegistry
		handed  []string
		granted [][2]uint64
	}
	reg1 := func(name string, id uint32) lin.Op {
		f := func(o any) string {
			p := &param.Parameter{ID: id, Name: name}
			err := o.(*reg).r.Register(p)
			if err != nil {
				return "error"
			}
			return fmt.Sprint(p.ID)
		}
		return lin.Op{Name: fmt.Sprintf("Register(%s,%d)", name, id), Do: f, Spec: f}
	}
	regID := func(name string, id uint32) lin.Op {
		f := func(o any) string {
			err := o.(*reg).r.RegisterWithID(id, &param.Parameter{Name: name})
			if err != nil {
				return "error"
			}
			return "ok"
		}
		return lin.Op{Name: fmt.Sprintf("RegisterWithID(%d,%s)", id, name), Do: f, Spec: f}
	}
	reserve := func(n uint32) lin.Op {
		f := func(o any) string { return fmt.Sprint(o.(*reg).r.Reserve(n)) }
		return lin.Op{Name: fmt.Sprintf("Reserve(%d)", n), Do: f, Spec: f}
	}
	getn := func(name string) lin.Op {
		f := func(o any) string {
			id, ok := o.(*reg).r.GetID(name)
			return fmt.Sprintf("%v,%v,%s", id, ok, pname(o.(*reg).r.GetByName(name)))
		}
		return lin.Op{Name: "Lookup(" + name + ")", Do: f, Spec: f}
	}
	_ = getn
	getid := func(name string) lin.Op {
		f := func(o any) string {
			id, ok := o.(*reg).r.GetID(name)
			return fmt.Sprintf("%v,%v", id, ok)
		}
		return lin.Op{Name: "GetID(" + name + ")", Do: f, Spec: f}
	}
	getp := func(name string) lin.Op {
		f := func(o any) string { return pname(o.(*reg).r.GetByName(name)) }
		return lin.Op{Name: "GetByName(" + name + ")", Do: f, Spec: f}
	}
	clear := lin.Op{Name: "Clear", Do: func(o any) string { o.(*reg).r.Clear(); return "" }, Spec: func(o any) string { o.(*reg).r.Clear(); return "" }}
	auto := func(on bool) lin.Op {
		f := func(o any) string { o.(*reg).r.EnableAutoID(on); return "" }
		return lin.Op{Name: fmt.Sprintf("EnableAutoID(%v)", on), Do: f, Spec: f}
	}
	fin := func(o any) string {
		var s []string
		for _, p := range o.(*reg).r.All() {
			id, ok := o.(*reg).r.GetID(p.Name)
			s = append(s, pname(p)+fmt.Sprintf("(%d,%v)", id, ok))
		}
		return strings.Join(s, ",")
	}
	f := &lin.Family{Name: "autoregistry",
		New:      func() any { return &reg{r: param.NewAutoRegistry()} },
		Model:    func() any { return &reg{r: param.NewAutoRegistry()} },
		Alphabet: []lin.Op{reg1("a", 0), reg1("b", 0), reg1("c", 2), regID("d", 1), regID("e", 3), reserve(1), reserve(2), getid("a"), getp("d"), clear, auto(false)},
		Final:    fin, FinalSpec: fin, Bound: -1}
	f.Programs(r, []int{1, 1})
	f.Programs(r, []int{1, 1, 1})
	f.Programs(r, []int{2, 2})
	if r.Thorough {
		f.Alphabet = f.Alphabet[:len(f.Alphabet)-1]
		f.Programs(r, []int{2, 1, 1})
		f.Programs(r, []int{3, 2})
	}
	r.Bound("threads", 3)
	r.Bound("operations", r.Pick(4, 5))
}

// st01: saving while parameters are being registered, changed and loaded.
func st01(r *core.Run) {
	if r.Shard != 0 {
		return
	}
	type variant struct {
		name   string
		bodies func(reg *param.Registry, mgr *state.Manager, out *bytes.Buffer) []func()
	}
	blob := func(vals map[uint32]float64) []byte {
		reg := param.NewRegistry()
		var ids []int
		for id := range vals {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			p := &param.Parameter{ID: uint32(id), Min: 0, Max: 1}
			p.SetValue(vals[uint32(id)])
			_ = reg.Add(p)
		}
		var b bytes.Buffer
		if err := state.NewManager(reg).Save(&b); err != nil {
			panic(err)
		}
		return b.Bytes()
	}
	pre := blob(map[uint32]float64{1: 0.9, 2: 0.8})
	vars := []variant{
		{"save||add", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			return []func(){func() { _ = m.Save(out) }, func() { _ = reg.Add(&param.Parameter{ID: 5}) }}
		}},
		{"save||add,add", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			return []func(){func() { _ = m.Save(out) }, func() { _ = reg.Add(&param.Parameter{ID: 5}); _ = reg.Add(&param.Parameter{ID: 6}) }}
		}},
		{"save||set,set", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			return []func(){func() { _ = m.Save(out) }, func() { reg.Get(1).SetValue(0.75); reg.Get(2).SetValue(0.125) }}
		}},
		{"save||set||add", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			return []func(){func() { _ = m.Save(out) }, func() { reg.Get(1).SetValue(0.75) }, func() { _ = reg.Add(&param.Parameter{ID: 5}) }}
		}},
		{"save||load", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			m2 := state.NewManager(reg)
			return []func(){func() { _ = m.Save(out) }, func() { _ = m2.Load(bytes.NewReader(pre)) }}
		}},
		{"load||read", func(reg *param.Registry, m *state.Manager, out *bytes.Buffer) []func() {
			return []func(){func() { _ = m.Load(bytes.NewReader(pre)); _ = m.Save(out) }, func() {
				for i := uint32(1); i <= 2; i++ {
					if v := reg.Get(i).GetValue(); !(v >= 0 && v <= 1) {
						panic("value out of range")
					}
				}
			}}
		}},
	}
	allowed := map[uint32]map[float64]bool{1: {0.25: true, 0.75: true, 0.9: true}, 2: {0.5: true, 0.125: true, 0.8: true}, 5: {0: true}, 6: {0: true}}
	for _, v := range vars {
		v := v
		sc := &sched.Scenario{Name: v.name, Setup: func() ([]func(), func() string) {
			reg := param.NewRegistry()
			p1, p2 := &param.Parameter{ID: 1, Max: 1}, &param.Parameter{ID: 2, Max: 1}
			p1.SetValue(0.25)
			p2.SetValue(0.5)
			_ = reg.Add(p1, p2)
			m := state.NewManager(reg)
			var out bytes.Buffer
			return v.bodies(reg, m, &out), func() string {
				b := out.Bytes()
				// the stream must be a complete state with the parameters it
				// declares: load it into a fresh registry with known sentinels
				r2 := param.NewRegistry()
				for _, id := range []uint32{1, 2, 5, 6} {
					p := &param.Parameter{ID: id, Max: 1}
					p.SetValue(0.333)
					_ = r2.Add(p)
				}
				rd := bytes.NewReader(b)
				if err := state.NewManager(r2).Load(rd); err != nil {
					return fmt.Sprintf("state saved concurrently does not load: %v (% x)", err, b)
				}
				if rd.Len() != 0 {
					return fmt.Sprintf("state saved concurrently has %d unread bytes: declared count and content disagree (% x)", rd.Len(), b)
				}
				for _, id := range []uint32{1, 2} {
					if x := r2.Get(id).GetValue(); !allowed[id][x] {
						return fmt.Sprintf("parameter %d saved as %v, a value it never had", id, x)
					}
				}
				for _, id := range []uint32{5, 6} {
					if x := r2.Get(id).GetValue(); x != 0 && math.Abs(x-0.333) > 1e-9 {
						return fmt.Sprintf("parameter %d saved as %v, a value it never had", id, x)
					}
				}
				return ""
			}
		}}
		st, viol := sched.Explore(sc, -1, r.Expired)
		r.Schedules(int64(st.Schedules))
		r.Count(int64(st.Schedules), int64(st.Transitions))
		r.Trace(int64(st.Schedules))
		r.Nontrivial(1)
		r.Sample(v.name + fmt.Sprintf(": %d schedules", st.Schedules))
		if viol != nil {
			r.Fail(viol.Kind+":state", v.name+": "+viol.Msg+"\n"+strings.Join(viol.Trace, "\n"), map[string]any{"program": v.name, "choices": viol.Choices})
		}
	}
	_ = binary.LittleEndian
}
