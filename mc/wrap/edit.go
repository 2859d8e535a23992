//go:build verifedit

package wrap

import (
	"fmt"
	"math"
	"strings"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P67", checkEdits) }

// --- P67: the host's edit handler -------------------------------------------

type editState struct {
	i   [2]*inst
	h   [3]editHandler // h[0] is a null pointer
	cur [2]int
	val [2]map[uint32]float64
}

// refs compares what the handlers are held by with the components that have them.
func (s *editState) refs() string {
	for k := 1; k < 3; k++ {
		want := 1
		for x := range s.i {
			if s.i[x] != nil && s.cur[x] == k {
				want++
			}
		}
		if g := s.h[k].refs(); g != want {
			return fmt.Sprintf("handler %d has %d references, the host holds 1 and it is set in %d components", k, g, want-1)
		}
		if s.h[k].late() > 0 {
			return fmt.Sprintf("handler %d was called after its last reference was dropped", k)
		}
	}
	return ""
}

func checkEdits(r *core.Run) {
	var ops []op[*editState]
	add := func(name string, f func(s *editState) string) {
		ops = append(ops, op[*editState]{name, func(s *editState) string {
			if e := f(s); e != "" {
				return e
			}
			if e := s.refs(); e != "" {
				return e
			}
			for k := 1; k < 3; k++ {
				if t := s.h[k].told(); len(t) > 0 {
					return fmt.Sprintf("handler %d was told %q for nothing", k, t)
				}
			}
			for x := range s.i {
				if s.i[x] == nil {
					continue
				}
				for id, v := range s.val[x] {
					if g, p := s.i[x].get(id), s.i[x].p.params.Get(id).GetValue(); g != v || p != v {
						return fmt.Sprintf("component %d: parameter %d is %v to the host and %v to the plugin, last set to %v", x, id, g, p, v)
					}
				}
			}
			return ""
		}})
	}
	for x := 0; x < 2; x++ {
		for k := 0; k < 3; k++ {
			add(fmt.Sprintf("component %d.setComponentHandler(%d)", x, k), func(s *editState) string {
				if s.i[x] == nil {
					return ""
				}
				var p unsafe.Pointer
				if k > 0 {
					p = s.h[k].p
				}
				s.cur[x] = k
				if rc := s.i[x].setHandler(p); rc != 0 {
					return fmt.Sprintf("returned %d", rc)
				}
				return ""
			})
		}
		for _, e := range []struct {
			id uint32
			v  float64
		}{{7, 0.25}, {7, 1.5}, {3, -0.5}, {3, math.NaN()}, {7, 0}, {99, 0.5}} {
			if x == 1 && e.v != 0.25 && e.id != 99 {
				continue
			}
			add(fmt.Sprintf("the plugin of component %d edits parameter %d to %v", x, e.id, e.v), func(s *editState) string {
				if s.i[x] == nil {
					return ""
				}
				err, ok := plugin.VEdit(s.i[x].p, e.id, e.v)
				if !ok {
					return "the component is gone"
				}
				var want []string
				if e.id == 99 {
					if err == nil {
						return "an unknown parameter was edited"
					}
				} else {
					if err != nil {
						return err.Error()
					}
					s.val[x][e.id] = clamp01(e.v)
					want = []string{fmt.Sprintf("begin %d", e.id), fmt.Sprintf("perform %d %v", e.id, clamp01(e.v)), fmt.Sprintf("end %d", e.id)}
				}
				if s.cur[x] > 0 {
					if g := s.h[s.cur[x]].told(); strings.Join(g, ",") != strings.Join(want, ",") {
						return fmt.Sprintf("the host was told %q, should be %q", g, want)
					}
				}
				return ""
			})
		}
		add(fmt.Sprintf("the host sets parameter 7 of component %d to 0.75", x), func(s *editState) string {
			if s.i[x] != nil {
				s.i[x].set(7, 0.75)
				s.val[x][7] = 0.75
			}
			return ""
		})
	}
	add("component 1 is released", func(s *editState) string {
		if s.i[1] != nil {
			n := s.i[1].free()
			s.i[1] = nil
			if n != 0 {
				return fmt.Sprintf("%d references are left", n)
			}
		}
		return ""
	})
	histories(r, "edits", func() *editState {
		s := &editState{}
		for k := 1; k < 3; k++ {
			s.h[k] = newEditHandler()
		}
		for x := range s.i {
			s.i[x] = create(newProc())
			s.val[x] = map[uint32]float64{7: 0, 3: 0.5}
		}
		return s
	}, func(s *editState) string {
		for x := range s.i {
			if s.i[x] != nil {
				if x == 0 {
					s.i[x].terminate()
				}
				s.i[x].free()
				s.i[x] = nil
			}
		}
		e := s.refs()
		for k := 1; k < 3; k++ {
			s.h[k].free()
		}
		return e
	}, ops, r.Pick(5, 6))
}
