package core

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Sys is a system under exploration: the real object plus whatever monitor
// judges it.  Do performs operation op; it answers enabled=false when the
// operation is not possible here, and a non-empty bad when the step broke the
// property.  Key identifies the state (implementation and monitor).
type Sys interface {
	Do(op int) (bad string, enabled bool)
	Key() string
}

// Explore visits every state reachable from New by breadth-first search with
// state matching, re-executing the path to each state on the real code.  It
// stops at depth maxDepth or maxStates.
func Explore(r *Run, name string, mk func() Sys, ops []string, maxDepth, maxStates int) (fix bool) {
	if len(ops) > 255 {
		panic("too many operations")
	}
	pathStr := func(p []byte) string {
		var s []string
		for _, o := range p {
			s = append(s, ops[o])
		}
		return name + ": " + strings.Join(s, "; ")
	}
	seen := map[string]bool{}
	s0 := mk()
	seen[s0.Key()] = true
	frontier := [][]byte{{}}
	states, trans := int64(1), int64(0)
	depth := 0
	for ; depth < maxDepth && len(frontier) > 0; depth++ {
		type succ struct {
			path []byte
			key  string
		}
		out := make([][]succ, len(frontier))
		var next atomic.Int64
		var wg sync.WaitGroup
		var tr atomic.Int64
		for k := 0; k < runtime.GOMAXPROCS(0); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w := r.newWorker()
				defer w.rec.since.Store(0)
				for {
					i := int(next.Add(1)) - 1
					if i >= len(frontier) || r.Expired() || r.Failed(name) {
						return
					}
					p := frontier[i]
					for o := range ops {
						full := append(append([]byte(nil), p...), byte(o))
						w.At(name)
						func() {
							defer func() {
								if e := recover(); e != nil {
									buf := make([]byte, 6000)
									n := runtime.Stack(buf, false)
									r.Fail(name, fmt.Sprintf("%s\npanic: %v\n%s", pathStr(full), e, trimStack(string(buf[:n]))), map[string]any{"family": name, "history": pathStr(full)})
								}
							}()
							s := mk()
							for _, q := range p {
								s.Do(int(q))
							}
							bad, ok := s.Do(o)
							if !ok {
								return
							}
							tr.Add(1)
							if bad != "" {
								r.Fail(name, pathStr(full)+"\n"+bad, map[string]any{"family": name, "history": pathStr(full)})
								return
							}
							out[i] = append(out[i], succ{full, s.Key()})
						}()
					}
				}
			}()
		}
		wg.Wait()
		trans += tr.Load()
		var nf [][]byte
		for _, ss := range out {
			for _, s := range ss {
				if !seen[s.key] {
					seen[s.key] = true
					states++
					nf = append(nf, s.path)
				}
			}
		}
		frontier = nf
		if r.Failed(name) || r.Expired() {
			break
		}
		if len(seen) > maxStates {
			depth++
			break
		}
	}
	fix = len(frontier) == 0
	r.Count(states, trans)
	r.Trace(trans)
	r.Nontrivial(states)
	r.Part(name+"_states", states)
	r.Bound(name+"_depth", depth)
	r.Bound(name+"_alphabet", len(ops))
	r.Bound(name+"_fixpoint", fix)
	if len(frontier) > 0 {
		r.Sample(pathStr(frontier[0]))
	}
	return fix
}

// Dump renders the whole reachable state of a value, unexported fields
// included, canonically (maps sorted, pointers followed, functions and
// channels ignored).  Used only to recognise equal states.
func Dump(v any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0, map[uintptr]int{})
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, d int, seen map[uintptr]int) {
	if !v.IsValid() || d > 40 {
		b.WriteByte('_')
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), d+1, seen)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), d+1, seen)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.Map:
		var e []string
		it := v.MapRange()
		for it.Next() {
			var s strings.Builder
			dump(&s, it.Key(), d+1, seen)
			s.WriteByte(':')
			dump(&s, it.Value(), d+1, seen)
			e = append(e, s.String())
		}
		sort.Strings(e)
		fmt.Fprint(b, "m", e)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(b, "@%d", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		dump(b, v.Elem(), d+1, seen)
	case reflect.Interface:
		dump(b, v.Elem(), d+1, seen)
	}
}
