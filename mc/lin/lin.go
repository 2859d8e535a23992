// Package lin explores every schedule of small concurrent programs over a
// shared object and checks each complete history for linearizability against
// a sequential specification.
package lin

import (
	"fmt"
	"strings"

	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/sched"
)

// Op is one operation: Do runs it on the real object, Spec on the model.
// Both return a canonical result string.
type Op struct {
	Name string
	Do   func(obj any) string
	Spec func(m any) string
}

// Family describes a family of programs over an alphabet of operations.
type Family struct {
	Name  string
	New   func() any // fresh real object
	Model func() any // fresh model (the real object itself for a differential check)
	// Final observes the object after all threads finished.
	Final     func(obj any) string
	FinalSpec func(m any) string
	Alphabet  []Op
	Bound     int // preemption bound, -1 none
	// Invariant is checked on the final object ("" = fine).
	Invariant func(obj any) string
	// Allowed says which operations a thread may use (nil: all).
	Allowed func(thread, op int) bool
}

type outcome struct{ perms [][]int }

// Program is a list of operations per thread (indices into the alphabet).
type Program [][]int

func (f *Family) progName(p Program) string {
	var ts []string
	for _, t := range p {
		var os []string
		for _, o := range t {
			os = append(os, f.Alphabet[o].Name)
		}
		ts = append(ts, strings.Join(os, ";"))
	}
	return f.Name + "{" + strings.Join(ts, " || ") + "}"
}

// Explore checks one program on every schedule.
func (f *Family) Explore(r *core.Run, p Program) bool {
	type rec struct {
		call, ret int
		res       string
	}
	n := 0
	var start []int
	for _, t := range p {
		start = append(start, n)
		n += len(t)
	}
	// sequential outcomes
	outs := map[string]*outcome{}
	pos := make([]int, len(p))
	var order []int
	var gen func()
	gen = func() {
		if len(order) == n {
			m := f.Model()
			res := make([]string, n)
			ptr := make([]int, len(p))
			for _, g := range order {
				ti := 0
				for ti+1 < len(p) && g >= start[ti+1] {
					ti++
				}
				ptr[ti]++
				res[g] = f.Alphabet[p[ti][g-start[ti]]].Spec(m)
			}
			key := strings.Join(res, "\x00") + "\x01" + f.FinalSpec(m)
			o := outs[key]
			if o == nil {
				o = &outcome{}
				outs[key] = o
			}
			o.perms = append(o.perms, append([]int(nil), order...))
			return
		}
		for ti := range p {
			if pos[ti] < len(p[ti]) {
				order = append(order, start[ti]+pos[ti])
				pos[ti]++
				gen()
				pos[ti]--
				order = order[:len(order)-1]
			}
		}
	}
	gen()
	name := f.progName(p)
	distinct := map[string]bool{}
	sc := &sched.Scenario{Name: name, Setup: func() ([]func(), func() string) {
		obj := f.New()
		recs := make([]rec, n)
		var bodies []func()
		for ti := range p {
			ti := ti
			bodies = append(bodies, func() {
				for k, oi := range p[ti] {
					g := start[ti] + k
					sched.BeginOp()
					res := f.Alphabet[oi].Do(obj)
					call, ret := sched.EndOp()
					recs[g] = rec{call, ret, res}
				}
			})
		}
		return bodies, func() string {
			res := make([]string, n)
			for i := range recs {
				res[i] = recs[i].res
			}
			fin := f.Final(obj)
			if f.Invariant != nil {
				if m := f.Invariant(obj); m != "" {
					return m
				}
			}
			key := strings.Join(res, "\x00") + "\x01" + fin
			distinct[key] = true
			o := outs[key]
			if o != nil {
				for _, perm := range o.perms {
					ok := true
					maxCall := -1
					// real-time order: if a returned before b was called, a precedes b
					for _, g := range perm {
						if maxCall > recs[g].ret {
							ok = false
							break
						}
						if recs[g].call > maxCall {
							maxCall = recs[g].call
						}
					}
					if ok {
						return ""
					}
				}
			}
			var sb strings.Builder
			for ti := range p {
				for k, oi := range p[ti] {
					rc := recs[start[ti]+k]
					fmt.Fprintf(&sb, "T%d %s [%d,%d] = %s\n", ti, f.Alphabet[oi].Name, rc.call, rc.ret, rc.res)
				}
			}
			return "history is not explained by any sequential order of its operations:\n" + sb.String() + "final: " + fin
		}
	}}
	st, v := sched.Explore(sc, f.Bound, r.Expired)
	r.Schedules(int64(st.Schedules))
	r.Count(int64(st.Schedules), int64(st.Transitions))
	r.Trace(int64(st.Schedules))
	r.Part("programs", 1)
	if st.Schedules > 1 {
		r.Nontrivial(1)
	}
	r.Part("distinct_outcomes", int64(len(distinct)))
	if v != nil {
		r.Fail(v.Kind+":"+f.Name, name+": "+v.Msg+"\nschedule:\n  "+strings.Join(v.Trace, "\n  "),
			map[string]any{"program": name, "kind": v.Kind, "choices": v.Choices, "trace": v.Trace})
		return false
	}
	return true
}

// Programs enumerates all programs with the given thread lengths over the
// alphabet, up to permuting threads of equal length, and explores them.
// Programs are dealt to shards round-robin.
func (f *Family) Programs(r *core.Run, lens []int) {
	total := 0
	for _, l := range lens {
		total += l
	}
	i := 0
	cnt := 0
	core.Tuples(total, len(f.Alphabet), func(v []int) bool {
		var p Program
		k := 0
		for _, l := range lens {
			p = append(p, append([]int(nil), v[k:k+l]...))
			k += l
		}
		for t := range p {
			for _, o := range p[t] {
				if f.Allowed != nil && !f.Allowed(t, o) {
					return true
				}
			}
		}
		for t := 1; t < len(p) && f.Allowed == nil; t++ { // symmetric programs once
			if len(p[t]) == len(p[t-1]) && less(p[t], p[t-1]) {
				return true
			}
		}
		i++
		if (i-1)%r.Shards != r.Shard {
			return true
		}
		if r.Expired() {
			return false
		}
		cnt++
		if cnt == 1 || cnt == 37 {
			r.Sample(f.progName(p))
		}
		f.Explore(r, p)
		return !r.Failed("check:"+f.Name) && !r.Failed("race:"+f.Name) && !r.Failed("panic:"+f.Name) && !r.Failed("deadlock:"+f.Name)
	})
}

func less(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
