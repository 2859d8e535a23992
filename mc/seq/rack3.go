package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/rack"
)

func init() { core.Register("P74", p74) }

// p74: every way of having a processor do the same does the same.
func p74(r *core.Run) {
	n := r.Pick(320, 320)
	x := rackTone(n)
	sr := []float64{8000}
	if r.Thorough {
		sr = append(sr, 44100)
	}
	total := 0
	for _, s := range sr {
		for _, f := range rack.Forms(s) {
			forms(r, f, [][]float32{x[0], x[1]}, r.Pick(1, 2))
			total++
		}
		var w [][]float64
		for _, c := range x {
			d := make([]float64, n)
			for i, v := range c {
				d[i] = float64(v)
			}
			w = append(w, d)
		}
		for _, f := range rack.Forms64(s) {
			forms(r, f, w, r.Pick(1, 2))
			total++
		}
	}
	r.Bound("forms", total)
	r.Bound("settings_in_sequence", r.Pick(1, 2))
}

// place says where the outputs go and the inputs come from.
type place struct {
	out   []int // the input whose place each output takes, or -1 for one of its own
	equal bool  // all inputs are the one buffer
	extra int   // how much longer outputs of their own are than the block
}

func (p place) String() string {
	s := "buffers of their own"
	if p.equal {
		s = "one buffer for all inputs"
	}
	if p.extra > 0 {
		s += " and longer outputs"
	}
	for c, o := range p.out {
		if o >= 0 {
			s += fmt.Sprintf(", output %d in place of input %d", c, o)
		}
	}
	return s
}

func forms[T rack.Sample](r *core.Run, f rack.Form[T], sound [][]T, depth int) {
	const room = 5
	canary := T(math.Inf(1))
	n := len(sound[0])
	own := make([]int, f.Out)
	for c := range own {
		own[c] = -1
	}
	places := []place{{out: own}}
	if f.In > 0 {
		places = append(places, place{out: own, extra: 3})
	}
	if f.In > 1 {
		places = append(places, place{out: own, equal: true})
	}
	// every choice of outputs that take the place of their input; with one input,
	// or if any may, of any, each at most once
	core.Tuples(f.Out, f.In+1, func(v []int) bool {
		p := place{out: make([]int, f.Out)}
		used, some := map[int]bool{}, false
		for c, o := range v {
			p.out[c] = o - 1
			if o == 0 {
				continue
			}
			some = true
			if used[o] || f.In > 1 && !f.Any && o-1 != c {
				return true
			}
			used[o] = true
		}
		if some {
			places = append(places, p)
		}
		return true
	})
	blocks := []int{n - 101, 1, 100}
	_, ops := f.Mk()
	nOps := max(1, len(ops))
	if len(ops) == 0 {
		depth = 0
	}
	r.Each(countSettings(nOps, depth), func(x int) string { return fmt.Sprint(f.Name, " case ", x) }, func(x int, _ *core.Worker) {
		seq := settings(nOps, depth, x)
		// play has the sound processed, and says what is wrong besides its result
		play := func(w int, p place, sound [][]T) (res [][]T, wrong string) {
			ws, ops := f.Mk()
			for _, j := range seq {
				ops[j].Do()
			}
			res = make([][]T, f.Out)
			at := 0
			for _, b := range blocks {
				arr, in := make([][]T, f.In), [][]T(nil)
				for c := range arr {
					arr[c] = make([]T, b+room)
					copy(arr[c], sound[c][at:at+b])
					for i := b; i < b+room; i++ {
						arr[c][i] = canary
					}
					k := c
					if p.equal {
						k = 0
					}
					in = append(in, arr[k][:b])
				}
				outs, out := make([][]T, f.Out), make([][]T, f.Out)
				for c, o := range p.out {
					if o >= 0 {
						outs[c], out[c] = arr[o], in[o]
						continue
					}
					outs[c] = make([]T, b+room)
					for i := range outs[c] {
						outs[c][i] = canary
					}
					out[c] = outs[c][:b+p.extra]
					if f.In == 0 {
						out[c] = outs[c][:b]
					}
				}
				ws[w].Run(in, out)
				for c := range arr {
					taken := false
					for _, o := range p.out {
						taken = taken || o == c
					}
					for i := 0; i < b && !taken; i++ {
						if arr[c][i] != sound[c][at+i] {
							return nil, fmt.Sprintf("sample %d of input %d was %v and is %v after", i, c, sound[c][at+i], arr[c][i])
						}
					}
					for i := b; i < b+room; i++ {
						if arr[c][i] != canary {
							return nil, fmt.Sprintf("wrote sample %d of a block of %d", i, b)
						}
					}
				}
				for c := range outs {
					for i := b; i < b+room; i++ {
						if outs[c][i] != canary {
							return nil, fmt.Sprintf("wrote sample %d of a block of %d to output %d", i, b, c)
						}
					}
					res[c] = append(res[c], outs[c][:b]...)
				}
				at += b
			}
			return
		}
		name := func() string {
			s := f.Name
			for _, j := range seq {
				s += "; " + ops[j].Name
			}
			return s
		}
		bad := func(what string) { r.Failf("forms:"+f.Name, "%s: %s", name(), what) }
		same := func(a, b [][]T, first bool, tol float64) string {
			for c := range a {
				if c > 0 && first {
					break
				}
				for i := range a[c] {
					p, q := float64(a[c][i]), float64(b[c][i])
					if p != q && !(math.Abs(p-q) <= tol*(1+math.Abs(p))) && (p == p || q == q) {
						return fmt.Sprintf("sample %d of output %d is %v, not %v", i, c, q, p)
					}
				}
			}
			return ""
		}
		one := make([][]T, f.In)
		for c := range one {
			one[c] = sound[0]
		}
		var want, wantOne [][]T
		for i, p := range places {
			s := sound
			if p.equal {
				s = one
			}
			res, wrong := play(0, p, s)
			if wrong != "" {
				bad("by buffer with " + p.String() + ": " + wrong)
				return
			}
			ref := want
			if p.equal {
				if wantOne == nil {
					wantOne, wrong = play(0, places[0], one)
					if wrong != "" {
						bad("by buffer with equal inputs: " + wrong)
						return
					}
				}
				ref = wantOne
			}
			if i == 0 {
				want = res
			} else if e := same(ref, res, false, 0); e != "" {
				bad("by buffer with " + p.String() + ": " + e + " as with buffers of their own")
				return
			}
		}
		ws, _ := f.Mk()
		for k := 1; k < len(ws); k++ {
			w := ws[k]
			skip := false
			for _, j := range seq {
				skip = skip || w.Skip != nil && w.Skip(ops[j].Name)
			}
			if skip {
				continue
			}
			ref, s := want, sound
			if w.Equal {
				ref, s = wantOne, one
			}
			res, wrong := play(k, places[0], s)
			if wrong == "" {
				wrong = same(ref, res, w.First, 1e-5)
			}
			if wrong != "" {
				bad(w.Name + " (way " + fmt.Sprint(k) + "): " + wrong)
				return
			}
		}
		r.Count(int64(len(places)+len(ws)-1), int64(n*(len(places)+len(ws)-1)))
		r.Nontrivial(1)
	})
}
