package seq

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P10", p10)
	core.Register("P11", p11)
}

type idv struct {
	id uint32
	v  float64
}

func mkReg(vs []idv) *param.Registry {
	g := param.NewRegistry()
	for _, x := range vs {
		p := &param.Parameter{ID: x.id, Name: fmt.Sprint(x.id), Min: 0, Max: 1}
		p.SetValue(x.v)
		_ = g.Add(p)
	}
	return g
}

// golden is the on-disk form of version 1.
func golden(vs []idv, custom []byte, has bool) []byte {
	var b bytes.Buffer
	b.WriteString("VST3GO")
	w := func(x any) { _ = binary.Write(&b, binary.LittleEndian, x) }
	w(uint32(1))
	w(int32(len(vs)))
	for _, x := range vs {
		w(x.id)
		w(x.v)
	}
	if has {
		w(uint32(1))
		b.Write(custom)
	} else {
		w(uint32(0))
	}
	return b.Bytes()
}

func values(g *param.Registry) map[uint32]float64 {
	m := map[uint32]float64{}
	for _, p := range g.All() {
		m[p.ID] = p.GetValue()
	}
	return m
}

func sameValues(a, b map[uint32]float64) string {
	for id, v := range a {
		if w, ok := b[id]; !ok || math.Float64bits(v) != math.Float64bits(w) {
			return fmt.Sprintf("parameter %d is %v, want %v", id, w, v)
		}
	}
	return ""
}

// chunkReader hands out at most n bytes per read.
type chunkReader struct {
	b []byte
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := min(len(p), c.n, len(c.b))
	copy(p, c.b[:k])
	c.b = c.b[k:]
	return k, nil
}

// p10: every subset of parameters saved and loaded into every related registry.
func p10(r *core.Run) {
	if !r.Shard0() {
		return
	}
	ids := []uint32{0, 1, 7, math.MaxUint32}
	vals := []float64{0, 1, 1.0 / 3, math.Nextafter(1, 0), 5e-324}
	custom := [][]byte{nil, {}, {0}, {1, 2, 3, 4, 5}, bytes.Repeat([]byte{0xff}, 40)}
	// source registries: every subset in two orders, every assignment of values
	var sources [][]idv
	for mask := 0; mask < 1<<len(ids); mask++ {
		var sub []uint32
		for i := range ids {
			if mask>>i&1 == 1 {
				sub = append(sub, ids[i])
			}
		}
		core.Tuples(len(sub), len(vals), func(v []int) bool {
			var a, b []idv
			for i := range sub {
				a = append(a, idv{sub[i], vals[v[i]]})
			}
			for i := len(a) - 1; i >= 0; i-- {
				b = append(b, a[i])
			}
			sources = append(sources, a)
			if len(a) > 1 {
				sources = append(sources, b)
			}
			return true
		})
	}
	r.Each(len(sources), func(i int) string { return fmt.Sprintf("save/load %v", sources[i]) }, func(i int, w *core.Worker) {
		src := sources[i]
		for ci, cb := range custom {
			g := mkReg(src)
			m := state.NewManager(g)
			if cb != nil {
				m.SetCustomSaveFunc(func(w io.Writer) error { _, err := w.Write(cb); return err })
			}
			before := values(g)
			var out bytes.Buffer
			if err := m.Save(&out); err != nil {
				r.Failf("save", "saving %v failed: %v", src, err)
				return
			}
			if s := sameValues(before, values(g)); s != "" {
				r.Failf("save", "saving changed a value: %s", s)
			}
			want := golden(src, cb, cb != nil)
			if !bytes.Equal(out.Bytes(), want) {
				r.Failf("format", "saving %v custom %v\n wrote % x\n want  % x", src, cb, out.Bytes(), want)
				return
			}
			var again bytes.Buffer
			if err := m.Save(&again); err != nil || !bytes.Equal(again.Bytes(), want) {
				r.Failf("save", "second save differs: %v", err)
			}
			// load into registries holding any other subset
			for mask := 0; mask < 1<<len(ids); mask++ {
				if ci > 1 && mask != 15 && mask != 5 {
					continue
				}
				for _, chunk := range []int{1, 3, 1 << 20} {
					if chunk == 3 && mask != 15 {
						continue
					}
					var dst []idv
					for k := len(ids) - 1; k >= 0; k-- {
						if mask>>k&1 == 1 {
							dst = append(dst, idv{ids[k], 0.625})
						}
					}
					d := mkReg(dst)
					dm := state.NewManager(d)
					var got []byte
					called := 0
					dm.SetCustomLoadFunc(func(r io.Reader) error {
						called++
						var err error
						got, err = io.ReadAll(r)
						return err
					})
					rd := &chunkReader{out.Bytes(), chunk}
					if err := dm.Load(rd); err != nil {
						r.Failf("load", "state of %v does not load: %v", src, err)
						return
					}
					expect := map[uint32]float64{}
					for _, x := range dst {
						expect[x.id] = x.v
					}
					for _, x := range src {
						if _, ok := expect[x.id]; ok {
							expect[x.id] = x.v
						}
					}
					if s := sameValues(expect, values(d)); s != "" {
						r.Failf("load", "state of %v loaded into %v: %s", src, dst, s)
						return
					}
					if (cb != nil) != (called == 1) || !bytes.Equal(got, cb) || called > 1 {
						r.Failf("custom", "custom data %v arrived as %v (%d calls)", cb, got, called)
						return
					}
					r.Count(1, 2)
					r.Trace(1)
				}
			}
			// a plugin without custom loader still gets its parameters
			d := mkReg(src)
			for _, p := range d.All() {
				p.SetValue(0.2)
			}
			if err := state.NewManager(d).Load(bytes.NewReader(out.Bytes())); err != nil || sameValues(values(g), values(d)) != "" {
				r.Failf("load", "without a custom loader: %v %s", err, sameValues(values(g), values(d)))
			}
		}
	})
	r.Nontrivial(int64(len(sources)))
	// states written by hand in the version 1 form, also older versions
	for v := uint32(0); v <= 1; v++ {
		b := golden([]idv{{7, 0.5}}, nil, false)
		binary.LittleEndian.PutUint32(b[6:], v)
		d := mkReg([]idv{{7, 0.1}})
		if err := state.NewManager(d).Load(bytes.NewReader(b)); err != nil || d.Get(7).GetValue() != 0.5 {
			r.Failf("version", "a version %d state does not load: %v, value %v", v, err, d.Get(7).GetValue())
		}
	}
	// many parameters
	for _, n := range []int{100, 1000} {
		var vs []idv
		for i := 0; i < n; i++ {
			vs = append(vs, idv{uint32(i * 7919), float64(i) / float64(n)})
		}
		g := mkReg(vs)
		var out bytes.Buffer
		_ = state.NewManager(g).Save(&out)
		want := values(g)
		for _, p := range g.All() {
			p.SetValue(0.9)
		}
		if err := state.NewManager(g).Load(&out); err != nil || sameValues(want, values(g)) != "" {
			r.Failf("load", "%d parameters: %v %s", n, err, sameValues(want, values(g)))
		}
	}
	r.Bound("source_states", len(sources))
	r.Sample(fmt.Sprint(sources[len(sources)/2]))
}

type failWriter struct {
	left int
	part bool
}

var errIO = errors.New("injected fault")

func (f *failWriter) Write(p []byte) (int, error) {
	if f.left >= len(p) {
		f.left -= len(p)
		return len(p), nil
	}
	n := 0
	if f.part {
		n = f.left
	}
	f.left = 0
	return n, errIO
}

type failReader struct {
	b    []byte
	left int
	err  error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, f.err
	}
	n := min(len(p), f.left, len(f.b))
	copy(p, f.b[:n])
	f.b = f.b[n:]
	f.left -= n
	return n, nil
}

// p11: every cut, every fault position, every single-byte corruption.
func p11(r *core.Run) {
	shapes := [][]idv{nil, {{3, 0.25}}, {{3, 0.25}, {9, 0.75}}, {{1, 1}, {2, 0}, {3, 0.5}, {4, 1.0 / 3}}}
	if r.Thorough {
		var big []idv
		for i := uint32(0); i < 12; i++ {
			big = append(big, idv{i * 1000003, float64(i) / 12})
		}
		shapes = append(shapes, big)
	}
	custom := []byte{9, 8, 7, 6, 5}
	fresh := func(s []idv) (*param.Registry, map[uint32]float64) {
		d := mkReg(s)
		_ = d.Add(&param.Parameter{ID: 77, Max: 1})
		for _, p := range d.All() {
			p.SetValue(0.625)
		}
		return d, values(d)
	}
	inRange := func(d *param.Registry) string {
		for _, p := range d.All() {
			if v := p.GetValue(); !(v >= 0 && v <= 1) {
				return fmt.Sprintf("parameter %d is %v", p.ID, v)
			}
		}
		return ""
	}
	for _, sh := range shapes {
		for _, has := range []bool{false, true} {
			b := golden(sh, custom, has)
			section := 6 + 4 + 4 + 12*len(sh) + 4 // ends with the custom marker
			mgr := func(d *param.Registry) *state.Manager {
				m := state.NewManager(d)
				m.SetCustomLoadFunc(func(r io.Reader) error {
					x := make([]byte, len(custom))
					_, err := io.ReadFull(r, x)
					if err == nil && !bytes.Equal(x, custom) {
						return errors.New("bad custom data")
					}
					return err
				})
				return m
			}
			// cut after every byte, ending with EOF or an I/O error, delivered whole or bytewise
			for cut := 0; cut < len(b); cut++ {
				for _, e := range []error{io.EOF, errIO, io.ErrUnexpectedEOF} {
					for _, chunk := range []int{1, 1 << 20} {
						d, before := fresh(sh)
						var rd io.Reader = &failReader{b, cut, e}
						if chunk == 1 {
							rd = onebyte{rd}
						}
						err := mgr(d).Load(rd)
						r.Count(1, 1)
						if err == nil {
							r.Failf("cut", "state of %v cut after %d of %d bytes loads without error", sh, cut, len(b))
						}
						if cut < section {
							if s := sameValues(before, values(d)); s != "" {
								r.Failf("cut", "state of %v cut after %d of %d bytes changed a parameter: %s", sh, cut, len(b), s)
							}
						}
					}
				}
			}
			// every single-byte corruption
			for pos := 0; pos < len(b); pos++ {
				for x := 0; x < 256; x++ {
					if byte(x) == b[pos] {
						continue
					}
					c := append([]byte(nil), b...)
					c[pos] = byte(x)
					d, before := fresh(sh)
					var err error
					r.Guard("corrupt", func() string { return fmt.Sprintf("state of %v, byte %d set to %#x", sh, pos, x) }, func() {
						err = mgr(d).Load(bytes.NewReader(c))
					})
					r.Count(1, 1)
					if s := inRange(d); s != "" {
						r.Failf("corrupt", "state of %v, byte %d set to %#x: %s", sh, pos, x, s)
					}
					if pos < 6 && err == nil {
						r.Failf("corrupt", "state with a wrong signature (byte %d=%#x) accepted", pos, x)
					}
					if pos >= 6 && pos < 10 && err == nil && binary.LittleEndian.Uint32(c[6:]) > 1 {
						r.Failf("corrupt", "state of version %d accepted", binary.LittleEndian.Uint32(c[6:]))
					}
					if pos == 13 && x >= 128 && err == nil {
						r.Failf("corrupt", "negative parameter count accepted")
					}
					if n := int32(binary.LittleEndian.Uint32(c[10:])); err != nil && pos < section-4 && (n < 0 || n >= int32(len(sh))) {
						if s := sameValues(before, values(d)); s != "" {
							r.Failf("corrupt", "state of %v, byte %d set to %#x is refused (%v) but changed a parameter: %s", sh, pos, x, err, s)
						}
					}
					if err == nil && pos >= 14 && pos < section-4 { // parameter records: others untouched
						rec := (pos - 14) / 12
						for k, y := range sh {
							if k != rec && binary.LittleEndian.Uint32(c[14+12*rec:]) != y.id && d.Get(y.id).GetValue() != y.v {
								r.Failf("corrupt", "state of %v, byte %d set to %#x: parameter %d loads as %v", sh, pos, x, y.id, d.Get(y.id).GetValue())
							}
						}
					}
				}
			}
			// declared counts that do not match
			for _, n := range []int32{-1, math.MinInt32, int32(len(sh)) + 1, math.MaxInt32, 1 << 20} {
				c := append([]byte(nil), b...)
				binary.LittleEndian.PutUint32(c[10:], uint32(n))
				d, before := fresh(sh)
				var err error
				r.Guard("count", func() string { return fmt.Sprintf("declared count %d", n) }, func() { err = mgr(d).Load(bytes.NewReader(c)) })
				if err == nil {
					r.Failf("count", "state of %v declaring %d parameters accepted", sh, n)
				} else if s := sameValues(before, values(d)); s != "" {
					r.Failf("count", "state of %v declaring %d parameters is refused but changed a parameter: %s", sh, n, s)
				}
				r.Count(1, 1)
			}
			// stored values outside 0..1
			for k := range sh {
				for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -0.5, 1.5, 1e300} {
					c := append([]byte(nil), b...)
					binary.LittleEndian.PutUint64(c[14+12*k+4:], math.Float64bits(v))
					d, _ := fresh(sh)
					_ = mgr(d).Load(bytes.NewReader(c))
					if s := inRange(d); s != "" {
						r.Failf("value", "stored value %v: %s", v, s)
					}
					r.Count(1, 1)
				}
			}
			// write faults at every byte: never a silent success
			for cut := 0; cut < len(b); cut++ {
				for _, part := range []bool{false, true} {
					g := mkReg(sh)
					m := state.NewManager(g)
					if has {
						m.SetCustomSaveFunc(func(w io.Writer) error { _, err := w.Write(custom); return err })
					}
					if err := m.Save(&failWriter{cut, part}); err == nil {
						r.Failf("write", "saving %v to a stream that fails after %d of %d bytes reports success", sh, cut, len(b))
					}
					r.Count(1, 1)
				}
			}
			r.Nontrivial(int64(len(b)))
		}
		// custom hooks' own errors surface
		g := mkReg(sh)
		m := state.NewManager(g)
		m.SetCustomSaveFunc(func(io.Writer) error { return errIO })
		if err := m.Save(io.Discard); !errors.Is(err, errIO) {
			r.Failf("custom", "error of the custom save is lost: %v", err)
		}
		m.SetCustomLoadFunc(func(io.Reader) error { return errIO })
		if err := m.Load(bytes.NewReader(golden(sh, custom, true))); !errors.Is(err, errIO) {
			r.Failf("custom", "error of the custom load is lost: %v", err)
		}
		if err := m.Load(bytes.NewReader(golden(sh, nil, false))); err != nil {
			r.Failf("custom", "custom load called without custom data: %v", err)
		}
	}
	r.Bound("shapes", len(shapes))
	r.Sample("cut after byte 21 of 42 -> error, parameters unchanged")
}

type onebyte struct{ r io.Reader }

func (o onebyte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}
