// Package wrap drives the plugin through its C entry point, as a host does,
// and compares what the host and the plugin see with reference models.
package wrap

// #cgo CFLAGS: -I${SRCDIR}/../../include -w
// #include "vst3/vst3_c_api.h"
// #include <stdlib.h>
// #include <string.h>
// #include <malloc.h>
//
// struct Steinberg_IPluginFactory* GetPluginFactory();
// int ModuleEntry(void*);
// int ModuleExit();
//
// typedef struct Steinberg_FUnknown unk;
// static int32_t h_qi(void* o, const char* iid, void** out) { return ((unk*)o)->lpVtbl->queryInterface(o, iid, out); }
// static uint32_t h_addRef(void* o) { return ((unk*)o)->lpVtbl->addRef(o); }
// static uint32_t h_release(void* o) { return ((unk*)o)->lpVtbl->release(o); }
// static const char* h_iid(int k) {
//   switch (k) {
//   case 0: return Steinberg_FUnknown_iid; case 1: return Steinberg_IPluginBase_iid; case 2: return Steinberg_Vst_IComponent_iid;
//   case 3: return Steinberg_Vst_IAudioProcessor_iid; case 4: return Steinberg_Vst_IEditController_iid;
//   case 5: return Steinberg_IPluginFactory_iid; default: return Steinberg_IBStream_iid; }
// }
// #define FAC ((Steinberg_IPluginFactory*)o)->lpVtbl
// static int32_t f_info(void* o, struct Steinberg_PFactoryInfo* i) { return FAC->getFactoryInfo(o, i); }
// static int32_t f_count(void* o) { return FAC->countClasses(o); }
// static int32_t f_class(void* o, int32_t n, struct Steinberg_PClassInfo* i) { return FAC->getClassInfo(o, n, i); }
// static int32_t f_create(void* o, const char* cid, const char* iid, void** out) { return FAC->createInstance(o, cid, iid, out); }
// #define CMP ((Steinberg_Vst_IComponent*)o)->lpVtbl
// static int32_t c_init(void* o, void* c) { return CMP->initialize(o, c); }
// static int32_t c_term(void* o) { return CMP->terminate(o); }
// static int32_t c_ctrl(void* o, char* id) { return CMP->getControllerClassId(o, id); }
// static int32_t c_io(void* o, int32_t m) { return CMP->setIoMode(o, m); }
// static int32_t c_busCount(void* o, int32_t t, int32_t d) { return CMP->getBusCount(o, t, d); }
// static int32_t c_busInfo(void* o, int32_t t, int32_t d, int32_t i, struct Steinberg_Vst_BusInfo* b) { return CMP->getBusInfo(o, t, d, i, b); }
// static int32_t c_act(void* o, int32_t t, int32_t d, int32_t i, int32_t s) { return CMP->activateBus(o, t, d, i, s); }
// static int32_t c_active(void* o, int32_t s) { return CMP->setActive(o, s); }
// static int32_t c_setState(void* o, void* s) { return CMP->setState(o, s); }
// static int32_t c_getState(void* o, void* s) { return CMP->getState(o, s); }
// #define AUD ((Steinberg_Vst_IAudioProcessor*)o)->lpVtbl
// static int32_t a_setArr(void* o, uint64_t* i, int32_t ni, uint64_t* u, int32_t nu) { return AUD->setBusArrangements(o, i, ni, u, nu); }
// static int32_t a_getArr(void* o, int32_t d, int32_t n, uint64_t* a) { return AUD->getBusArrangement(o, d, n, a); }
// static int32_t a_can(void* o, int32_t s) { return AUD->canProcessSampleSize(o, s); }
// static uint32_t a_lat(void* o) { return AUD->getLatencySamples(o); }
// static int32_t a_setup(void* o, int32_t mode, int32_t size, int32_t n, double sr) {
//   struct Steinberg_Vst_ProcessSetup s; memset(&s, 0, sizeof s); s.processMode = mode; s.symbolicSampleSize = size; s.maxSamplesPerBlock = n; s.sampleRate = sr;
//   return AUD->setupProcessing(o, &s); }
// static int32_t a_processing(void* o, int32_t s) { return AUD->setProcessing(o, s); }
// static int32_t a_process(void* o, struct Steinberg_Vst_ProcessData* d) { return AUD->process(o, d); }
// static uint32_t a_tail(void* o) { return AUD->getTailSamples(o); }
// #define CTL ((Steinberg_Vst_IEditController*)o)->lpVtbl
// static int32_t e_init(void* o, void* c) { return CTL->initialize(o, c); }
// static int32_t e_term(void* o) { return CTL->terminate(o); }
// static int32_t e_setComp(void* o, void* s) { return CTL->setComponentState(o, s); }
// static int32_t e_setState(void* o, void* s) { return CTL->setState(o, s); }
// static int32_t e_getState(void* o, void* s) { return CTL->getState(o, s); }
// static int32_t e_count(void* o) { return CTL->getParameterCount(o); }
// static int32_t e_info(void* o, int32_t n, struct Steinberg_Vst_ParameterInfo* i) { return CTL->getParameterInfo(o, n, i); }
// static int32_t e_toString(void* o, uint32_t id, double v, int16_t* s) { return CTL->getParamStringByValue(o, id, v, s); }
// static int32_t e_fromString(void* o, uint32_t id, int16_t* s, double* v) { return CTL->getParamValueByString(o, id, s, v); }
// static double e_toPlain(void* o, uint32_t id, double v) { return CTL->normalizedParamToPlain(o, id, v); }
// static double e_toNorm(void* o, uint32_t id, double v) { return CTL->plainParamToNormalized(o, id, v); }
// static double e_get(void* o, uint32_t id) { return CTL->getParamNormalized(o, id); }
// static int32_t e_set(void* o, uint32_t id, double v) { return CTL->setParamNormalized(o, id, v); }
// static int32_t e_handler(void* o, void* h) { return CTL->setComponentHandler(o, h); }
// static void* e_view(void* o, const char* n) { return CTL->createView(o, n); }
//
// // --- host objects: streams, parameter changes, events, edit handler ---
// static int32_t no_qi(void* o, const char* iid, void** out) { *out = NULL; return -1; }
// static uint32_t no_ref(void* o) { return 1; }
//
// typedef struct { Steinberg_IBStreamVtbl* vt; uint8_t* data; int64_t len, cap, pos; int32_t chunk; int32_t failAt; int32_t calls; int32_t noSeek; int32_t zeroAt; } stream;
// static int32_t s_fail(stream* s) { s->calls++; return s->failAt >= 0 && s->calls > s->failAt; }
// static int32_t s_read(void* o, void* b, int32_t n, int32_t* got) {
//   stream* s = o; if (got) *got = 0;
//   if (s_fail(s)) return 1;
//   if (n < 0) return 2;
//   if (s->chunk > 0 && n > s->chunk) n = s->chunk;
//   if (n > s->len - s->pos) n = s->len - s->pos;
//   if (n < 0) n = 0;
//   memcpy(b, s->data + s->pos, n); s->pos += n; if (got) *got = n; return 0;
// }
// static int32_t s_write(void* o, void* b, int32_t n, int32_t* put) {
//   stream* s = o; if (put) *put = 0;
//   if (s_fail(s)) return 1;
//   if (n < 0) return 2;
//   if (s->chunk > 0 && n > s->chunk) n = s->chunk;
//   if (s->zeroAt > 0 && s->pos + n > s->zeroAt) n = s->zeroAt - s->pos;
//   if (s->pos + n > s->cap) { s->cap = (s->pos + n) * 2; s->data = realloc(s->data, s->cap); }
//   memcpy(s->data + s->pos, b, n); s->pos += n; if (s->pos > s->len) s->len = s->pos; if (put) *put = n; return 0;
// }
// static int32_t s_seek(void* o, int64_t pos, int32_t mode, int64_t* out) {
//   stream* s = o; int64_t p; if (s->noSeek & 1) return 1;
//   p = mode == 0 ? pos : mode == 1 ? s->pos + pos : s->len + pos;
//   if (p < 0) return 2;
//   s->pos = p; if (out) *out = p; return 0;
// }
// static int32_t s_tell(void* o, int64_t* out) { stream* s = o; if (s->noSeek & 2) return 1; *out = s->pos; return 0; }
// static Steinberg_IBStreamVtbl streamVt = { no_qi, no_ref, no_ref, s_read, s_write, s_seek, s_tell };
// static stream* newStream(uint8_t* d, int64_t n) {
//   stream* s = calloc(1, sizeof *s); s->vt = &streamVt; s->cap = n + 1; s->data = malloc(n + 1); if (n) memcpy(s->data, d, n); s->len = n; s->failAt = -1; return s; }
// static void freeStream(stream* s) { free(s->data); free(s); }
//
// typedef struct { Steinberg_Vst_IParamValueQueueVtbl* vt; uint32_t id; int32_t n; int32_t* off; double* val; int32_t bad; } pqueue;
// static uint32_t q_id(void* o) { return ((pqueue*)o)->id; }
// static int32_t q_n(void* o) { return ((pqueue*)o)->n; }
// static int32_t q_get(void* o, int32_t i, int32_t* off, double* v) { pqueue* q = o; if (i < 0 || i >= q->n || i == q->bad) return 2; *off = q->off[i]; *v = q->val[i]; return 0; }
// static int32_t q_add(void* o, int32_t off, double v, int32_t* i) { return 1; }
// static Steinberg_Vst_IParamValueQueueVtbl queueVt = { no_qi, no_ref, no_ref, q_id, q_n, q_get, q_add };
// typedef struct { Steinberg_Vst_IParameterChangesVtbl* vt; int32_t n; pqueue** q; } pchanges;
// static int32_t p_n(void* o) { return ((pchanges*)o)->n; }
// static void* p_get(void* o, int32_t i) { pchanges* p = o; return i < 0 || i >= p->n ? NULL : p->q[i]; }
// static void* p_add(void* o, const uint32_t* id, int32_t* i) { return NULL; }
// static Steinberg_Vst_IParameterChangesVtbl changesVt = { no_qi, no_ref, no_ref, p_n, (void*)p_get, (void*)p_add };
// static pchanges* newChanges(int32_t n) { pchanges* p = calloc(1, sizeof *p); p->vt = &changesVt; p->n = n; p->q = calloc(n + 1, sizeof(void*)); return p; }
// static void setQueue(pchanges* p, int32_t i, uint32_t id, int32_t n) {
//   pqueue* q = calloc(1, sizeof *q); q->vt = &queueVt; q->id = id; q->n = n; q->bad = -1; q->off = calloc(n + 1, 4); q->val = calloc(n + 1, 8); p->q[i] = q; }
// static void setPoint(pchanges* p, int32_t i, int32_t j, int32_t off, double v) { p->q[i]->off[j] = off; p->q[i]->val[j] = v; }
// static void setBad(pchanges* p, int32_t i, int32_t j) { p->q[i]->bad = j; }
// static void freeChanges(pchanges* p) { int i; if (!p) return; for (i = 0; i < p->n; i++) if (p->q[i]) { free(p->q[i]->off); free(p->q[i]->val); free(p->q[i]); } free(p->q); free(p); }
//
// typedef struct { Steinberg_Vst_IEventListVtbl* vt; int32_t n; struct Steinberg_Vst_Event* e; int32_t added; } elist;
// static int32_t l_n(void* o) { return ((elist*)o)->n; }
// static int32_t l_get(void* o, int32_t i, struct Steinberg_Vst_Event* e) { elist* l = o; if (i < 0 || i >= l->n || l->e[i].flags == 0x7777) return 2; *e = l->e[i]; return 0; }
// static int32_t l_add(void* o, struct Steinberg_Vst_Event* e) { ((elist*)o)->added++; return 0; }
// static Steinberg_Vst_IEventListVtbl listVt = { no_qi, no_ref, no_ref, l_n, l_get, l_add };
// static elist* newList(int32_t n) { elist* l = calloc(1, sizeof *l); l->vt = &listVt; l->n = n; l->e = calloc(n + 1, sizeof *l->e); return l; }
// static void setNote(elist* l, int32_t i, int32_t type, int32_t off, int32_t ch, int32_t pitch, float vel, int32_t unreadable) {
//   struct Steinberg_Vst_Event* e = &l->e[i]; e->type = type; e->sampleOffset = off; e->flags = unreadable ? 0x7777 : 0;
//   if (type == 0) { e->Steinberg_Vst_Event_noteOn.channel = ch; e->Steinberg_Vst_Event_noteOn.pitch = pitch; e->Steinberg_Vst_Event_noteOn.velocity = vel; e->Steinberg_Vst_Event_noteOn.noteId = -1; }
//   if (type == 1) { e->Steinberg_Vst_Event_noteOff.channel = ch; e->Steinberg_Vst_Event_noteOff.pitch = pitch; e->Steinberg_Vst_Event_noteOff.velocity = vel; e->Steinberg_Vst_Event_noteOff.noteId = -1; }
// }
// static void freeList(elist* l) { if (l) { free(l->e); free(l); } }
//
// typedef struct { Steinberg_Vst_IComponentHandlerVtbl* vt; int32_t refs; int32_t n; int32_t op[64]; uint32_t id[64]; double v[64]; int32_t late; } handler;
// static void hd_log(handler* h, int32_t op, uint32_t id, double v) { if (h->refs < 1) h->late++; if (h->n < 64) { h->op[h->n] = op; h->id[h->n] = id; h->v[h->n] = v; } h->n++; }
// static uint32_t hd_add(void* o) { return ++((handler*)o)->refs; }
// static uint32_t hd_rel(void* o) { return --((handler*)o)->refs; }
// static int32_t hd_begin(void* o, uint32_t id) { hd_log(o, 0, id, 0); return 0; }
// static int32_t hd_perf(void* o, uint32_t id, double v) { hd_log(o, 1, id, v); return 0; }
// static int32_t hd_end(void* o, uint32_t id) { hd_log(o, 2, id, 0); return 0; }
// static int32_t hd_restart(void* o, int32_t f) { hd_log(o, 3, f, 0); return 0; }
// static Steinberg_Vst_IComponentHandlerVtbl handlerVt = { no_qi, hd_add, hd_rel, hd_begin, hd_perf, hd_end, hd_restart };
// static handler* newHandler() { handler* h = calloc(1, sizeof *h); h->vt = &handlerVt; h->refs = 1; return h; }
//
// static struct Steinberg_Vst_AudioBusBuffers* newBuses(int32_t n) { return calloc(n + 1, sizeof(struct Steinberg_Vst_AudioBusBuffers)); }
// static void setBus(struct Steinberg_Vst_AudioBusBuffers* b, int32_t i, int32_t ch, float** p) { b[i].numChannels = ch; b[i].Steinberg_Vst_AudioBusBuffers_channelBuffers32 = p; }
// static size_t heapInUse() { struct mallinfo2 m = mallinfo2(); return m.uordblks; }
import "C"

import (
	"fmt"
	"io"
	"math"
	"strings"
	"sync"
	"unicode/utf16"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/pkg/plugin"
	_ "github.com/justyntemme/vst3go/pkg/plugin/cbridge"
)

// interface ids the host may ask for
const (
	iUnknown = iota
	iBase
	iComponent
	iAudio
	iController
	iFactory
	iOther
)

var iidName = []string{"FUnknown", "IPluginBase", "IComponent", "IAudioProcessor", "IEditController", "IPluginFactory", "IBStream"}

// seen is what the plugin saw in one ProcessAudio call.
type seen struct {
	in, out   [][]float32
	inAt      []uintptr
	outAt     []uintptr
	vals      []float64
	events    []midi.Event
	outEvents int
	tr        process.TransportInfo
	sr        float64
	ctx       *process.Context
}

// proc is the plugin under the host: it records what it is given.
type proc struct {
	params *param.Registry
	buses  *bus.Configuration
	log    []string
	blocks []seen
	gain   float32 // output = input * gain + tag
	ids    []uint32
	fail   map[string]bool // callbacks returning an error
	boom   map[string]bool // callbacks that panic
	lat    int32
	tail   int32
	audio  func(*process.Context)
	quiet  bool
}

func (p *proc) call(name string) error {
	p.log = append(p.log, name)
	key, _, _ := strings.Cut(name, " ")
	if p.boom[key] {
		panic("plugin panics in " + name)
	}
	if p.fail[key] {
		return fmt.Errorf("plugin refuses %s", name)
	}
	return nil
}

func (p *proc) Initialize(sr float64, n int32) error { return p.call(fmt.Sprintf("init %v %d", sr, n)) }
func (p *proc) SetActive(a bool) error               { return p.call(fmt.Sprintf("active %v", a)) }
func (p *proc) GetParameters() *param.Registry       { return p.params }
func (p *proc) GetBuses() *bus.Configuration         { return p.buses }
func (p *proc) GetLatencySamples() int32             { p.must("latency"); return p.lat }
func (p *proc) GetTailSamples() int32                { p.must("tail"); return p.tail }
func (p *proc) must(n string) {
	if p.boom[n] {
		panic("plugin panics in " + n)
	}
}

func (p *proc) ProcessAudio(ctx *process.Context) {
	if p.boom["process"] {
		panic("plugin panics in process")
	}
	if p.audio != nil {
		p.audio(ctx)
	}
	if p.quiet {
		return
	}
	s := seen{sr: ctx.SampleRate, tr: *ctx.Transport, ctx: ctx}
	for _, b := range ctx.Input {
		s.in = append(s.in, append([]float32{}, b...))
		s.inAt = append(s.inAt, addr(b))
	}
	for _, b := range ctx.Output {
		s.out = append(s.out, append([]float32{}, b...))
		s.outAt = append(s.outAt, addr(b))
	}
	for _, id := range p.ids {
		s.vals = append(s.vals, ctx.Param(id))
	}
	s.events = ctx.GetAllInputEvents()
	s.outEvents = len(ctx.GetOutputEvents())
	p.blocks = append(p.blocks, s)
}

func addr(b []float32) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(unsafe.SliceData(b)))
}

// stateful adds custom state to proc.
type stateful struct {
	*proc
	custom  []byte
	saveErr bool
	loadErr bool
	loaded  []byte
	loads   int
}

func (s *stateful) SaveCustomState(w io.Writer) error {
	if s.boom["save"] {
		panic("plugin panics in save")
	}
	if s.saveErr {
		return fmt.Errorf("plugin refuses to save")
	}
	_, err := w.Write(s.custom)
	return err
}

func (s *stateful) LoadCustomState(r io.Reader) error {
	if s.boom["load"] {
		panic("plugin panics in load")
	}
	b, err := io.ReadAll(r)
	s.loads++
	s.loaded = b
	if s.loadErr {
		return fmt.Errorf("plugin refuses to load")
	}
	return err
}

// plug is the registered plugin; next makes the processors.
type plug struct {
	info fplugin.Info
	mk   func() plugin.Processor
}

func (p *plug) GetInfo() fplugin.Info             { return p.info }
func (p *plug) CreateProcessor() plugin.Processor { return p.mk() }

var (
	plugMu  sync.Mutex
	thePlug = &plug{info: fplugin.Info{ID: "org.verif.probe", Name: "Probe", Version: "1.0.0", Vendor: "V", Category: "Fx"}}
)

func newParams(specs ...func() *param.Parameter) *param.Registry {
	reg := param.NewRegistry()
	for _, f := range specs {
		if err := reg.Add(f()); err != nil {
			panic(err)
		}
	}
	return reg
}

func linParam(id uint32, name string, lo, hi, def float64) func() *param.Parameter {
	return func() *param.Parameter { return param.New(id, name).Range(lo, hi).Default(def).Build() }
}

func newProc() *proc {
	return &proc{params: newParams(linParam(7, "A", 0, 1, 0), linParam(3, "B", 0, 1, 0.5)), ids: []uint32{7, 3},
		buses: bus.NewStereoConfiguration(), fail: map[string]bool{}, boom: map[string]bool{}}
}

// inst is one component instance as the host holds it.
type inst struct {
	c, a, e unsafe.Pointer // IComponent, IAudioProcessor, IEditController
	p       *proc
	s       *stateful
	mem     []unsafe.Pointer
	extra   int
}

// create makes an instance of the given processor through the factory.
func create(pr plugin.Processor) *inst {
	plugMu.Lock()
	defer plugMu.Unlock()
	thePlug.mk = func() plugin.Processor { return pr }
	plugin.Register(thePlug)
	f := unsafe.Pointer(C.GetPluginFactory())
	defer C.h_release(f)
	uid := thePlug.info.UID()
	var o unsafe.Pointer
	if rc := C.f_create(f, (*C.char)(unsafe.Pointer(&uid[0])), C.h_iid(iComponent), &o); rc != 0 || o == nil {
		panic(fmt.Sprintf("createInstance returned %d", rc))
	}
	i := &inst{c: o}
	switch x := pr.(type) {
	case *proc:
		i.p = x
	case *stateful:
		i.p, i.s = x.proc, x
	}
	i.a = i.ask(iAudio)
	i.e = i.ask(iController)
	return i
}

func (i *inst) ask(k int) unsafe.Pointer {
	var o unsafe.Pointer
	if rc := C.h_qi(i.c, C.h_iid(C.int(k)), &o); rc != 0 || o == nil {
		panic(fmt.Sprintf("queryInterface(%s) returned %d", iidName[k], rc))
	}
	return o
}

// free releases every reference of the instance and reports the last count.
func (i *inst) free() uint32 {
	C.h_release(i.a)
	C.h_release(i.e)
	n := uint32(C.h_release(i.c))
	for _, m := range i.mem {
		C.free(m)
	}
	i.mem = nil
	return n
}

func (i *inst) alloc(n int) unsafe.Pointer {
	m := C.calloc(C.size_t(n+16), 1)
	i.mem = append(i.mem, m)
	return m
}

const guard = float32(-777.25)

// channel is one host audio buffer: n samples between two guard zones.
type channel struct {
	mem []float32
	n   int
	p   *C.float
}

func (i *inst) channel(n int, fill func(k int) float32) *channel {
	m := unsafe.Slice((*float32)(i.alloc((n+8)*4)), n+8)
	for k := range m {
		m[k] = guard
	}
	c := &channel{mem: m, n: n, p: (*C.float)(unsafe.Pointer(&m[4]))}
	for k := 0; k < n; k++ {
		c.mem[4+k] = fill(k)
	}
	return c
}

func (c *channel) data() []float32 { return c.mem[4 : 4+c.n] }

func (c *channel) intact() bool {
	for k := 0; k < 4; k++ {
		if c.mem[k] != guard || c.mem[4+c.n+k] != guard {
			return false
		}
	}
	return true
}

// hostBus is a bus as the host passes it; a nil channel is a null pointer.
type hostBus struct {
	chans  []*channel
	noPtrs bool
}

type point struct {
	off int
	val float64
}

type hqueue struct {
	id     uint32
	pts    []point
	absent bool
	bad    int // index of an unreadable point, -1 = none
}

type note struct {
	typ, off, ch, pitch int
	vel                 float32
	unreadable          bool
}

// block describes one process call.
type block struct {
	n         int
	in, out   []hostBus
	queues    []hqueue
	noChanges bool
	notes     []note
	noEvents  bool
	tr        *transport
}

type transport struct {
	state      uint32
	tempo      float64
	num, den   int32
	music, bar float64
	cs, ce     float64
	proj, cont int64
	clock      int32
	sys        int64
	sr         float64
}

func (i *inst) buses(bs []hostBus) *C.struct_Steinberg_Vst_AudioBusBuffers {
	if bs == nil {
		return nil
	}
	p := C.newBuses(C.int32_t(len(bs)))
	i.mem = append(i.mem, unsafe.Pointer(p))
	for k, b := range bs {
		ptrs := (**C.float)(i.alloc(8 * (len(b.chans) + 1)))
		sl := unsafe.Slice(ptrs, len(b.chans)+1)
		for j, c := range b.chans {
			if c != nil {
				sl[j] = c.p
			}
		}
		if b.noPtrs {
			ptrs = nil
		}
		C.setBus(p, C.int32_t(k), C.int32_t(len(b.chans)), ptrs)
	}
	return p
}

// process hands one block to the plugin.
func (i *inst) process(b *block) int32 {
	run, done := i.prepare(b)
	defer done()
	return run()
}

// prepare sets a block up once, so that it can be processed repeatedly.
func (i *inst) prepare(b *block) (run func() int32, done func()) {
	p, done := i.blockData(b)
	return func() int32 { return int32(C.a_process(i.a, (*C.struct_Steinberg_Vst_ProcessData)(p))) }, done
}

// blockData lays a block out in the host's memory.
func (i *inst) blockData(b *block) (data unsafe.Pointer, done func()) {
	d := (*C.struct_Steinberg_Vst_ProcessData)(i.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	d.numSamples = C.int32_t(b.n)
	d.numInputs = C.int32_t(len(b.in))
	d.numOutputs = C.int32_t(len(b.out))
	d.inputs = i.buses(b.in)
	d.outputs = i.buses(b.out)
	var pc *C.pchanges
	if !b.noChanges {
		pc = C.newChanges(C.int32_t(len(b.queues)))
		for k, q := range b.queues {
			if q.absent {
				continue
			}
			C.setQueue(pc, C.int32_t(k), C.uint32_t(q.id), C.int32_t(len(q.pts)))
			for j, pt := range q.pts {
				C.setPoint(pc, C.int32_t(k), C.int32_t(j), C.int32_t(pt.off), C.double(pt.val))
			}
			if q.bad >= 0 {
				C.setBad(pc, C.int32_t(k), C.int32_t(q.bad))
			}
		}
		d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(unsafe.Pointer(pc))
	}
	var l *C.elist
	if !b.noEvents {
		l = C.newList(C.int32_t(len(b.notes)))
		for k, n := range b.notes {
			u := C.int32_t(0)
			if n.unreadable {
				u = 1
			}
			C.setNote(l, C.int32_t(k), C.int32_t(n.typ), C.int32_t(n.off), C.int32_t(n.ch), C.int32_t(n.pitch), C.float(n.vel), u)
		}
		d.inputEvents = (*C.struct_Steinberg_Vst_IEventList)(unsafe.Pointer(l))
	}
	if t := b.tr; t != nil {
		c := (*C.struct_Steinberg_Vst_ProcessContext)(i.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
		c.state = C.uint32_t(t.state)
		c.tempo = C.double(t.tempo)
		c.timeSigNumerator, c.timeSigDenominator = C.int32_t(t.num), C.int32_t(t.den)
		c.projectTimeMusic, c.barPositionMusic = C.double(t.music), C.double(t.bar)
		c.cycleStartMusic, c.cycleEndMusic = C.double(t.cs), C.double(t.ce)
		c.projectTimeSamples, c.continousTimeSamples = C.int64_t(t.proj), C.int64_t(t.cont)
		c.samplesToNextClock = C.int32_t(t.clock)
		c.systemTime, c.sampleRate = C.int64_t(t.sys), C.double(t.sr)
		d.processContext = c
	}
	return unsafe.Pointer(d), func() {
		C.freeChanges(pc)
		C.freeList(l)
	}
}

func (i *inst) start(sr float64, n int) {
	C.c_init(i.c, nil)
	C.a_setup(i.a, 0, 0, C.int32_t(n), C.double(sr))
	C.c_active(i.c, 1)
	C.a_processing(i.a, 1)
	i.p.log = nil
}

// utf16 helpers for the host's string buffers
func getTChar(p *C.Steinberg_Vst_TChar, max int) (string, bool) {
	s := unsafe.Slice((*uint16)(unsafe.Pointer(p)), max)
	for k, c := range s {
		if c == 0 {
			return string(utf16.Decode(s[:k])), true
		}
	}
	return string(utf16.Decode(s)), false
}

// fitTChar is what a string must become in a buffer of max units.
func fitTChar(s string, max int) string {
	u := []uint16{}
	for _, r := range s {
		e := utf16.Encode([]rune{r})
		if len(u)+len(e) > max-1 {
			break
		}
		u = append(u, e...)
	}
	return string(utf16.Decode(u))
}

func same(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func b2i(b bool) C.int32_t {
	if b {
		return 1
	}
	return 0
}

// Wrappers (cgo types stay in this file).
func qi(o unsafe.Pointer, k int) (unsafe.Pointer, int32) {
	out := (*unsafe.Pointer)(C.malloc(8))
	defer C.free(unsafe.Pointer(out))
	*(*uintptr)(unsafe.Pointer(out)) = stale
	rc := int32(C.h_qi(o, C.h_iid(C.int(k)), out))
	return *out, rc
}

// stale is what the host's pointer holds before an object is asked for.
const stale = 0x5EAD00000000

// qiBytes asks for the interface with the given ID.
func qiBytes(o unsafe.Pointer, id [16]byte) (set bool, rc int32) {
	m := C.malloc(16 + 8)
	defer C.free(m)
	copy(unsafe.Slice((*byte)(m), 16), id[:])
	out := unsafe.Add(m, 16)
	*(*uintptr)(out) = stale
	rc = int32(C.h_qi(o, (*C.char)(m), (*unsafe.Pointer)(out)))
	return *(*uintptr)(out) != 0, rc
}
func addRef(o unsafe.Pointer) uint32  { return uint32(C.h_addRef(o)) }
func release(o unsafe.Pointer) uint32 { return uint32(C.h_release(o)) }
func getFactory() unsafe.Pointer      { return unsafe.Pointer(C.GetPluginFactory()) }
func moduleEntry() int                { return int(C.ModuleEntry(nil)) }
func moduleExit() int                 { return int(C.ModuleExit()) }
func heapInUse() int64                { return int64(C.heapInUse()) }
func countClasses(f unsafe.Pointer) int {
	return int(C.f_count(f))
}

// factoryInfo reads the factory's strings; every field must be terminated
// and nothing beyond the structure touched.
func factoryInfo(f unsafe.Pointer) (vendor, url, email string, flags int32, err string) {
	const sz = int(unsafe.Sizeof(C.struct_Steinberg_PFactoryInfo{}))
	m := unsafe.Slice((*byte)(C.malloc(C.size_t(sz+512))), sz+512)
	defer C.free(unsafe.Pointer(&m[0]))
	for i := range m {
		m[i] = 0xA5
	}
	p := (*C.struct_Steinberg_PFactoryInfo)(unsafe.Pointer(&m[0]))
	if rc := C.f_info(f, p); rc != 0 {
		return "", "", "", 0, fmt.Sprintf("getFactoryInfo returned %d", rc)
	}
	for _, b := range m[sz:] {
		if b != 0xA5 {
			return "", "", "", 0, "getFactoryInfo wrote beyond the structure"
		}
	}
	if vendor, err = cstr(m[:64]); err != "" {
		return
	}
	if url, err = cstr(m[64:320]); err != "" {
		return
	}
	if email, err = cstr(m[320:448]); err != "" {
		return
	}
	return vendor, url, email, int32(p.flags), ""
}

func cstr(b []byte) (string, string) {
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), ""
		}
	}
	return "", fmt.Sprintf("a field of %d bytes is not terminated", len(b))
}

type classInfo struct {
	rc             int32
	cid            [16]byte
	card           int32
	category, name string
	err            string
}

func getClassInfo(f unsafe.Pointer, n int) (c classInfo) {
	const sz = int(unsafe.Sizeof(C.struct_Steinberg_PClassInfo{}))
	m := unsafe.Slice((*byte)(C.malloc(C.size_t(sz+512))), sz+512)
	defer C.free(unsafe.Pointer(&m[0]))
	for i := range m {
		m[i] = 0xA5
	}
	p := (*C.struct_Steinberg_PClassInfo)(unsafe.Pointer(&m[0]))
	c.rc = int32(C.f_class(f, C.int32_t(n), p))
	for _, b := range m[sz:] {
		if b != 0xA5 {
			c.err = "getClassInfo wrote beyond the structure"
			return
		}
	}
	if c.rc != 0 {
		return
	}
	copy(c.cid[:], m[:16])
	c.card = int32(p.cardinality)
	if c.category, c.err = cstr(m[20:52]); c.err != "" {
		return
	}
	c.name, c.err = cstr(m[52:116])
	return
}

func createRaw(f unsafe.Pointer, cid [16]byte, k int) (unsafe.Pointer, int32) {
	out := (*unsafe.Pointer)(C.malloc(8))
	defer C.free(unsafe.Pointer(out))
	*(*uintptr)(unsafe.Pointer(out)) = stale
	rc := int32(C.f_create(f, (*C.char)(unsafe.Pointer(&cid[0])), C.h_iid(C.int(k)), out))
	return *out, rc
}

func (i *inst) initialize() int32   { return int32(C.c_init(i.c, nil)) }
func (i *inst) terminate() int32    { return int32(C.c_term(i.c)) }
func (i *inst) ctlInit() int32      { return int32(C.e_init(i.e, nil)) }
func (i *inst) ctlTerm() int32      { return int32(C.e_term(i.e)) }
func (i *inst) setIO(m int) int32   { return int32(C.c_io(i.c, C.int32_t(m))) }
func (i *inst) active(b bool) int32 { return int32(C.c_active(i.c, b2i(b))) }
func (i *inst) processing(b bool) int32 {
	return int32(C.a_processing(i.a, b2i(b)))
}
func (i *inst) setup(sr float64, n int) int32 {
	return int32(C.a_setup(i.a, 0, 0, C.int32_t(n), C.double(sr)))
}
func (i *inst) canProcess(s int) int32 { return int32(C.a_can(i.a, C.int32_t(s))) }
func (i *inst) latency() uint32        { return uint32(C.a_lat(i.a)) }
func (i *inst) tail() uint32           { return uint32(C.a_tail(i.a)) }
func (i *inst) busCount(t, d int) int  { return int(C.c_busCount(i.c, C.int32_t(t), C.int32_t(d))) }
func (i *inst) activate(t, d, n int, on bool) int32 {
	return int32(C.c_act(i.c, C.int32_t(t), C.int32_t(d), C.int32_t(n), b2i(on)))
}
func (i *inst) arrangement(d, n int) (uint64, int32) {
	p := (*C.uint64_t)(i.alloc(8))
	rc := int32(C.a_getArr(i.a, C.int32_t(d), C.int32_t(n), p))
	return uint64(*p), rc
}
func (i *inst) setArrangements(in, out []uint64) int32 {
	p := unsafe.Slice((*C.uint64_t)(i.alloc(8*(len(in)+len(out)+1))), len(in)+len(out)+1)
	for k, v := range in {
		p[k] = C.uint64_t(v)
	}
	for k, v := range out {
		p[len(in)+k] = C.uint64_t(v)
	}
	return int32(C.a_setArr(i.a, &p[0], C.int32_t(len(in)), &p[len(in)], C.int32_t(len(out))))
}

type busInfo struct {
	rc                  int32
	media, dir, ch, typ int32
	name                string
	flags               uint32
	err                 string
}

func (i *inst) busInfo(t, d, n int) (b busInfo) {
	const sz = int(unsafe.Sizeof(C.struct_Steinberg_Vst_BusInfo{}))
	m := unsafe.Slice((*byte)(i.alloc(sz+256)), sz+256)
	for k := range m {
		m[k] = 0xA5
	}
	p := (*C.struct_Steinberg_Vst_BusInfo)(unsafe.Pointer(&m[0]))
	b.rc = int32(C.c_busInfo(i.c, C.int32_t(t), C.int32_t(d), C.int32_t(n), p))
	for _, x := range m[sz:] {
		if x != 0xA5 {
			b.err = "getBusInfo wrote beyond the structure"
			return
		}
	}
	if b.rc != 0 {
		return
	}
	var ok bool
	if b.name, ok = getTChar((*C.Steinberg_Vst_TChar)(unsafe.Pointer(&p.name[0])), 128); !ok {
		b.err = "bus name is not terminated"
	}
	b.media, b.dir, b.ch, b.typ, b.flags = int32(p.mediaType), int32(p.direction), int32(p.channelCount), int32(p.busType), uint32(p.flags)
	return
}

// hstream is a host stream.
type hstream struct {
	chunk, failAt, noSeek, zeroAt int
	start                         int64
}

func (h hstream) open(data []byte) *C.stream {
	var p *C.uint8_t
	if len(data) > 0 {
		p = (*C.uint8_t)(unsafe.Pointer(&data[0]))
	}
	s := C.newStream(p, C.int64_t(len(data)))
	s.chunk, s.failAt, s.noSeek, s.zeroAt, s.pos = C.int32_t(h.chunk), C.int32_t(h.failAt), C.int32_t(h.noSeek), C.int32_t(h.zeroAt), C.int64_t(h.start)
	return s
}

// load calls setState through entry point k: component, controller's
// setComponentState, controller's setState; it returns the result and the
// number of stream calls.
func (i *inst) load(k int, h hstream, data []byte) (int32, int) {
	s := h.open(data)
	defer C.freeStream(s)
	var rc C.int32_t
	switch k {
	case 0:
		rc = C.c_setState(i.c, unsafe.Pointer(s))
	case 1:
		rc = C.e_setComp(i.e, unsafe.Pointer(s))
	default:
		rc = C.e_setState(i.e, unsafe.Pointer(s))
	}
	return int32(rc), int(s.calls)
}

// save calls getState (0 = component, 1 = controller).
func (i *inst) save(k int, h hstream, before []byte) ([]byte, int32, int) {
	s := h.open(before)
	defer C.freeStream(s)
	var rc C.int32_t
	if k == 0 {
		rc = C.c_getState(i.c, unsafe.Pointer(s))
	} else {
		rc = C.e_getState(i.e, unsafe.Pointer(s))
	}
	return C.GoBytes(unsafe.Pointer(s.data), C.int(s.len)), int32(rc), int(s.calls)
}

func (i *inst) loadNil() int32 { return int32(C.c_setState(i.c, nil)) }
func (i *inst) saveNil() int32 { return int32(C.c_getState(i.c, nil)) }

func (i *inst) paramCount() int { return int(C.e_count(i.e)) }

type paramInfo struct {
	rc                  int32
	id                  uint32
	title, short, units string
	steps               int32
	def                 float64
	unit, flags         int32
	err                 string
}

func (i *inst) paramInfo(n int) (b paramInfo) {
	const sz = int(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{}))
	m := unsafe.Slice((*byte)(i.alloc(sz+256)), sz+256)
	for k := range m {
		m[k] = 0xA5
	}
	p := (*C.struct_Steinberg_Vst_ParameterInfo)(unsafe.Pointer(&m[0]))
	b.rc = int32(C.e_info(i.e, C.int32_t(n), p))
	for _, x := range m[sz:] {
		if x != 0xA5 {
			b.err = "getParameterInfo wrote beyond the structure"
			return
		}
	}
	if b.rc != 0 {
		return
	}
	ok := [3]bool{}
	b.title, ok[0] = getTChar((*C.Steinberg_Vst_TChar)(unsafe.Pointer(&p.title[0])), 128)
	b.short, ok[1] = getTChar((*C.Steinberg_Vst_TChar)(unsafe.Pointer(&p.shortTitle[0])), 128)
	b.units, ok[2] = getTChar((*C.Steinberg_Vst_TChar)(unsafe.Pointer(&p.units[0])), 128)
	if !(ok[0] && ok[1] && ok[2]) {
		b.err = "a string is not terminated"
	}
	b.id, b.steps, b.def, b.unit, b.flags = uint32(p.id), int32(p.stepCount), float64(p.defaultNormalizedValue), int32(p.unitId), int32(p.flags)
	return
}

func (i *inst) toString(id uint32, v float64) (string, int32, string) {
	m := unsafe.Slice((*byte)(C.malloc(256+64)), 256+64)
	defer C.free(unsafe.Pointer(&m[0]))
	for k := range m {
		m[k] = 0xA5
	}
	rc := int32(C.e_toString(i.e, C.uint32_t(id), C.double(v), (*C.int16_t)(unsafe.Pointer(&m[0]))))
	for _, x := range m[256:] {
		if x != 0xA5 {
			return "", rc, "getParamStringByValue wrote beyond 128 characters"
		}
	}
	if rc != 0 {
		return "", rc, ""
	}
	s, ok := getTChar((*C.Steinberg_Vst_TChar)(unsafe.Pointer(&m[0])), 128)
	if !ok {
		return "", rc, "the value string is not terminated"
	}
	return s, rc, ""
}

func (i *inst) fromString(id uint32, str string) (float64, int32) {
	u := utf16.Encode([]rune(str))
	m := unsafe.Slice((*uint16)(C.malloc(C.size_t(2*len(u)+2+8))), len(u)+1)
	copy(m, u)
	m[len(u)] = 0
	defer C.free(unsafe.Pointer(&m[0]))
	v := (*C.double)(C.malloc(8))
	defer C.free(unsafe.Pointer(v))
	*v = -12345
	rc := int32(C.e_fromString(i.e, C.uint32_t(id), (*C.int16_t)(unsafe.Pointer(&m[0])), v))
	return float64(*v), rc
}

func (i *inst) toPlain(id uint32, v float64) float64 {
	return float64(C.e_toPlain(i.e, C.uint32_t(id), C.double(v)))
}
func (i *inst) toNorm(id uint32, v float64) float64 {
	return float64(C.e_toNorm(i.e, C.uint32_t(id), C.double(v)))
}
func (i *inst) get(id uint32) float64 { return float64(C.e_get(i.e, C.uint32_t(id))) }
func (i *inst) set(id uint32, v float64) int32 {
	return int32(C.e_set(i.e, C.uint32_t(id), C.double(v)))
}
func (i *inst) handler() int32 {
	return int32(C.e_handler(i.e, unsafe.Pointer(C.newHandler())))
}
func (i *inst) setHandler(h unsafe.Pointer) int32 { return int32(C.e_handler(i.e, h)) }

// editHandler is the host's component handler; it keeps what it is told.
type editHandler struct{ p unsafe.Pointer }

func newEditHandler() editHandler { return editHandler{unsafe.Pointer(C.newHandler())} }
func (h editHandler) refs() int   { return int((*C.handler)(h.p).refs) }
func (h editHandler) late() int   { return int((*C.handler)(h.p).late) }
func (h editHandler) free()       { C.free(h.p) }

// told returns and forgets what the handler was told.
func (h editHandler) told() (s []string) {
	c := (*C.handler)(h.p)
	for k := 0; k < int(c.n) && k < 64; k++ {
		switch c.op[k] {
		case 0:
			s = append(s, fmt.Sprintf("begin %d", c.id[k]))
		case 1:
			s = append(s, fmt.Sprintf("perform %d %v", c.id[k], float64(c.v[k])))
		case 2:
			s = append(s, fmt.Sprintf("end %d", c.id[k]))
		default:
			s = append(s, fmt.Sprintf("restart %d", c.id[k]))
		}
	}
	c.n = 0
	return
}

func (i *inst) view() unsafe.Pointer {
	s := C.CString("editor")
	defer C.free(unsafe.Pointer(s))
	return C.e_view(i.e, s)
}

func iid(k int) (b [16]byte) {
	copy(b[:], unsafe.Slice((*byte)(unsafe.Pointer(C.h_iid(C.int(k)))), 16))
	return
}

// with opens a stream on data, hands it to f and returns its contents after.
func (h hstream) with(data []byte, f func(p unsafe.Pointer)) []byte {
	s := h.open(data)
	defer C.freeStream(s)
	f(unsafe.Pointer(s))
	return C.GoBytes(unsafe.Pointer(s.data), C.int(s.len))
}
