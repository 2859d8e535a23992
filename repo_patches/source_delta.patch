From 2bb9252687501a3651f2bd56dcee5cf4821395d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 01/41] fix: keep NaN out of parameter values

---
 pkg/framework/param/parameter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..daa9a44 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -3,6 +3,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"sync/atomic"
 	"unsafe"
@@ -48,6 +49,11 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
+	// NaN compares false with everything and would pass the clamp below
+	if math.IsNaN(value) {
+		value = 0
+	}
+
 	// Clamp to 0-1
 	if value < 0 {
 		value = 0
@@ -120,6 +126,9 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
+	if math.IsNaN(normalized) {
+		return 0
+	}
 	if normalized < 0 {
 		return 0
 	}
-- 
2.43.0


From e9c8f5b933ca13d433fe5b3d3b85cbab111c8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 02/41] fix: clamp a parameter's default to its range

---
 pkg/framework/param/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2a092b8 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -38,6 +38,7 @@ func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
 		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
+		normalized = min(max(normalized, 0), 1)
 		b.param.DefaultValue = normalized
 	}
 	return b
-- 
2.43.0


From d8c898f7932e478c1c9ca3b7f14037271c0bfc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 03/41] fix: choice parameters report n-1 steps, survive an
 empty list and inexact option values

---
 pkg/framework/param/builders.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..16dccad 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -23,7 +24,7 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 	// Create formatter
 	formatter := func(value float64) string {
 		for _, opt := range options {
-			if opt.Value == value {
+			if math.Abs(opt.Value-value) <= 1e-9*math.Max(1, math.Abs(opt.Value)) {
 				return opt.Name
 			}
 		}
@@ -64,8 +65,8 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
-		Default(options[0].Value).
+		Steps(int32(max(len(options)-1, 0))). // VST3 step count: states minus one
+		Default(minVal).
 		Formatter(formatter, parser)
 }
 
-- 
2.43.0


From 1cac3df51ff8226b5ae0b192eb9a020a59d7c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 04/41] fix: Q, knee and note names parse back to the value
 they display

---
 pkg/framework/param/builders.go      | 5 ++++-
 pkg/framework/param/formatters.go    | 4 ++--
 pkg/framework/param/registry_auto.go | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 16dccad..8e149d1 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -176,7 +176,10 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			s = strings.TrimPrefix(strings.ToUpper(strings.TrimSpace(s)), "Q:")
+			return parseFloat(strings.TrimSpace(s))
+		})
 }
 
 // PanParameter creates a stereo pan parameter
diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..d127dd8 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -171,7 +171,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12,
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -182,7 +182,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1,
 	}
 
 	// Find where the octave number starts
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..83559a3 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -186,7 +186,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 		Add(New(0, "Knee").
 			Range(0, 10).
 			Default(2).
-			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, nil).
+			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
 		Add(BypassParameter(0, "Auto Gain").Build()).
 		Build()
-- 
2.43.0


From 55e4c76d3c3e85658489384c32403a2b8d595a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 05/41] fix: automatic parameter IDs never collide with
 explicit or reserved ones

---
 pkg/framework/param/registry_auto.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 83559a3..e0fdb55 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -46,12 +46,19 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 		// Assign new ID if auto-enabled and ID is 0
 		if r.autoEnabled && p.ID == 0 {
 			p.ID = r.nextID.Add(1) - 1
+			// skip IDs that were taken explicitly
+			for r.params[p.ID] != nil {
+				p.ID = r.nextID.Add(1) - 1
+			}
 		}
 		
 		// Check for ID conflicts
 		if _, exists := r.params[p.ID]; exists {
 			return fmt.Errorf("parameter ID %d already exists", p.ID)
 		}
+		if p.ID >= r.nextID.Load() {
+			r.nextID.Store(p.ID + 1)
+		}
 		
 		// Register the parameter
 		r.params[p.ID] = p
@@ -123,6 +130,9 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From 08de0bfce7b7f8a16e10dec9c334ace38344d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 06/41] fix: smoothers always finish and follow the parameter
 they wrap

---
 pkg/framework/param/smoother.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..74e915e 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -59,6 +59,8 @@ func (s *Smoother) SetTarget(target float64) {
 		// Calculate step size for linear smoothing
 		if s.rate > 0 {
 			s.step = (target - s.current) / s.rate
+		} else {
+			s.step = 0
 		}
 		
 	case LogarithmicSmoothing:
@@ -79,6 +81,8 @@ func (s *Smoother) SetTarget(target float64) {
 		
 		if s.rate > 0 {
 			s.logStep = (s.logTarget - s.logCurrent) / s.rate
+		} else {
+			s.logStep = 0
 		}
 	}
 }
@@ -105,7 +109,7 @@ func (s *Smoother) Next() float64 {
 		s.current += s.step
 		
 		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		if s.current+s.step == s.current || (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
@@ -115,7 +119,7 @@ func (s *Smoother) Next() float64 {
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		if s.logCurrent+s.logStep == s.logCurrent || (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
@@ -191,6 +195,8 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
+		// follow writes that went to the wrapped parameter directly
+		sp.smoother.SetTarget(sp.GetPlainValue())
 		return sp.smoother.Next()
 	}
 	return sp.GetPlainValue()
@@ -198,6 +204,9 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
+	if enabled && !sp.enabled {
+		sp.smoother.Reset(sp.GetPlainValue())
+	}
 	sp.enabled = enabled
 	if !enabled {
 		sp.smoother.Reset(sp.GetPlainValue())
-- 
2.43.0


From decb214211ca006feaa39f7522b3b870040f88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 07/41] fix: state is saved from one snapshot and loaded all or
 nothing

---
 pkg/framework/state/manager.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..bc6fb42 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -59,13 +59,14 @@ func (m *Manager) Save(w io.Writer) error {
 	}
 
 	// Write parameter count
-	paramCount := m.registry.Count()
+	params := m.registry.All()
+	paramCount := int32(len(params))
 	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
@@ -119,7 +120,16 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
-	// Read each parameter
+	if paramCount < 0 {
+		return fmt.Errorf("invalid parameter count %d", paramCount)
+	}
+
+	// Read each parameter; nothing is applied until all were read
+	type entry struct {
+		param *param.Parameter
+		value float64
+	}
+	var entries []entry
 	for i := int32(0); i < paramCount; i++ {
 		var id uint32
 		if err := binary.Read(r, binary.LittleEndian, &id); err != nil {
@@ -133,7 +143,7 @@ func (m *Manager) Load(r io.Reader) error {
 
 		// Set parameter value if it exists
 		if param := m.registry.Get(id); param != nil {
-			param.SetValue(value)
+			entries = append(entries, entry{param, value})
 		}
 		// Ignore unknown parameters for forward compatibility
 	}
@@ -144,6 +154,10 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	for _, e := range entries {
+		e.param.SetValue(e.value)
+	}
+
 	if hasCustom != 0 {
 		if m.customLoad != nil {
 			return m.customLoad(r)
-- 
2.43.0


From 6a2e02e0279448bd57058617bc1730522921b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 08/41] fix: event queue reads sort and copy under one lock

---
 pkg/midi/queue.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..000e976 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,12 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// exclusive: sorting and reading must not be separated by other writers
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +77,12 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// exclusive: sorting and reading must not be separated by other writers
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From a9d412c48afaea1d8c8ace6ba972db694ab5629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 09/41] fix: exact note to frequency conversion

---
 pkg/midi/events.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..c441901 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
-	if x <= 0 {
+	if !(x > 0) {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 11d1769d6d7190830947a421057d2cdae9f3f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 10/41] fix: parameter changes at the same offset keep the
 host's order

---
 pkg/framework/process/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..637d24b 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -248,7 +248,7 @@ func (c *Context) ResetParameterChanges() {
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
+		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
 			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
 		})
 	}
-- 
2.43.0


From 7c72fe984f37382dc361926aaa5d6f843744842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 11/41] fix: musical position before bar zero and with an empty
 time signature

---
 pkg/framework/process/context.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 637d24b..609ca8f 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -3,6 +3,7 @@ package process
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -53,7 +54,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 || t.TimeSigNumerator <= 0 {
 		return 0, 0
 	}
 
@@ -62,7 +63,7 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	bars = int(math.Floor(totalBeats / beatsPerBar))
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -92,11 +93,11 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return beatPosition - math.Floor(beatPosition) // Get fractional part
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return positionInBar - math.Floor(positionInBar)
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From e90eb7ac4479c56bbdf8bd4b42810760ce9e2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 12/41] fix: voices stay with the key that holds them

---
 pkg/framework/voice/allocator.go | 33 ++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..18b3289 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -112,6 +112,14 @@ func (a *Allocator) SetMaxVoices(max int) {
 		max = 1
 	}
 	a.maxVoices = max
+
+	// Voices beyond the limit must not keep sounding
+	for i := max; i < len(a.voices); i++ {
+		if a.voices[i].IsActive() {
+			a.voices[i].Stop()
+		}
+		a.forgetVoice(i)
+	}
 }
 
 // SetUnisonDetune sets the detune amount for unison mode (in cents)
@@ -145,6 +153,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is down again, so the pedal no longer holds it
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
@@ -234,7 +245,9 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 		}
 	}
 
-	// Allocate the voice
+	// Allocate the voice; the note it played before (it may have died away
+	// while its key was held) no longer owns it
+	a.forgetVoice(voiceIdx)
 	a.voices[voiceIdx].TriggerNote(note, velocity)
 	a.noteToVoice[note] = []int{voiceIdx}
 }
@@ -266,7 +279,7 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if len(a.noteToVoice) == 0 || !a.voices[0].IsActive() {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
@@ -313,6 +326,22 @@ func (a *Allocator) noteOffUnison(note uint8, velocity uint8) {
 	}
 }
 
+// forgetVoice removes a voice from the notes that own it
+func (a *Allocator) forgetVoice(voiceIdx int) {
+	for note, voices := range a.noteToVoice {
+		for i, idx := range voices {
+			if idx == voiceIdx {
+				if len(voices) == 1 {
+					delete(a.noteToVoice, note)
+				} else {
+					a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+				}
+				break
+			}
+		}
+	}
+}
+
 // findFreeVoice finds an inactive voice
 func (a *Allocator) findFreeVoice() int {
 	// Use round-robin to distribute voices evenly
-- 
2.43.0


From 3110e2d167da145b115daad8862b3e3e1302f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 13/41] fix: sum buffers that are shorter or longer than the
 destination

---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From e8e23939f3882b580dff6572b129a6978c0abcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 14/41] fix: decibel conversion never falls below MinDB

---
 pkg/dsp/gain/gain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/gain/gain.go b/pkg/dsp/gain/gain.go
index 88b074c..bdeb495 100644
--- a/pkg/dsp/gain/gain.go
+++ b/pkg/dsp/gain/gain.go
@@ -20,7 +20,7 @@ func LinearToDb(linear float64) float64 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * math.Log10(linear)
+	return math.Max(MinDB, 20.0*math.Log10(linear))
 }
 
 // DbToLinear converts a decibel value to linear amplitude.
@@ -37,7 +37,7 @@ func LinearToDb32(linear float32) float32 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * float32(math.Log10(float64(linear)))
+	return float32(math.Max(MinDB, 20.0*math.Log10(float64(linear))))
 }
 
 // DbToLinear32 is the float32 version of DbToLinear.
-- 
2.43.0


From 094319000e1449379ce1a10c079c4efabfeb1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 15/41] fix: balanced pan law, rounding at hard right and the
 jump of stereo panning at the center

---
 pkg/dsp/pan/pan.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e379622..dac2d9c 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -56,6 +56,11 @@ func Process(mono []float32, pan float32, law Law, leftOut, rightOut []float32)
 func ProcessStereo(leftIn, rightIn []float32, pan float32, law Law, leftOut, rightOut []float32) {
 	leftGain, rightGain := MonoToStereo(pan, law)
 	
+	// Gains are relative to the center, which passes through
+	centerGain, _ := MonoToStereo(0, law)
+	leftGain /= centerGain
+	rightGain /= centerGain
+	
 	length := len(leftIn)
 	if len(rightIn) < length {
 		length = len(rightIn)
@@ -105,6 +110,9 @@ func constantPowerPan(pan float32) (left, right float32) {
 	// Convert pan from [-1, 1] to [0, π/2]
 	angle := (pan + 1.0) * math.Pi / 4.0
 	left = float32(math.Cos(float64(angle)))
+	if left < 0 { // rounding at hard right
+		left = 0
+	}
 	right = float32(math.Sin(float64(angle)))
 	return
 }
@@ -120,7 +128,7 @@ func balancedPan(pan float32) (left, right float32) {
 	// centerGain := float32(0.595 / 0.707)
 	
 	// Interpolate compensation based on pan position
-	compensation := 1.0 - (pan*pan)*0.159 // Approximation for smooth transition
+	compensation := 1.0 - (1.0-pan*pan)*0.159 // Approximation for smooth transition
 	
 	left *= compensation
 	right *= compensation
-- 
2.43.0


From 645f837142219f685e813ea4cefce446c8819aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 16/41] fix: soft clipping of negative samples

---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From 8c397536d3439a3502fab36294c477d753859d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 17/41] fix: delay lines clamp delays to their length, reset
 fully and tap at the stated delay

---
 pkg/dsp/delay/delay.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..dc1814c 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -41,10 +41,20 @@ func (d *Line) Write(sample float32) {
 
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
+	// Only the last bufferSize samples can be read
+	if !(delaySamples >= 1) {
+		delaySamples = 1
+	} else if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize)
+	}
+
 	// Calculate read position
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
 		readPos += float64(d.bufferSize)
+		if readPos >= float64(d.bufferSize) { // rounding
+			readPos = 0
+		}
 	}
 
 	// Linear interpolation
@@ -154,6 +164,12 @@ func NewComb(maxDelaySeconds, sampleRate float64) *CombDelay {
 	}
 }
 
+// Reset clears the delay buffer and the damping filter
+func (c *CombDelay) Reset() {
+	c.Line.Reset()
+	c.dampVal = 0
+}
+
 // SetFeedback sets the comb feedback
 func (c *CombDelay) SetFeedback(feedback float32) {
 	c.feedback = feedback
@@ -221,7 +237,8 @@ func (m *MultiTapDelay) ProcessMultiTap(input float32, taps []TapOutput, outL, o
 		}
 
 		tap := &taps[i]
-		delayed := m.Tap(tap.DelaySamples) * tap.Gain
+		// The input is already in the line, one sample back
+		delayed := m.Tap(tap.DelaySamples+1) * tap.Gain
 
 		// Pan (constant power)
 		panAngle := (tap.Pan + 1.0) * 0.25 * math.Pi // 0 to π/2
@@ -253,6 +270,12 @@ func NewModulated(maxDelaySeconds, sampleRate float64) *ModulatedDelay {
 	}
 }
 
+// Reset clears the delay buffer and restarts the LFO
+func (m *ModulatedDelay) Reset() {
+	m.Line.Reset()
+	m.lfoPhase = 0
+}
+
 // SetLFO configures the modulation
 func (m *ModulatedDelay) SetLFO(rateHz, depthMs float64) {
 	m.lfoRate = rateHz
-- 
2.43.0


From 1e73ddc5b5f0c39ddd9f918b759652ce97bcf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 18/41] fix: all-pass interpolation delays by its fraction

---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..cbb97f4 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*input + ap.x1 - a*ap.y1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From 7e036da090d00f1f9a3304ce085df5d763d4503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 19/41] fix: envelopes and level detectors never get stuck

---
 pkg/dsp/envelope/detector.go | 9 ++++++---
 pkg/dsp/envelope/envelope.go | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..04d5e45 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -176,6 +176,9 @@ func (d *Detector) Detect(input float32) float32 {
 		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen
 
 		// Calculate RMS
+		if d.rmsSum < 0 { // rounding
+			d.rmsSum = 0
+		}
 		meanSquare := d.rmsSum / float64(d.rmsWindowLen)
 		inputLevel = math.Sqrt(meanSquare)
 	}
@@ -183,7 +186,7 @@ func (d *Detector) Detect(input float32) float32 {
 	// Apply envelope detection based on type
 	switch d.detType {
 	case TypeLinear, TypeLogarithmic:
-		if inputLevel > d.envelope {
+		if inputLevel >= d.envelope {
 			// Attack - rise towards input level
 			d.envelope += (inputLevel - d.envelope) * d.attackCoef
 			// For peak mode with instantaneous peaks, capture them immediately
@@ -205,7 +208,7 @@ func (d *Detector) Detect(input float32) float32 {
 
 	case TypeAnalog:
 		// Analog-style envelope (using coefficients differently)
-		if inputLevel > d.envelope {
+		if inputLevel >= d.envelope {
 			d.envelope = inputLevel + (d.envelope-inputLevel)*d.attackCoef
 			d.holdCounter = int(d.hold * d.sampleRate)
 		} else {
@@ -247,7 +250,7 @@ func (d *Detector) GetEnvelopeDB() float32 {
 	if d.envelope <= 0 {
 		return -96.0 // Minimum dB
 	}
-	return float32(20.0 * math.Log10(d.envelope))
+	return float32(math.Max(-96.0, 20.0*math.Log10(d.envelope)))
 }
 
 // Reset resets the detector state
diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..f2fd6eb 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -148,6 +148,7 @@ func (e *ADSR) Next() float32 {
 		}
 
 	case StageDecay:
+		e.target = e.sustain // may have changed since the decay started
 		e.value = e.target + (e.value-e.target)*e.decayCoef
 		if e.value <= e.sustain+0.001 {
 			e.value = e.sustain
-- 
2.43.0


From 544c7f746198b08903749739bcd244b7abd95c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 20/41] fix: dynamics never boost, exceed the limiter ceiling
 or ignore the gate's range

---
 pkg/dsp/dynamics/compressor.go |  6 +++---
 pkg/dsp/dynamics/expander.go   |  8 ++++----
 pkg/dsp/dynamics/gate.go       | 23 +++++++++++++++++++----
 pkg/dsp/dynamics/limiter.go    |  4 +++-
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..6010e72 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -141,15 +141,15 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 		// At kneePos=0: no compression
 		// At kneePos=1: full compression at this level
 		compressionRatio := 1.0 - 1.0/c.ratio
-		overshoot := inputDB - c.threshold
+		overshoot := math.Max(0, inputDB-c.threshold) // never a boost
 
 		// Smooth transition using squared interpolation
 		kneeGain := kneePos * kneePos * overshoot * compressionRatio
 		return kneeGain
 	}
 
-	// Hard knee (shouldn't reach here if knee width is 0)
-	return 0.0
+	// Hard knee: the width does not matter
+	return math.Max(0, inputDB-c.threshold) * (1.0 - 1.0/c.ratio)
 }
 
 // Process processes a single sample
diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..1ccd586 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -134,11 +134,11 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// 0 = top of knee (threshold + knee/2), 1 = bottom of knee
 		kneePos := ((e.threshold + e.knee/2) - inputDB) / e.knee
 
-		// Calculate full expansion at this level
-		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
+		// Calculate full expansion at this level (never a boost)
+		fullGain := math.Min(0, (inputDB-e.threshold)*(e.ratio-1.0))
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation, limited to range
+		return math.Max(e.range_, kneePos*kneePos*fullGain)
 	}
 
 	return 0.0
diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 314d691..318342a 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -22,6 +22,8 @@ type Gate struct {
 	hpfEnabled   bool
 	hpfFrequency float64
 	hpfState     float64 // Simple 1-pole HPF state
+	hpfStateR    float64 // HPF state of the right channel
+	lastInputR   float32
 
 	// Envelope detection (not currently used, using instant detection)
 	detector *envelope.Detector
@@ -122,6 +124,8 @@ func (g *Gate) SetRange(dB float64) {
 		g.currentGain = math.Pow(10.0, g.range_/20.0)
 		g.targetGain = g.currentGain
 		g.gainReduction = g.range_
+	} else if g.state == gateStateRelease {
+		g.targetGain = math.Pow(10.0, g.range_/20.0)
 	}
 }
 
@@ -168,6 +172,12 @@ func (g *Gate) applySidechainFilter(input float32) float32 {
 	return output
 }
 
+// swapSidechainState switches the filter between the left and right channel
+func (g *Gate) swapSidechainState() {
+	g.hpfState, g.hpfStateR = g.hpfStateR, g.hpfState
+	g.lastInput, g.lastInputR = g.lastInputR, g.lastInput
+}
+
 // Process processes a single sample
 func (g *Gate) Process(input float32) float32 {
 	// Apply sidechain filter if enabled
@@ -282,11 +292,14 @@ func (g *Gate) ProcessBuffer(input, output []float32) {
 // ProcessStereo processes stereo buffers with linked gating
 func (g *Gate) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 	for i := range inputL {
-		// Use maximum of both channels for detection
-		maxInput := float32(math.Max(math.Abs(float64(inputL[i])), math.Abs(float64(inputR[i]))))
+		// Apply sidechain filter to each channel with its own state
+		detectL := g.applySidechainFilter(inputL[i])
+		g.swapSidechainState()
+		detectR := g.applySidechainFilter(inputR[i])
+		g.swapSidechainState()
 
-		// Apply sidechain filter
-		detection := g.applySidechainFilter(maxInput)
+		// Use maximum of both channels for detection
+		detection := float32(math.Max(math.Abs(float64(detectL)), math.Abs(float64(detectR))))
 
 		// Get envelope - for gate, we want fast detection
 		envelope := float32(math.Abs(float64(detection)))
@@ -419,4 +432,6 @@ func (g *Gate) Reset() {
 	g.gainReduction = g.range_
 	g.hpfState = 0.0
 	g.lastInput = 0.0
+	g.hpfStateR = 0.0
+	g.lastInputR = 0.0
 }
diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..e731106 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -143,8 +143,9 @@ func (l *Limiter) Process(input float32) float32 {
 		}
 	}
 
-	// Get envelope
+	// Get envelope; no sample may pass above the ceiling, however fast it rose
 	envelope := l.detector.Detect(detectionSignal)
+	envelope = float32(math.Max(float64(envelope), math.Abs(float64(processSignal))))
 
 	// Convert to dB
 	inputDB := float64(-96.0)
@@ -200,6 +201,7 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 
 		// Detect from combined peak
 		envelope := l.detector.Detect(maxPeak)
+		envelope = float32(math.Max(float64(envelope), math.Max(math.Abs(float64(processL)), math.Abs(float64(processR)))))
 
 		// Calculate limiting
 		inputDB := float64(-96.0)
-- 
2.43.0


From 746778da2c7a69a8af371395bb481dc581d38f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 21/41] fix: band-limited oscillators and negative oscillator
 frequencies

---
 pkg/dsp/oscillator/oscillator.go | 42 ++++++++++++--------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..bb85a73 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
@@ -166,21 +166,16 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
 	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
+	x := math.Pi * b.phase
 
 	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
+	denom := math.Sin(x)
+	if math.Abs(denom) > 1e-8 {
+		num := math.Sin(float64(2*b.m+1) * x)
+		sample = b.a * num / denom
 	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+		// At the impulse, use limit value
+		sample = 1.0
 	}
 
 	// Update phase
@@ -194,10 +189,9 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
@@ -205,6 +199,7 @@ func NewBandLimitedSaw(sampleRate float64) *BandLimitedSaw {
 	return &BandLimitedSaw{
 		blit:  NewBLIT(sampleRate),
 		leaky: 0.999, // Slight leak to prevent DC buildup
+		state: 1.0,   // Top of the ramp, right before the first impulse
 	}
 }
 
@@ -218,15 +213,10 @@ func (s *BandLimitedSaw) Next() float32 {
 	// Get BLIT sample
 	blit := float64(s.blit.BLIT())
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
-
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
-
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	// Integrate the impulses without their DC, so that every impulse drops
+	// the ramp from 1 to -1
+	s.state = s.leaky*s.state + 2.0*s.blit.phaseInc*(1.0-blit/s.blit.a)
+	return float32(s.state)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From 9873d1ac4d5efeaadceb8838de8530e3913a02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 22/41] fix: modulation effects honour their settings in any
 order, phasers phase around their centre

---
 pkg/dsp/modulation/chorus.go  |  9 ++++-----
 pkg/dsp/modulation/flanger.go |  7 +++----
 pkg/dsp/modulation/lfo.go     | 18 +++++++++++-------
 pkg/dsp/modulation/phaser.go  |  7 ++++---
 pkg/dsp/modulation/ringmod.go |  1 +
 pkg/dsp/modulation/tremolo.go | 16 ++++++++--------
 6 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..1948a36 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -67,7 +67,6 @@ func (c *Chorus) SetDepth(ms float64) {
 // SetDelay sets the base delay time in milliseconds
 func (c *Chorus) SetDelay(ms float64) {
 	c.delay = math.Max(1.0, math.Min(50.0, ms))
-	c.updateDelayLines()
 }
 
 // SetMix sets the wet/dry mix (0=dry, 1=wet)
@@ -106,8 +105,8 @@ func (c *Chorus) SetVoices(voices int) {
 
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
-	// Calculate maximum delay needed (base + modulation depth)
-	maxDelayMs := c.delay + c.depth
+	// Calculate maximum delay needed (longest base delay + deepest modulation)
+	maxDelayMs := 50.0 + 10.0
 	c.maxDelaySamples = int(maxDelayMs * c.sampleRate / 1000.0)
 
 	// Add some headroom
@@ -236,10 +235,10 @@ func (c *Chorus) Reset() {
 	}
 
 	// Reset LFOs
-	for _, lfo := range c.lfos {
+	for i, lfo := range c.lfos {
 		lfo.Reset()
+		lfo.SetPhase(float64(i) / float64(c.voices))
 	}
-
 	c.delayIndex = 0
 	c.feedbackL = 0
 	c.feedbackR = 0
diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..3be43a0 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -69,7 +69,6 @@ func (f *Flanger) SetDepth(ms float64) {
 // SetDelay sets the center delay time in milliseconds
 func (f *Flanger) SetDelay(ms float64) {
 	f.delay = math.Max(0.1, math.Min(10.0, ms))
-	f.updateDelayLine()
 }
 
 // SetFeedback sets the feedback amount (-1 to 1)
@@ -94,8 +93,8 @@ func (f *Flanger) SetManualMode(enabled bool) {
 
 // updateDelayLine updates the delay line buffer size
 func (f *Flanger) updateDelayLine() {
-	// Calculate maximum delay needed
-	maxDelayMs := f.delay + f.depth
+	// Calculate maximum delay needed (longest delay + deepest modulation)
+	maxDelayMs := 10.0 + 10.0
 	f.maxDelaySamples = int(maxDelayMs * f.sampleRate / 1000.0)
 
 	// Add some headroom
@@ -179,7 +178,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL
 
 	return outputL, outputR
 }
diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..bdbf4b4 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -3,6 +3,7 @@ package modulation
 
 import (
 	"math"
+	"sync/atomic"
 )
 
 // Waveform represents the LFO waveform shape
@@ -43,6 +44,7 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randState     uint32
 }
 
 // NewLFO creates a new LFO
@@ -54,6 +56,7 @@ func NewLFO(sampleRate float64) *LFO {
 		depth:      1.0,
 		offset:     0.0,
 		phase:      0.0,
+		randState:  randSeed.Add(1664525),
 	}
 
 	lfo.updatePhaseIncrement()
@@ -72,7 +75,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +151,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -195,11 +198,12 @@ func (l *LFO) Reset() {
 	l.currentRandom = 0.0
 }
 
-// Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
+// randSeed gives every LFO its own random sequence
+var randSeed atomic.Uint32
 
-func randFloat() float64 {
+// Simple random number generator (can be replaced with better RNG)
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randState = l.randState*1664525 + 1013904223
+	return float64(l.randState) / float64(1<<32)
 }
diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index a51780a..43f4813 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -18,9 +18,9 @@ func NewAllPassFilter() *AllPassFilter {
 // SetFrequency sets the filter frequency
 func (f *AllPassFilter) SetFrequency(freq, sampleRate float64) {
 	// Calculate coefficient for all-pass filter
-	// Using bilinear transform: a1 = (1 - tan(pi*fc/fs)) / (1 + tan(pi*fc/fs))
+	// Using bilinear transform: a1 = (tan(pi*fc/fs) - 1) / (tan(pi*fc/fs) + 1)
 	tanFreq := math.Tan(math.Pi * freq / sampleRate)
-	f.a1 = (1.0 - tanFreq) / (1.0 + tanFreq)
+	f.a1 = (tanFreq - 1.0) / (tanFreq + 1.0)
 }
 
 // Process processes a sample through the all-pass filter
@@ -91,6 +91,7 @@ func NewPhaser(sampleRate float64) *Phaser {
 
 	// Initialize filters
 	p.updateStages()
+	p.updateFrequencyRange()
 
 	return p
 }
@@ -104,6 +105,7 @@ func (p *Phaser) SetRate(hz float64) {
 // SetDepth sets the modulation depth (0-1)
 func (p *Phaser) SetDepth(depth float64) {
 	p.depth = math.Max(0.0, math.Min(1.0, depth))
+	p.updateFrequencyRange()
 }
 
 // SetCenterFrequency sets the center frequency for modulation
@@ -150,7 +152,6 @@ func (p *Phaser) updateStages() {
 	for i := 0; i < p.stages; i++ {
 		p.filters[i] = NewAllPassFilter()
 	}
-	p.updateFrequencyRange()
 }
 
 // updateFrequencyRange updates the frequency range based on center and depth
diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..f472658 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,7 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	rm.updatePhaseIncrement()
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..f5e2ca6 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -117,9 +117,9 @@ func (t *Tremolo) updateLFOs() {
 
 	// Set phase offset for stereo
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
@@ -155,9 +155,9 @@ func (t *Tremolo) Process(input float32) float32 {
 
 	// Apply smoothing if enabled (mainly for square wave)
 	if t.smoothing {
-		t.smoothedGainL = gain + (t.smoothedGainL-gain)*t.smoothCoeff
-		gain = t.smoothedGainL
+		gain += (t.smoothedGainL - gain) * t.smoothCoeff
 	}
+	t.smoothedGainL = gain
 
 	// Apply amplitude modulation
 	return input * float32(gain)
@@ -188,11 +188,11 @@ func (t *Tremolo) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Apply smoothing if enabled
 	if t.smoothing {
-		t.smoothedGainL = gainL + (t.smoothedGainL-gainL)*t.smoothCoeff
-		t.smoothedGainR = gainR + (t.smoothedGainR-gainR)*t.smoothCoeff
-		gainL = t.smoothedGainL
-		gainR = t.smoothedGainR
+		gainL += (t.smoothedGainL - gainL) * t.smoothCoeff
+		gainR += (t.smoothedGainR - gainR) * t.smoothCoeff
 	}
+	t.smoothedGainL = gainL
+	t.smoothedGainR = gainR
 
 	// Apply amplitude modulation
 	outputL = inputL * float32(gainL)
-- 
2.43.0


From 4af1788c6261e78fee85b79f0342ffe0adea5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 23/41] fix: reverbs are stable, damp and freeze as documented

---
 pkg/dsp/reverb/fdn.go      | 83 ++++++++++++--------------------------
 pkg/dsp/reverb/freeverb.go | 20 +++++----
 2 files changed, 35 insertions(+), 68 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..046f37d 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -24,6 +25,9 @@ type FDN struct {
 	inputGains  []float64
 	outputGains []float64
 
+	// Outputs of the delay lines at the current sample
+	delayOutputs []float32
+
 	// Damping filters (one per delay line)
 	dampingFilters []*DampingFilter
 
@@ -62,7 +66,7 @@ func NewDampingFilter() *DampingFilter {
 func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	d.coeff = math.Max(0.0, math.Min(1.0, damping))
 }
 
 // Process applies the damping filter
@@ -86,6 +90,7 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		writeIndices:   make([]int, numDelays),
 		inputGains:     make([]float64, numDelays),
 		outputGains:    make([]float64, numDelays),
+		delayOutputs:   make([]float32, numDelays),
 		dampingFilters: make([]*DampingFilter, numDelays),
 		modLFOs:        make([]float64, numDelays),
 		modPhases:      make([]float64, numDelays),
@@ -156,12 +161,11 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
@@ -243,40 +247,18 @@ func (f *FDN) updateInternalParameters() {
 	for i := 0; i < f.numDelays; i++ {
 		f.dampingFilters[i].SetDamping(f.damping)
 	}
-
-	// Scale feedback matrix by decay amount
-	// Higher decay = more feedback = longer reverb tail
-	decayScale := 0.4 + f.decay*0.58 // Range from 0.4 to 0.98
-
-	// Apply diffusion by mixing with identity matrix
-	// Low diffusion = more parallel delays, high diffusion = more mixing
-	diffusionMix := f.diffusion
-	
-	// Create base Hadamard matrix
-	f.createHadamardMatrix()
-	
-	// Apply decay and diffusion scaling to feedback matrix
-	for i := 0; i < f.numDelays; i++ {
-		for j := 0; j < f.numDelays; j++ {
-			// Store original Hadamard value
-			hadamardValue := f.feedbackMatrix[i][j]
-			
-			if i == j {
-				// Mix between identity (no diffusion) and Hadamard (full diffusion)
-				f.feedbackMatrix[i][j] = decayScale * ((1.0-diffusionMix) + diffusionMix*hadamardValue)
-			} else {
-				// Off-diagonal elements scaled by diffusion
-				f.feedbackMatrix[i][j] = decayScale * diffusionMix * hadamardValue
-			}
-		}
-	}
 }
 
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
-	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	// Apply wet/dry mix
+	return input*float32(f.dryLevel) + f.processWet(input)*float32(f.wetLevel)
+}
 
+// processWet advances the network and returns its output
+func (f *FDN) processWet(input float32) float32 {
+	// Read outputs from all delay lines
+	delayOutputs := f.delayOutputs
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
 		modulation := 0.0
@@ -310,11 +292,12 @@ func (f *FDN) Process(input float32) float32 {
 		delayOutputs[i] = f.delayLines[i][idx1]*(1-frac) + f.delayLines[i][idx2]*frac
 	}
 
-	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
-	decayScale := float32(0.4 + f.decay*0.58)
+	// Scale feedback by decay amount
+	// Higher decay = more feedback = longer reverb tail
+	decayScale := float32(0.4 + f.decay*0.58) // Range from 0.4 to 0.98
 
 	for i := 0; i < f.numDelays; i++ {
+		// Apply feedback matrix to create the new input
 		sum := float32(0)
 		for j := 0; j < f.numDelays; j++ {
 			// Mix between feedback matrix and identity based on diffusion
@@ -325,14 +308,9 @@ func (f *FDN) Process(input float32) float32 {
 			// Feedback matrix component (cross-coupling)
 			sum += delayOutputs[j] * float32(f.feedbackMatrix[i][j]*f.diffusion) * decayScale
 		}
-		feedbackInputs[i] = sum
-	}
 
-	// Write to delay lines with damping
-	for i := 0; i < f.numDelays; i++ {
 		// Mix input with feedback
-		delayInput := input*float32(f.inputGains[i]) + feedbackInputs[i]
-
+		delayInput := input*float32(f.inputGains[i]) + sum
 		// Apply damping
 		delayInput = f.dampingFilters[i].Process(delayInput)
 
@@ -352,8 +330,7 @@ func (f *FDN) Process(input float32) float32 {
 		output += delayOutputs[i] * float32(f.outputGains[i])
 	}
 
-	// Apply wet/dry mix
-	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+	return output
 }
 
 // ProcessStereo processes stereo input
@@ -362,8 +339,7 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	mono := (inputL + inputR) * 0.5
 
 	// Process through FDN
-	processed := f.Process(mono)
-
+	processed := f.processWet(mono)
 	// Create stereo output by using different combinations of delay outputs
 	// This is a simplified approach - a full implementation would have
 	// separate processing for left and right channels
@@ -375,20 +351,13 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
-		}
-
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
-		}
+		delay1 := f.delayOutputs[0]
+		delay2 := f.delayOutputs[1]
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-		outputL += delay1 * spread * float32(f.wetLevel)
-		outputR += delay2 * spread * float32(f.wetLevel)
+		outputL += delay1 * spread
+		outputR += delay2 * spread
 	}
 
 	// Apply final wet/dry mix
diff --git a/pkg/dsp/reverb/freeverb.go b/pkg/dsp/reverb/freeverb.go
index 101e727..ac81883 100644
--- a/pkg/dsp/reverb/freeverb.go
+++ b/pkg/dsp/reverb/freeverb.go
@@ -153,26 +153,24 @@ func (f *Freeverb) update() {
 	f.dry = f.dryLevel
 
 	// Apply freeze mode if active
-	var roomSize, damping float64
+	var feedback float64
 	if f.mode >= 0.5 {
-		roomSize = freezeRoom
-		damping = freezeDamp
+		feedback = freezeRoom
+		f.damp1 = freezeDamp
+		f.gain = muted
 	} else {
-		roomSize = f.roomSize
-		damping = f.damping
+		feedback = f.roomSize*scaleRoom + offsetRoom
+		f.damp1 = f.damping * scaleDamping
+		f.gain = fixedGain
 	}
-
-	// Calculate feedback and damping values
-	feedback := roomSize*scaleRoom + offsetRoom
-	f.damp1 = damping * scaleDamping
 	f.damp2 = 1.0 - f.damp1
 
 	// Update comb filters
 	for i := 0; i < numCombs; i++ {
 		f.combL[i].SetFeedback(feedback)
 		f.combR[i].SetFeedback(feedback)
-		f.combL[i].SetDamping(damping)
-		f.combR[i].SetDamping(damping)
+		f.combL[i].SetDamping(f.damp1)
+		f.combR[i].SetDamping(f.damp1)
 	}
 }
 
-- 
2.43.0


From e0e4bf2143be995d098a51c66475d0cdd1002ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 24/41] fix: factory references, field sizes and interface IDs

---
 bridge/bridge.c       | 16 +++++++++++++---
 pkg/plugin/helpers.go | 30 +++++++++++++++++++++++++++++-
 pkg/plugin/wrapper.go | 10 +++++-----
 pkg/vst3/component.go | 12 ++++++------
 4 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 6427f2f..69ad310 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -49,6 +49,9 @@ struct Steinberg_IPluginFactory* GetPluginFactory() {
         globalFactory->vtbl = &factoryVtbl;
         globalFactory->refCount = 1;
         DBG_LOG("GetPluginFactory: Created factory at %p", globalFactory);
+    } else {
+        // Every caller owns a reference
+        factory_addRef(globalFactory);
     }
     return (struct Steinberg_IPluginFactory*)globalFactory;
 }
@@ -98,6 +101,9 @@ static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterfac
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
     if (--factory->refCount == 0) {
+        if (factory == globalFactory) {
+            globalFactory = NULL;
+        }
         free(factory);
         return 0;
     }
@@ -115,7 +121,7 @@ static Steinberg_int32 SMTG_STDMETHODCALLTYPE factory_countClasses(void* thisInt
 }
 
 static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_getClassInfo(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info) {
-    if (index >= GoCountClasses()) {
+    if (index < 0 || index >= GoCountClasses()) {
         return ((Steinberg_tresult)1);
     }
     GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
@@ -133,8 +139,12 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_createInstance(void* thi
     }
     
     DBG_LOG("factory_createInstance: Created instance at %p", instance);
-    *obj = instance;
-    return ((Steinberg_tresult)0);
+
+    // Hand out the interface that was asked for and drop our own reference
+    struct Steinberg_FUnknown* unknown = (struct Steinberg_FUnknown*)instance;
+    Steinberg_tresult result = unknown->lpVtbl->queryInterface(unknown, iid, obj);
+    unknown->lpVtbl->release(unknown);
+    return result;
 }
 
 // Parameter automation helper functions implementation
diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 142d277..4806365 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -8,7 +8,35 @@ package plugin
 //     return bus->Steinberg_Vst_AudioBusBuffers_channelBuffers32;
 // }
 import "C"
-import "unsafe"
+import (
+	"unicode/utf8"
+	"unsafe"
+)
+
+// Sizes of the character arrays in PFactoryInfo and PClassInfo
+const (
+	vendorSize   = 64
+	urlSize      = 256
+	emailSize    = 128
+	categorySize = 32
+	nameSize     = 64
+)
+
+// copyStringToChars copies a Go string into a C character array of the given
+// size, cutting it at a whole character if it does not fit
+func copyStringToChars(src string, dst *C.char, size int) {
+	if len(src) > size-1 {
+		n := size - 1
+		for n > 0 && !utf8.RuneStart(src[n]) {
+			n--
+		}
+		src = src[:n]
+	}
+
+	chars := unsafe.Slice((*byte)(unsafe.Pointer(dst)), size)
+	n := copy(chars, src)
+	chars[n] = 0
+}
 
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dc100d9..b9b1d8f 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -172,9 +172,9 @@ func (w *componentWrapper) notifyParamEndEdit(paramID uint32) {
 
 //export GoGetFactoryInfo
 func GoGetFactoryInfo(vendor, url, email *C.char, flags *C.int32_t) {
-	C.strcpy(vendor, C.CString(globalFactoryInfo.Vendor))
-	C.strcpy(url, C.CString(globalFactoryInfo.URL))
-	C.strcpy(email, C.CString(globalFactoryInfo.Email))
+	copyStringToChars(globalFactoryInfo.Vendor, vendor, vendorSize)
+	copyStringToChars(globalFactoryInfo.URL, url, urlSize)
+	copyStringToChars(globalFactoryInfo.Email, email, emailSize)
 	*flags = C.Steinberg_PFactoryInfo_FactoryFlags_kUnicode
 }
 
@@ -202,8 +202,8 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances
 
 	// Set category and name
-	C.strcpy(category, C.CString("Audio Module Class"))
-	C.strcpy(name, C.CString(info.Name))
+	copyStringToChars("Audio Module Class", category, categorySize)
+	copyStringToChars(info.Name, name, nameSize)
 }
 
 //export GoCreateInstance
diff --git a/pkg/vst3/component.go b/pkg/vst3/component.go
index b6f8d1a..1e9ee23 100644
--- a/pkg/vst3/component.go
+++ b/pkg/vst3/component.go
@@ -7,16 +7,16 @@ import "unsafe"
 // Component interface IDs
 var (
 	IIDIComponent = [16]byte{
-		0xE8, 0x31, 0xFF, 0x31, 0xF2, 0xD5, 0x4B, 0x01,
-		0x83, 0x6F, 0x5D, 0x38, 0x54, 0x34, 0xAE, 0xC6,
+		0xE8, 0x31, 0xFF, 0x31, 0xF2, 0xD5, 0x43, 0x01,
+		0x92, 0x8E, 0xBB, 0xEE, 0x25, 0x69, 0x78, 0x02,
 	}
 	IIDIAudioProcessor = [16]byte{
-		0x42, 0x04, 0x3F, 0x99, 0xB2, 0xA8, 0x4F, 0x3F,
-		0xA2, 0x85, 0x7A, 0xA0, 0x39, 0x82, 0x15, 0xC1,
+		0x42, 0x04, 0x3F, 0x99, 0xB7, 0xDA, 0x45, 0x3C,
+		0xA5, 0x69, 0xE7, 0x9D, 0x9A, 0xAE, 0xC3, 0x3D,
 	}
 	IIDIEditController = [16]byte{
-		0xDD, 0xB1, 0x18, 0x8F, 0x2B, 0x0D, 0x43, 0x11,
-		0x9E, 0xD0, 0xAE, 0xB4, 0x38, 0x95, 0x40, 0x52,
+		0xDC, 0xD7, 0xBB, 0xE3, 0x77, 0x42, 0x44, 0x8D,
+		0xA8, 0x74, 0xAA, 0xCC, 0x97, 0x9C, 0x75, 0x9E,
 	}
 )
 
-- 
2.43.0


From db737a8ebfd93b2e068c069b360796c68a7513ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 25/41] fix: host blocks, automation, events, streams and
 strings reach the plugin whole

---
 pkg/framework/process/context.go |  28 ++--
 pkg/plugin/component.go          | 218 +++++++++++--------------------
 pkg/plugin/constants.go          |   3 +
 pkg/plugin/helpers.go            |  76 +++++++----
 pkg/plugin/wrapper.go            |  55 +++++---
 pkg/plugin/wrapper_audio.go      |  20 ++-
 pkg/plugin/wrapper_controller.go |  57 ++++----
 pkg/vst3/stream.go               |  48 +++++--
 8 files changed, 246 insertions(+), 259 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 609ca8f..3ba0e8b 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,9 +2,9 @@
 package process
 
 import (
-	"fmt"
+	"cmp"
 	"math"
-	"sort"
+	"slices"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
@@ -219,25 +219,19 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 	if param := c.params.Get(paramID); param != nil {
 		// For backward compatibility, apply the change immediately
 		param.SetValue(value)
-
-		// Debug output for parameter changes
-		fmt.Printf("[PARAM_AUTOMATION] SetParameterAtOffset: id=%d, value=%.6f, offset=%d, plain=%.1f\n",
-			paramID, value, sampleOffset, param.GetPlainValue())
 	}
 }
 
 // AddParameterChange adds a parameter change for sample-accurate processing
 // This method is used during the parameter change collection phase
 func (c *Context) AddParameterChange(paramID uint32, value float64, sampleOffset int) {
-	// Ensure we don't exceed pre-allocated space
-	if c.changeCount < len(c.paramChanges) {
-		c.paramChanges[c.changeCount] = ParameterChange{
-			ParamID:      paramID,
-			Value:        value,
-			SampleOffset: sampleOffset,
-		}
-		c.changeCount++
-	}
+	// A block with more changes than there is space for grows the list
+	c.paramChanges = append(c.paramChanges[:c.changeCount], ParameterChange{
+		ParamID:      paramID,
+		Value:        value,
+		SampleOffset: sampleOffset,
+	})
+	c.changeCount++
 }
 
 // ResetParameterChanges clears the parameter change list for the next processing block
@@ -249,8 +243,8 @@ func (c *Context) ResetParameterChanges() {
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
-			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
+		slices.SortStableFunc(c.paramChanges[:c.changeCount], func(a, b ParameterChange) int {
+			return cmp.Compare(a.SampleOffset, b.SampleOffset)
 		})
 	}
 }
diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b634180..8251dcd 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -27,6 +27,15 @@ type componentImpl struct {
 	processing   bool
 	mu           sync.RWMutex
 	wrapper      *componentWrapper // Reference to wrapper for notifications
+
+	// The host's buffers and the part of them being processed
+	inputs, outputs   [][]float32
+	chunkIn, chunkOut [][]float32
+
+	// Scratch space for calls into the host, so that they do not allocate
+	event       C.struct_Steinberg_Vst_Event
+	pointOffset C.int32_t
+	pointValue  C.double
 }
 
 // newComponent creates a new component implementation
@@ -89,7 +98,8 @@ func (c *componentImpl) GetRoutingInfo(inInfo, outInfo interface{}) error {
 }
 
 func (c *componentImpl) ActivateBus(mediaType, direction, index int32, state bool) error {
-	return nil
+	buses := c.processor.GetBuses()
+	return buses.SetBusActive(bus.MediaType(mediaType), bus.Direction(direction), index, state)
 }
 
 func (c *componentImpl) SetActive(active bool) error {
@@ -156,8 +166,17 @@ func (c *componentImpl) SetBusArrangements(inputs, outputs []int64) error {
 }
 
 func (c *componentImpl) GetBusArrangement(direction, index int32) (int64, error) {
-	// Return stereo by default
-	return int64(3), nil // Left + Right
+	buses := c.processor.GetBuses()
+	info := buses.GetBusInfo(bus.MediaTypeAudio, bus.Direction(direction), index)
+	if info == nil {
+		return 0, vst3.ErrInvalidArgument
+	}
+
+	if info.ChannelCount == 1 {
+		return speakerMono, nil
+	}
+	// The first speakers in order: stereo for two channels
+	return int64(1)<<uint(info.ChannelCount) - 1, nil
 }
 
 func (c *componentImpl) CanProcessSampleSize(symbolicSampleSize int32) error {
@@ -210,10 +229,10 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	c.processCtx.SampleRate = c.sampleRate
 
 	// Update transport information if available
+	transport := c.processCtx.Transport
+	*transport = process.TransportInfo{}
 	if processData.processContext != nil {
 		ctx := processData.processContext
-		transport := c.processCtx.Transport
-
 		// Transport state
 		transport.IsPlaying = (ctx.state & C.Steinberg_Vst_ProcessContext_StatesAndFlags_kPlaying) != 0
 		transport.IsRecording = (ctx.state & C.Steinberg_Vst_ProcessContext_StatesAndFlags_kRecording) != 0
@@ -264,53 +283,15 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Set input/output buffers (slicing pre-allocated arrays, no allocation)
 	numSamples := int(processData.numSamples)
 
-	// Clear slices (no allocation, just updating slice headers)
-	c.processCtx.Input = c.processCtx.Input[:0]
-	c.processCtx.Output = c.processCtx.Output[:0]
-
-	// Map input buffers
-	if processData.numInputs > 0 && processData.inputs != nil {
-		inputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
-		for _, bus := range inputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
-			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
-				for _, channel := range channels {
-					if channel != nil {
-						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
-						c.processCtx.Input = append(c.processCtx.Input, samples)
-					}
-				}
-			}
-		}
-	}
-
-	// Map output buffers
-	if processData.numOutputs > 0 && processData.outputs != nil {
-		outputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
-		for _, bus := range outputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
-			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
-				for _, channel := range channels {
-					if channel != nil {
-						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
-						c.processCtx.Output = append(c.processCtx.Output, samples)
-					}
-				}
-			}
-		}
-	}
+	// Map the host's buffers (no allocation, just updating slice headers)
+	c.inputs = mapBuffers(c.inputs[:0], processData.inputs, int(processData.numInputs), numSamples)
+	c.outputs = mapBuffers(c.outputs[:0], processData.outputs, int(processData.numOutputs), numSamples)
+	c.processCtx.Input = c.inputs
+	c.processCtx.Output = c.outputs
 
-	// Reset parameter changes for this processing block
+	// Reset parameter changes and events for this processing block
 	c.processCtx.ResetParameterChanges()
-
-	// Process input events (MIDI)
-	if processData.inputEvents != nil {
-		c.processInputEvents(processData.inputEvents)
-	}
+	c.processCtx.ClearAllEvents()
 
 	// Collect parameter changes for sample-accurate automation
 	if processData.inputParameterChanges != nil {
@@ -329,14 +310,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 				// Process all automation points for this parameter
 				for j := C.int32_t(0); j < pointCount; j++ {
-					var sampleOffset C.int32_t
-					var value C.double
-
 					// Get the automation point
-					result := C.getPoint(paramQueue, j, &sampleOffset, &value)
+					result := C.getPoint(paramQueue, j, &c.pointOffset, &c.pointValue)
 					if result == 0 { // kResultOk
 						// Add parameter change for sample-accurate processing
-						c.processCtx.AddParameterChange(uint32(paramID), float64(value), int(sampleOffset))
+						c.processCtx.AddParameterChange(uint32(paramID), float64(c.pointValue), int(c.pointOffset))
 					}
 				}
 			}
@@ -349,9 +327,10 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processCtx.SortParameterChanges()
 
 		// Process audio in chunks between parameter changes
-		c.processSampleAccurate()
+		c.processSampleAccurate(processData)
 	} else {
 		// No parameter changes - process entire block
+		c.processInputEvents(processData.inputEvents, 0, numSamples)
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
@@ -362,8 +341,9 @@ func (c *componentImpl) GetTailSamples() uint32 {
 	return uint32(c.processor.GetTailSamples())
 }
 
-// processInputEvents processes MIDI events from the host
-func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList) {
+// processInputEvents processes the host's MIDI events at offsets from start up
+// to end; their offsets are given relative to start
+func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList, start, end int) {
 	if eventList == nil {
 		return
 	}
@@ -376,9 +356,12 @@ func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEv
 
 	// Process each event
 	for i := C.int32_t(0); i < eventCount; i++ {
-		var event C.struct_Steinberg_Vst_Event
-		if C.getEvent(unsafe.Pointer(eventList), i, &event) == 0 { // kResultOk
-			c.processSingleEvent(&event)
+		if C.getEvent(unsafe.Pointer(eventList), i, &c.event) == 0 { // kResultOk
+			offset := int(c.event.sampleOffset)
+			if offset >= start && offset < end {
+				c.event.sampleOffset -= C.Steinberg_int32(start)
+				c.processSingleEvent(&c.event)
+			}
 		}
 	}
 }
@@ -387,7 +370,7 @@ func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEv
 func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event) {
 	// Use helper function to get event type
 	eventType := C.getEventType(event)
-	
+
 	switch eventType {
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOnEvent:
 		// Note On event - use helper to get the event data
@@ -398,7 +381,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 				Offset:       int32(event.sampleOffset),
 			},
 			NoteNumber: uint8(noteOn.pitch),
-			Velocity:   uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
+			Velocity:   noteOnVelocity(float64(noteOn.velocity)),
 		})
 
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOffEvent:
@@ -410,7 +393,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 				Offset:       int32(event.sampleOffset),
 			},
 			NoteNumber: uint8(noteOff.pitch),
-			Velocity:   uint8(noteOff.velocity * 127),
+			Velocity:   midiVelocity(float64(noteOff.velocity)),
 		})
 
 	// Add more event types as needed
@@ -462,16 +445,14 @@ func (c *componentImpl) GetParamValueByString(id uint32, str string) (float64, e
 
 func (c *componentImpl) NormalizedParamToPlain(id uint32, normalized float64) float64 {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		return p.Min + normalized*(p.Max-p.Min)
+		return p.Denormalize(normalized)
 	}
 	return normalized
 }
 
 func (c *componentImpl) PlainParamToNormalized(id uint32, plain float64) float64 {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		if p.Max > p.Min {
-			return (plain - p.Min) / (p.Max - p.Min)
-		}
+		return p.Normalize(plain)
 	}
 	return plain
 }
@@ -485,9 +466,6 @@ func (c *componentImpl) GetParamNormalized(id uint32) float64 {
 
 func (c *componentImpl) SetParamNormalized(id uint32, value float64) error {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		// Debug parameter changes
-		fmt.Printf("[PARAM_CHANGE] SetParamNormalized: id=%d, value=%.3f, plain=%.1f\n",
-			id, value, p.Min+value*(p.Max-p.Min))
 		p.SetValue(value)
 		return nil
 	}
@@ -522,88 +500,48 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 }
 
 // processSampleAccurate processes audio with sample-accurate parameter automation
-func (c *componentImpl) processSampleAccurate() {
-	changes := c.processCtx.GetParameterChanges()
-	numSamples := c.processCtx.NumSamples()
+func (c *componentImpl) processSampleAccurate(processData *C.struct_Steinberg_Vst_ProcessData) {
+	numSamples := int(processData.numSamples)
 	lastOffset := 0
 
-	// Store original buffers
-	origInput := c.processCtx.Input
-	origOutput := c.processCtx.Output
-
 	// Process each chunk between parameter changes
-	for _, change := range changes {
-		if change.SampleOffset > lastOffset {
-			// Process chunk from lastOffset to change.SampleOffset
-			chunkSize := change.SampleOffset - lastOffset
-
-			// Temporarily update context buffers to point to sub-slices (no allocation)
-			c.processCtx.Input = nil
-			c.processCtx.Output = nil
-
-			// Set up input sub-slices
-			for ch := 0; ch < len(origInput); ch++ {
-				if lastOffset < len(origInput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origInput[ch]) {
-						endOffset = len(origInput[ch])
-					}
-					c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Set up output sub-slices
-			for ch := 0; ch < len(origOutput); ch++ {
-				if lastOffset < len(origOutput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origOutput[ch]) {
-						endOffset = len(origOutput[ch])
-					}
-					c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Process this chunk
-			c.processor.ProcessAudio(c.processCtx)
-
-			lastOffset = change.SampleOffset
+	for _, change := range c.processCtx.GetParameterChanges() {
+		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {
+			c.processChunk(processData, lastOffset, offset)
+			lastOffset = offset
 		}
 
 		// Apply the parameter change
 		c.processCtx.ApplyParameterChange(change)
-
-		// Debug output
-		if p := c.processor.GetParameters().Get(change.ParamID); p != nil {
-			fmt.Printf("[SAMPLE_ACCURATE] Applied param %d change at sample %d: value=%.6f, plain=%.1f\n",
-				change.ParamID, change.SampleOffset, change.Value, p.GetPlainValue())
-		}
 	}
 
 	// Process final chunk if there are samples remaining
 	if lastOffset < numSamples {
-		// Temporarily update context buffers for final chunk
-		c.processCtx.Input = nil
-		c.processCtx.Output = nil
-
-		// Set up input sub-slices for final chunk
-		for ch := 0; ch < len(origInput); ch++ {
-			if lastOffset < len(origInput[ch]) {
-				c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:])
-			}
-		}
+		c.processChunk(processData, lastOffset, numSamples)
+	}
 
-		// Set up output sub-slices for final chunk
-		for ch := 0; ch < len(origOutput); ch++ {
-			if lastOffset < len(origOutput[ch]) {
-				c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:])
-			}
-		}
+	// Restore original buffers
+	c.processCtx.Input = c.inputs
+	c.processCtx.Output = c.outputs
+}
 
-		// Process final chunk
-		c.processor.ProcessAudio(c.processCtx)
+// processChunk processes the samples from start up to end of the block together
+// with the events that belong to them
+func (c *componentImpl) processChunk(processData *C.struct_Steinberg_Vst_ProcessData, start, end int) {
+	// Update context buffers to point to sub-slices (no allocation)
+	c.chunkIn = c.chunkIn[:0]
+	for _, samples := range c.inputs {
+		c.chunkIn = append(c.chunkIn, samples[start:end])
 	}
+	c.chunkOut = c.chunkOut[:0]
+	for _, samples := range c.outputs {
+		c.chunkOut = append(c.chunkOut, samples[start:end])
+	}
+	c.processCtx.Input = c.chunkIn
+	c.processCtx.Output = c.chunkOut
 
-	// Restore original buffers
-	c.processCtx.Input = origInput
-	c.processCtx.Output = origOutput
+	c.processCtx.ClearInputEvents()
+	c.processInputEvents(processData.inputEvents, start, end)
+
+	c.processor.ProcessAudio(c.processCtx)
 }
diff --git a/pkg/plugin/constants.go b/pkg/plugin/constants.go
index b9c87c0..f7ef9f2 100644
--- a/pkg/plugin/constants.go
+++ b/pkg/plugin/constants.go
@@ -6,3 +6,6 @@ const (
 	ParamIDBypass = 1
 	ParamIDMix    = 2
 )
+
+// Speaker arrangement of a bus with one channel
+const speakerMono int64 = 1 << 19
diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 4806365..ff47440 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -9,6 +9,8 @@ package plugin
 // }
 import "C"
 import (
+	"math"
+	"unicode/utf16"
 	"unicode/utf8"
 	"unsafe"
 )
@@ -43,24 +45,54 @@ func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float
 	return C.getChannelBuffers32(bus)
 }
 
-// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
-func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
-	// Convert to runes for proper Unicode handling
-	runes := []rune(src)
-	n := len(runes)
-	if n > maxLen-1 {
-		n = maxLen - 1
+// mapBuffers appends the channels of the host's buses to channels, each as a
+// slice of the host's memory
+func mapBuffers(channels [][]float32, buses *C.struct_Steinberg_Vst_AudioBusBuffers, numBuses, numSamples int) [][]float32 {
+	if buses == nil || numBuses <= 0 {
+		return channels
 	}
 
-	// Copy runes as UTF16
-	for i := 0; i < n; i++ {
-		*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = C.Steinberg_char16(runes[i])
+	hostBuses := unsafe.Slice(buses, numBuses)
+	for i := range hostBuses {
+		bus := &hostBuses[i]
+		pointers := getChannelBuffers32(bus)
+		if pointers == nil || bus.numChannels <= 0 {
+			continue
+		}
+		for _, samples := range unsafe.Slice((**float32)(unsafe.Pointer(pointers)), int(bus.numChannels)) {
+			if samples != nil {
+				channels = append(channels, unsafe.Slice(samples, numSamples))
+			}
+		}
 	}
+	return channels
+}
+
+// midiVelocity converts a VST3 velocity (0-1) to MIDI (0-127)
+func midiVelocity(velocity float64) uint8 {
+	return uint8(math.Round(math.Max(0, math.Min(1, velocity)) * 127))
+}
+
+// noteOnVelocity converts the velocity of a note on event, which MIDI would
+// take for a note off at zero
+func noteOnVelocity(velocity float64) uint8 {
+	return max(midiVelocity(velocity), 1)
+}
 
-	// Null terminate
-	*(*C.Steinberg_char16)(unsafe.Pointer(
-		uintptr(unsafe.Pointer(dst)) + uintptr(n*2))) = 0
+// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer, cutting
+// it at a whole character if it does not fit
+func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
+	units := unsafe.Slice((*uint16)(unsafe.Pointer(dst)), maxLen)
+	n := 0
+	for _, r := range src {
+		var encoded [2]uint16
+		unit := utf16.AppendRune(encoded[:0], r)
+		if n+len(unit) > maxLen-1 {
+			break
+		}
+		n += copy(units[n:], unit)
+	}
+	units[n] = 0
 }
 
 // stringFromTChar converts a VST3 TChar (UTF16) buffer to a Go string
@@ -71,21 +103,9 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 
 	// Count length
 	length := 0
-	for {
-		ch := *(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(length*2)))
-		if ch == 0 {
-			break
-		}
+	for *(*uint16)(unsafe.Add(unsafe.Pointer(src), length*2)) != 0 {
 		length++
 	}
 
-	// Convert to runes
-	runes := make([]rune, length)
-	for i := 0; i < length; i++ {
-		runes[i] = rune(*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(i*2))))
-	}
-
-	return string(runes)
+	return string(utf16.Decode(unsafe.Slice((*uint16)(unsafe.Pointer(src)), length)))
 }
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index b9b1d8f..b4e5ecd 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -85,14 +85,20 @@ func SetFactoryInfo(info FactoryInfo) {
 	globalFactoryInfo = info
 }
 
-// recoverPanic is a helper to recover from panics in callbacks
-func recoverPanic(operation string) {
+// recoverPanic is a helper to recover from panics in callbacks, which must not
+// propagate to C code; the callback then reports failure
+func recoverPanic(operation string, result *C.Steinberg_tresult) {
 	if r := recover(); r != nil {
-		// Log the panic but don't propagate it to C code
-		_ = r
+		*result = C.Steinberg_tresult(vst3.ResultFalse)
 	}
 }
 
+// recoverValue recovers from panics in callbacks that return a value instead of
+// a result; they return zero
+func recoverValue(operation string) {
+	_ = recover()
+}
+
 // registerComponent registers a component wrapper and returns its ID
 func registerComponent(wrapper *componentWrapper) uintptr {
 	componentsMu.Lock()
@@ -208,6 +214,8 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 
 //export GoCreateInstance
 func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
+	defer recoverValue("GoCreateInstance")
+
 	if globalPlugin == nil {
 		return nil
 	}
@@ -268,8 +276,8 @@ func GoReleaseComponent(componentPtr unsafe.Pointer) {
 // All the IComponent callbacks
 //
 //export GoComponentInitialize
-func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentInitialize")
+func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentInitialize", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -284,8 +292,8 @@ func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer)
 }
 
 //export GoComponentTerminate
-func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentTerminate")
+func GoComponentTerminate(componentPtr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentTerminate", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -326,6 +334,8 @@ func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) C.Steinbe
 
 //export GoComponentGetBusCount
 func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_t) C.int32_t {
+	defer recoverValue("GoComponentGetBusCount")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -335,7 +345,9 @@ func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_
 }
 
 //export GoComponentGetBusInfo
-func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentGetBusInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -353,14 +365,7 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 	cBus.channelCount = C.Steinberg_int32(info.ChannelCount)
 
 	// Copy name
-	nameBytes := []byte(info.Name)
-	if len(nameBytes) > 127 {
-		nameBytes = nameBytes[:127]
-	}
-	for i, b := range nameBytes {
-		cBus.name[i] = C.Steinberg_char16(b)
-	}
-	cBus.name[len(nameBytes)] = 0
+	copyStringToTChar(info.Name, &cBus.name[0], len(cBus.name))
 
 	cBus.busType = C.Steinberg_Vst_BusType(info.BusType)
 	cBus.flags = C.Steinberg_uint32(info.Flags)
@@ -369,7 +374,9 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 }
 
 //export GoComponentActivateBus
-func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) C.Steinberg_tresult {
+func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentActivateBus", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -383,7 +390,9 @@ func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index,
 }
 
 //export GoComponentSetActive
-func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetActive", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -397,7 +406,9 @@ func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoComponentSetState
-func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -423,7 +434,9 @@ func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.St
 }
 
 //export GoComponentGetState
-func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentGetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 7ac10ed..3af0026 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -21,12 +21,12 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 	// Convert arrangements
 	var inputArrs []int64
 	if numIns > 0 && inputs != nil {
-		inputArrs = (*[16]int64)(inputs)[:numIns:numIns]
+		inputArrs = unsafe.Slice((*int64)(inputs), int(numIns))
 	}
 
 	var outputArrs []int64
 	if numOuts > 0 && outputs != nil {
-		outputArrs = (*[16]int64)(outputs)[:numOuts:numOuts]
+		outputArrs = unsafe.Slice((*int64)(outputs), int(numOuts))
 	}
 
 	err := wrapper.component.SetBusArrangements(inputArrs, outputArrs)
@@ -37,7 +37,9 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 }
 
 //export GoAudioGetBusArrangement
-func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioGetBusArrangement", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -68,6 +70,8 @@ func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize
 
 //export GoAudioGetLatencySamples
 func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverValue("GoAudioGetLatencySamples")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -77,7 +81,9 @@ func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
 }
 
 //export GoAudioSetupProcessing
-func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioSetupProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -114,8 +120,8 @@ func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoAudioProcess
-func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoAudioProcess")
+func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioProcess", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -131,6 +137,8 @@ func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinber
 
 //export GoAudioGetTailSamples
 func GoAudioGetTailSamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverValue("GoAudioGetTailSamples")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0f5f581..5eaefb4 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -31,6 +31,8 @@ func GoEditControllerGetState(componentPtr unsafe.Pointer, state unsafe.Pointer)
 
 //export GoEditControllerGetParameterCount
 func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
+	defer recoverValue("GoEditControllerGetParameterCount")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -40,7 +42,9 @@ func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
 }
 
 //export GoEditControllerGetParameterInfo
-func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) C.Steinberg_tresult {
+func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParameterInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -55,35 +59,10 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 	cInfo := info
 	cInfo.id = C.Steinberg_Vst_ParamID(paramInfo.ID)
 
-	// Copy title
-	titleBytes := []byte(paramInfo.Title)
-	if len(titleBytes) > 127 {
-		titleBytes = titleBytes[:127]
-	}
-	for i, b := range titleBytes {
-		cInfo.title[i] = C.Steinberg_char16(b)
-	}
-	cInfo.title[len(titleBytes)] = 0
-
-	// Copy short title
-	shortTitleBytes := []byte(paramInfo.ShortTitle)
-	if len(shortTitleBytes) > 127 {
-		shortTitleBytes = shortTitleBytes[:127]
-	}
-	for i, b := range shortTitleBytes {
-		cInfo.shortTitle[i] = C.Steinberg_char16(b)
-	}
-	cInfo.shortTitle[len(shortTitleBytes)] = 0
-
-	// Copy units
-	unitsBytes := []byte(paramInfo.Units)
-	if len(unitsBytes) > 127 {
-		unitsBytes = unitsBytes[:127]
-	}
-	for i, b := range unitsBytes {
-		cInfo.units[i] = C.Steinberg_char16(b)
-	}
-	cInfo.units[len(unitsBytes)] = 0
+	// Copy strings as UTF16
+	copyStringToTChar(paramInfo.Title, &cInfo.title[0], len(cInfo.title))
+	copyStringToTChar(paramInfo.ShortTitle, &cInfo.shortTitle[0], len(cInfo.shortTitle))
+	copyStringToTChar(paramInfo.Units, &cInfo.units[0], len(cInfo.units))
 
 	cInfo.stepCount = C.Steinberg_int32(paramInfo.StepCount)
 	cInfo.defaultNormalizedValue = C.Steinberg_Vst_ParamValue(paramInfo.DefaultValue)
@@ -97,7 +76,9 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 }
 
 //export GoEditControllerGetParamStringByValue
-func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) C.Steinberg_tresult {
+func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamStringByValue", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -116,7 +97,9 @@ func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Ste
 }
 
 //export GoEditControllerGetParamValueByString
-func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) C.Steinberg_tresult {
+func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamValueByString", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -137,6 +120,8 @@ func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Ste
 
 //export GoEditControllerNormalizedParamToPlain
 func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.uint32_t, valueNormalized C.double) C.double {
+	defer recoverValue("GoEditControllerNormalizedParamToPlain")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return valueNormalized
@@ -147,6 +132,8 @@ func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerPlainParamToNormalized
 func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.uint32_t, plainValue C.double) C.double {
+	defer recoverValue("GoEditControllerPlainParamToNormalized")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return plainValue
@@ -157,6 +144,8 @@ func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerGetParamNormalized
 func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t) C.double {
+	defer recoverValue("GoEditControllerGetParamNormalized")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -166,7 +155,9 @@ func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32
 }
 
 //export GoEditControllerSetParamNormalized
-func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) C.Steinberg_tresult {
+func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerSetParamNormalized", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 98ce451..dae77bd 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -54,18 +54,35 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	return int32(numBytesRead), nil
 }
 
-// Write writes data to the stream
-func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
-	if len(buffer) == 0 {
-		return 0, nil
+// readFull reads until the buffer is full or the stream ends
+func (s *StreamWrapper) readFull(buffer []byte) (int32, error) {
+	var total int32
+	for int(total) < len(buffer) {
+		n, err := s.Read(buffer[total:])
+		if err != nil {
+			return total, err
+		}
+		if n <= 0 {
+			break // End of stream
+		}
+		total += n
 	}
+	return total, nil
+}
 
-	var numBytesWritten C.Steinberg_int32
-	result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
-	if result != 0 {
-		return 0, ErrNotImplemented
+// Write writes data to the stream
+func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
+	var total int32
+	for int(total) < len(buffer) {
+		rest := buffer[total:]
+		var numBytesWritten C.Steinberg_int32
+		result := C.stream_write(s.stream, unsafe.Pointer(&rest[0]), C.Steinberg_int32(len(rest)), &numBytesWritten)
+		if result != 0 || numBytesWritten <= 0 {
+			return total, ErrNotImplemented
+		}
+		total += int32(numBytesWritten)
 	}
-	return int32(numBytesWritten), nil
+	return total, nil
 }
 
 // WriteInt32 writes an int32 to the stream
@@ -79,7 +96,7 @@ func (s *StreamWrapper) WriteInt32(value int32) error {
 // ReadInt32 reads an int32 from the stream
 func (s *StreamWrapper) ReadInt32() (int32, error) {
 	buf := make([]byte, 4)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return 0, err
 	}
@@ -100,7 +117,7 @@ func (s *StreamWrapper) WriteFloat64(value float64) error {
 // ReadFloat64 reads a float64 from the stream
 func (s *StreamWrapper) ReadFloat64() (float64, error) {
 	buf := make([]byte, 8)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return 0, err
 	}
@@ -132,12 +149,15 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if length < 0 {
+		return "", ErrNotImplemented
+	}
 	if length == 0 {
 		return "", nil
 	}
 	// Read string data
 	buf := make([]byte, length)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return "", err
 	}
@@ -183,7 +203,7 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 
 	// Read all remaining data
 	buffer := make([]byte, remaining)
-	n, err := s.Read(buffer)
+	n, err := s.readFull(buffer)
 	if err != nil {
 		return nil, err
 	}
@@ -198,7 +218,7 @@ func (s *StreamWrapper) readAllChunked() ([]byte, error) {
 
 	for {
 		chunk := make([]byte, chunkSize)
-		n, err := s.Read(chunk)
+		n, err := s.readFull(chunk)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From cbe1d88289c37c348ccbffc3b76eab5e75ac6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 26/41] fix: parallel chains reuse their buffers, dynamics
 chain times are seconds

---
 pkg/framework/dsp/adapters.go |  4 ++--
 pkg/framework/dsp/chain.go    | 31 +++++++++++++++----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/pkg/framework/dsp/adapters.go b/pkg/framework/dsp/adapters.go
index 0304021..3eaa9b1 100644
--- a/pkg/framework/dsp/adapters.go
+++ b/pkg/framework/dsp/adapters.go
@@ -114,8 +114,8 @@ func CreateDynamicsChain(sampleRate float64) (*Chain, error) {
 	comp := dynamics.NewCompressor(sampleRate)
 	comp.SetThreshold(-20)
 	comp.SetRatio(4)
-	comp.SetAttack(10)
-	comp.SetRelease(100)
+	comp.SetAttack(0.010)
+	comp.SetRelease(0.100)
 	
 	return NewBuilder("Dynamics Chain").
 		WithProcessor(NewGateAdapter(gate)).
diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..119643e 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -170,8 +170,9 @@ type ParallelChain struct {
 	gains  []float32
 	name   string
 	bypass bool
+	temp   []float32 // what one chain works on
+	mixed  []float32 // sum so far
 }
-
 // NewParallelChain creates a new parallel chain.
 func NewParallelChain(name string) *ParallelChain {
 	return &ParallelChain{
@@ -194,25 +195,23 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
-	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
-		copy(tempBuffers[i], buffer)
-	}
-	
-	// Process each chain
-	for i, chain := range p.chains {
-		chain.Process(tempBuffers[i])
+	// The temporary buffers only grow, so that steady processing does not allocate
+	if cap(p.temp) < len(buffer) {
+		p.temp = make([]float32, len(buffer))
+		p.mixed = make([]float32, len(buffer))
 	}
+	temp, mixed := p.temp[:len(buffer)], p.mixed[:len(buffer)]
+	clear(mixed)
 	
-	// Mix results
-	for i := range buffer {
-		buffer[i] = 0
-		for j, temp := range tempBuffers {
-			buffer[i] += temp[i] * p.gains[j]
+	// Process each chain on its own copy of the input and mix the results
+	for j, chain := range p.chains {
+		copy(temp, buffer)
+		chain.Process(temp)
+		for i := range temp {
+			mixed[i] += temp[i] * p.gains[j]
 		}
 	}
+	copy(buffer, mixed)
 }
 
 // Reset resets all chains.
-- 
2.43.0


From 56b023fc8c1bc75823bfbb78ee3f3ed3962ae9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 27/41] fix: pink noise has no offset and 16 octaves, violet
 its own state, seeds reproduce

---
 pkg/dsp/utility/noise.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..21787ad 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -36,7 +36,8 @@ type NoiseGenerator struct {
 	brownState float32
 	
 	// Blue/Violet noise state  
-	blueState float32
+	blueState   float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -50,10 +51,7 @@ func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
 		pinkScalar: 1.0 / 20.0, // Normalization for pink noise
 	}
 	
-	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
+	gen.Reset() // fills the pink noise rows
 	
 	return gen
 }
@@ -66,6 +64,7 @@ func (n *NoiseGenerator) SetType(noiseType NoiseType) {
 // SetSeed sets the random seed for reproducible noise.
 func (n *NoiseGenerator) SetSeed(seed int64) {
 	n.rand = rand.New(rand.NewSource(seed))
+	n.Reset() // the noise depends on the seed alone
 }
 
 // Next generates the next noise sample.
@@ -104,10 +103,12 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
 		n.pinkRows[i] = n.randomFloat()
+		n.pinkRunningSum += n.pinkRows[i]
 	}
 }
 
@@ -125,7 +126,7 @@ func (n *NoiseGenerator) generateWhite() float32 {
 func (n *NoiseGenerator) generatePink() float32 {
 	// Determine how many rows to update
 	n.pinkIndex++
-	if n.pinkIndex > 15 {
+	if n.pinkIndex >= 1<<len(n.pinkRows) {
 		n.pinkIndex = 0
 	}
 	
@@ -191,8 +192,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
@@ -236,7 +237,7 @@ func (g *GaussianNoise) Next() float32 {
 	g.hasSpare = true
 	
 	// Box-Muller transform
-	u1 := g.rand.Float64()
+	u1 := 1 - g.rand.Float64() // never 0, for the logarithm
 	u2 := g.rand.Float64()
 	
 	mag := float32(math.Sqrt(-2.0 * math.Log(u1)))
-- 
2.43.0


From 09df433240e46b5b9a184f2acf303cbccac101bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:33 +0000
Subject: [PATCH 28/41] fix: distortions keep channels apart, fold any input,
 dither with numbers, filter stably

---
 pkg/dsp/distortion/bitcrusher.go | 76 ++++++++++++++++++--------------
 pkg/dsp/distortion/tape.go       | 64 +++++++++++++++------------
 pkg/dsp/distortion/tube.go       | 62 ++++++++++++++------------
 pkg/dsp/distortion/waveshaper.go | 10 +----
 4 files changed, 112 insertions(+), 100 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..b4dde4c 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,14 +25,14 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
 
 	// Dithering state
-	ditherState float64
+	ditherState uint64
 }
 
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
@@ -44,6 +44,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		ditherState:        ditherSeed,
 	}
 }
 
@@ -84,7 +85,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -129,25 +130,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] < 1.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
-	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	// Wrap counter when we reach the reduction factor, keeping its fraction
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = math.Mod(b.sampleHoldCounter[channel], b.sampleRateReduce)
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -158,7 +159,7 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 
 	// Calculate filter coefficient
 	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
-	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	alpha := omega / (1.0 + omega)
 
 	// Apply filter
 	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])
@@ -168,13 +169,13 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 func (b *Bitcrusher) generateDither() float64 {
 	switch b.dither {
 	case DitherWhite:
-		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		// White noise dither, up to one quantization step (2/2^bits) either way
+		return b.random() * 2.0 / math.Pow(2.0, b.bitDepth)
 
 	case DitherTriangular:
 		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
+		r1 := b.random()
+		r2 := b.random()
 		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
 
 	default:
@@ -183,20 +184,21 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
-	b.ditherState = 0.0
+	b.ditherState = ditherSeed
 }
 
-// Simple random number generator for dithering
-var randomState uint64 = 1
+// ditherSeed starts the random numbers of every dither
+const ditherSeed = 7
 
-func randomBits() uint64 {
-	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+// random returns the next random number for dithering, from -1 up to 1
+func (b *Bitcrusher) random() float64 {
+	// Simple linear congruential generator; its high bits are the random ones
+	b.ditherState = b.ditherState*6364136223846793005 + 1442695040888963407
+	return float64(b.ditherState>>11)/(1<<52) - 1.0
 }
 
 // Utility functions for specific bit-crushing effects
@@ -216,14 +218,22 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if threshold <= 0 {
+		return 0 // nothing to fold into
 	}
-	return x
+	if math.Abs(x) <= threshold {
+		return x
+	}
+
+	// The folded signal is a triangle wave of x with a period of four thresholds
+	phase := math.Mod(x+threshold, 4*threshold)
+	if phase < 0 {
+		phase += 4 * threshold
+	}
+	if phase > 2*threshold {
+		phase = 4*threshold - phase
+	}
+	return phase - threshold
 }
 
 func GateEffect(x, threshold float64) float64 {
diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..c9ef840 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -25,13 +25,13 @@ type TapeSaturation struct {
 	flutterPhase float64
 	flutterRate  float64
 
-	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	// Delay buffer for flutter effect, per channel
+	delayBuffer     [2][]float64
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
 
-	// Compression state
-	envelope float64
+	// Compression state, per channel
+	envelope [2]float64
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -48,7 +48,7 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
 		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
 		noiseLevel:      0.0001,
@@ -88,13 +88,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -132,13 +132,15 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	saturated := math.Tanh(driven * 0.7)
 
 	// Add subtle 3rd harmonic
-	third := driven - 0.1*driven*driven*driven
+	limit := math.Sqrt(1.0 / 0.3) // where the cubic turns back
+	limited := math.Max(-limit, math.Min(limit, driven))
+	third := limited - 0.1*limited*limited*limited
 
 	// Mix original and harmonics
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -146,21 +148,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -169,17 +171,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
-
-	// Calculate flutter modulation
-	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+	buffer := t.delayBuffer[channel]
+	buffer[t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
+
+	// Calculate flutter modulation; both channels are on the same tape, so
+	// that the first one drives the LFO
+	if channel == 0 {
+		t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+	}
 	if t.flutterPhase > 2.0*math.Pi {
 		t.flutterPhase -= 2.0 * math.Pi
 		// Occasionally change flutter rate slightly
@@ -203,11 +209,11 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	delayFrac := delaySamples - float64(delayInt)
 
 	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
 	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
 
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
+	sample1 := buffer[readPos1]
+	sample2 := buffer[readPos2]
 
 	return sample1*(1.0-delayFrac) + sample2*delayFrac
 }
@@ -241,12 +247,12 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
+	t.envelope = [2]float64{}
 	t.flutterPhase = 0.0
-	t.delayWritePos = 0
+	t.delayWritePos = [2]int{}
 
 	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	for channel := range t.delayBuffer {
+		clear(t.delayBuffer[channel])
 	}
 }
diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..ffa7fd1 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -12,13 +12,13 @@ type TubeSaturation struct {
 	mix        float64
 	output     float64
 
-	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	// Internal state for hysteresis, per channel
+	prevInput  [2]float64
+	prevOutput [2]float64
 
-	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	// Pre-emphasis/de-emphasis filters for warmth, per channel
+	preEmphasisState [2]float64
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -137,9 +141,9 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	// Soft knee region
 	knee := 0.1
 	if absX < threshold+knee {
-		// Quadratic interpolation in knee region
+		// Interpolation in knee region, with the slopes of both sides
 		factor := (absX - threshold) / knee
-		compression := 1.0 + (1.0/ratio-1.0)*factor*factor
+		compression := 1.0 + (1.0/ratio-1.0)*factor*(2.0-factor)
 		return math.Copysign(threshold+(absX-threshold)*compression, x)
 	}
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] += (x - t.prevOutput[channel]) * (1.0 - t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] += (x - t.prevOutput[channel]) * (1.0 - t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From f8f821821d4416b304af027f9be624928f6ff0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 29/41] fix: FFT pads inverse inputs, floors decibels and
 correlates the two signals

---
 pkg/dsp/analysis/fft.go | 48 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..aa9a49c 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -51,6 +51,11 @@ func NewFFT(size int, window WindowFunc) *FFT {
 func (f *FFT) calculateWindow() {
 	n := float64(f.size)
 	
+	if f.size == 1 {
+		f.windowData[0] = 1.0
+		return
+	}
+	
 	switch f.window {
 	case RectangularWindow:
 		for i := 0; i < f.size; i++ {
@@ -165,8 +170,16 @@ func (f *FFT) ForwardComplex(input []complex128) []complex128 {
 // Inverse performs an inverse FFT
 func (f *FFT) Inverse(real, imag []float64) []float64 {
 	// Copy input
-	copy(f.real, real)
-	copy(f.imag, imag)
+	nr := copy(f.real, real)
+	ni := copy(f.imag, imag)
+	
+	// Pad with zeros if needed
+	for i := nr; i < f.size; i++ {
+		f.real[i] = 0.0
+	}
+	for i := ni; i < f.size; i++ {
+		f.imag[i] = 0.0
+	}
 	
 	// Conjugate
 	for i := 0; i < f.size; i++ {
@@ -241,11 +254,7 @@ func (f *FFT) fft(real, imag []float64) {
 func (f *FFT) GetMagnitudeDB() []float64 {
 	db := make([]float64, len(f.magnitude))
 	for i, mag := range f.magnitude {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0 // Floor at -120 dB
-		}
+		db[i] = math.Max(20.0*math.Log10(mag), -120.0) // Floor at -120 dB
 	}
 	return db
 }
@@ -290,6 +299,10 @@ func PowerSpectrum(magnitude []float64) []float64 {
 func ApplyHannWindow(data []float64) []float64 {
 	n := len(data)
 	windowed := make([]float64, n)
+	if n == 1 {
+		windowed[0] = data[0]
+		return windowed
+	}
 	for i := 0; i < n; i++ {
 		window := 0.5 * (1.0 - math.Cos(2.0*math.Pi*float64(i)/float64(n-1)))
 		windowed[i] = data[i] * window
@@ -313,23 +326,22 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	paddedA := make([]complex128, size)
+	paddedB := make([]complex128, size)
+	for i := 0; i < n; i++ {
+		paddedA[i] = complex(a[i], 0)
+		paddedB[i] = complex(b[i], 0)
+	}
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	specA := fft.ForwardComplex(paddedA)
+	specB := fft.ForwardComplex(paddedB)
 	
-	// Multiply A with conjugate of B
+	// Multiply B with conjugate of A, so that a delay of b against a is a positive lag
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
+		result := specB[i] * cmplx.Conj(specA[i])
 		realResult[i] = real(result)
 		imagResult[i] = imag(result)
 	}
-- 
2.43.0


From 74405cbc653b76d19f347a1754edfc177de07f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 30/41] fix: spectrum range includes the Nyquist bin and
 decibels have a floor

---
 pkg/dsp/analysis/spectrum.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 27032e4..cf6953f 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -108,8 +108,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	sa.minBin = int(sa.minFreq / binWidth)
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > sa.fftSize/2 {
-		sa.maxBin = sa.fftSize / 2
+	if sa.maxBin > sa.fftSize/2+1 {
+		sa.maxBin = sa.fftSize/2 + 1
 	}
 }
 
@@ -203,11 +203,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDB() []float64 {
 	
 	db := make([]float64, len(sa.outputBuffer))
 	for i, mag := range sa.outputBuffer {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0 // Floor at -120 dB
-		}
+		db[i] = math.Max(20.0*math.Log10(mag), -120.0) // Floor at -120 dB
 	}
 	return db
 }
@@ -233,11 +229,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDBInRange() []float64 {
 	db := make([]float64, len(spectrum))
 	
 	for i, mag := range spectrum {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0
-		}
+		db[i] = math.Max(20.0*math.Log10(mag), -120.0)
 	}
 	return db
 }
-- 
2.43.0


From 92e2f643ad8e2de3d89f3137c30927baedf3eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 31/41] fix: meters keep rounding errors out and measure
 loudness as BS.1770 says

---
 pkg/dsp/analysis/meters.go | 81 ++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 42 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..871ce87 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -64,7 +64,7 @@ func (pm *PeakMeter) Process(samples []float64) {
 	}
 	
 	// Update hold
-	if blockPeak > pm.hold {
+	if blockPeak >= pm.hold {
 		pm.hold = blockPeak
 		pm.holdCount = int(pm.holdTime * pm.sampleRate)
 	} else {
@@ -153,6 +153,13 @@ func (rm *RMSMeter) Process(samples []float64) {
 		
 		// Update position
 		rm.writePos = (rm.writePos + 1) % rm.windowSize
+		if rm.writePos == 0 {
+			// Sum afresh once per window: rounding errors must not build up
+			rm.sum = 0
+			for _, value := range rm.buffer {
+				rm.sum += value * value
+			}
+		}
 		if rm.count < rm.windowSize {
 			rm.count++
 		}
@@ -168,6 +175,10 @@ func (rm *RMSMeter) GetRMS() float64 {
 		return 0
 	}
 	
+	if rm.sum < 0 {
+		return 0 // Rounding error
+	}
+	
 	return math.Sqrt(rm.sum / float64(rm.count))
 }
 
@@ -203,6 +214,7 @@ type LUFSMeter struct {
 	preFilter    [][]*BiquadFilter // K-weighting pre-filter (per channel)
 	highShelf    [][]*BiquadFilter // K-weighting high shelf (per channel)
 	channelPower []float64
+	filtered     []float64
 	mu           sync.Mutex
 }
 
@@ -269,7 +281,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1),
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
@@ -318,9 +330,9 @@ func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
 	a0 := 1.0 + K/Q + K*K
 	
 	return &BiquadFilter{
-		b0: (1.0 + math.Sqrt(2.0)*K + K*K) / a0,
-		b1: 2.0 * (K*K - 1.0) / a0,
-		b2: (1.0 - math.Sqrt(2.0)*K + K*K) / a0,
+		b0: 1.0,
+		b1: -2.0,
+		b2: 1.0,
 		a1: 2.0 * (K*K - 1.0) / a0,
 		a2: (1.0 - K/Q + K*K) / a0,
 	}
@@ -345,7 +357,10 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	defer lm.mu.Unlock()
 	
 	// Process samples through K-weighting filters
-	filtered := make([]float64, len(samples))
+	if len(lm.filtered) < len(samples) {
+		lm.filtered = make([]float64, len(samples))
+	}
+	filtered := lm.filtered[:len(samples)]
 	for i := 0; i < len(samples); i += lm.channels {
 		for ch := 0; ch < lm.channels; ch++ {
 			if i+ch < len(samples) {
@@ -361,29 +376,6 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	// Update momentary and short-term blocks
 	lm.updateBlock(lm.momentary, filtered)
 	lm.updateBlock(lm.shortTerm, filtered)
-	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
-			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
-			}
-		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
-			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
-		}
-	}
 }
 
 // updateBlock updates a loudness measurement block
@@ -412,6 +404,14 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
 			
+			// Every momentary block (400ms, 100ms apart) is a gating block of
+			// the integrated measurement
+			if block == lm.momentary {
+				if loudness := lm.calculateBlockLoudness(block); !math.IsInf(loudness, -1) {
+					lm.integrated.blocks = append(lm.integrated.blocks, loudness)
+				}
+			}
+			
 			// Shift buffer by (blockSize - overlap)
 			shift := block.blockSize - block.overlap
 			copy(block.buffer, block.buffer[shift*lm.channels:])
@@ -445,15 +445,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// First pass: calculate ungated loudness
+	// First pass: apply absolute gate (-70 LUFS)
 	sum := 0.0
-	for _, block := range lm.integrated.blocks {
-		sum += math.Pow(10.0, block/10.0)
-	}
-	ungatedLoudness := 10.0 * math.Log10(sum/float64(len(lm.integrated.blocks)))
-	
-	// Apply absolute gate (-70 LUFS)
-	sum = 0.0
 	count := 0
 	for _, block := range lm.integrated.blocks {
 		if block >= lm.integrated.absoluteGate {
@@ -466,8 +459,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// Apply relative gate (10 dB below ungated)
-	relativeThreshold := ungatedLoudness + lm.integrated.relativeGate
+	// Apply relative gate (10 dB below the loudness above the absolute gate)
+	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate
 	sum = 0.0
 	count = 0
 	for _, block := range lm.integrated.blocks {
@@ -497,10 +490,14 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 			// For stereo: both channels have weight 1.0
 			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
 			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
+			if lm.channels > 5 {
+				if ch == 3 {
+					weight = 0.0 // LFE
+				} else if ch == 4 || ch == 5 {
+					weight = 1.41 // Surround channels
+				}
+			} else if lm.channels > 2 && ch >= 3 && ch <= 4 {
 				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
 			}
 			
 			blockPower += weight * power
-- 
2.43.0


From 4a286538a95fc4220095a39ead012e4515ff6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 32/41] fix: correlation hold lasts its time, one-sided balance
 and width show in dB

---
 pkg/dsp/analysis/correlation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..0c1d7b9 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -84,9 +84,9 @@ func (cm *CorrelationMeter) Process(samplesL, samplesR []float64) {
 		// Update peak hold (for most negative correlation)
 		if corr < cm.peakHold {
 			cm.peakHold = corr
-			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate / float64(cm.windowSize))
+			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate)
 		} else {
-			cm.peakHoldCount--
+			cm.peakHoldCount -= len(samplesL)
 			if cm.peakHoldCount <= 0 {
 				cm.peakHold = cm.correlation
 				cm.peakHoldCount = 0
@@ -225,7 +225,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
@@ -339,7 +339,7 @@ func (bm *BalanceMeter) GetBalanceDB() float64 {
 	bm.mu.Lock()
 	defer bm.mu.Unlock()
 	
-	if bm.powerL > 0 && bm.powerR > 0 {
+	if bm.powerL > 0 || bm.powerR > 0 {
 		return 10.0 * math.Log10(bm.powerR/bm.powerL)
 	}
 	return 0
@@ -414,5 +414,8 @@ func (swm *StereoWidthMeter) GetWidthDB() float64 {
 	if swm.midPower > 0 && swm.sidePower > 0 {
 		return 10.0 * math.Log10(swm.sidePower/swm.midPower)
 	}
+	if swm.sidePower > 0 {
+		return math.Inf(1)
+	}
 	return -math.Inf(1)
 }
\ No newline at end of file
-- 
2.43.0


From 69d2a10e0cd20c2491617431296efc672328fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 33/41] fix: phase statistics average axes, not wrapped angles

---
 pkg/dsp/analysis/phasescope.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/dsp/analysis/phasescope.go b/pkg/dsp/analysis/phasescope.go
index 4bc9570..8eb9be0 100644
--- a/pkg/dsp/analysis/phasescope.go
+++ b/pkg/dsp/analysis/phasescope.go
@@ -243,12 +243,16 @@ func (ps *PhaseScope) GetStatistics() PhaseScopeStats {
 	// Width calculation (side to mid ratio)
 	if stats.AverageMid > 0 {
 		stats.Width = stats.AverageSide / stats.AverageMid
+	} else if stats.AverageSide > 0 {
+		stats.Width = math.Inf(1)
 	}
 	
 	// Phase concentration (how concentrated the display is)
-	// Calculate standard deviation of angles
-	sumAngle := 0.0
-	sumAngleSq := 0.0
+	// Calculate standard deviation of angles. A signal swings to both sides of
+	// the origin, so angles are those of lines through it: they are averaged
+	// doubled, and differ by at most a quarter turn.
+	sumSin := 0.0
+	sumCos := 0.0
 	validPoints := 0
 	
 	for i := 0; i < ps.count; i++ {
@@ -262,15 +266,22 @@ func (ps *PhaseScope) GetStatistics() PhaseScopeStats {
 		
 		if l != 0 || r != 0 {
 			angle := math.Atan2(r, l)
-			sumAngle += angle
-			sumAngleSq += angle * angle
+			sumSin += math.Sin(2.0 * angle)
+			sumCos += math.Cos(2.0 * angle)
 			validPoints++
 		}
 	}
 	
 	if validPoints > 0 {
-		meanAngle := sumAngle / float64(validPoints)
-		variance := sumAngleSq/float64(validPoints) - meanAngle*meanAngle
+		meanAngle := math.Atan2(sumSin, sumCos) / 2.0
+		variance := 0.0
+		for i := 0; i < ps.count; i++ {
+			if ps.bufferL[i] != 0 || ps.bufferR[i] != 0 {
+				diff := math.Remainder(math.Atan2(ps.bufferR[i], ps.bufferL[i])-meanAngle, math.Pi)
+				variance += diff * diff
+			}
+		}
+		variance /= float64(validPoints)
 		stats.PhaseConcentration = 1.0 / (1.0 + math.Sqrt(math.Abs(variance)))
 		stats.DominantAngle = meanAngle
 	}
-- 
2.43.0


From bd147b3606ae136535fc6881f0d6ad161844bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 34/41] fix: allocation detection is not fooled by the garbage
 collector

---
 pkg/dsp/debug/buffer_debug.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/debug/buffer_debug.go b/pkg/dsp/debug/buffer_debug.go
index f707296..abbf81c 100644
--- a/pkg/dsp/debug/buffer_debug.go
+++ b/pkg/dsp/debug/buffer_debug.go
@@ -191,8 +191,8 @@ func DetectAllocation(fn func()) {
 	
 	runtime.ReadMemStats(&m2)
 	
-	if m2.Alloc > m1.Alloc {
-		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.Alloc-m1.Alloc))
+	if m2.TotalAlloc > m1.TotalAlloc {
+		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.TotalAlloc-m1.TotalAlloc))
 	}
 }
 
-- 
2.43.0


From 0f767ff145adbd5a084443a4ffc7dda2f279e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 35/41] fix: stereo field analysis reads its meters at one
 instant

---
 pkg/dsp/analysis/correlation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 0c1d7b9..692e751 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -235,6 +235,7 @@ type StereoFieldAnalyzer struct {
 	balanceMeter   *BalanceMeter
 	widthMeter     *StereoWidthMeter
 	sampleRate     float64
+	mu             sync.Mutex // keeps the meters in step
 }
 
 // NewStereoFieldAnalyzer creates a comprehensive stereo analyzer
@@ -249,6 +250,9 @@ func NewStereoFieldAnalyzer(windowSize int, sampleRate float64) *StereoFieldAnal
 
 // Process analyzes stereo samples
 func (sfa *StereoFieldAnalyzer) Process(samplesL, samplesR []float64) {
+	sfa.mu.Lock()
+	defer sfa.mu.Unlock()
+	
 	sfa.correlation.Process(samplesL, samplesR)
 	sfa.balanceMeter.Process(samplesL, samplesR)
 	sfa.widthMeter.Process(samplesL, samplesR)
@@ -256,6 +260,9 @@ func (sfa *StereoFieldAnalyzer) Process(samplesL, samplesR []float64) {
 
 // GetAnalysis returns comprehensive stereo field analysis
 func (sfa *StereoFieldAnalyzer) GetAnalysis() StereoFieldAnalysis {
+	sfa.mu.Lock()
+	defer sfa.mu.Unlock()
+	
 	return StereoFieldAnalysis{
 		Correlation:      sfa.correlation.GetCorrelation(),
 		PhaseStatus:      sfa.correlation.GetPhaseStatus(),
-- 
2.43.0


From 2ba1f9dc01bbfb7e5be6f20d96c9738864f4fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 36/41] fix: ProcessSamples allocates nothing

---
 pkg/framework/process/context.go |  4 ++++
 pkg/framework/process/helpers.go | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 3ba0e8b..9e882b0 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -116,6 +116,9 @@ type Context struct {
 	workBuffer []float32
 	tempBuffer []float32
 
+	// Scratch for ProcessSamples, one input and output sample per channel
+	sampleScratch []float32
+
 	// Parameter access
 	params *param.Registry
 
@@ -135,6 +138,7 @@ func NewContext(maxBlockSize int, params *param.Registry) *Context {
 	return &Context{
 		workBuffer:   make([]float32, maxBlockSize),
 		tempBuffer:   make([]float32, maxBlockSize),
+		sampleScratch: make([]float32, 64),
 		params:       params,
 		paramChanges: make([]ParameterChange, 128), // Pre-allocate space for parameter changes
 		changeCount:  0,
diff --git a/pkg/framework/process/helpers.go b/pkg/framework/process/helpers.go
index fe4976f..89e726c 100644
--- a/pkg/framework/process/helpers.go
+++ b/pkg/framework/process/helpers.go
@@ -43,9 +43,13 @@ func (ctx *Context) ProcessSamples(fn func(sample int, inputs, outputs []float32
 	
 	numSamples := ctx.NumSamples()
 	
-	// Temporary slices to avoid allocations
-	inputs := make([]float32, numChannels)
-	outputs := make([]float32, numChannels)
+	// Temporary slices, kept to avoid allocations
+	if len(ctx.sampleScratch) < 2*numChannels {
+		ctx.sampleScratch = make([]float32, 2*numChannels)
+	}
+	inputs := ctx.sampleScratch[:numChannels:numChannels]
+	outputs := ctx.sampleScratch[numChannels : 2*numChannels : 2*numChannels]
+	clear(outputs)
 	
 	for s := 0; s < numSamples; s++ {
 		// Gather inputs
-- 
2.43.0


From f34f0090adfc6afc225281e70d554f9a1a560161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 37/41] fix: package-level log functions report their caller's
 line

---
 pkg/framework/debug/logger.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..893f022 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -158,8 +158,9 @@ func (l *Logger) IsEnabled() bool {
 	return l.enabled
 }
 
-// log writes a log message at the specified level.
-func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
+// log writes a log message at the specified level. depth is the number of
+// frames between log() and the caller whose file and line are reported.
+func (l *Logger) log(depth int, level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 	
@@ -187,7 +188,7 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	
 	// Add file and line number
 	if l.flags&(FlagShortFile|FlagLongFile) != 0 {
-		_, file, line, ok := runtime.Caller(2) // Skip 2 frames: log() and Debug/Info/etc
+		_, file, line, ok := runtime.Caller(depth) // Skip log() and Debug/Info/etc
 		if ok {
 			if l.flags&FlagShortFile != 0 {
 				file = filepath.Base(file)
@@ -211,27 +212,27 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 
 // Debug logs a debug message.
 func (l *Logger) Debug(format string, args ...interface{}) {
-	l.log(LogLevelDebug, format, args...)
+	l.log(2, LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message.
 func (l *Logger) Info(format string, args ...interface{}) {
-	l.log(LogLevelInfo, format, args...)
+	l.log(2, LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message.
 func (l *Logger) Warn(format string, args ...interface{}) {
-	l.log(LogLevelWarn, format, args...)
+	l.log(2, LogLevelWarn, format, args...)
 }
 
 // Error logs an error message.
 func (l *Logger) Error(format string, args ...interface{}) {
-	l.log(LogLevelError, format, args...)
+	l.log(2, LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message and panics.
 func (l *Logger) Fatal(format string, args ...interface{}) {
-	l.log(LogLevelFatal, format, args...)
+	l.log(2, LogLevelFatal, format, args...)
 	panic(fmt.Sprintf(format, args...))
 }
 
@@ -269,27 +270,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(2, LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(2, LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(2, LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(2, LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(2, LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -297,20 +299,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(2, LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(2, LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(2, LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 82186c7cd29281cbe846c59dee5c592d5e3775d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 38/41] fix: profiler hands out real copies and true
 percentiles; buffers with NaN differ; pictures show the end

---
 pkg/framework/debug/audio.go    |  8 +++-----
 pkg/framework/debug/profiler.go | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..52d4155 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -137,10 +137,7 @@ func PrintBuffer(buffer []float32, width int) string {
 	sb.WriteString(fmt.Sprintf("Audio Buffer Visualization (peak: %.3f):\n", peak))
 	
 	// Calculate samples per character
-	samplesPerChar := len(buffer) / width
-	if samplesPerChar < 1 {
-		samplesPerChar = 1
-	}
+	samplesPerChar := (len(buffer) + width - 1) / width
 	
 	// Generate waveform
 	centerLine := 40 // Height of visualization
@@ -193,7 +190,8 @@ func CompareBuffers(a, b []float32, tolerance float32) string {
 			diff = -diff
 		}
 		
-		if diff > tolerance {
+		// A NaN on one side only is always a difference
+		if diff > tolerance || (a[i] != a[i]) != (b[i] != b[i]) {
 			diffCount++
 			totalDiff += float64(diff)
 			
diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..ae397d1 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"slices"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -33,6 +34,7 @@ var DefaultProfiler = NewProfiler(1000)
 
 // NewProfiler creates a new profiler with the specified sample buffer size.
 func NewProfiler(maxSamples int) *Profiler {
+	maxSamples = max(maxSamples, 1)
 	p := &Profiler{
 		measurements: make(map[string]*Measurement),
 		maxSamples:   maxSamples,
@@ -116,8 +118,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 	}
 	
 	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.clone(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -127,8 +128,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.clone()
 	}
 	return result
 }
@@ -173,6 +173,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// clone returns a copy that shares no samples with the original.
+func (m *Measurement) clone() *Measurement {
+	c := *m
+	c.samples = slices.Clone(m.samples)
+	return &c
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
@@ -187,19 +194,12 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 		return 0
 	}
 	
-	// Collect valid samples
-	validSamples := make([]time.Duration, 0, len(m.samples))
-	for i := 0; i < len(m.samples) && i < int(m.count); i++ {
-		if m.samples[i] > 0 {
-			validSamples = append(validSamples, m.samples[i])
-		}
-	}
-	
-	if len(validSamples) == 0 {
-		return 0
-	}
+	// Collect valid samples in order of duration
+	validSamples := slices.Clone(m.samples[:min(uint64(len(m.samples)), m.count)])
+	slices.Sort(validSamples)
 	
 	// Simple percentile calculation (not fully accurate but fast)
+	p = min(max(p, 0), 100)
 	index := int(float64(len(validSamples)-1) * p / 100.0)
 	return validSamples[index]
 }
-- 
2.43.0


From 6731e8e760e0aaf07e610a1fd65f79bc743a2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 39/41] fix: count references atomically

---
 bridge/bridge.c    | 7 ++++---
 bridge/component.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 69ad310..c141e62 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -95,19 +95,20 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_queryInterface(void* thi
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    return ++factory->refCount;
+    return __atomic_add_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    if (--factory->refCount == 0) {
+    int remaining = __atomic_sub_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
+    if (remaining == 0) {
         if (factory == globalFactory) {
             globalFactory = NULL;
         }
         free(factory);
         return 0;
     }
-    return factory->refCount;
+    return remaining;
 }
 
 // IPluginFactory implementation - these will call into Go
diff --git a/bridge/component.c b/bridge/component.c
index 88278e2..44ef1b5 100644
--- a/bridge/component.c
+++ b/bridge/component.c
@@ -205,18 +205,19 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE component_queryInterface(void* t
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_addRef(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    return ++component->refCount;
+    return __atomic_add_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_release(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    if (--component->refCount == 0) {
+    int remaining = __atomic_sub_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
+    if (remaining == 0) {
         // Release Go component
         GoReleaseComponent(component->goComponent);
         free(component);
         return 0;
     }
-    return component->refCount;
+    return remaining;
 }
 
 // IPluginBase implementation
-- 
2.43.0


From 6f5e7e26979041be3e6078e0827e78a7a95aab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 40/41] fix: hold a reference to the host's edit handler

---
 pkg/plugin/wrapper.go            | 31 ++++++++++++++++++++++++++++++-
 pkg/plugin/wrapper_controller.go |  4 +---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index b4e5ecd..855e086 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -8,6 +8,18 @@ package plugin
 // #include <string.h>
 //
 // // Helper functions to call IComponentHandler methods
+// static inline void componentHandler_addRef(struct Steinberg_Vst_IComponentHandler* handler) {
+//     if (handler && handler->lpVtbl && handler->lpVtbl->addRef) {
+//         handler->lpVtbl->addRef(handler);
+//     }
+// }
+//
+// static inline void componentHandler_release(struct Steinberg_Vst_IComponentHandler* handler) {
+//     if (handler && handler->lpVtbl && handler->lpVtbl->release) {
+//         handler->lpVtbl->release(handler);
+//     }
+// }
+//
 // static inline Steinberg_tresult componentHandler_beginEdit(struct Steinberg_Vst_IComponentHandler* handler, Steinberg_Vst_ParamID id) {
 //     if (handler && handler->lpVtbl && handler->lpVtbl->beginEdit) {
 //         return handler->lpVtbl->beginEdit(handler, id);
@@ -134,6 +146,19 @@ func getComponent(id uintptr) *componentWrapper {
 	return wrapper
 }
 
+// setComponentHandler replaces the host's handler, on which the wrapper holds a
+// reference
+func (w *componentWrapper) setComponentHandler(handler unsafe.Pointer) {
+	C.componentHandler_addRef((*C.Steinberg_Vst_IComponentHandler)(handler))
+
+	w.handlerMu.Lock()
+	old := w.componentHandler
+	w.componentHandler = handler
+	w.handlerMu.Unlock()
+
+	C.componentHandler_release((*C.Steinberg_Vst_IComponentHandler)(old))
+}
+
 // notifyParamBeginEdit notifies the host that parameter editing is beginning
 func (w *componentWrapper) notifyParamBeginEdit(paramID uint32) {
 	w.handlerMu.RLock()
@@ -266,11 +291,13 @@ func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
 func GoReleaseComponent(componentPtr unsafe.Pointer) {
 	id := uintptr(componentPtr)
 
-	if id == 0 {
+	wrapper := getComponent(id)
+	if wrapper == nil {
 		return
 	}
 
 	unregisterComponent(id)
+	wrapper.setComponentHandler(nil)
 }
 
 // All the IComponent callbacks
@@ -300,6 +327,8 @@ func GoComponentTerminate(componentPtr unsafe.Pointer) (result C.Steinberg_tresu
 		return C.Steinberg_tresult(vst3.ResultFalse)
 	}
 
+	wrapper.setComponentHandler(nil)
+
 	err := wrapper.component.Terminate()
 	if err != nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 5eaefb4..78ccb28 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -178,9 +178,7 @@ func GoEditControllerSetComponentHandler(componentPtr unsafe.Pointer, handler un
 	}
 
 	// Store the component handler for parameter change notifications
-	wrapper.handlerMu.Lock()
-	wrapper.componentHandler = handler
-	wrapper.handlerMu.Unlock()
+	wrapper.setComponentHandler(handler)
 
 	return C.Steinberg_tresult(vst3.ResultOK)
 }
-- 
2.43.0


From c13eae3ae686a1ebf29a73b77858dab41641d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 41/41] fix: report the edited value the parameter took

---
 pkg/plugin/component.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 8251dcd..edb23ae 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -488,7 +488,7 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 		if c.wrapper != nil {
 			c.wrapper.notifyParamBeginEdit(id)
 			p.SetValue(value)
-			c.wrapper.notifyParamPerformEdit(id, value)
+			c.wrapper.notifyParamPerformEdit(id, p.GetValue())
 			c.wrapper.notifyParamEndEdit(id)
 		} else {
 			// Fallback if no wrapper available
-- 
2.43.0

