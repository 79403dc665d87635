package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/fact"
)

// HKind is a kind of message handler.
type HKind int

// The kinds of message handler.
const (
	Agg HKind = iota
	Proc
	Intg
	Proj
)

func (k HKind) String() string {
	return [...]string{"aggregate", "process", "integration", "projection"}[k]
}

// HSpec describes a message handler of a generated application.
type HSpec struct {
	Idx       int
	Name      string
	Key       string
	Kind      HKind
	Consumes  []*MT // commands or events
	Produces  []*MT // events or commands
	Timeouts  []*MT // processes only
	Disabled  bool  // by its own configuration
	Stateless bool  // processes only
}

func (h *HSpec) consumes(t *MT) bool {
	for _, x := range h.Consumes {
		if x == t {
			return true
		}
	}
	for _, x := range h.Timeouts {
		if x == t {
			return true
		}
	}
	return false
}

func (h *HSpec) produces(t *MT) bool {
	for _, x := range h.Produces {
		if x == t {
			return true
		}
	}
	for _, x := range h.Timeouts {
		if x == t {
			return true
		}
	}
	return false
}

// Profile holds the percentages that shape the behavior of handlers.
type Profile struct {
	MaxDepth    int
	MaxSteps    int
	Insts       int
	Produce     int // a step produces a message
	Destroy     int // a step of an aggregate destroys the instance
	End         int // a step of a process ends the instance
	Timeout     int // a producing step of a process schedules a timeout
	Log         int
	Dirt        int // an aggregate handler writes directly to its root
	Ignore      int // a process does not route an event
	Err         int // an invocation returns an error
	Panic       int // an invocation panics with an arbitrary value
	Unexpected  int // an invocation panics with dogma.UnexpectedMessage
	Offend      int // an invocation breaks the rules
	Cancel      int // an invocation cancels the context
	HasVersion  int // a projection claims to have seen the event already
	NotApplied  int // a projection does not apply the event
	CompactErr  int
	CompactLogs int // maximum number of lines logged by a compaction
	Jitter      bool
	Long        bool // instances live long
	Hoard       bool // timeouts are scheduled for much later
	WildText    bool
	PlainErrs   bool // handlers do not return the errors of contexts
}

// Snap is a copy of the content of a root.
type Snap struct {
	ID      int
	Owner   string
	Applied []string
	Dirt    []string
}

func (s *Snap) String() string {
	if s == nil {
		return "<none>"
	}
	return fmt.Sprintf("root#%d(%s)%v%v", s.ID, s.Owner, s.Applied, s.Dirt)
}

// Act is something done by a handler via its scope.
type Act struct {
	Kind  string // record, destroy, exec, sched, end, log, dirt, touch
	Begin int
	End   int // 0 if the call did not return
	UID   string
	MT    *MT
	Body  Body
	When  time.Time
	Fmt   string
	Args  []any
	Bad   string // the offence, if any
	File  string
	Line  int
	Root  *Snap // what the handler's own root looked like afterwards
}

// Call is a call to a method of a handler or root.
type Call struct {
	N            int
	Begin        int
	End          int
	Returned     bool
	H            *HSpec
	Method       string
	UID          string
	Msg          dogma.Message
	Body         Body
	Inst         string // as reported by the scope
	RouteID      string
	RouteOK      bool
	NilRoot      bool
	Err          error
	Root         *Snap
	RootIsNil    bool
	Res          []byte
	Cur          []byte
	Nxt          []byte
	Ver          []byte
	OK           bool
	Primary      bool
	RecordedAt   time.Time
	ScheduledFor time.Time
	Now          time.Time
	Acts         []*Act
	Canceled     bool
	PanicVal     any
	Unexpected   bool
	Offence      string
	PanicFile    string
	PanicLine    int
	PanicFunc    string
	Nest         int
	Parent       *Call
	Impl         any

	plain bool // do not fail with the errors of contexts
	Ctx   *ctxSeen
}

// FactRec is a fact, as notified to an observer.
type FactRec struct {
	Seq   int
	F     fact.Fact
	Root  *Snap
	Owner int // the operation that it belongs to
}

// Recorder records everything that happens at the boundary of the engine.
type Recorder struct {
	m       sync.Mutex
	seq     int
	limit   int
	calls   []*Call
	facts   []*FactRec
	stack   []*Call
	total   int
	compact int // number of compactions in progress
}

// runaway is panicked by handlers that are called unreasonably often.
type runaway struct{}

func (r *Recorder) tick() int { r.seq++; return r.seq }

// Seq returns the next sequence number.
func (r *Recorder) Seq() int {
	r.m.Lock()
	defer r.m.Unlock()
	return r.tick()
}

// Take returns and clears what has been recorded.
func (r *Recorder) Take() ([]*Call, []*FactRec) {
	r.m.Lock()
	defer r.m.Unlock()
	c, f := r.calls, r.facts
	r.calls, r.facts, r.stack, r.limit = nil, nil, nil, 0
	return c, f
}

// World is a generated application together with its recorder.
type World struct {
	Seed  uint64
	Specs []*HSpec
	Prof  Profile
	CDH   bool // compact projections while handling events
	// UseLogger adds a logger to each operation.
	UseLogger bool
	Rec       *Recorder
	Name      string
	T0        time.Time

	insts  []string  // names of instances
	now    time.Time // engine time of the current operation
	cancel func()    // cancels the current operation
	roots  int
	misc   sync.Mutex
	counts map[string]int
	impls  map[string]any
}

func (w *World) newRootID() int {
	w.misc.Lock()
	defer w.misc.Unlock()
	w.roots++
	return w.roots
}

func (w *World) count(k string) int {
	w.misc.Lock()
	defer w.misc.Unlock()
	if w.counts == nil {
		w.counts = map[string]int{}
	}
	w.counts[k]++
	return w.counts[k]
}

const callLimit = 20000

func (w *World) begin(h *HSpec, impl any, method string, m dogma.Message) *Call {
	if w.Prof.Jitter && m != nil {
		jitter(NewRng(w.Seed, "jitter", method, bodyOf(m).UID))
	}
	r := w.Rec
	r.m.Lock()
	defer r.m.Unlock()
	r.limit++
	if r.limit > callLimit {
		panic(runaway{})
	}
	c := &Call{N: len(r.calls), Begin: r.tick(), H: h, Method: method, Msg: m, Impl: impl, plain: w.Prof.PlainErrs}
	if m != nil {
		c.Body = bodyOf(m).clone()
		c.UID = c.Body.UID
	}
	if method != "Compact" {
		if n := len(r.stack); n != 0 {
			c.Parent = r.stack[n-1]
		}
		r.stack = append(r.stack, c)
	}
	r.calls = append(r.calls, c)
	r.total++
	return c
}

func (w *World) end(c *Call) {
	w.leave(c, "when the method ends")
	r := w.Rec
	r.m.Lock()
	defer r.m.Unlock()
	c.End = r.tick()
	if c.Method != "Compact" {
		for n := len(r.stack) - 1; n >= 0; n-- {
			if r.stack[n] == c {
				r.stack = r.stack[:n]
				break
			}
		}
	}
}

func (w *World) act(c *Call, kind string) *Act {
	a := &Act{Kind: kind}
	r := w.Rec
	r.m.Lock()
	defer r.m.Unlock()
	a.Begin = r.tick()
	c.Acts = append(c.Acts, a)
	return a
}

func (w *World) done(a *Act) {
	r := w.Rec
	r.m.Lock()
	defer r.m.Unlock()
	a.End = r.tick()
}

// Notify records a fact.
func (w *World) Notify(f fact.Fact) { w.notify(f, 0) }

func (w *World) notify(f fact.Fact, owner int) {
	r := w.Rec
	r.m.Lock()
	defer r.m.Unlock()
	r.facts = append(r.facts, &FactRec{Seq: r.tick(), F: f, Root: snapOf(factRoot(f)), Owner: owner})
}

func factRoot(f fact.Fact) any {
	switch x := f.(type) {
	case fact.AggregateInstanceLoaded:
		return x.Root
	case fact.AggregateInstanceCreated:
		return x.Root
	case fact.AggregateInstanceDestroyed:
		return x.Root
	case fact.AggregateInstanceDestructionReverted:
		return x.Root
	case fact.EventRecordedByAggregate:
		return x.Root
	case fact.MessageLoggedByAggregate:
		return x.Root
	case fact.ProcessInstanceLoaded:
		return x.Root
	case fact.ProcessInstanceBegun:
		return x.Root
	case fact.ProcessInstanceEnded:
		return x.Root
	case fact.ProcessInstanceEndingReverted:
		return x.Root
	case fact.CommandExecutedByProcess:
		return x.Root
	case fact.TimeoutScheduledByProcess:
		return x.Root
	case fact.MessageLoggedByProcess:
		return x.Root
	}
	return nil
}

func snapOf(r any) *Snap {
	switch x := r.(type) {
	case *AggRoot:
		if x != nil {
			return x.snap()
		}
	case *ProcRoot:
		if x != nil {
			return x.snap()
		}
	}
	return nil
}

// AggRoot is the root of all aggregates.
type AggRoot struct {
	id      int
	w       *World
	h       *HSpec
	Applied []string
	Dirt    []string
}

func (r *AggRoot) snap() *Snap {
	return &Snap{r.id, r.h.Name, append([]string(nil), r.Applied...), append([]string(nil), r.Dirt...)}
}

// ApplyEvent updates the root.
func (r *AggRoot) ApplyEvent(m dogma.Event) {
	c := r.w.begin(r.h, r, "ApplyEvent", m)
	defer r.w.end(c)
	c.Root = r.snap()
	if p := c.Parent; p != nil && p.Method == "HandleCommand" {
		rng := NewRng(r.w.Seed, "apply", c.UID)
		r.w.maybePanic(c, rng, r.w.Prof.Panic/3, r.w.Prof.Unexpected/2)
	}
	r.Applied = append(r.Applied, bodyOf(m).UID)
	c.Returned = true
}

// ProcRoot is the root of all stateful processes.
type ProcRoot struct {
	id      int
	h       *HSpec
	Touched []string
}

func (r *ProcRoot) snap() *Snap {
	return &Snap{ID: r.id, Owner: r.h.Name, Applied: append([]string(nil), r.Touched...)}
}

// at records the location of its caller, and returns m.
func at[T any](a *Act, m T) T {
	_, a.File, a.Line, _ = runtime.Caller(1)
	return m
}

// here records the location of the definition of its caller.
func (c *Call) here() {
	pc, _, _, _ := runtime.Caller(1)
	f := runtime.FuncForPC(pc)
	c.PanicFile, c.PanicLine = f.FileLine(f.Entry())
	c.PanicFunc = f.Name()
}

// panicValue is an arbitrary value panicked by handlers.
type panicValue struct{ Text string }

// maybePanic panics, or doesn't.
func (w *World) maybePanic(c *Call, rng *Rng, pct, upct int) {
	switch {
	case rng.P(pct):
		var v any = &panicValue{c.H.Name + " " + c.Method + " " + c.UID}
		switch rng.Intn(8) {
		case 0:
			v = []string{"uncomparable", c.UID}
		case 1:
			v = errors.New("panic in " + c.Method)
		case 2:
			v = fmt.Sprint(dogma.UnexpectedMessage)
		case 3:
			v = struct{}{}
		}
		c.PanicVal = v
		panic(v)
	case rng.P(upct):
		c.Unexpected = true
		c.Nest = rng.Intn(12)
		w.nest(c, c.Nest)
	}
}

// nest panics from within n nested calls.
func (w *World) nest(c *Call, n int) {
	if n > 0 {
		if n == 5 {
			// add some deferred calls to the stack
			defer func() { w.count("deferred") }()
		}
		w.nest(c, n-1)
		return
	}
	_, c.PanicFile, c.PanicLine, _ = runtime.Caller(0)
	c.PanicLine += 2
	panic(dogma.UnexpectedMessage)
}

// text returns some text for use within messages.
func (w *World) text(rng *Rng) string {
	if !w.Prof.WildText {
		return pick(rng, []string{"", "alpha", "beta", "gamma delta"})
	}
	return pick(rng, []string{
		"", "100% certain", "%s %d %v", "a\nb", "tab\there", "{+x+} [-y-]", "<message> <produced>",
		"an command and a event", "✓ ok ✗ not", "\"quoted\" \\ back", "日本語", " lead and trail ", "%", "%!s(MISSING)", "• item",
	})
}

var wildInsts = []string{"50%", "%s", "a b", "{+x+}", "日本"}

// instFamilies are sets of names of instances, some of which are easily
// confused with each other.
var instFamilies = [][]string{
	{"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"},
	{"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"},
	{"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"},
	{"id", "ID", "Id", "iD"},
	{"a", "ab", "abc", "abcd"},
	{"x", "x ", " x", "x\t"},
	{"1", "01", "10", "1.0"},
	{"é", "e\u0301", "É", "e"},
	{long + "0", long + "1", long, long[1:]},
}

var long = strings.Repeat("0123456789", 30)

func (w *World) inst(rng *Rng, b Body) string {
	if b.Inst != "" && rng.P(60) {
		return b.Inst
	}
	i := rng.Intn(w.Prof.Insts)
	if w.Prof.WildText {
		return wildInsts[i%len(wildInsts)]
	}
	if i >= 8 && w.insts[0] == "i0" {
		return fmt.Sprintf("i%d", i)
	}
	return w.insts[i%len(w.insts)]
}

// child returns the body of the i'th message produced by h in response to b.
func (w *World) child(rng *Rng, h *HSpec, b Body, i int) Body {
	c := Body{
		UID:   fmt.Sprintf("%s.%d%s", b.UID, h.Idx, letters(i)),
		Inst:  w.inst(rng, b),
		Depth: b.Depth + 1,
		Text:  w.text(rng),
	}
	for n := rng.Intn(3); n > 0; n-- {
		c.Nums = append(c.Nums, rng.Intn(100))
	}
	return c
}

func letters(i int) string {
	if i < 26 {
		return string(rune('a' + i))
	}
	return letters(i/26-1) + letters(i%26)
}

var logFormats = []struct {
	f string
	v []any
}{
	{"plain text", nil},
	{"value %d of %s", []any{7, "seven"}},
	{"100%", nil},
	{"", nil},
	{"%s", []any{"50% of %d %s"}},
	{"multi\nline", nil},
	{"%v %v", []any{errors.New("boom %d"), []int{1, 2}}},
	{"extra", []any{"argument"}},
}

func (w *World) logStep(c *Call, rng *Rng, fn func(string, ...any)) {
	lf := pick(rng, logFormats)
	a := w.act(c, "log")
	a.Fmt = lf.f
	if lf.f != "" {
		a.Fmt = c.UID + " " + lf.f
		if rng.P(50) {
			a.Fmt = lf.f
		}
	}
	a.Args = append([]any(nil), lf.v...)
	if rng.P(10) {
		a.Fmt = lf.f + " %s"
		a.Args = append(a.Args, w.text(rng))
	}
	fn(a.Fmt, a.Args...)
	w.done(a)
}

// maxDeltas are offsets, from the engine time, of the times for which timeouts
// are scheduled.
var timeoutDeltas = []time.Duration{
	-2 * time.Hour, -time.Nanosecond, 0, 0, time.Nanosecond, time.Second, time.Second, time.Minute,
	30 * time.Minute, time.Hour, time.Hour, 2 * time.Hour, 5 * time.Hour,
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 10*3600), time.FixedZone("west", -7*3600)}

func (w *World) timeoutTime(rng *Rng) time.Time {
	t := w.now.Add(pick(rng, timeoutDeltas))
	if rng.P(30) {
		t = w.T0.Add(time.Duration(rng.Intn(48)) * 30 * time.Minute)
	}
	if w.Prof.Hoard && rng.P(80) {
		t = w.now.Add(time.Duration(rng.Range(100, 200)) * time.Hour)
	}
	if rng.P(4) {
		t = pick(rng, []time.Time{w.now.AddDate(400, 0, 0), w.now.AddDate(300, 0, 0), w.now.AddDate(-400, 0, 0), {}, time.Unix(0, 0)})
	}
	return t.In(pick(rng, zones))
}

// epochs are times at which histories begin.
var epochs = []time.Time{
	time.Date(1, 2, 3, 4, 5, 6, 7, time.UTC),
	time.Date(1677, 9, 21, 0, 0, 0, 0, time.UTC),
	time.Date(1969, 12, 31, 23, 0, 0, 1, time.UTC),
	time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC),
	time.Date(2262, 4, 11, 23, 0, 0, 0, time.UTC),
	time.Date(2500, 1, 1, 0, 0, 0, 0, time.UTC),
}

// failure is a type of error used by handlers.
type failure struct{ text string }

func (f failure) Error() string { return f.text }

var errShared = errors.New("failure shared by all handlers")

// fail makes the call fail with some kind of error.
func (c *Call) fail(rng *Rng, id string) {
	c.Err = fmt.Errorf("failure of %s in %s for %s", c.H.Name, c.Method, id)
	switch rng.Intn(20) {
	case 0:
		c.Err = errors.New("failure") // distinct, but looks the same
	case 1:
		c.Err = errShared
	case 2:
		c.Err = failure{"failure"}
	case 3:
		if !c.plain {
			c.Err = fmt.Errorf("failure: %w", context.Canceled)
		}
	case 4:
		if !c.plain {
			c.Err = context.DeadlineExceeded
		}
	case 5:
		c.Err = errors.Join(errors.New("one failure"), errors.New("another failure"))
	case 6:
		c.Err = errors.New("100% failure %s %d")
	case 7:
		c.Err = errors.New("")
	}
}

func (w *World) faultyErr(c *Call, rng *Rng) error {
	if rng.P(w.Prof.Err) {
		c.fail(rng, c.UID)
	}
	return c.Err
}

func (w *World) maybeCancel(c *Call, rng *Rng) {
	if rng.P(w.Prof.Cancel) && w.cancel != nil {
		c.Canceled = true
		w.cancel()
		w.leave(c, "once the operation is canceled")
	}
}

// nilRoot returns true if h should return a nil root.
func (w *World) nilRoot(h *HSpec) bool {
	rng := NewRng(w.Seed, "new", h.Name, w.count("new"+h.Name))
	return w.offence(rng) && rng.P(10)
}

func (w *World) offence(rng *Rng) bool { return rng.P(w.Prof.Offend) }

// --- aggregates ---

type aggHandler struct {
	w *World
	h *HSpec
}

func (x *aggHandler) Configure(c dogma.AggregateConfigurer) {
	c.Identity(x.h.Name, x.h.Key)
	var rs []dogma.AggregateRoute
	for _, t := range x.h.Consumes {
		rs = append(rs, t.Consume().(dogma.AggregateRoute))
	}
	for _, t := range x.h.Produces {
		rs = append(rs, t.Produce().(dogma.AggregateRoute))
	}
	c.Routes(rs...)
	if x.h.Disabled {
		c.Disable()
	}
}

func (x *aggHandler) New() dogma.AggregateRoot {
	c := x.w.begin(x.h, x, "New", nil)
	defer x.w.end(c)
	c.Returned = true
	if x.w.nilRoot(x.h) {
		c.NilRoot = true
		c.here()
		return nil
	}
	return &AggRoot{id: x.w.newRootID(), w: x.w, h: x.h}
}

func (x *aggHandler) RouteCommandToInstance(m dogma.Command) string {
	c := x.w.begin(x.h, x, "RouteCommandToInstance", m)
	defer x.w.end(c)
	rng := NewRng(x.w.Seed, "route", x.h.Name, c.UID)
	x.w.maybePanic(c, rng, x.w.Prof.Panic/3, x.w.Prof.Unexpected/2)
	c.Returned = true
	if x.w.offence(rng) && rng.P(25) {
		c.here()
		return ""
	}
	c.RouteID = "agg-" + bodyOf(m).Inst
	return c.RouteID
}

func (x *aggHandler) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	w := x.w
	c := w.begin(x.h, x, "HandleCommand", m)
	defer w.end(c)
	root, _ := r.(*AggRoot)
	c.RootIsNil = root == nil
	c.Root = snapOf(r)
	c.Inst = s.InstanceID()
	b := bodyOf(m)
	rng := NewRng(w.Seed, "handle", x.h.Name, b.UID)
	panicAfter := -1
	n := rng.Range(0, w.Prof.MaxSteps)
	if rng.P(w.Prof.Panic+w.Prof.Unexpected) && n > 0 {
		panicAfter = rng.Intn(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == panicAfter {
			w.maybePanic(c, rng, 100*w.Prof.Panic/max(1, w.Prof.Panic+w.Prof.Unexpected), 100)
		}
		if i == n {
			break
		}
		switch {
		case rng.P(w.Prof.Destroy):
			a := w.act(c, "destroy")
			s.Destroy()
			w.done(a)
			a.Root = snapOf(r)
		case rng.P(w.Prof.Dirt):
			a := w.act(c, "dirt")
			root.Dirt = append(root.Dirt, c.UID)
			w.done(a)
		case rng.P(w.Prof.Log):
			w.logStep(c, rng, s.Log)
		case w.offence(rng):
			a := w.act(c, "record")
			a.Body = w.child(rng, x.h, b, i)
			a.MT = pick(rng, x.h.Produces)
			if rng.P(50) {
				a.Bad = "invalid"
				a.Body.Bad = "bad message content"
			} else {
				a.Bad = "unproduced"
				a.MT = x.w.unproduced(rng, x.h, eventTypes, alienEvent)
			}
			a.UID = a.Body.UID
			c.Offence = a.Bad
			s.RecordEvent(at(a, a.MT.Mk(a.Body).(dogma.Event)))
			w.done(a)
			c.Offence = ""
		case rng.P(w.Prof.Produce) && b.Depth < w.Prof.MaxDepth:
			a := w.act(c, "record")
			a.Body = w.child(rng, x.h, b, i)
			a.MT = pick(rng, x.h.Produces)
			a.UID = a.Body.UID
			s.RecordEvent(at(a, a.MT.Mk(a.Body.clone()).(dogma.Event)))
			w.done(a)
			a.Root = snapOf(r)
		}
	}
	w.maybeCancel(c, rng)
	c.Returned = true
}

// unproduced returns a message type that is not produced by h.
func (w *World) unproduced(rng *Rng, h *HSpec, types []*MT, alien *MT) *MT {
	var c []*MT
	for _, t := range types {
		if !h.produces(t) {
			c = append(c, t)
		}
	}
	c = append(c, alien)
	return pick(rng, c)
}

// --- processes ---

type procHandler struct {
	w *World
	h *HSpec
}

func (x *procHandler) Configure(c dogma.ProcessConfigurer) {
	c.Identity(x.h.Name, x.h.Key)
	var rs []dogma.ProcessRoute
	for _, t := range x.h.Consumes {
		rs = append(rs, t.Consume().(dogma.ProcessRoute))
	}
	for _, t := range x.h.Produces {
		rs = append(rs, t.Produce().(dogma.ProcessRoute))
	}
	for _, t := range x.h.Timeouts {
		rs = append(rs, t.Produce().(dogma.ProcessRoute))
	}
	c.Routes(rs...)
	if x.h.Disabled {
		c.Disable()
	}
}

func (x *procHandler) New() dogma.ProcessRoot {
	c := x.w.begin(x.h, x, "New", nil)
	defer x.w.end(c)
	c.Returned = true
	if x.h.Stateless {
		return dogma.StatelessProcessRoot
	}
	if x.w.nilRoot(x.h) {
		c.NilRoot = true
		c.here()
		return nil
	}
	return &ProcRoot{id: x.w.newRootID(), h: x.h}
}

func (x *procHandler) RouteEventToInstance(ctx context.Context, m dogma.Event) (string, bool, error) {
	c := x.w.begin(x.h, x, "RouteEventToInstance", m)
	defer x.w.end(c)
	x.w.enter(c, ctx)
	rng := NewRng(x.w.Seed, "route", x.h.Name, c.UID)
	x.w.maybePanic(c, rng, x.w.Prof.Panic/3, x.w.Prof.Unexpected/2)
	c.Returned = true
	if rng.P(x.w.Prof.Err / 3) {
		c.fail(rng, c.UID)
		// other results must be disregarded if there is an error
		return pick(rng, []string{"", "proc-i0", "proc-i1"}), rng.P(50), c.Err
	}
	if rng.P(x.w.Prof.Ignore) {
		return pick(rng, []string{"", "proc-i0"}), false, nil
	}
	c.RouteOK = true
	if x.w.offence(rng) && rng.P(25) {
		c.here()
		return "", true, nil
	}
	c.RouteID = "proc-" + bodyOf(m).Inst
	return c.RouteID, true, nil
}

type procScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
	Log(string, ...any)
}

func (x *procHandler) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	c := x.w.begin(x.h, x, "HandleEvent", m)
	defer x.w.end(c)
	x.w.enter(c, ctx)
	c.RecordedAt = s.RecordedAt()
	return x.handle(c, r, s)
}

func (x *procHandler) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	c := x.w.begin(x.h, x, "HandleTimeout", m)
	defer x.w.end(c)
	x.w.enter(c, ctx)
	c.ScheduledFor = s.ScheduledFor()
	return x.handle(c, r, s)
}

func (x *procHandler) handle(c *Call, r dogma.ProcessRoot, s procScope) error {
	w, b := x.w, c.Body
	c.Root = snapOf(r)
	c.RootIsNil = r == nil
	c.Inst = s.InstanceID()
	rng := NewRng(w.Seed, "handle", x.h.Name, b.UID)
	panicAfter := -1
	n := rng.Range(0, w.Prof.MaxSteps)
	if rng.P(w.Prof.Panic+w.Prof.Unexpected) && n > 0 {
		panicAfter = rng.Intn(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == panicAfter {
			w.maybePanic(c, rng, 100*w.Prof.Panic/max(1, w.Prof.Panic+w.Prof.Unexpected), 100)
		}
		if i == n {
			break
		}
		switch {
		case rng.P(w.Prof.End):
			a := w.act(c, "end")
			s.End()
			w.done(a)
		case rng.P(w.Prof.Log):
			w.logStep(c, rng, s.Log)
		case w.offence(rng):
			if len(x.h.Timeouts) == 0 || rng.P(50) {
				a := w.act(c, "exec")
				a.Body = w.child(rng, x.h, b, i)
				a.MT = pick(rng, x.h.Produces)
				if rng.P(50) {
					a.Bad = "invalid"
					a.Body.Bad = "bad message content"
				} else {
					a.Bad = "unproduced"
					a.MT = w.unproduced(rng, x.h, commandTypes, alienCommand)
				}
				a.UID = a.Body.UID
				c.Offence = a.Bad
				s.ExecuteCommand(at(a, a.MT.Mk(a.Body).(dogma.Command)))
				w.done(a)
				c.Offence = ""
			} else {
				a := w.act(c, "sched")
				a.Body = w.child(rng, x.h, b, i)
				a.MT = pick(rng, x.h.Timeouts)
				a.When = w.timeoutTime(rng)
				if rng.P(50) {
					a.Bad = "invalid"
					a.Body.Bad = "bad message content"
				} else {
					a.Bad = "unproduced"
					a.MT = w.unproduced(rng, x.h, timeoutTypes, alienTimeout)
				}
				a.UID = a.Body.UID
				c.Offence = a.Bad
				s.ScheduleTimeout(at(a, a.MT.Mk(a.Body).(dogma.Timeout)), a.When)
				w.done(a)
				c.Offence = ""
			}
		case rng.P(w.Prof.Produce) && b.Depth < w.Prof.MaxDepth:
			if len(x.h.Timeouts) != 0 && rng.P(w.Prof.Timeout) {
				a := w.act(c, "sched")
				a.Body = w.child(rng, x.h, b, i)
				a.MT = pick(rng, x.h.Timeouts)
				a.UID = a.Body.UID
				a.When = w.timeoutTime(rng)
				s.ScheduleTimeout(at(a, a.MT.Mk(a.Body.clone()).(dogma.Timeout)), a.When)
				w.done(a)
			} else {
				a := w.act(c, "exec")
				a.Body = w.child(rng, x.h, b, i)
				a.MT = pick(rng, x.h.Produces)
				a.UID = a.Body.UID
				s.ExecuteCommand(at(a, a.MT.Mk(a.Body.clone()).(dogma.Command)))
				w.done(a)
			}
		}
	}
	w.maybeCancel(c, rng)
	err := w.faultyErr(c, rng)
	if err == nil {
		if pr, ok := r.(*ProcRoot); ok && pr != nil {
			a := w.act(c, "touch")
			pr.Touched = append(pr.Touched, c.UID)
			w.done(a)
		}
	}
	c.Returned = true
	return err
}

// --- integrations ---

type intgHandler struct {
	w *World
	h *HSpec
}

func (x *intgHandler) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(x.h.Name, x.h.Key)
	var rs []dogma.IntegrationRoute
	for _, t := range x.h.Consumes {
		rs = append(rs, t.Consume().(dogma.IntegrationRoute))
	}
	for _, t := range x.h.Produces {
		rs = append(rs, t.Produce().(dogma.IntegrationRoute))
	}
	c.Routes(rs...)
	if x.h.Disabled {
		c.Disable()
	}
}

func (x *intgHandler) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	w := x.w
	c := w.begin(x.h, x, "HandleCommand", m)
	defer w.end(c)
	w.enter(c, ctx)
	b := bodyOf(m)
	rng := NewRng(w.Seed, "handle", x.h.Name, b.UID)
	panicAfter := -1
	n := rng.Range(0, w.Prof.MaxSteps)
	if rng.P(w.Prof.Panic+w.Prof.Unexpected) && n > 0 {
		panicAfter = rng.Intn(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == panicAfter {
			w.maybePanic(c, rng, 100*w.Prof.Panic/max(1, w.Prof.Panic+w.Prof.Unexpected), 100)
		}
		if i == n {
			break
		}
		switch {
		case rng.P(w.Prof.Log):
			w.logStep(c, rng, s.Log)
		case w.offence(rng):
			a := w.act(c, "record")
			a.Body = w.child(rng, x.h, b, i)
			if len(x.h.Produces) != 0 && rng.P(50) {
				a.MT = pick(rng, x.h.Produces)
				a.Bad = "invalid"
				a.Body.Bad = "bad message content"
			} else {
				a.Bad = "unproduced"
				a.MT = w.unproduced(rng, x.h, eventTypes, alienEvent)
			}
			a.UID = a.Body.UID
			c.Offence = a.Bad
			s.RecordEvent(at(a, a.MT.Mk(a.Body).(dogma.Event)))
			w.done(a)
			c.Offence = ""
		case len(x.h.Produces) != 0 && rng.P(w.Prof.Produce) && b.Depth < w.Prof.MaxDepth:
			a := w.act(c, "record")
			a.Body = w.child(rng, x.h, b, i)
			a.MT = pick(rng, x.h.Produces)
			a.UID = a.Body.UID
			s.RecordEvent(at(a, a.MT.Mk(a.Body.clone()).(dogma.Event)))
			w.done(a)
		}
	}
	w.maybeCancel(c, rng)
	err := w.faultyErr(c, rng)
	c.Returned = true
	return err
}

// --- projections ---

type projHandler struct {
	w        *World
	h        *HSpec
	m        sync.Mutex
	versions map[string][]byte
}

func (x *projHandler) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(x.h.Name, x.h.Key)
	var rs []dogma.ProjectionRoute
	for _, t := range x.h.Consumes {
		rs = append(rs, t.Consume().(dogma.ProjectionRoute))
	}
	c.Routes(rs...)
	if x.h.Disabled {
		c.Disable()
	}
}

func (x *projHandler) ResourceVersion(ctx context.Context, r []byte) ([]byte, error) {
	w := x.w
	c := w.begin(x.h, x, "ResourceVersion", nil)
	defer w.end(c)
	w.enter(c, ctx)
	c.Res = append([]byte(nil), r...)
	rng := NewRng(w.Seed, "version", x.h.Name, w.count("version"+x.h.Name))
	c.Returned = true
	if rng.P(w.Prof.Err / 2) {
		c.fail(rng, string(r))
		// the version must be disregarded if there is an error
		return pick(rng, [][]byte{nil, {1}}), c.Err
	}
	if rng.P(w.Prof.HasVersion) {
		c.Ver = []byte{byte(rng.Range(0, 3))}
		return c.Ver, nil
	}
	if rng.P(30) {
		return []byte{}, nil
	}
	return nil, nil
}

func (x *projHandler) HandleEvent(ctx context.Context, r, cur, nxt []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	w := x.w
	c := w.begin(x.h, x, "HandleEvent", m)
	defer w.end(c)
	w.enter(c, ctx)
	c.Res = append([]byte(nil), r...)
	c.Cur = append([]byte(nil), cur...)
	c.Nxt = append([]byte(nil), nxt...)
	c.RecordedAt = s.RecordedAt()
	c.Primary = s.IsPrimaryDelivery()
	rng := NewRng(w.Seed, "handle", x.h.Name, c.UID)
	for i := rng.Intn(2); i > 0; i-- {
		if rng.P(3 * w.Prof.Log) {
			w.logStep(c, rng, s.Log)
		}
	}
	if w.Prof.Jitter {
		jitter(rng)
	}
	if !w.CDH {
		w.maybePanic(c, rng, w.Prof.Panic, w.Prof.Unexpected)
	}
	w.maybeCancel(c, rng)
	err := w.faultyErr(c, rng)
	c.OK = !rng.P(w.Prof.NotApplied)
	c.Returned = true
	if err != nil {
		c.OK = rng.P(50)
	}
	return c.OK, err
}

func (x *projHandler) CloseResource(ctx context.Context, r []byte) error {
	w := x.w
	c := w.begin(x.h, x, "CloseResource", nil)
	defer w.end(c)
	w.enter(c, ctx)
	c.Res = append([]byte(nil), r...)
	rng := NewRng(w.Seed, "close", x.h.Name, w.count("close"+x.h.Name))
	c.Returned = true
	if rng.P(w.Prof.Err / 2) {
		c.fail(rng, string(r))
	}
	return c.Err
}

func (x *projHandler) Compact(ctx context.Context, s dogma.ProjectionCompactScope) error {
	w := x.w
	c := w.begin(x.h, x, "Compact", nil)
	defer w.end(c)
	w.enter(c, ctx)
	c.Now = s.Now()
	rng := NewRng(w.Seed, "compact", x.h.Name, w.count("compact"+x.h.Name))
	if w.Prof.Jitter {
		jitter(rng)
	}
	for i := rng.Range(0, w.Prof.CompactLogs); i > 0; i-- {
		w.logStep(c, rng, s.Log)
		if w.Prof.Jitter {
			jitter(rng)
		}
	}
	if !w.CDH {
		if rng.P(w.Prof.Panic) {
			c.PanicVal = &panicValue{c.H.Name + " Compact"}
			panic(c.PanicVal)
		}
		w.maybeCancel(c, rng)
	}
	if rng.P(w.Prof.CompactErr) {
		c.fail(rng, fmt.Sprint("#", c.Begin))
	}
	c.Returned = true
	return c.Err
}

func jitter(rng *Rng) {
	switch rng.Intn(4) {
	case 0:
	case 1:
		runtime.Gosched()
	case 2:
		for i := rng.Intn(8); i > 0; i-- {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
	}
}

// --- application ---

type app struct{ w *World }

func (a *app) Configure(c dogma.ApplicationConfigurer) {
	c.Identity(a.w.Name, uuidFor(a.w.Seed, "app"))
	a.w.impls = map[string]any{}
	for _, h := range a.w.Specs {
		switch h.Kind {
		case Agg:
			x := &aggHandler{a.w, h}
			a.w.impls[h.Name] = x
			c.RegisterAggregate(x)
		case Proc:
			x := &procHandler{a.w, h}
			a.w.impls[h.Name] = x
			c.RegisterProcess(x)
		case Intg:
			x := &intgHandler{a.w, h}
			a.w.impls[h.Name] = x
			c.RegisterIntegration(x)
		case Proj:
			x := &projHandler{w: a.w, h: h}
			a.w.impls[h.Name] = x
			c.RegisterProjection(x)
		}
	}
}

func uuidFor(parts ...any) string {
	a, b := H(append(parts, "1")...), H(append(parts, "2")...)
	return fmt.Sprintf("%08x-%04x-4%03x-8%03x-%012x", uint32(a), uint16(a>>32), uint16(a>>48)&0xfff, uint16(b)&0xfff, b>>16)
}
