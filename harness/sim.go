package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// OpResult is everything observed about a single operation.
type OpResult struct {
	Op       *Op
	Err      error
	Panicked bool
	PanicVal any
	Calls    []*Call
	Facts    []*FactRec
	Others   [][]fact.Fact // facts seen by additional observers
	Lines    []string      // written by the logger
	Before   time.Time
	After    time.Time
	Root     dogma.Message
	Given    *given // the context given to the engine
}

type obsFunc = fact.ObserverFunc

func hkindOption(k HKind, on bool) engine.OperationOption {
	switch k {
	case Agg:
		return engine.EnableAggregates(on)
	case Proc:
		return engine.EnableProcesses(on)
	case Intg:
		return engine.EnableIntegrations(on)
	}
	return engine.EnableProjections(on)
}

// options returns the engine options equivalent to o.Opts.
func (o *Op) options() []engine.OperationOption {
	var out []engine.OperationOption
	for _, x := range o.Opts {
		switch x.Kind {
		case "type":
			out = append(out, hkindOption(x.HKind, x.On))
		case "name":
			out = append(out, engine.EnableHandler(x.Name, x.On))
		case "time":
			out = append(out, engine.WithCurrentTime(x.Time))
		}
	}
	return out
}

// expiring is a context that is done on demand, for a reason other than being
// canceled.
type expiring struct {
	context.Context
	done   chan struct{}
	once   sync.Once
	reason error
}

func (x *expiring) Done() <-chan struct{} { return x.done }

func (x *expiring) Err() error {
	select {
	case <-x.done:
		return x.reason
	default:
		return nil
	}
}

var errReason = errors.New("the context is done for a reason of its own")

// context returns the context of an operation.
func (o *Op) context() (*given, func()) {
	if o.CtxErr != nil {
		x := &expiring{Context: context.Background(), done: make(chan struct{}), reason: o.CtxErr}
		_, g := give(x, "%s", o)
		g.async = true
		return g, g.canceling(func() { x.once.Do(func() { close(x.done) }) })
	}
	ctx, cancel := context.WithCancel(context.Background())
	if o.Limit {
		ctx, cancel = context.WithDeadline(context.Background(), faraway)
	}
	_, g := give(ctx, "%s", o)
	return g, g.canceling(cancel)
}

// ctxErr returns the error of the operation's context once it is done.
func (o *Op) ctxErr() error {
	if o.CtxErr == nil {
		return context.Canceled
	}
	return o.CtxErr
}

// RunOp performs an operation.
func RunOp(w *World, e *engine.Engine, o *Op) *OpResult {
	res := &OpResult{Op: o}
	opts := o.options()
	res.Others = make([][]fact.Fact, o.Obs-1)
	for i := range res.Others {
		opts = append(opts, engine.WithObserver(obsFunc(func(f fact.Fact) {
			res.Others[i] = append(res.Others[i], f)
		})))
	}
	if w.UseLogger {
		lg := fact.NewLogger(func(l string) { res.Lines = append(res.Lines, l) })
		opts = append(opts, engine.WithObserver(lg))
	}
	if o.Obs > 2 {
		opts = append(opts, engine.WithObserver(fact.Ignore))
	}
	opts = append(opts, engine.WithObserver(w))

	g, cancel := o.context()
	defer cancel()
	res.Given = g
	ctx := g.ctx
	w.cancel = cancel
	if o.Cancel {
		cancel()
	}
	w.now = o.now
	if o.NoTime {
		w.now = time.Now()
	}

	func() {
		defer func() {
			if res.Panicked {
				res.PanicVal = recover()
			}
		}()
		res.Panicked = true
		res.Before = time.Now()
		switch o.Kind {
		case "dispatch":
			res.Root = o.MT.Mk(o.Body.clone())
			if m, ok := res.Root.(dogma.Command); ok && o.Exec {
				res.Err = engine.CommandExecutor{Engine: e, Options: opts}.ExecuteCommand(ctx, m)
			} else {
				res.Err = e.Dispatch(ctx, res.Root, opts...)
			}
		case "tick":
			res.Err = e.Tick(ctx, opts...)
		case "reset":
			e.Reset()
		case "bad":
			res.Root = o.MT.Mk(o.Body.clone())
			if strings.HasPrefix(o.Bad, "unknown handler") {
				name := "unknown-" + o.Body.UID
				opts = append(opts, engine.EnableHandler(name, len(name)%2 == 0))
			}
			if o.Bad == "unknown handler tick" {
				res.Err = e.Tick(ctx, opts...)
			} else {
				res.Err = e.Dispatch(ctx, res.Root, opts...)
			}
		}
		res.Panicked = false
	}()
	res.After = time.Now()
	res.Calls, res.Facts = w.Rec.Take()

	if o.NoTime && o.Kind != "reset" && o.Kind != "bad" {
		o.now = res.Before
		for _, f := range res.Facts {
			switch x := f.F.(type) {
			case fact.DispatchCycleBegun:
				o.now = x.EngineTime
			case fact.TickCycleBegun:
				o.now = x.EngineTime
			}
			break
		}
	}
	return res
}

// --- model ---

type mstatus int

const (
	mQueued mstatus = iota
	mPending
	mDelivered
	mDiscarded
	mDropped // lost to a cancellation or panic
)

type minfo struct {
	uid     string
	mt      *MT
	body    Body
	origin  *HSpec
	inst    string
	gen     int
	when    time.Time
	created time.Time
	parent  string
	status  mstatus
	maybe   bool     // may have been lost to a cancellation or panic
	why     []string // properties violated if a discarded message is delivered
	lost    string   // properties violated if the message is not delivered
	got     map[string]int
}

type ptmo struct {
	m        *minfo
	optional bool
}

type pinst struct {
	gen     int
	rootID  int
	touched []string
}

type hErr struct {
	h   *HSpec
	err error
}

// expFact is a fact that should have been notified while a handler was engaged.
type expFact struct {
	kind string
	uid  string // of the produced message, if any
	inst string
	root []string // expected content of the root, nil if unchecked
	chk  bool
	a    *Act
	err  error
}

type hExp struct {
	h        *HSpec
	skipped  byte
	g        *group
	inner    []expFact
	compact  []*Call // parallel compactions
	err      error
	panicked bool
}

type msgExp struct {
	m        *minfo
	due      bool // a timeout delivered because of a tick
	handlers map[string]*hExp
	complete bool
	errs     []error
}

type tickExp struct {
	h       *HSpec
	skipped byte
	compact *Call
	err     error
	unknown bool
}

type opExp struct {
	msgs     []*msgExp
	ticks    map[string]*tickExp
	panicked bool
	canceled bool
	errs     []hErr
	started  bool
}

// Sim checks a history of operations against a model of the engine.
type Sim struct {
	c *Case
	w *World

	agg     map[string]map[string][]string
	proc    map[string]map[string]*pinst
	pend    map[string][]*ptmo
	lastC   map[string]time.Time
	unsureC map[string]bool
	res     map[string]map[string]string
	msgs    map[string]*minfo
	owner   map[int]string
	gen     int
	resets  int
	ended   map[string]bool
	specs   map[string]*HSpec

	// panics is true if a previous operation panicked or was canceled.
	disrupted bool
	rejected  bool // a previous operation was rejected
	cur       *OpResult
	hooks     []int
	nhooks    int
	exp       *opExp
	facts     *factState
	// alias maps properties to others that are violated at the same time.
	alias map[string][]string
	// sink receives violations, if non-nil.
	sink func(desc string)
}

// NewSim returns a new model of an engine.
func NewSim(c *Case, w *World) *Sim {
	s := &Sim{c: c, w: w, specs: map[string]*HSpec{}}
	for _, h := range w.Specs {
		s.specs[h.Name] = h
	}
	s.facts = newFactState()
	s.clear()
	return s
}

func (s *Sim) clear() {
	s.agg = map[string]map[string][]string{}
	s.proc = map[string]map[string]*pinst{}
	s.pend = map[string][]*ptmo{}
	s.lastC = map[string]time.Time{}
	s.unsureC = map[string]bool{}
	s.res = map[string]map[string]string{}
	s.msgs = map[string]*minfo{}
	s.owner = map[int]string{}
	s.ended = map[string]bool{}
	for _, h := range s.w.Specs {
		s.agg[h.Name] = map[string][]string{}
		s.proc[h.Name] = map[string]*pinst{}
		s.res[h.Name] = map[string]string{}
	}
}

// v reports a violation of each of the given properties.
func (s *Sim) v(tags string, format string, args ...any) {
	t := strings.Fields(tags)
	for _, x := range t {
		t = append(t, s.alias[x]...)
	}
	if s.resets > 0 {
		for _, x := range t {
			switch x {
			case "C03", "C04", "C05", "C07", "C02":
				t = append(t, "C11")
			}
		}
	}
	if s.rejected {
		for _, x := range t {
			switch x {
			case "C01", "C03", "C04", "C05":
				t = append(t, "C14")
			}
		}
	}
	if s.disrupted {
		for _, x := range t {
			switch x {
			case "C03", "C04", "C05":
				t = append(t, "C13")
			case "C01":
				t = append(t, "C09")
			}
		}
	}
	desc := fmt.Sprintf(format, args...)
	if s.cur != nil {
		desc += fmt.Sprintf(" [during %s, error %v, panic %v]", s.cur.Op, s.cur.Err, s.cur.PanicVal)
	}
	if s.sink != nil {
		s.sink(desc)
		return
	}
	s.c.Violate(t, desc)
}

// eval records that a property was evaluated in a given situation.
func (s *Sim) eval(prop, sig string, args ...any) {
	if s.sink != nil {
		return
	}
	if sig != "" && len(args) != 0 {
		sig = fmt.Sprintf(sig, args...)
	}
	s.c.Eval(prop, sig)
}

type group struct {
	h       *HSpec
	uid     string
	route   *Call
	version *Call
	handle  *Call
	close   []*Call
	calls   []*Call
	begin   int
	end     int
}

func (g *group) String() string {
	var ms []string
	for _, c := range g.calls {
		ms = append(ms, c.Method)
	}
	return fmt.Sprintf("%s[%s](%s)", g.h.Name, g.uid, strings.Join(ms, ","))
}

// cause returns the call that must have caused the operation to panic, if any.
func (g *group) cause() *Call {
	for _, c := range g.calls {
		if c.PanicVal != nil || c.Unexpected || c.Offence != "" || c.NilRoot {
			return c
		}
		if c.Method == "RouteCommandToInstance" && c.Returned && c.RouteID == "" {
			return c
		}
		if c.Method == "RouteEventToInstance" && c.Returned && c.Err == nil && c.RouteOK && c.RouteID == "" {
			return c
		}
	}
	return nil
}

func (g *group) canceled() bool {
	for _, c := range g.calls {
		if c.Canceled {
			return true
		}
	}
	return false
}

func isHandle(m string) bool {
	return m == "HandleCommand" || m == "HandleEvent" || m == "HandleTimeout"
}

// groups splits calls into groups that each represent the delivery of one
// message to one handler.
func groups(calls []*Call) []*group {
	var out []*group
	var g *group
	for _, c := range calls {
		if c.Method == "Compact" {
			continue
		}
		if c.Parent != nil {
			if g != nil {
				g.calls = append(g.calls, c)
			}
			continue
		}
		brk := g == nil || g.h != c.H
		if !brk {
			routed := c.UID != "" && c.Method != "ApplyEvent"
			switch {
			case routed && g.uid != "" && c.UID != g.uid,
				c.Method == "ResourceVersion",
				g.handle != nil && c.Method != "CloseResource":
				brk = true
			}
		}
		if brk {
			g = &group{h: c.H, begin: c.Begin}
			out = append(out, g)
		}
		g.calls = append(g.calls, c)
		g.end = c.End
		if c.UID != "" && c.Method != "ApplyEvent" {
			g.uid = c.UID
		}
		switch {
		case isHandle(c.Method):
			g.handle = c
		case strings.HasPrefix(c.Method, "Route"):
			g.route = c
		case c.Method == "ResourceVersion":
			g.version = c
		case c.Method == "CloseResource":
			g.close = append(g.close, c)
		}
	}
	return out
}

// Check checks a single operation.
func (s *Sim) Check(res *OpResult) *opExp {
	s.cur = res
	o := res.Op
	s.exp = &opExp{ticks: map[string]*tickExp{}}

	switch o.Kind {
	case "reset":
		s.checkReset(res)
	case "dispatch":
		s.checkDispatch(res)
	case "tick":
		s.checkTick(res)
	case "bad":
		s.checkBad(res)
	}
	s.checkFacts(res, s.exp)
	s.checkContexts(res)
	s.facts.settle(o, s.exp)
	if s.w.UseLogger {
		checkLines(s.c, res.Facts, res.Lines)
	}
	if s.exp.panicked || s.exp.canceled {
		s.disrupted = true
	}
	return s.exp
}

func (s *Sim) checkReset(res *OpResult) {
	if res.Panicked {
		s.v("C11", "resetting the engine panicked: %v", res.PanicVal)
	}
	if len(res.Calls) != 0 || len(res.Facts) != 0 {
		s.v("C11 C08", "resetting the engine called handlers or notified observers")
	}
	ok := len(s.hooks) == s.nhooks
	for i, h := range s.hooks {
		ok = ok && i == h
	}
	if !ok {
		s.v("C11", "the reset hooks were called in the order %v, there are %d", s.hooks, s.nhooks)
	}
	s.hooks = nil
	busy := 0
	for _, x := range s.agg {
		busy += len(x)
	}
	for _, x := range s.proc {
		busy += len(x)
	}
	for _, x := range s.pend {
		busy += len(x)
	}
	compacted := len(s.lastC)
	s.clear()
	s.resets++
	s.facts.reset()
	if busy > 0 {
		s.eval("C11", "reset with %d live items, %d compacted", min(busy, 20), compacted)
	} else {
		s.eval("C11", "")
	}
}

// checkBad checks that an operation was rejected without having any effect.
func (s *Sim) checkBad(res *OpResult) {
	o := res.Op
	tags := "C14"
	if strings.HasPrefix(o.Bad, "unknown handler") {
		tags = "C08"
	}
	switch {
	case !res.Panicked:
		s.v(tags, "the operation was not rejected")
	case o.Bad == "timeout" || tags == "C08":
	case !strings.Contains(fmt.Sprint(res.PanicVal), o.MT.Name):
		s.v(tags, "the description of the panic does not name the message type %s", o.MT.Name)
	}
	if len(res.Calls) > 0 {
		s.v(tags, "%s.%s() was called", res.Calls[0].H.Name, res.Calls[0].Method)
	}
	if len(res.Facts) > 0 {
		s.v(tags, "%s was notified", viewFact(res.Facts[0].F))
	}
	s.rejected = true
	live := 0
	for _, x := range s.agg {
		live += len(x)
	}
	s.eval(tags, "%s %s live=%v", o.Bad, o.MT.Kind, live > 0)
}

func (s *Sim) checkDispatch(res *OpResult) {
	o := res.Op
	m := &minfo{uid: o.Body.UID, mt: o.MT, body: o.Body, created: o.now, got: map[string]int{}}
	s.msgs[m.uid] = m
	gs := groups(res.Calls)
	if o.Cancel && len(gs) == 0 && len(res.Facts) == 0 {
		// the engine never started the operation
		s.exp.canceled = true
		m.status = mDropped
		s.checkOutcome(res, nil)
		return
	}
	s.exp.started = true
	r := &run{s: s, o: o, gs: gs, compacts: s.compactsByGroup(res, gs, nil)}
	r.queue = append(r.queue, m)
	r.drain()
	s.checkOutcome(res, r)
}

func (s *Sim) checkTick(res *OpResult) {
	o := res.Op
	gs := groups(res.Calls)
	if o.Cancel && len(res.Calls) == 0 && len(res.Facts) == 0 {
		s.exp.canceled = true
		s.checkOutcome(res, nil)
		return
	}
	s.exp.started = true
	first := 1 << 60
	if len(gs) != 0 {
		first = gs[0].begin
	}
	tickCompacts := map[string][]*Call{}
	var stop *Call
	for _, c := range res.Calls {
		if c.Method == "Compact" && c.Begin < first {
			tickCompacts[c.H.Name] = append(tickCompacts[c.H.Name], c)
			if c.PanicVal != nil || c.Canceled {
				if stop == nil {
					stop = c
				}
			} else if stop != nil {
				s.v("C09 C07", "projection %s was compacted after the tick should have stopped because of %s", c.H.Name, stop.H.Name)
			}
		}
	}
	r := &run{s: s, o: o, gs: gs, compacts: s.compactsByGroup(res, gs, tickCompacts)}
	interrupted := stop != nil || o.Cancel

	for _, h := range s.w.Specs {
		te := &tickExp{h: h, unknown: interrupted}
		s.exp.ticks[h.Name] = te
		on, reason := o.participates(h)
		if !on {
			te.skipped = reason
		}
		cs := tickCompacts[h.Name]
		if len(cs) > 0 {
			te.compact = cs[0]
			te.err = cs[0].Err
		}
		if h.Kind != Proj {
			continue
		}
		last, ever := s.lastC[h.Name]
		due := !ever || o.now.Sub(last) >= time.Hour
		gap := "first"
		if ever {
			gap = durClass(o.now.Sub(last))
		}
		s.eval("C07", "tick compaction on=%v gap=%s cdh=%v", on, gap, s.w.CDH)
		switch {
		case len(cs) > 1:
			s.v("C07", "projection %s was compacted %d times by one tick", h.Name, len(cs))
		case len(cs) == 1 && !on:
			s.v("C07 C08", "projection %s was compacted by a tick that it does not take part in", h.Name)
		case len(cs) == 1 && !due && !s.unsureC[h.Name]:
			s.v("C07", "projection %s was compacted only %s after it was last compacted", h.Name, o.now.Sub(last))
		case len(cs) == 0 && on && due && !interrupted && !s.unsureC[h.Name]:
			s.v("C07", "projection %s was not compacted although compaction is due (last %v ago, ever %v)", h.Name, o.now.Sub(last), ever)
		}
		if len(cs) > 0 {
			s.lastC[h.Name] = o.now
			delete(s.unsureC, h.Name)
			if cs[0].PanicVal != nil {
				s.unsureC[h.Name] = true
			}
			s.checkCompactCall(cs[0])
			if cs[0].Err != nil {
				s.exp.errs = append(s.exp.errs, hErr{h, cs[0].Err})
			}
		}
	}

	// timeouts that are due
	r.due = map[string][]*ptmo{}
	for _, h := range s.w.Specs {
		if h.Kind != Proc {
			continue
		}
		on, _ := o.participates(h)
		if !on {
			for _, p := range s.pend[h.Name] {
				if !p.m.when.After(o.now) {
					s.eval("C05", "due timeout of disabled handler, pending=%d", min(len(s.pend[h.Name]), 6))
					break
				}
			}
			continue
		}
		var keep []*ptmo
		for _, p := range s.pend[h.Name] {
			if p.m.when.After(o.now) {
				keep = append(keep, p)
				continue
			}
			r.due[h.Name] = append(r.due[h.Name], p)
		}
		s.pend[h.Name] = keep
		s.eval("C05", "tick due=%d keep=%d", min(len(r.due[h.Name]), 6), min(len(keep), 6))
	}

	if stop != nil && stop.PanicVal != nil {
		r.stopped = true
		s.exp.panicked = true
		r.cause = stop
	} else if stop != nil || o.Cancel {
		s.exp.canceled = true
		r.stopped = true
	}
	if r.stopped {
		r.abandon()
		for _, g := range r.gs {
			if o.Cancel {
				// the order in which handlers tick is arbitrary, but no message
				// may be delivered after the context is canceled
			}
			s.v("C09", "%s was engaged although the tick should have stopped", g)
		}
	} else {
		r.drainDue()
		r.drain()
	}
	s.checkOutcome(res, r)
}

func durClass(d time.Duration) string {
	switch {
	case d < 0:
		return "negative"
	case d == 0:
		return "zero"
	case d < time.Hour-time.Second:
		return "short"
	case d < time.Hour:
		return "just under"
	case d == time.Hour:
		return "exact"
	case d < time.Hour+time.Second:
		return "just over"
	}
	return "long"
}

func (s *Sim) checkCompactCall(c *Call) {
	if !c.Now.Equal(s.cur.Op.now) {
		s.v("C07", "compaction of %s saw %s as the current time", c.H.Name, c.Now)
	}
	if c.End == 0 {
		s.v("C07", "compaction of %s had not finished when the operation returned", c.H.Name)
	}
}

// compactsByGroup associates compactions with the delivery they accompany.
func (s *Sim) compactsByGroup(res *OpResult, gs []*group, exclude map[string][]*Call) map[*group][]*Call {
	out := map[*group][]*Call{}
	skip := map[*Call]bool{}
	for _, cs := range exclude {
		for _, c := range cs {
			skip[c] = true
		}
	}
	for _, c := range res.Calls {
		if c.Method != "Compact" || skip[c] {
			continue
		}
		var found *group
		for _, g := range gs {
			if g.h == c.H && g.begin < c.Begin {
				found = g
			}
		}
		if found == nil {
			s.v("C07", "projection %s was compacted although it was not handling an event", c.H.Name)
			continue
		}
		out[found] = append(out[found], c)
	}
	return out
}

// run is the state of the check of a single operation.
type run struct {
	s        *Sim
	o        *Op
	gs       []*group
	queue    []*minfo
	due      map[string][]*ptmo
	compacts map[*group][]*Call
	stopped  bool
	cause    *Call
}

// recipients returns the handlers that must, and may, receive m.
func (r *run) recipients(m *minfo) (must, may map[string]*HSpec, me *msgExp) {
	s := r.s
	must, may = map[string]*HSpec{}, map[string]*HSpec{}
	me = &msgExp{m: m, handlers: map[string]*hExp{}}
	s.exp.msgs = append(s.exp.msgs, me)
	for _, h := range s.w.Specs {
		if m.mt.Kind == message.TimeoutKind {
			if h != m.origin {
				continue
			}
		} else if !h.consumes(m.mt) {
			continue
		}
		on, reason := r.o.participates(h)
		he := &hExp{h: h}
		me.handlers[h.Name] = he
		if !on {
			he.skipped = reason
			s.eval("C08", "message skipped %s reason=%c opts=%d", h.Kind, reason, min(len(r.o.Opts), 4))
			continue
		}
		s.eval("C08", "")
		if m.mt.Kind == message.TimeoutKind {
			pi := s.proc[h.Name][m.inst]
			switch {
			case pi == nil:
				// ignored
				he.inner = append(he.inner, expFact{kind: "ProcessTimeoutIgnored", inst: m.inst})
				s.eval("C04", "timeout of missing instance")
				continue
			case pi.gen != m.gen:
				may[h.Name] = h
				continue
			}
		}
		must[h.Name] = h
	}
	return must, may, me
}

// drainDue checks the delivery of timeouts that fell due before a tick.
func (r *run) drainDue() {
	s := r.s
	for !r.stopped {
		// Timeouts of instances that no longer exist are ignored.
		left := 0
		for n, ps := range r.due {
			var keep []*ptmo
			for _, p := range ps {
				pi := s.proc[n][p.m.inst]
				if pi == nil && !p.optional {
					_, _, me := r.recipients(p.m)
					me.due = true
					me.complete = true
					p.m.status = mDiscarded
					p.m.why = []string{"C04", "C05"}
					continue
				}
				keep = append(keep, p)
				if pi != nil && pi.gen == p.m.gen && !p.optional {
					left++
				}
			}
			r.due[n] = keep
		}
		if len(r.gs) == 0 {
			break
		}
		g := r.gs[0]
		var found *ptmo
		if g.handle != nil && g.handle.Method == "HandleTimeout" {
			for _, p := range r.due[g.h.Name] {
				if p.m.uid == g.uid {
					found = p
				}
			}
		}
		if found == nil {
			break
		}
		r.gs = r.gs[1:]
		var keep []*ptmo
		for _, p := range r.due[g.h.Name] {
			if p == found {
				continue
			}
			keep = append(keep, p)
			pi := s.proc[g.h.Name][p.m.inst]
			if p.m.when.Before(found.m.when) && !p.optional && pi != nil && pi.gen == p.m.gen {
				s.v("C05", "timeout %s (for %s) was delivered by %s before %s (for %s)", found.m.uid, found.m.when, g.h.Name, p.m.uid, p.m.when)
			}
		}
		r.due[g.h.Name] = keep
		_, _, me := r.recipients(found.m)
		me.due = true
		r.deliver(g, found.m, me)
		me.complete = !r.stopped
		s.eval("C05", "due timeout delivered late=%s left=%d", durClass(r.o.now.Sub(found.m.when)), min(left, 5))
		if g.canceled() {
			s.exp.canceled = true
			r.stopped = true
		}
	}
	if r.stopped {
		r.abandon()
		return
	}
	for n, ps := range r.due {
		for _, p := range ps {
			pi := s.proc[n][p.m.inst]
			if p.optional {
				s.pend[n] = append(s.pend[n], p)
				continue
			}
			if pi == nil || pi.gen != p.m.gen {
				p.m.status = mDropped
				s.exp.msgs = append(s.exp.msgs, &msgExp{m: p.m, due: true, complete: true})
				continue
			}
			if len(r.gs) > 0 && r.laterHas(p.m.uid) {
				s.v("C01 C05", "timeout %s (for %s) that was due before the tick was not delivered before other messages (%s came first)", p.m.uid, p.m.when, r.gs[0])
			} else {
				s.v("C05 C01", "timeout %s of %s was due at %s but was not delivered by the tick", p.m.uid, n, p.m.when)
			}
			p.optional = true
			p.m.maybe = true
			s.pend[n] = append(s.pend[n], p)
		}
	}
	r.due = nil
}

func (r *run) laterHas(uid string) bool {
	for _, g := range r.gs {
		if g.uid == uid {
			return true
		}
	}
	return false
}

// abandon is called when the operation stops early.
func (r *run) abandon() {
	for n, ps := range r.due {
		for _, p := range ps {
			p.optional = true
			p.m.maybe = true
			r.s.pend[n] = append(r.s.pend[n], p)
		}
	}
	r.due = nil
	for _, m := range r.queue {
		m.status = mDropped
	}
	r.queue = nil
}

// drain checks the delivery of queued messages.
func (r *run) drain() {
	s := r.s
	for len(r.queue) > 0 && !r.stopped {
		m := r.queue[0]
		r.queue = r.queue[1:]
		must, may, me := r.recipients(m)
		m.status = mDelivered
		total := len(must)
		canceled := r.o.Cancel

		for {
			if len(r.gs) == 0 {
				break
			}
			g := r.gs[0]
			matches := g.uid == m.uid || (g.uid == "" && g.h.Kind == Proj && g.h.consumes(m.mt))
			if matches && (must[g.h.Name] != nil || may[g.h.Name] != nil) {
				delete(must, g.h.Name)
				delete(may, g.h.Name)
				r.gs = r.gs[1:]
				r.deliver(g, m, me)
				if g.canceled() {
					canceled = true
				}
				if r.stopped {
					break
				}
				continue
			}
			if len(must) == 0 && !(g.uid == m.uid) {
				break
			}
			if g.uid == m.uid {
				r.unexpected(g, m, me)
				r.gs = r.gs[1:]
				continue
			}
			// some other message is being delivered while m has not been
			// delivered to everyone
			if r.laterHas(m.uid) && r.queuedLater(g.uid) {
				s.v("C01", "%s was delivered before %s had been delivered to all of its recipients (%s)", g.uid, m.uid, names(must))
				break
			}
			if r.queuedLater(g.uid) {
				break // m was lost
			}
			r.unexpected(g, nil, nil)
			r.gs = r.gs[1:]
		}
		if r.stopped {
			break
		}
		if len(must) > 0 {
			tags := "C01" + m.lost
			for _, h := range must {
				switch h.Kind {
				case Proj:
					tags += " C06"
				case Agg:
					tags += " C03"
				case Proc:
					tags += " C04"
				}
			}
			if m.mt.Kind == message.TimeoutKind {
				tags += " C05"
			}
			if len(r.o.Opts) > 1 {
				tags += " C08"
			}
			if len(s.exp.errs) > 0 {
				tags += " C09"
			}
			s.v(tags, "message %s (%s) was not delivered to %s", m.uid, m.mt.Name, names(must))
		}
		me.complete = true
		fan := "recipients=%d depth=%d %s"
		s.eval("C01", fan, total, m.body.Depth, kindName(m.mt.Kind))
		if canceled {
			s.exp.canceled = true
			s.eval("C09", "canceled during %s with %d queued", m.mt.Kind, min(len(r.queue), 5))
			r.stopped = true
		}
	}
	if r.stopped {
		r.abandon()
	}
	for _, g := range r.gs {
		if r.stopped {
			s.v("C09 C13", "%s was engaged after the operation should have stopped", g)
			continue
		}
		r.unexpected(g, nil, nil)
	}
	r.gs = nil
}

func kindName(k message.Kind) string { return fmt.Sprint(k) }

func names(m map[string]*HSpec) string {
	var s []string
	for n := range m {
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (r *run) queuedLater(uid string) bool {
	for _, m := range r.queue {
		if m.uid == uid {
			return true
		}
	}
	return false
}

// unexpected reports a delivery that should not have happened.
func (r *run) unexpected(g *group, head *minfo, me *msgExp) {
	s := r.s
	m := s.msgs[g.uid]
	on, _ := r.o.participates(g.h)
	tags := "C01"
	if !on {
		tags += " C08"
	}
	switch {
	case g.uid == "":
		s.v("C01 C06", "%s was engaged although it has no message to handle", g)
		return
	case m == nil:
		s.v(tags, "%s was given a message that was never produced", g)
		return
	case !on:
		if m.mt.Kind == message.TimeoutKind {
			tags += " C05"
		}
		s.v(tags, "%s was engaged although it does not take part in the operation", g)
	case m.mt.Kind == message.TimeoutKind && g.h != m.origin:
		s.v("C01 C05", "%s was given a timeout scheduled by %s", g, m.origin.Name)
		return
	case !g.h.consumes(m.mt):
		s.v("C01", "%s was given a message of type %s, which it does not consume", g, m.mt.Name)
		return
	case m.got[g.h.Name] > 0:
		if m.mt.Kind == message.TimeoutKind {
			tags += " C05"
		}
		if g.h.Kind == Proj {
			tags += " C06"
		}
		s.v(tags, "%s was given the message again", g)
	case m.status == mPending:
		what := "too early"
		if !m.when.After(r.o.now) {
			what = "outside of a tick"
		}
		s.v("C05 C01", "%s was given a timeout %s (scheduled for %s, engine time %s)", g, what, m.when, r.o.now)
		var keep []*ptmo
		for _, p := range s.pend[g.h.Name] {
			if p.m != m {
				keep = append(keep, p)
			}
		}
		s.pend[g.h.Name] = keep
	case m.status == mDiscarded:
		s.v(strings.Join(append(m.why, "C01"), " "), "%s was given a message that should have been discarded", g)
	case m.status == mDropped:
		s.v("C01", "%s was given a message left over from an earlier operation", g)
	case m.mt.Kind == message.TimeoutKind && s.proc[g.h.Name][m.inst] == nil:
		s.v("C04 C05", "%s was given a timeout of an instance that no longer exists", g)
	default:
		s.v("C01", "%s was given a message that should not be delivered now", g)
	}
	// follow what actually happened
	if me == nil {
		me = &msgExp{m: m, handlers: map[string]*hExp{}}
	}
	r.deliver(g, m, me)
}

// deliver checks the delivery of m to a handler and updates the model.
func (r *run) deliver(g *group, m *minfo, me *msgExp) {
	s := r.s
	m.got[g.h.Name]++
	m.status = mDelivered
	he := me.handlers[g.h.Name]
	if he == nil {
		he = &hExp{h: g.h}
		me.handlers[g.h.Name] = he
	}
	he.g = g
	he.compact = r.compacts[g]

	for _, c := range g.calls {
		if c.UID == m.uid && c.Msg != nil && c.Method != "ApplyEvent" {
			if !c.Body.equal(m.body) || mtOf(c.Msg) != m.mt {
				s.v("C02 C01", "%s of %s saw %s as %#v, expected %#v", c.Method, g.h.Name, m.uid, c.Msg, m.body)
			}
		}
	}

	switch g.h.Kind {
	case Agg:
		r.deliverAgg(g, m, he)
	case Proc:
		r.deliverProc(g, m, he)
	case Intg:
		r.deliverIntg(g, m, he)
	case Proj:
		r.deliverProj(g, m, he)
	}

	if c := g.cause(); c != nil {
		he.panicked = true
		r.stopped = true
		r.cause = c
		s.exp.panicked = true
		return
	}
	if he.err != nil {
		me.errs = append(me.errs, he.err)
		s.exp.errs = append(s.exp.errs, hErr{g.h, he.err})
	}
}

// produced registers a message produced by a handler.
func (r *run) produced(g *group, m *minfo, a *Act, inst string, gen int) *minfo {
	x := &minfo{
		uid: a.UID, mt: a.MT, body: a.Body, origin: g.h, inst: inst, gen: gen,
		when: a.When, created: r.o.now, parent: m.uid, got: map[string]int{},
	}
	r.s.msgs[x.uid] = x
	return x
}

// enqueue adds messages to the end of the queue.
func (r *run) enqueue(ms ...*minfo) {
	for _, m := range ms {
		m.status = mQueued
		r.queue = append(r.queue, m)
	}
}

func discard(ms []*minfo, why ...string) {
	for _, m := range ms {
		m.status = mDiscarded
		m.why = why
	}
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *run) deliverAgg(g *group, m *minfo, he *hExp) {
	s := r.s
	if g.route == nil {
		s.v("C03 C01", "%s was engaged without routing the command", g)
		return
	}
	id := g.route.RouteID
	if !g.route.Returned || id == "" {
		if g.handle != nil {
			s.v("C13 C03", "%s handled a command that was not routed to an instance", g)
		}
		return
	}
	hist, exists := s.agg[g.h.Name][id]
	if exists {
		he.inner = append(he.inner, expFact{kind: "AggregateInstanceLoaded", inst: id, root: hist, chk: true})
	} else {
		he.inner = append(he.inner, expFact{kind: "AggregateInstanceNotFound", inst: id})
	}
	h := g.handle
	if h == nil {
		if g.cause() == nil {
			s.v("C01 C03", "%s routed a command but never handled it", g)
		} else {
			he.inner = nil // the root could not be loaded
		}
		return
	}
	if h.Inst != id {
		s.v("C03", "%s routed %s to %q but its scope has instance ID %q", g.h.Name, m.uid, id, h.Inst)
	}
	switch {
	case h.RootIsNil || h.Root == nil:
		s.v("C03", "%s was given no root", g)
	case h.Root.Owner != g.h.Name:
		s.v("C03", "%s was given a root made by %s", g, h.Root.Owner)
	case !eqStrings(h.Root.Applied, hist):
		s.v("C03", "the root of %s instance %s reflects events %v, expected %v", g.h.Name, id, h.Root.Applied, hist)
	case len(h.Root.Dirt) != 0:
		s.v("C03", "the root of %s instance %s retains changes that were not made by events: %v", g.h.Name, id, h.Root.Dirt)
	}

	cur := append([]string(nil), h.Root.appliedOrNil()...)
	factRoot := append([]string(nil), hist...)
	everDestroyed := false
	destroyed := false
	var events []*minfo
	var kinds []string
	for _, a := range h.Acts {
		switch a.Kind {
		case "destroy":
			kinds = append(kinds, "d")
			if a.End == 0 {
				continue // there is no new root
			}
			if exists {
				exists = false
				destroyed = true
				everDestroyed = true
				factRoot = nil
				he.inner = append(he.inner, expFact{kind: "AggregateInstanceDestroyed", inst: id, a: a})
			}
		case "log":
			he.inner = append(he.inner, expFact{kind: "MessageLoggedByAggregate", inst: id, a: a, root: factRoot, chk: !everDestroyed})
		case "record":
			if a.Bad != "" {
				if a.End != 0 {
					s.v("C13", "%s was able to record an event that is %s", g, a.Bad)
				}
				continue
			}
			kinds = append(kinds, "r")
			if !exists {
				k := "AggregateInstanceCreated"
				if destroyed {
					k = "AggregateInstanceDestructionReverted"
				}
				he.inner = append(he.inner, expFact{kind: k, inst: id, a: a, root: factRoot, chk: !everDestroyed})
				exists = true
				destroyed = false
			}
			x := r.produced(g, m, a, id, 0)
			if a.End == 0 {
				discard([]*minfo{x}, "C13", "C03")
				continue // the event could not be applied
			}
			events = append(events, x)
			factRoot = append(append([]string(nil), factRoot...), a.UID)
			he.inner = append(he.inner, expFact{kind: "EventRecordedByAggregate", inst: id, uid: a.UID, root: factRoot, chk: !everDestroyed, a: a})
			// immediate visibility
			cur = append(cur, a.UID)
			if !eqStrings(a.Root.appliedOrNil(), cur) {
				if everDestroyed {
					s.c.Known("C03", "destroy-then-record", "an event recorded after Destroy() in the same command is not applied to the root that the handler was given")
				} else {
					s.v("C03", "after recording %s, the root given to %s reflects events %v, expected %v", a.UID, g, a.Root.appliedOrNil(), cur)
				}
				cur = append([]string(nil), a.Root.appliedOrNil()...)
			}
		}
	}
	if g.cause() != nil || !h.Returned {
		discard(events, "C13", "C03")
		return
	}
	if exists {
		for _, x := range events {
			hist = append(append([]string(nil), hist...), x.uid)
		}
		s.agg[g.h.Name][id] = hist
	} else {
		delete(s.agg[g.h.Name], id)
	}
	r.enqueue(events...)
	if len(h.Root.appliedOrNil()) > 0 || len(kinds) > 1 {
		s.eval("C03", "history=%d acts=%s instances=%d", min(len(h.Root.appliedOrNil()), 8), strings.Join(kinds, ""), min(len(s.agg[g.h.Name]), 3))
	} else {
		s.eval("C03", "")
	}
}

func (s *Snap) appliedOrNil() []string {
	if s == nil {
		return nil
	}
	return s.Applied
}

func (r *run) deliverProc(g *group, m *minfo, he *hExp) {
	s := r.s
	id := m.inst
	h := g.handle
	if m.mt.Kind != message.TimeoutKind {
		if g.route == nil {
			s.v("C04 C01", "%s was engaged without routing the event", g)
			return
		}
		switch {
		case !g.route.Returned:
			return
		case g.route.Err != nil:
			he.err = g.route.Err
			if h != nil {
				s.v("C04 C09", "%s handled an event although routing it failed", g)
			}
			s.eval("C04", "routing failed")
			return
		case !g.route.RouteOK:
			he.inner = append(he.inner, expFact{kind: "ProcessEventIgnored"})
			if h != nil {
				s.v("C04", "%s handled an event that it did not route to any instance", g)
			}
			s.eval("C04", "ignored event, instances=%d", min(3, len(s.proc[g.h.Name])))
			return
		case g.route.RouteID == "":
			if h != nil {
				s.v("C13 C04", "%s handled an event that it routed to an empty ID", g)
			}
			return
		}
		id = g.route.RouteID
	}
	pi := s.proc[g.h.Name][id]
	exists := pi != nil
	newNil := false
	for _, c := range g.calls {
		newNil = newNil || c.NilRoot
	}
	if exists {
		he.inner = append(he.inner, expFact{kind: "ProcessInstanceLoaded", inst: id, root: pi.touched, chk: !g.h.Stateless})
	} else {
		he.inner = append(he.inner,
			expFact{kind: "ProcessInstanceNotFound", inst: id},
			expFact{kind: "ProcessInstanceBegun", inst: id, chk: !g.h.Stateless && !newNil},
		)
	}
	if h == nil {
		if g.cause() == nil {
			s.v("C04 C01", "%s routed an event to an instance but never handled it", g)
		}
		return
	}
	if h.Inst != id {
		s.v("C04", "%s was given %s for instance %q, expected %q", g.h.Name, m.uid, h.Inst, id)
	}
	if m.mt.Kind == message.TimeoutKind {
		if h.Method != "HandleTimeout" {
			s.v("C01", "%s handled a timeout via %s", g, h.Method)
		}
		if !h.ScheduledFor.Equal(m.when) {
			s.v("C02 C05", "%s saw timeout %s as scheduled for %s, expected %s", g, m.uid, h.ScheduledFor, m.when)
		}
		if m.when.After(r.o.now) {
			s.v("C05", "%s was given timeout %s at %s, before its scheduled time of %s", g, m.uid, r.o.now, m.when)
		}
	} else if !h.RecordedAt.Equal(m.created) {
		s.v("C02", "%s saw event %s as recorded at %s, expected %s", g, m.uid, h.RecordedAt, m.created)
	}
	if !g.h.Stateless {
		switch {
		case h.Root == nil:
			s.v("C04", "%s was given no root", g)
		case h.Root.Owner != g.h.Name:
			s.v("C04", "%s was given a root made by %s", g, h.Root.Owner)
		case exists && !eqStrings(h.Root.Applied, pi.touched):
			s.v("C04", "the root of %s instance %s reflects %v, expected %v", g.h.Name, id, h.Root.Applied, pi.touched)
		case exists && h.Root.ID != pi.rootID:
			s.v("C04", "the root of %s instance %s is not the one used by earlier messages", g.h.Name, id)
		case !exists && len(h.Root.Applied) != 0:
			s.v("C04", "the new instance %s of %s was given a root that reflects %v", id, g.h.Name, h.Root.Applied)
		case !exists && s.owner[h.Root.ID] != "":
			s.v("C04", "the new instance %s of %s was given the root of %s", id, g.h.Name, s.owner[h.Root.ID])
		}
		if h.Root != nil {
			s.owner[h.Root.ID] = g.h.Name + "/" + id
		}
	}

	gen := 0
	if exists {
		gen = pi.gen
	} else {
		s.gen++
		gen = s.gen
	}
	ended := false
	touched := h.Root.appliedOrNil()
	var commands, ready, pending, all []*minfo
	var kinds []string
	for _, a := range h.Acts {
		switch a.Kind {
		case "end":
			kinds = append(kinds, "E")
			if !ended {
				ended = true
				he.inner = append(he.inner, expFact{kind: "ProcessInstanceEnded", inst: id, a: a, root: touched, chk: !g.h.Stateless})
			}
		case "log":
			he.inner = append(he.inner, expFact{kind: "MessageLoggedByProcess", inst: id, a: a, root: touched, chk: !g.h.Stateless})
		case "exec", "sched":
			if a.Bad != "" {
				if a.End != 0 {
					s.v("C13", "%s was able to %s a message that is %s", g, a.Kind, a.Bad)
				}
				continue
			}
			if ended {
				he.inner = append(he.inner, expFact{kind: "ProcessInstanceEndingReverted", inst: id, a: a, root: touched, chk: !g.h.Stateless})
				ended = false
			}
			x := r.produced(g, m, a, id, gen)
			all = append(all, x)
			if a.Kind == "exec" {
				kinds = append(kinds, "c")
				commands = append(commands, x)
				he.inner = append(he.inner, expFact{kind: "CommandExecutedByProcess", inst: id, uid: a.UID, a: a, root: touched, chk: !g.h.Stateless})
				continue
			}
			he.inner = append(he.inner, expFact{kind: "TimeoutScheduledByProcess", inst: id, uid: a.UID, a: a, root: touched, chk: !g.h.Stateless})
			if a.When.After(r.o.now) {
				kinds = append(kinds, "p")
				pending = append(pending, x)
			} else {
				kinds = append(kinds, "t")
				ready = append(ready, x)
			}
		}
	}
	npend := 0
	for _, p := range s.pend[g.h.Name] {
		if p.m.inst == id {
			npend++
		}
	}
	switch {
	case g.cause() != nil || !h.Returned:
		discard(all, "C13", "C04")
		s.eval("C04", "panic acts=%s", strings.Join(kinds, ""))
		return
	case h.Err != nil:
		discard(all, "C04", "C09", "C05")
		he.err = h.Err
		s.eval("C04", "failed exists=%v acts=%s", exists, strings.Join(kinds, ""))
		return
	case ended:
		if exists {
			delete(s.proc[g.h.Name], id)
			var keep []*ptmo
			for _, p := range s.pend[g.h.Name] {
				if p.m.inst == id {
					p.m.status = mDiscarded
					p.m.why = []string{"C05", "C04"}
				} else {
					keep = append(keep, p)
				}
			}
			s.pend[g.h.Name] = keep
		}
		discard(ready, "C05", "C04")
		discard(pending, "C05", "C04")
		for _, x := range commands {
			x.lost = " C04"
		}
		r.enqueue(commands...)
		s.eval("C04", "ended exists=%v acts=%s", exists, strings.Join(kinds, ""))
		if npend > 0 || len(ready)+len(pending) > 0 {
			s.eval("C05", "ended with %d pending, %d ready, others=%d", npend+len(pending), len(ready), min(3, len(s.pend[g.h.Name])))
		}
		return
	}
	if !exists {
		pi = &pinst{gen: gen}
		s.proc[g.h.Name][id] = pi
	}
	if h.Root != nil {
		pi.rootID = h.Root.ID
		pi.touched = append(append([]string(nil), h.Root.Applied...), m.uid)
	}
	for _, x := range pending {
		x.status = mPending
		s.pend[g.h.Name] = append(s.pend[g.h.Name], &ptmo{m: x})
	}
	if len(ready) > 0 || len(pending) > 0 {
		s.eval("C05", "scheduled acts=%s pending=%d by %s", strings.Join(kinds, ""), min(6, len(s.pend[g.h.Name])), h.Method)
	}
	r.enqueue(commands...)
	r.enqueue(ready...)
	s.eval("C04", "%s exists=%v touched=%d acts=%s instances=%d", h.Method, exists, min(4, len(pi.touched)), strings.Join(kinds, ""), min(3, len(s.proc[g.h.Name])))
}

func (r *run) deliverIntg(g *group, m *minfo, he *hExp) {
	s := r.s
	h := g.handle
	if h == nil {
		s.v("C01", "%s was engaged but never handled the command", g)
		return
	}
	var events []*minfo
	for _, a := range h.Acts {
		switch a.Kind {
		case "log":
			he.inner = append(he.inner, expFact{kind: "MessageLoggedByIntegration", a: a})
		case "record":
			if a.Bad != "" {
				if a.End != 0 {
					s.v("C13", "%s was able to record an event that is %s", g, a.Bad)
				}
				continue
			}
			x := r.produced(g, m, a, "", 0)
			events = append(events, x)
			he.inner = append(he.inner, expFact{kind: "EventRecordedByIntegration", uid: a.UID, a: a})
		}
	}
	if g.cause() != nil || !h.Returned {
		discard(events, "C13")
		return
	}
	he.err = h.Err
	r.enqueue(events...)
}

func (r *run) deliverProj(g *group, m *minfo, he *hExp) {
	s := r.s
	v, h := g.version, g.handle
	cs := r.compacts[g]
	if h != nil && h.Returned || h == nil {
		want := 0
		if s.w.CDH && h != nil {
			want = 1
		}
		if len(cs) != want {
			s.v("C07", "projection %s was compacted %d times while handling %s, expected %d", g.h.Name, len(cs), m.uid, want)
		}
	}
	var cerr error
	for _, c := range cs {
		s.checkCompactCall(c)
		if c.Err != nil {
			cerr = c.Err
		}
	}
	if v == nil {
		s.v("C06", "%s was engaged without first looking up the resource version", g)
		return
	}
	if h != nil && v.Begin > h.Begin {
		s.v("C06", "%s looked up the resource version after handling the event", g)
	}
	if len(v.Res) == 0 {
		s.v("C06", "%s was asked for the version of an empty resource", g)
	}
	if u, ok := s.res[g.h.Name][string(v.Res)]; ok && u != m.uid {
		s.v("C06", "projection %s uses resource %q for both %s and %s", g.h.Name, v.Res, u, m.uid)
	}
	s.res[g.h.Name][string(v.Res)] = m.uid

	switch {
	case v.Err != nil:
		he.err = v.Err
		if h != nil {
			s.v("C06 C09", "%s handled an event although looking up the version failed", g)
		}
		if len(g.close) > 0 {
			s.v("C06", "%s closed a resource although looking up the version failed", g)
		}
		s.eval("C06", "version lookup failed")
		return
	case len(v.Ver) != 0:
		if h != nil {
			s.v("C06", "%s handled an event that has already been applied", g)
		}
		if len(g.close) > 0 {
			s.v("C06", "%s closed a resource of an event that it did not handle", g)
		}
		s.eval("C06", "already applied")
		return
	}
	if h == nil {
		s.v("C06 C01", "%s never handled the event", g)
		return
	}
	if string(h.Res) != string(v.Res) {
		s.v("C06", "%s looked up resource %q but handled the event with %q", g, v.Res, h.Res)
	}
	if len(h.Cur) != 0 {
		s.v("C06", "%s was given a current version of %v", g, h.Cur)
	}
	if len(h.Nxt) == 0 {
		s.v("C06", "%s was given an empty next version", g)
	}
	if !h.RecordedAt.Equal(m.created) {
		s.v("C02 C06", "%s saw event %s as recorded at %s, expected %s", g, m.uid, h.RecordedAt, m.created)
	}
	for _, a := range h.Acts {
		if a.Kind == "log" {
			he.inner = append(he.inner, expFact{kind: "MessageLoggedByProjection", a: a})
		}
	}
	if !h.Returned {
		if len(g.close) > 0 {
			s.v("C06 C13", "%s closed the resource of an event that was not handled", g)
		}
		return
	}
	want := 0
	if h.OK && h.Err == nil {
		want = 1
	}
	if len(g.close) != want {
		s.v("C06", "%s closed its resource %d times (applied=%v, error=%v)", g, len(g.close), h.OK, h.Err)
	}
	var clErr error
	for _, c := range g.close {
		if string(c.Res) != string(v.Res) {
			s.v("C06", "%s closed resource %q, expected %q", g, c.Res, v.Res)
		}
		if c.Begin < h.End {
			s.v("C06", "%s closed its resource before it had handled the event", g)
		}
		if c.Err != nil {
			clErr = c.Err
		}
	}
	switch {
	case h.Err != nil:
		he.err = h.Err
	case clErr != nil:
		he.err = clErr
	default:
		he.err = cerr
	}
	s.eval("C06", "handled ok=%v err=%v close=%v compact=%v cdh=%v", h.OK, h.Err != nil, clErr != nil, cerr != nil, s.w.CDH)
	if s.w.CDH {
		s.eval("C07", "parallel compaction err=%v handle=%v close=%v overlap=%v", cerr != nil, h.Err != nil, clErr != nil, len(cs) > 0 && cs[0].Begin < h.End)
	}
}

// --- outcome of the operation ---

func flatten(err error) []error {
	if err == nil {
		return nil
	}
	if x, ok := err.(interface{ Unwrap() []error }); ok {
		var out []error
		for _, e := range x.Unwrap() {
			out = append(out, flatten(e)...)
		}
		return out
	}
	return []error{err}
}

func (s *Sim) checkOutcome(res *OpResult, r *run) {
	exp := s.exp
	switch {
	case exp.panicked:
		if !res.Panicked {
			s.v("C13 C09", "the operation did not panic although %s %s", r.cause.H.Name, causeText(r.cause))
			return
		}
		s.checkPanic(res, r.cause)
		return
	case res.Panicked:
		tags := "C13 C01 C09 C14"
		if _, ok := res.PanicVal.(runaway); ok {
			tags = "C01 C05"
		}
		s.v(tags, "the operation panicked without cause: %v", res.PanicVal)
		return
	}
	if exp.canceled {
		idle := res.Op.Kind == "tick" && res.Op.Cancel
		for _, h := range s.w.Specs {
			on, _ := res.Op.participates(h)
			idle = idle && !on
		}
		if !errors.Is(res.Err, res.Op.ctxErr()) && !(idle && res.Err == nil) {
			s.v("C09", "the operation was canceled but returned %v", res.Err)
		}
		s.eval("C09", "canceled started=%v %s", exp.started, res.Op.Kind)
		return
	}
	got := flatten(res.Err)
	used := make([]bool, len(got))
	for _, e := range exp.errs {
		found := false
		// prefer errors that are attributed correctly, in case handlers
		// returned the same error
		for pass := 0; pass < 2 && !found; pass++ {
			for i, x := range got {
				if used[i] || !errors.Is(x, e.err) || pass == 0 && !attributed(x.Error(), e.h) {
					continue
				}
				used[i] = true
				found = true
				t := x.Error()
				if !attributed(t, e.h) {
					s.v("C09", "the error %q is not attributed to the %q %s", t, e.h.Name, e.h.Kind)
				}
				for _, h := range s.w.Specs {
					if h != e.h && strings.Contains(strings.Replace(t, e.err.Error(), "", 1), h.Name) {
						s.v("C09", "the error %q is attributed to %q, expected %q", t, h.Name, e.h.Name)
					}
				}
				break
			}
		}
		if !found {
			tags := "C09"
			switch e.h.Kind {
			case Proj:
				tags += " C06 C07"
			case Proc:
				tags += " C04"
			}
			s.v(tags, "the error returned by %s (%v) is missing from the operation's error", e.h.Name, e.err)
		}
	}
	for i, x := range got {
		if !used[i] {
			tags := "C09"
			for _, c := range res.Calls {
				if c.Method == "Compact" && c.Err != nil && errors.Is(x, c.Err) {
					tags += " C07"
					break
				}
			}
			s.v(tags, "the operation returned an error that is not due to a handler failure: %v", x)
		}
	}
	if len(exp.errs) > 0 {
		var ks []string
		for _, e := range exp.errs {
			ks = append(ks, e.h.Kind.String()[:3])
		}
		sort.Strings(ks)
		s.eval("C09", "errors %s of %d messages", strings.Join(ks, "+"), min(len(exp.msgs), 20))
	} else {
		s.eval("C09", "")
	}
}

// attributed returns true if the text of an error names a handler.
func attributed(t string, h *HSpec) bool {
	return strings.Contains(t, h.Name) && strings.Contains(strings.Replace(t, h.Name, "", 1), h.Kind.String())
}

func causeText(c *Call) string {
	switch {
	case c.PanicVal != nil:
		return "panicked in " + c.Method
	case c.Unexpected:
		return "signalled an unexpected message in " + c.Method
	case c.Offence != "":
		return "produced a message that is " + c.Offence
	case c.NilRoot:
		return "returned a nil root"
	}
	return "routed a message to an empty ID"
}

// RunHistory runs a history of operations against a new engine, checking each.
func RunHistory(c *Case, w *World, ops []*Op, opts ...engine.Option) *Sim {
	s := NewSim(c, w)
	if w.CDH {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	hooks := c.Rng.Intn(4)
	if c.Rng.P(5) {
		hooks = c.Rng.Range(4, 12)
	}
	for i := 0; i < hooks; i++ {
		opts = append(opts, engine.WithResetter(func() { s.hooks = append(s.hooks, i) }))
	}
	s.nhooks = hooks
	e, err := engine.New(w.Config(), opts...)
	if err != nil {
		c.Violate([]string{"C01"}, fmt.Sprintf("unable to construct an engine: %v", err))
		return s
	}
	w.Rec.Take()
	for _, o := range ops {
		c.Log("%s", o)
		res := RunOp(w, e, o)
		s.Check(res)
		if c.Done() {
			break
		}
	}
	if len(s.hooks) != 0 {
		s.v("C11", "reset hooks were called although the engine was not reset")
	}
	if calls, facts := w.Rec.Take(); len(calls) != 0 || len(facts) != 0 {
		s.v("C12 C07", "there was activity after the last operation returned")
	}
	return s
}
