package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
)

// tEvent is a use of a testing interface.
type tEvent struct {
	Kind string // log, fatal, failnow
	Text string
	Args []any
}

func (e tEvent) String() string {
	t := e.Text
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i] + "..."
	}
	return e.Kind + " " + t
}

func (e tEvent) isReport() bool {
	return e.Kind == "log" && strings.HasPrefix(e.Text, "--- TEST REPORT ---")
}

// abortT is panicked when a test is failed.
type abortT struct{}

// recT is a testing interface that records how it is used. It deliberately uses
// no locks.
type recT struct {
	mode   string // what a failure does: return, panic or goexit
	events []tEvent
	failed bool
}

func (t *recT) Failed() bool { return t.failed }

func (t *recT) Log(args ...any) {
	t.events = append(t.events, tEvent{"log", fmt.Sprint(args...), args})
}

func (t *recT) Logf(f string, args ...any) {
	t.events = append(t.events, tEvent{"log", fmt.Sprintf(f, args...), args})
}

func (t *recT) Fatal(args ...any) {
	t.events = append(t.events, tEvent{"fatal", fmt.Sprint(args...), args})
	t.abort()
}

func (t *recT) FailNow() {
	t.events = append(t.events, tEvent{"failnow", "", nil})
	t.abort()
}

func (t *recT) Helper() {}

func (t *recT) abort() {
	t.failed = true
	switch t.mode {
	case "panic":
		panic(abortT{})
	case "goexit":
		runtime.Goexit()
	}
}

// prod is a message produced by an action.
type prod struct {
	Seq  int
	MT   *MT
	Body Body
	H    *HSpec // nil if it was dispatched by the action itself
	Sure bool   // false if the handler that produced it then failed
	Root bool
}

// adjust is a user-defined time adjustment.
type adjust struct {
	desc string
	f    func(time.Time) time.Time
	seen []time.Time
}

func (a *adjust) Description() string { return a.desc }

func (a *adjust) Step(t time.Time) time.Time {
	a.seen = append(a.seen, t)
	return a.f(t)
}

// icept is an interceptor of the command executor.
type icept struct {
	Name string
	Kind string // pass, drop, fail, subst, double, panic
	Err  error
}

// callSpec is the execution of a command by user code.
type callSpec struct {
	MT      *MT
	Body    Body
	Lane    int
	Cancel  bool
	Limit   bool
	Recover bool // whether the code recovers from panics
}

// actSpec describes an action.
type actSpec struct {
	Kind  string // dispatch, unconsumed, unknown, advance, call, custom, multi
	MT    *MT
	Body  Body
	Adj   string // by, to, custom
	D     time.Duration
	To    time.Time
	Calls []*callSpec
	Lanes int
	Panic bool // the user code or custom action panics
	Icept *icept
	Err   error
	Subs  []*actSpec // of a custom action that performs several operations
	Scope bool       // a dispatch that is performed by a custom action
	Count bool       // expectations consider the messages that it dispatches

	adj      *adjust
	pv       any
	reversed bool // the adjustment moves the clock backwards
}

type simTime = time.Time

// counts returns true if expectations consider the messages dispatched by a.
func (a *actSpec) counts() bool { return a.Kind == "call" || a.Count }

func (a *actSpec) String() string {
	switch a.Kind {
	case "tick":
		return "tick"
	case "dispatch", "unconsumed", "unknown":
		if a.Scope {
			return fmt.Sprintf("custom %s(%s %s counts=%v)", a.Kind, a.MT.Name, a.Body.UID, a.Count)
		}
		return fmt.Sprintf("%s(%s %s)", a.Kind, a.MT.Name, a.Body.UID)
	case "advance":
		if a.Adj == "to" {
			return fmt.Sprintf("advance(to %s)", a.To.Format(time.RFC3339Nano))
		}
		return fmt.Sprintf("advance(%s %s)", a.Adj, a.D)
	case "call":
		s := ""
		for _, c := range a.Calls {
			s += fmt.Sprintf(" %s %s", c.MT.Name, c.Body.UID)
		}
		if a.Icept != nil {
			s += " intercepted by " + a.Icept.Kind
		}
		return fmt.Sprintf("call(lanes=%d panic=%v%s)", a.Lanes, a.Panic, s)
	}
	if a.Kind == "multi" {
		return fmt.Sprintf("multi(%v counts=%v)", a.Subs, a.Count)
	}
	return fmt.Sprintf("%s(panic=%v err=%v)", a.Kind, a.Panic, a.Err)
}

// custom is a user-defined action.
type custom struct {
	a  *actSpec
	fn func(context.Context, testkit.ActionScope) error
}

func (x *custom) Caption() string {
	return "performing a custom action" + flourish(x.a.Kind, x.a.Count, x.a.Body.UID, len(x.a.Subs))
}
func (x *custom) Location() location.Location { return location.Location{} }
func (x *custom) ConfigurePredicate(o *testkit.PredicateOptions) {
	if x.a.Count {
		o.MatchDispatchCycleStartedFacts = true
	}
}
func (x *custom) Do(c context.Context, s testkit.ActionScope) error { return x.fn(c, s) }

// sel is a selection of handlers.
type sel struct {
	On   bool
	Like bool
	Args []string
}

func (x sel) String() string { return fmt.Sprintf("select(on=%v like=%v %q)", x.On, x.Like, x.Args) }

// execRec is what happened when a command was executed.
type execRec struct {
	MT       *MT
	Body     Body
	Cancel   bool
	Err      error
	Panicked bool
	PanicVal any
	given    *given
}

// opRes is an operation performed by an action together with what the model
// makes of it.
type opRes struct {
	res *OpResult
	exp *opExp
}

// stepRes is everything observed about a step of a test.
type stepRes struct {
	Events   []tEvent
	Panicked bool
	PanicVal any
	Aborted  bool
	Calls    []*Call
	Facts    []*FactRec
	Ops      []opRes
	Prods    []*prod

	direct bool  // err is known
	err    error // returned by the action, if it was called directly
}

func (r *stepRes) fails() []tEvent {
	var out []tEvent
	for _, e := range r.Events {
		if e.Kind != "log" {
			out = append(out, e)
		}
	}
	return out
}

func (r *stepRes) reports() []string {
	var out []string
	for _, e := range r.Events {
		if e.isReport() {
			out = append(out, e.Text)
		}
	}
	return out
}

// session is a test of a generated application.
type session struct {
	c     *Case
	w     *World
	sim   *Sim
	t     *recT
	test  *testkit.Test
	clock time.Time
	opts  []Opt // settings other than the time
	cmp   func(a, b Body) bool
	ice   *icept // test-wide interceptor
	dry   bool
	notes []note
	last  string // the previous action
	given *given // the context of the test, if it is known
	end   func() // cancels that context
	ended bool   // that context was canceled

	leaves    []*leafPred // of expectations that were evaluated
	userCalls []*userCall // made by the most recent call action
	subs      []*OpResult // of the most recent custom action
	expected  *xspec      // of the current step
}

// note is an annotation.
type note struct {
	val  any
	text string
}

type iceSeen struct {
	ic  *icept
	uid string
}

// sessionConf is the configuration of a session.
type sessionConf struct {
	mode  string
	start time.Time
	types []Opt
	cmp   *comparator
	ice   *icept
	dry   bool
	bg    bool // use Begin() instead of BeginContext()
	limit bool // the context has a deadline, which is never reached
	notes []note
}

// comparator is a custom message comparator.
type comparator struct {
	name string
	eq   func(a, b Body) bool
}

var simAlias = map[string][]string{"C08": {"C24"}}

func newSession(c *Case, w *World, conf sessionConf) *session {
	w.CDH = true
	s := &session{
		c: c, w: w, clock: conf.start, dry: conf.dry, ice: conf.ice,
		t:     &recT{mode: conf.mode},
		opts:  []Opt{{Kind: "type", HKind: Proj}, {Kind: "type", HKind: Intg}},
		notes: conf.notes,
	}
	s.sim = NewSim(c, w)
	s.sim.alias = simAlias
	if conf.dry {
		s.sim.sink = func(string) {}
	}
	unsafe := []engine.OperationOption{engine.WithObserver(w)}
	for _, x := range conf.types {
		unsafe = append(unsafe, hkindOption(x.HKind, x.On))
		s.opts = append(s.opts, x)
	}
	opts := []testkit.TestOption{
		testkit.StartTimeAt(conf.start),
		testkit.WithUnsafeOperationOptions(unsafe...),
	}
	if conf.cmp != nil {
		s.cmp = conf.cmp.eq
		opts = append(opts, testkit.WithMessageComparator(func(a, b dogma.Message) bool {
			return conf.cmp.eq(bodyOf(a), bodyOf(b))
		}))
	}
	if conf.ice != nil {
		opts = append(opts, testkit.InterceptCommandExecutor(s.interceptor(conf.ice)))
	}
	if conf.bg {
		s.test = testkit.Begin(s.t, &app{w}, opts...)
	} else {
		ctx, cancel := context.WithCancel(context.Background())
		if conf.limit {
			ctx, cancel = context.WithDeadline(context.Background(), faraway)
		}
		_, s.given = give(ctx, "the test")
		s.end = s.given.canceling(cancel)
		s.test = testkit.BeginContext(s.given.ctx, s.t, &app{w}, opts...)
	}
	for _, n := range conf.notes {
		s.test.Annotate(n.val, n.text)
	}
	w.Rec.Take()
	return s
}

// v reports a violation.
func (s *session) v(tags string, format string, args ...any) {
	if !s.dry {
		s.c.Violate(strings.Fields(tags), fmt.Sprintf(format, args...))
	}
}

func (s *session) eval(prop, format string, args ...any) {
	if !s.dry {
		if format != "" {
			format = fmt.Sprintf(format, args...)
		}
		s.c.Eval(prop, format)
	}
}

// run calls f, which is a use of the test.
func (s *session) run(f func()) *stepRes {
	res := &stepRes{}
	s.t.events = nil
	s.userCalls, s.subs = nil, nil
	body := func() {
		finished := false
		defer func() {
			if finished {
				return
			}
			r := recover()
			switch r.(type) {
			case abortT:
				res.Aborted = true
			case nil:
				res.Aborted = true // runtime.Goexit()
			default:
				res.Panicked = true
				res.PanicVal = r
			}
		}()
		f()
		finished = true
	}
	if s.t.mode == "goexit" {
		done := make(chan struct{})
		go func() {
			defer close(done)
			body()
		}()
		<-done
	} else {
		body()
	}
	res.Events = s.t.events
	s.take(res)
	return res
}

// take moves what was recorded to res.
func (s *session) take(res *stepRes) {
	for _, x := range s.subs {
		res.Calls = append(res.Calls, x.Calls...)
		res.Facts = append(res.Facts, x.Facts...)
	}
	calls, facts := s.w.Rec.Take()
	res.Calls = append(res.Calls, calls...)
	res.Facts = append(res.Facts, facts...)
}

// interceptor returns an interceptor function.
func (s *session) interceptor(ic *icept) testkit.CommandExecutorInterceptor {
	return func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
		recs, _ := ctx.Value(recsKey{}).(*[]*execRec)
		seen, _ := ctx.Value(seenKey{}).(*[]iceSeen)
		if s.given != nil && (recs == nil || seen == nil) {
			s.v("C27", "the context given to the interceptor of %s does not have the values of that given to the executor", bodyOf(m).UID)
		}
		if why := see(ctx, true).bad; len(why) > 0 {
			s.v("C27", "the context given to the interceptor of %s %s", bodyOf(m).UID, why[0])
		}
		if seen != nil {
			*seen = append(*seen, iceSeen{ic, bodyOf(m).UID})
		}
		if recs == nil {
			recs = new([]*execRec)
		}
		b := bodyOf(m)
		switch ic.Kind {
		case "drop":
			return nil
		case "fail":
			return ic.Err
		case "panic":
			panic(ic.Err)
		case "subst":
			b.UID += "-subst"
			return s.exec(ctx, e, mtOf(m), b, false, recs, true)
		case "double":
			err := s.exec(ctx, e, mtOf(m), b, false, recs, true)
			b.UID += "-again"
			return errors.Join(err, s.exec(ctx, e, mtOf(m), b, false, recs, true))
		}
		return s.exec(ctx, e, mtOf(m), b, false, recs, true)
	}
}

type (
	recsKey struct{}
	seenKey struct{}
)

// exec executes a command.
func (s *session) exec(ctx context.Context, e dogma.CommandExecutor, mt *MT, b Body, cancel bool, recs *[]*execRec, rethrow bool) error {
	r := &execRec{MT: mt, Body: b, Cancel: cancel || ctx.Err() != nil}
	ctx, r.given = give(ctx, "the execution of %s by an interceptor", b.UID)
	*recs = append(*recs, r)
	func() {
		defer func() {
			if r.Panicked {
				r.PanicVal = recover()
			}
		}()
		r.Panicked = true
		r.Err = e.ExecuteCommand(ctx, mt.Mk(b.clone()).(dogma.Command))
		r.Panicked = false
	}()
	if r.Panicked && rethrow {
		panic(r.PanicVal)
	}
	return r.Err
}

// userPanic is panicked by user code.
type userPanic struct{ text string }

// build returns the action described by a.
func (s *session) build(a *actSpec) testkit.Action {
	switch a.Kind {
	case "dispatch", "unconsumed", "unknown":
		if a.Scope {
			return &custom{a, func(ctx context.Context, sc testkit.ActionScope) error {
				s.scope(a, ctx, sc)
				return sc.Engine.Dispatch(ctx, a.MT.Mk(a.Body.clone()), sc.OperationOptions...)
			}}
		}
		return a.MT.Action(a.MT.Mk(a.Body.clone()))
	case "advance":
		switch a.Adj {
		case "by":
			return testkit.AdvanceTime(testkit.ByDuration(a.D))
		case "to":
			return testkit.AdvanceTime(testkit.ToTime(a.To))
		}
		a.adj = &adjust{desc: "as agreed with 100% certainty", f: func(t time.Time) time.Time { return t.Add(a.D) }}
		return testkit.AdvanceTime(a.adj)
	case "call":
		var opts []testkit.CallOption
		if a.Icept != nil {
			opts = append(opts, testkit.InterceptCommandExecutor(s.interceptor(a.Icept)))
		}
		return testkit.Call(func() {
			s.begin(a)
			s.userCode(a)
		}, opts...)
	}
	if a.Kind == "multi" {
		return &custom{a, func(ctx context.Context, sc testkit.ActionScope) error {
			s.scope(a, ctx, sc)
			var errs []error
			for _, x := range a.Subs {
				errs = append(errs, s.sub(x, ctx, sc))
			}
			return errors.Join(errs...)
		}}
	}
	return &custom{a, func(ctx context.Context, sc testkit.ActionScope) error {
		s.scope(a, ctx, sc)
		if a.Panic {
			a.pv = &userPanic{"panic in custom action"}
			panic(a.pv)
		}
		return a.Err
	}}
}

// sub performs one of the operations of a custom action.
func (s *session) sub(a *actSpec, ctx context.Context, sc testkit.ActionScope) error {
	o := s.op(a.Kind, s.clock)
	o.MT, o.Body = a.MT, a.Body
	res := &OpResult{Op: o, Given: s.given}
	s.subs = append(s.subs, res)
	func() {
		defer func() {
			if res.Panicked {
				res.PanicVal = recover()
			}
		}()
		res.Panicked = true
		if a.Kind == "tick" {
			res.Err = sc.Engine.Tick(ctx, sc.OperationOptions...)
		} else {
			res.Err = sc.Engine.Dispatch(ctx, a.MT.Mk(a.Body.clone()), sc.OperationOptions...)
		}
		res.Panicked = false
	}()
	res.Calls, res.Facts = s.w.Rec.Take()
	if res.Panicked {
		panic(res.PanicVal)
	}
	return res.Err
}

// scope checks what a custom action is given.
func (s *session) scope(a *actSpec, ctx context.Context, sc testkit.ActionScope) {
	s.begin(a)
	if s.given != nil {
		x := see(ctx, true)
		x.look("when the action is performed", true)
		if why := x.is(s.given); why != "" {
			s.v("C27", "%s: the context given to the action %s", a, why)
		}
		_, limited := s.given.ctx.Deadline()
		s.eval("C27", "custom action canceled=%v deadline=%v", s.ended, limited)
	}
	if sc.VirtualClock == nil || !sc.VirtualClock.Equal(s.clock) {
		s.v("C19", "%s: the clock given to the action is at %v instead of %s", a, sc.VirtualClock, s.clock)
	}
	if ex, ok := s.test.CommandExecutor().(*testkit.CommandExecutor); ok && ex != sc.Executor {
		s.v("C20", "%s: the executor given to the action is not that of the test", a)
	}
}

// userCall is the execution of one command by user code.
type userCall struct {
	spec     *callSpec
	given    *given
	recs     []*execRec // executions that reached the engine
	seen     []iceSeen
	err      error
	panicked bool
	panicVal any
}

// userCode executes the commands of a call action.
func (s *session) userCode(a *actSpec) {
	ex := s.test.CommandExecutor()
	ucs := make([]*userCall, len(a.Calls))
	var propagate any
	one := func(i int) bool {
		uc := &userCall{spec: a.Calls[i]}
		ucs[i] = uc
		ctx := context.WithValue(context.WithValue(context.Background(), recsKey{}, &uc.recs), seenKey{}, &uc.seen)
		if uc.spec.Cancel {
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		}
		if uc.spec.Limit {
			c, cancel := context.WithDeadline(ctx, faraway)
			defer cancel()
			ctx = c
		}
		ctx, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx, uc.given = give(ctx, "the execution of %s", uc.spec.Body.UID)
		if a.Lanes <= 1 {
			s.w.cancel = uc.given.canceling(func() {
				cancel()
				for _, r := range uc.recs {
					r.given.canceled.Store(true)
				}
			})
			defer func() { s.w.cancel = nil }()
		}
		func() {
			defer func() {
				if uc.panicked {
					uc.panicVal = recover()
				}
			}()
			uc.panicked = true
			uc.err = ex.ExecuteCommand(ctx, uc.spec.MT.Mk(uc.spec.Body.clone()).(dogma.Command))
			uc.panicked = false
		}()
		if uc.panicked && !uc.spec.Recover && a.Lanes <= 1 {
			propagate = uc.panicVal
			return false
		}
		return true
	}
	if a.Lanes <= 1 {
		for i := range a.Calls {
			if !one(i) {
				break
			}
		}
	} else {
		var wg sync.WaitGroup
		for l := 0; l < a.Lanes; l++ {
			rng := NewRng(s.c.Seed, "exec", l, a.Calls[0].Body.UID)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, c := range a.Calls {
					if c.Lane == l {
						jitter(rng)
						one(i)
					}
				}
			}()
		}
		wg.Wait()
	}
	s.userCalls = ucs
	if propagate != nil {
		panic(propagate)
	}
	if a.Panic {
		a.pv = &userPanic{"panic in user code"}
		panic(a.pv)
	}
}

// op returns the model's view of an operation at the given time.
func (s *session) op(kind string, now time.Time) *Op {
	o := &Op{Kind: kind, Obs: 1}
	o.Opts = append(append([]Opt(nil), s.opts...), Opt{Kind: "time", Time: now})
	o.resolve()
	return o
}

// settle works out which operations an action performed, and checks each.
func (s *session) settle(a *actSpec, res *stepRes, rejected bool) {
	fail := func() error {
		if res.direct {
			return res.err
		}
		for _, e := range res.fails() {
			for _, x := range e.Args {
				if err, ok := x.(error); ok {
					return err
				}
			}
		}
		return nil
	}
	single := func(o *Op) {
		s.check(res, &OpResult{Op: o, Err: fail(), Panicked: res.Panicked, PanicVal: res.PanicVal, Calls: res.Calls, Facts: res.Facts, Given: s.given})
	}
	if rejected {
		s.quiet("C18", a, res)
		return
	}
	switch a.Kind {
	case "dispatch":
		o := s.op("dispatch", s.clock)
		o.MT, o.Body, o.Cancel = a.MT, a.Body, s.ended
		single(o)
	case "unconsumed":
		o := s.op("bad", s.clock)
		o.MT, o.Body, o.Bad = a.MT, a.Body, "unconsumed"
		single(o)
	case "unknown":
		s.quiet("C14", a, res)
	case "custom":
		s.quiet("C17", a, res)
	case "advance":
		to := a.target(s.clock)
		if a.adj != nil {
			if len(a.adj.seen) != 1 || !a.adj.seen[0].Equal(s.clock) {
				s.v("C19", "the time adjustment was given %v, the clock was at %s", a.adj.seen, s.clock)
			}
		}
		if to.Before(s.clock) {
			a.reversed = true
			s.quiet("C19", a, res)
			s.eval("C19", "backwards %s by %s after %s", a.Adj, s.clock.Sub(to), s.last)
			s.last = "a refused adjustment"
			return
		}
		s.eval("C19", "%s by %s after %s", a.Adj, to.Sub(s.clock), s.last)
		s.clock = to
		single(s.op("tick", to))
	case "call":
		s.settleCall(a, res)
	case "multi":
		for _, x := range s.subs {
			s.check(res, x)
		}
	}
	s.checkTimes(a, res)
	s.last = a.Kind
	if res.Panicked {
		s.last += " that panicked"
	} else if fail() != nil {
		s.last += " that failed"
	}
}

// checkLog checks what was logged about the facts of a step.
func (s *session) checkLog(res *stepRes) {
	if s.dry || s.c.Prop != "C26" {
		return
	}
	var lines []string
	for _, e := range res.Events {
		if e.Kind == "log" && !strings.HasPrefix(e.Text, "--- ") {
			lines = append(lines, e.Text)
		}
	}
	checkLines(s.c, res.Facts, lines)
}

func (a *actSpec) target(clock time.Time) time.Time {
	if a.Adj == "to" {
		return a.To
	}
	return clock.Add(a.D)
}

// quiet checks that an action did nothing.
func (s *session) quiet(tag string, a *actSpec, res *stepRes) {
	if len(res.Calls) > 0 {
		s.v(tag, "%s: %s.%s() was called", a, res.Calls[0].H.Name, res.Calls[0].Method)
	}
	if len(res.Facts) > 0 {
		s.v(tag, "%s: %s was notified", a, viewFact(res.Facts[0].F))
	}
}

// checkTimes checks that the clock is what facts and handlers see.
func (s *session) checkTimes(a *actSpec, res *stepRes) {
	ticks := 0
	for _, f := range res.Facts {
		switch x := f.F.(type) {
		case fact.DispatchCycleBegun:
			if !x.EngineTime.Equal(s.clock) || !x.Envelope.CreatedAt.Equal(s.clock) {
				s.v("C19", "%s: dispatched at %s, message created at %s, the clock is at %s", a, x.EngineTime, x.Envelope.CreatedAt, s.clock)
			}
			s.eval("C19", "%s zone=%s", a.Kind, s.clock.Location())
		case fact.TickCycleBegun:
			ticks++
			if !x.EngineTime.Equal(s.clock) {
				s.v("C19", "%s: ticked at %s, the clock is at %s", a, x.EngineTime, s.clock)
			}
		default:
			if v := viewFact(f.F); v.Prod != nil && !v.Prod.CreatedAt.Equal(s.clock) {
				s.v("C19", "%s: %s was created at %s, the clock is at %s", a, uidOf(v.Prod), v.Prod.CreatedAt, s.clock)
			}
		}
	}
	want := 0
	if a.Kind == "advance" {
		want = 1
	}
	for _, x := range s.subs {
		if x.Op.Kind == "tick" {
			want++
		}
	}
	if ticks != want {
		s.v("C19", "%s: %d ticks were performed", a, ticks)
	}
	for _, c := range res.Calls {
		if c.Method == "Compact" && !c.Now.Equal(s.clock) {
			s.v("C19", "%s: compaction of %s saw the time as %s, the clock is at %s", a, c.H.Name, c.Now, s.clock)
		}
		if c.Method == "HandleEvent" && !c.RecordedAt.Equal(s.clock) {
			s.v("C19", "%s: %s saw the time as %s, the clock is at %s", a, c.H.Name, c.RecordedAt, s.clock)
		}
		if c.Method == "HandleTimeout" && c.ScheduledFor.After(s.clock) {
			s.v("C19 C05", "%s: %s was given a timeout for %s, the clock is at %s", a, c.H.Name, c.ScheduledFor, s.clock)
		}
	}
}

// check checks an operation against the model.
func (s *session) check(res *stepRes, r *OpResult) {
	exp := s.sim.Check(r)
	res.Ops = append(res.Ops, opRes{r, exp})
	if r.Op.Kind == "dispatch" {
		for _, f := range r.Facts {
			if _, ok := f.F.(fact.DispatchCycleBegun); ok {
				res.Prods = append(res.Prods, &prod{f.Seq, r.Op.MT, r.Op.Body, nil, true, true})
				break
			}
		}
	}
	for _, c := range r.Calls {
		for _, a := range c.Acts {
			switch a.Kind {
			case "record", "exec", "sched":
				if a.Bad == "" && a.End != 0 {
					res.Prods = append(res.Prods, &prod{a.End, a.MT, a.Body, c.H, c.Returned && c.Err == nil, false})
				}
			}
		}
	}
	sort.SliceStable(res.Prods, func(i, j int) bool { return res.Prods[i].Seq < res.Prods[j].Seq })
}

// settleCall checks the operations performed by a call action.
func (s *session) settleCall(a *actSpec, res *stepRes) {
	// Facts are notified one operation at a time.
	type seg struct {
		uid   string
		from  int
		facts []*FactRec
		calls []*Call
	}
	var segs []*seg
	for _, f := range res.Facts {
		if x, ok := f.F.(fact.DispatchCycleBegun); ok {
			segs = append(segs, &seg{uid: uidOf(x.Envelope), from: f.Seq})
		}
		if len(segs) == 0 {
			s.v("C20", "%s was notified before any command was executed", viewFact(f.F))
			return
		}
		g := segs[len(segs)-1]
		g.facts = append(g.facts, f)
	}
	for _, c := range res.Calls {
		var g *seg
		for _, x := range segs {
			if x.from < c.Begin {
				g = x
			}
		}
		if g == nil {
			s.v("C20", "%s.%s() was called before any command was executed", c.H.Name, c.Method)
			return
		}
		g.calls = append(g.calls, c)
	}
	ice := a.Icept
	if ice == nil {
		ice = s.ice
	}
	recs := map[string]*execRec{}
	var order []string
	for _, uc := range s.userCalls {
		if uc == nil {
			continue // abandoned because of a panic
		}
		s.checkUserCall(a, ice, uc)
		for _, r := range uc.recs {
			recs[r.Body.UID] = r
			order = append(order, r.Body.UID)
		}
		if ice == nil {
			r := &execRec{MT: uc.spec.MT, Body: uc.spec.Body, Cancel: uc.spec.Cancel, Err: uc.err, Panicked: uc.panicked, PanicVal: uc.panicVal, given: uc.given}
			recs[r.Body.UID] = r
			order = append(order, r.Body.UID)
		}
	}
	check := func(r *execRec, g *seg) {
		o := s.op("dispatch", s.clock)
		o.MT, o.Body, o.Cancel = r.MT, r.Body, r.Cancel
		or := &OpResult{Op: o, Err: r.Err, Panicked: r.Panicked, PanicVal: r.PanicVal, Given: r.given}
		if g != nil {
			or.Calls, or.Facts = g.calls, g.facts
		}
		s.check(res, or)
	}
	at := 0
	for _, g := range segs {
		r := recs[g.uid]
		if r == nil {
			s.v("C20", "%s: the engine dispatched %s, which was not executed", a, g.uid)
			continue
		}
		delete(recs, g.uid)
		if a.Lanes <= 1 {
			for at < len(order) && order[at] != g.uid {
				at++
			}
			if at == len(order) {
				s.v("C20", "%s: %s was dispatched out of order", a, g.uid)
				at = 0
			}
		}
		check(r, g)
	}
	for _, uid := range order {
		r := recs[uid]
		if r == nil {
			continue
		}
		if !r.Cancel {
			s.v("C20", "%s: the execution of %s did not reach the engine (error %v, panic %v)", a, uid, r.Err, r.PanicVal)
			continue
		}
		check(r, nil)
	}
}

// checkUserCall checks what happened when user code used the executor.
func (s *session) checkUserCall(a *actSpec, ice *icept, uc *userCall) {
	b := uc.spec.Body
	if ice == nil {
		if len(uc.seen) != 0 {
			s.v("C20", "%s: interceptor %s was called, there should be none", a, uc.seen[0].ic.Name)
		}
		s.eval("C20", "plain lanes=%d err=%v panic=%v cancel=%v", a.Lanes, uc.err != nil, uc.panicked, uc.spec.Cancel)
		return
	}
	if len(uc.seen) != 1 || uc.seen[0].ic != ice || uc.seen[0].uid != b.UID {
		s.v("C20", "%s: executing %s called the interceptors %v, expected only %s", a, b.UID, uc.seen, ice.Name)
		return
	}
	s.eval("C20", "intercepted %s override=%v lanes=%d err=%v panic=%v", ice.Kind, a.Icept != nil && s.ice != nil, a.Lanes, uc.err != nil, uc.panicked)
	var wantErr []error
	var panicked *execRec
	for _, r := range uc.recs {
		wantErr = append(wantErr, r.Err)
		if r.Panicked {
			panicked = r
		}
	}
	wants := map[string]int{"drop": 0, "fail": 0, "panic": 0, "pass": 1, "subst": 1, "double": 2}
	n := wants[ice.Kind]
	if panicked == nil && len(uc.recs) != n {
		s.v("C20", "%s: interceptor %s executed %d commands", a, ice.Kind, len(uc.recs))
	}
	switch {
	case ice.Kind == "panic":
		if !uc.panicked || uc.panicVal != any(ice.Err) {
			s.v("C20", "%s: the interceptor panicked with %v, the caller saw %v", a, ice.Err, uc.panicVal)
		}
	case panicked != nil:
		if !uc.panicked {
			s.v("C20", "%s: the engine panicked with %v, but the caller saw error %v", a, panicked.PanicVal, uc.err)
		}
	case uc.panicked:
		s.v("C20", "%s: the caller saw a panic without cause: %v", a, uc.panicVal)
	case ice.Kind == "drop":
		if uc.err != nil {
			s.v("C20", "%s: the interceptor returned nil, the caller got %v", a, uc.err)
		}
	case ice.Kind == "fail":
		if uc.err != ice.Err {
			s.v("C20", "%s: the interceptor returned %v, the caller got %v", a, ice.Err, uc.err)
		}
	case ice.Kind == "double":
		if fmt.Sprint(uc.err) != fmt.Sprint(errors.Join(wantErr...)) {
			s.v("C20", "%s: the interceptor returned %v, the caller got %v", a, errors.Join(wantErr...), uc.err)
		}
	default:
		if len(wantErr) == 1 && fmt.Sprint(uc.err) != fmt.Sprint(wantErr[0]) {
			s.v("C20", "%s: the interceptor returned %v, the caller got %v", a, wantErr[0], uc.err)
		}
	}
}

// outside checks that the executor can not be used outside of an action.
func (s *session) outside() {
	res := s.run(func() {
		mt := commandTypes[0]
		_ = s.test.CommandExecutor().ExecuteCommand(context.Background(), mt.Mk(Body{UID: "outside", Inst: "i0"}).(dogma.Command))
	})
	if !res.Panicked {
		s.v("C20", "the executor can be used outside of an action")
	}
	s.quiet("C20", &actSpec{Kind: "outside"}, res)
	s.eval("C20", "outside of an action")
}

// selects applies a selection of handlers.
func (s *session) selects(x sel) {
	var must bool // must panic
	var names []string
	if x.Like {
		seen := map[string]bool{}
		for _, p := range x.Args {
			re := regexp.MustCompile(p)
			found := false
			for _, h := range s.w.Specs {
				if !h.Disabled && re.MatchString(h.Name) {
					found = true
					if !seen[h.Name] {
						seen[h.Name] = true
						names = append(names, h.Name)
					}
				}
			}
			must = must || !found
		}
	} else {
		for _, n := range x.Args {
			h := s.sim.specs[n]
			if h == nil || x.On && h.Disabled {
				must = true
			}
			names = append(names, n)
		}
	}
	res := s.run(func() {
		var t *testkit.Test
		switch {
		case x.Like && x.On:
			t = s.test.EnableHandlersLike(x.Args...)
		case x.Like:
			t = s.test.DisableHandlersLike(x.Args...)
		case x.On:
			t = s.test.EnableHandlers(x.Args...)
		default:
			t = s.test.DisableHandlers(x.Args...)
		}
		if t != s.test {
			s.v("C24", "%s did not return the test", x)
		}
	})
	if res.Panicked != must {
		s.v("C24", "%s: panicked=%v (%v), expected %v", x, res.Panicked, res.PanicVal, must)
	}
	s.quiet("C24", &actSpec{Kind: x.String()}, res)
	s.eval("C24", "select on=%v like=%v args=%d names=%d panic=%v", x.On, x.Like, len(x.Args), min(len(names), 5), must)
	if must || res.Panicked {
		return
	}
	for _, n := range names {
		s.opts = append(s.opts, Opt{Kind: "name", Name: n, On: x.On})
	}
}
