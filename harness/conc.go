package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// concOp is an operation performed concurrently with others.
type concOp struct {
	idx    int
	op     *Op
	lane   int
	invoke int
	ret    int
	res    *OpResult
	at     int // position in the witness order
}

// concurrently performs operations from several goroutines and checks that they
// were performed one at a time in an order consistent with real time, with the
// effects predicted by the model for that order.
func concurrently(c *Case, size Size, prof Profile, mix OpMix, lanes int) {
	prof.Jitter = true
	mix.NoTime = 0
	w := NewWorld(c.Seed, size, prof)
	w.CDH = c.Rng.P(30)
	ops := GenOps(w, c.Rng, mix)
	for _, h := range w.Specs {
		c.Log("handler %s consumes %s produces %s timeouts %s disabled=%v", h.Name, mtNames(h.Consumes), mtNames(h.Produces), mtNames(h.Timeouts), h.Disabled)
	}
	var hooks []int
	opts := []engine.Option{engine.WithResetter(func() { hooks = append(hooks, w.Rec.Seq()) })}
	if w.CDH {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	e, err := engine.New(w.Config(), opts...)
	if err != nil {
		c.Fail("unable to construct an engine: %v", err)
		return
	}
	w.Rec.Take()

	var cops []*concOp
	for i, o := range ops {
		cops = append(cops, &concOp{idx: i, op: o, lane: c.Rng.Intn(lanes)})
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for lane := 0; lane < lanes; lane++ {
		rng := NewRng(c.Seed, "lane", lane)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, co := range cops {
				if co.lane == lane {
					jitter(rng)
					runConcOp(w, e, co)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	calls, facts := w.Rec.Take()

	resets := 0
	for _, co := range cops {
		c.Log("lane %d [%d,%d] %s => %v", co.lane, co.invoke, co.ret, co.op, co.res.Err)
		if co.op.Kind == "reset" {
			resets++
		}
	}
	bad := func(format string, args ...any) {
		props := []string{"C10"}
		if resets > 0 {
			props = append(props, "C11")
		}
		c.Violate(props, fmt.Sprintf(format, args...))
	}

	// Facts of one operation must not be interleaved with those of another.
	var order []*concOp
	for i, f := range facts {
		co := cops[f.Owner]
		if i == 0 || facts[i-1].Owner != f.Owner {
			if co.at != 0 {
				bad("notifications of %s are interleaved with those of %s", co.op, cops[facts[i-1].Owner].op)
				return
			}
			co.at = f.Seq
			order = append(order, co)
		}
		co.res.Facts = append(co.res.Facts, f)
		if f.Seq < co.invoke || f.Seq > co.ret {
			bad("%s was notified outside of the operation %s", viewFact(f.F), co.op)
			return
		}
	}

	// Resets are placed when their hook was called.
	if len(hooks) != resets {
		c.Violate([]string{"C11"}, fmt.Sprintf("the reset hook was called %d times by %d resets", len(hooks), resets))
		return
	}
	for _, seq := range hooks {
		var best *concOp
		for _, co := range cops {
			if co.op.Kind == "reset" && co.at == 0 && co.invoke < seq && seq < co.ret && (best == nil || co.ret < best.ret) {
				best = co
			}
		}
		if best == nil {
			bad("a reset hook was called although no reset was in progress")
			return
		}
		best.at = seq
		order = append(order, best)
		for _, co := range cops {
			if n := len(co.res.Facts); n > 0 && co.res.Facts[0].Seq < seq && seq < co.res.Facts[n-1].Seq {
				c.Violate([]string{"C10", "C11"}, fmt.Sprintf("a reset hook was called during %s", co.op))
				return
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].at < order[j].at })

	// Calls belong to the operation that was in progress.
	for _, call := range calls {
		k := sort.Search(len(order), func(i int) bool { return order[i].at > call.Begin }) - 1
		if k < 0 || call.Begin > order[k].ret {
			bad("%s.%s() was called while no operation was in progress", call.H.Name, call.Method)
			return
		}
		co := order[k]
		if k+1 < len(order) && (call.End == 0 || call.End > order[k+1].at) {
			bad("%s.%s(), called by %s, had not returned when %s began", call.H.Name, call.Method, co.op, order[k+1].op)
			return
		}
		co.res.Calls = append(co.res.Calls, call)
	}
	for _, co := range cops {
		if co.at == 0 {
			// never started
			switch {
			case !co.op.Cancel && co.op.Kind != "bad":
				bad("%s returned (%v) without being performed", co.op, co.res.Err)
				return
			case co.op.Cancel && !errors.Is(co.res.Err, co.op.ctxErr()):
				bad("%s was canceled before it began but returned %v", co.op, co.res.Err)
				return
			}
			order = append(order, co)
		}
	}

	// Judge the witness order using the model.
	var found []string
	s := NewSim(c, w)
	for _, co := range order {
		s.checkContexts(co.res)
	}
	s.sink = func(d string) { found = append(found, d) }
	s.nhooks = -1
	var text []string
	for _, co := range order {
		if co.op.Kind == "reset" {
			s.nhooks = 0
		}
		text = append(text, fmt.Sprint(co.idx))
		s.Check(co.res)
	}
	c.Log("witness order: %s", strings.Join(text, " "))
	swaps := 0
	for i := 1; i < len(order); i++ {
		if order[i].lane != order[i-1].lane {
			swaps++
		}
	}
	overlaps := 0
	for i := 1; i < len(order); i++ {
		if order[i].invoke < order[i-1].ret {
			overlaps++
		}
	}
	sig := fmt.Sprintf("lanes=%d overlapping=%d resets=%d", lanes, overlaps, min(resets, 4))
	if overlaps == 0 {
		sig = ""
	}
	c.Eval("C10", sig)
	c.Eval("C11", sig)
	if len(found) == 0 {
		return
	}

	// Only report what does not also happen when the operations are performed
	// one at a time in the same order.
	w2 := NewWorld(c.Seed, size, prof)
	w2.CDH = w.CDH
	opts2 := []engine.Option{}
	if w2.CDH {
		opts2 = append(opts2, engine.EnableProjectionCompactionDuringHandling(true))
	}
	e2, err := engine.New(w2.Config(), opts2...)
	if err != nil {
		return
	}
	w2.Rec.Take()
	s2 := NewSim(c, w2)
	again := 0
	s2.sink = func(string) { again++ }
	for _, co := range order {
		s2.Check(RunOp(w2, e2, co.op))
	}
	if again == 0 {
		bad("%s", found[0])
	}
}

func runConcOp(w *World, e *engine.Engine, co *concOp) {
	o := co.op
	res := &OpResult{Op: o}
	co.res = res
	g, cancel := o.context()
	defer cancel()
	res.Given = g
	ctx := g.ctx
	if o.Cancel {
		cancel()
	}
	opts := append(o.options(), engine.WithObserver(obsFunc(func(f fact.Fact) {
		switch f.(type) {
		case fact.DispatchCycleBegun, fact.TickCycleBegun:
			// The world's "current" operation is the one that has begun.
			w.Rec.m.Lock()
			w.now, w.cancel = o.now, cancel
			w.Rec.m.Unlock()
		}
		w.notify(f, co.idx)
	})))
	res.Others = nil
	co.invoke = w.Rec.Seq()
	defer func() { co.ret = w.Rec.Seq() }()
	defer func() {
		if res.Panicked {
			res.PanicVal = recover()
		}
	}()
	res.Panicked = true
	res.Before = time.Now()
	switch o.Kind {
	case "dispatch":
		res.Root = o.MT.Mk(o.Body.clone())
		res.Err = e.Dispatch(ctx, res.Root, opts...)
	case "tick":
		res.Err = e.Tick(ctx, opts...)
	case "reset":
		e.Reset()
	}
	res.Panicked = false
	res.After = time.Now()
}

// --- blocked operations ---

// gateApp is an application with an integration that blocks.
type gateApp struct {
	cmds    []string // commands handled
	events  []string
	ticks   int
	entered chan string
	gate    chan struct{}
}

func (a *gateApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("gate-app", uuidFor("gate"))
	c.RegisterIntegration(&gateIntg{a})
	c.RegisterProjection(&gateProj{a})
}

type gateIntg struct{ a *gateApp }

func (x *gateIntg) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("gate-integration", uuidFor("gate-i"))
	c.Routes(dogma.HandlesCommand[CmdA](), dogma.HandlesCommand[CmdB](), dogma.RecordsEvent[EvtA]())
}

func (x *gateIntg) HandleCommand(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	b := bodyOf(m)
	x.a.cmds = append(x.a.cmds, b.UID)
	if _, ok := m.(CmdB); ok {
		x.a.entered <- b.UID
		<-x.a.gate
	}
	s.RecordEvent(EvtA{EvtBase{Body{UID: b.UID + ".e"}}})
	return nil
}

type gateProj struct{ a *gateApp }

func (x *gateProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity("gate-projection", uuidFor("gate-p"))
	c.Routes(dogma.HandlesEvent[EvtA]())
}

func (x *gateProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }
func (x *gateProj) CloseResource(context.Context, []byte) error             { return nil }
func (x *gateProj) HandleEvent(_ context.Context, _, _, _ []byte, _ dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	x.a.events = append(x.a.events, bodyOf(m).UID)
	return true, nil
}
func (x *gateProj) Compact(context.Context, dogma.ProjectionCompactScope) error {
	x.a.ticks++
	return nil
}

// blocked checks how operations that are blocked behind another behave.
func blocked(c *Case) {
	rng := c.Rng
	a := &gateApp{entered: make(chan string), gate: make(chan struct{})}
	hooks := 0
	var hookDuring bool
	inside := false
	e := engine.MustNew(configkit.FromApplication(a), engine.WithResetter(func() { hooks++; hookDuring = hookDuring || inside }))
	t0 := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)

	var facts []fact.Fact // unsynchronized, on purpose
	obs := engine.WithObserver(obsFunc(func(f fact.Fact) { facts = append(facts, f) }))

	type waiter struct {
		kind   string // dispatch, tick, reset
		how    string // "", cancel, deadline, before
		uid    string
		cancel func()
		ctx    context.Context
		done   chan error
		obs    int
	}
	var ws []*waiter
	n := rng.Range(1, 6)
	for i := 0; i < n; i++ {
		w := &waiter{kind: pick(rng, []string{"dispatch", "dispatch", "tick", "reset"}), uid: fmt.Sprintf("w%d", i), done: make(chan error, 1)}
		if w.kind != "reset" {
			w.how = pick(rng, []string{"", "cancel", "cancel", "deadline", "before"})
		}
		ws = append(ws, w)
	}
	blockerDone := make(chan error, 1)
	go func() {
		blockerDone <- e.Dispatch(context.Background(), CmdB{CmdBase{Body{UID: "blocker"}}}, obs, engine.WithCurrentTime(t0))
	}()
	<-a.entered
	inside = true

	for _, w := range ws {
		w.ctx, w.cancel = context.WithCancel(context.Background())
		switch w.how {
		case "deadline":
			w.ctx, w.cancel = context.WithTimeout(context.Background(), time.Duration(rng.Intn(1500))*time.Microsecond)
		case "before":
			w.cancel()
		}
		wobs := engine.WithObserver(obsFunc(func(f fact.Fact) { w.obs++; facts = append(facts, f) }))
		go func() {
			switch w.kind {
			case "dispatch":
				w.done <- e.Dispatch(w.ctx, CmdA{CmdBase{Body{UID: w.uid}}}, wobs, engine.WithCurrentTime(t0))
			case "tick":
				w.done <- e.Tick(w.ctx, wobs, engine.WithCurrentTime(t0))
			case "reset":
				e.Reset()
				w.done <- nil
			}
		}()
		jitter(rng)
	}
	var sigs []string
	for _, w := range ws {
		if w.how == "" {
			continue
		}
		if w.how == "cancel" {
			jitter(rng)
			w.cancel()
		}
		// It must return although the gate is still closed; if it doesn't then
		// every goroutine is blocked.
		err := <-w.done
		want := context.Canceled
		if w.how == "deadline" {
			want = context.DeadlineExceeded
		}
		if !errors.Is(err, want) {
			c.Fail("a %s that was blocked behind another operation returned %v, expected %v", w.kind, err, want)
		}
		if w.obs != 0 {
			c.Fail("observers were notified of a %s that was canceled while it was blocked", w.kind)
		}
		sigs = append(sigs, w.kind+" "+w.how)
	}
	inside = false
	close(a.gate)
	if err := <-blockerDone; err != nil {
		c.Fail("the blocking operation failed: %v", err)
	}
	var want []string
	resets := 0
	for _, w := range ws {
		if w.how != "" {
			continue
		}
		if err := <-w.done; err != nil {
			c.Fail("a %s that was blocked failed: %v", w.kind, err)
		}
		switch w.kind {
		case "dispatch":
			want = append(want, w.uid)
		case "reset":
			resets++
		}
		w.cancel()
		sigs = append(sigs, w.kind+" waits")
	}
	if hooks != resets || hookDuring {
		c.Violate([]string{"C11", "C10"}, fmt.Sprintf("the reset hook was called %d times by %d resets (during another operation: %v)", hooks, resets, hookDuring))
	}
	if err := e.Dispatch(context.Background(), CmdA{CmdBase{Body{UID: "last"}}}, obs, engine.WithCurrentTime(t0)); err != nil {
		c.Fail("dispatching afterwards failed: %v", err)
	}
	want = append(want, "last", "blocker")
	sort.Strings(want)
	got := append([]string(nil), a.cmds...)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fail("the commands that were handled are %v, expected %v", got, want)
	}
	var evs []string
	for _, x := range a.cmds {
		evs = append(evs, x+".e")
	}
	if strings.Join(a.events, " ") != strings.Join(evs, " ") {
		c.Fail("the events that were handled are %v, expected %v", a.events, evs)
	}
	sort.Strings(sigs)
	c.Eval("C10", strings.Join(sigs, ","))
	if resets > 0 {
		c.Eval("C11", strings.Join(sigs, ","))
	}
	c.Log("blocked: %s", strings.Join(sigs, ", "))
}

// --- unsynchronized workload ---

// plainApp is an application whose handlers do no locking of their own, so that
// the race detector sees any operations that are not kept apart by the engine.
type plainApp struct {
	seed     uint64
	handled  map[string]int
	procs    map[string]int
	timeouts int
	compacts map[string]*int
	handles  map[string]*int
	nproj    int
	ndis     int
}

type plainRoot struct {
	n int
}

func (r *plainRoot) ApplyEvent(dogma.Event) { r.n++ }

func (a *plainApp) Configure(c dogma.ApplicationConfigurer) {
	a.handled, a.procs = map[string]int{}, map[string]int{}
	a.compacts, a.handles = map[string]*int{}, map[string]*int{}
	c.Identity("plain-app", uuidFor("plain"))
	c.RegisterAggregate(&plainAgg{a})
	c.RegisterProcess(&plainProc{a})
	c.RegisterIntegration(&plainIntg{a})
	for i := 0; i < a.nproj; i++ {
		p := &plainProj{a: a, name: fmt.Sprintf("plain-projection-%d", i), i: i}
		a.compacts[p.name], a.handles[p.name] = &p.compacted, &p.handled
		c.RegisterProjection(p)
	}
}

type plainAgg struct{ a *plainApp }

func (x *plainAgg) Configure(c dogma.AggregateConfigurer) {
	c.Identity("plain-aggregate", uuidFor("plain-a"))
	c.Routes(dogma.HandlesCommand[CmdA](), dogma.RecordsEvent[EvtA]())
}
func (x *plainAgg) New() dogma.AggregateRoot                      { return &plainRoot{} }
func (x *plainAgg) RouteCommandToInstance(m dogma.Command) string { return bodyOf(m).Inst }
func (x *plainAgg) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	b := bodyOf(m)
	x.a.handled[b.UID]++
	s.Log("handling %s", b.UID)
	for i := 0; i < b.Depth; i++ {
		s.RecordEvent(EvtA{EvtBase{Body{UID: fmt.Sprintf("%s.%d", b.UID, i), Inst: b.Inst}}})
	}
	if b.Depth == 1 && b.Inst == "i2" {
		s.Destroy()
	}
}

type plainProcRoot struct{ n int }

type plainProc struct{ a *plainApp }

func (x *plainProc) Configure(c dogma.ProcessConfigurer) {
	c.Identity("plain-process", uuidFor("plain-p"))
	c.Routes(dogma.HandlesEvent[EvtA](), dogma.ExecutesCommand[CmdB](), dogma.SchedulesTimeout[TmoA]())
}
func (x *plainProc) New() dogma.ProcessRoot { return &plainProcRoot{} }
func (x *plainProc) RouteEventToInstance(_ context.Context, m dogma.Event) (string, bool, error) {
	return bodyOf(m).Inst, true, nil
}
func (x *plainProc) HandleEvent(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	b := bodyOf(m)
	x.a.procs[b.UID]++
	root := r.(*plainProcRoot)
	root.n++
	s.ExecuteCommand(CmdB{CmdBase{Body{UID: b.UID + ".c", Inst: b.Inst}}})
	s.ScheduleTimeout(TmoA{TmoBase{Body{UID: b.UID + ".t"}}}, s.RecordedAt().Add(time.Duration(root.n)*time.Minute))
	if root.n > 5 {
		s.End()
	}
	return nil
}
func (x *plainProc) HandleTimeout(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	x.a.timeouts++
	r.(*plainProcRoot).n++
	return nil
}

type plainIntg struct{ a *plainApp }

func (x *plainIntg) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("plain-integration", uuidFor("plain-i"))
	c.Routes(dogma.HandlesCommand[CmdB](), dogma.RecordsEvent[EvtB]())
}
func (x *plainIntg) HandleCommand(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	b := bodyOf(m)
	x.a.handled[b.UID]++
	s.RecordEvent(EvtB{EvtBase{Body{UID: b.UID + ".e", Inst: b.Inst}}})
	if b.Inst == "i1" {
		return errors.New("integration failure")
	}
	return nil
}

type plainProj struct {
	a         *plainApp
	name      string
	i         int
	handled   int
	compacted int
	running   bool
}

func (x *plainProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(x.name, uuidFor("plain-j", x.i))
	c.Routes(dogma.HandlesEvent[EvtA](), dogma.HandlesEvent[EvtB]())
}
func (x *plainProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }
func (x *plainProj) CloseResource(context.Context, []byte) error {
	x.handled++
	return nil
}
func (x *plainProj) HandleEvent(_ context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	rng := NewRng(x.a.seed, "h", x.name, bodyOf(m).UID)
	x.handled++
	for i := rng.Intn(3); i > 0; i-- {
		jitter(rng)
		s.Log("handling %s", bodyOf(m).UID)
	}
	if rng.P(10) {
		return false, errors.New("projection failure")
	}
	return rng.P(90), nil
}
func (x *plainProj) Compact(_ context.Context, s dogma.ProjectionCompactScope) error {
	x.running = true
	x.compacted++
	rng := NewRng(x.a.seed, "c", x.name, x.compacted)
	for i := rng.Intn(3); i > 0; i-- {
		jitter(rng)
		s.Log("compacting at %s", s.Now())
	}
	jitter(rng)
	x.running = false
	if rng.P(10) {
		return errors.New("compaction failure")
	}
	return nil
}

// plainRun performs operations using handlers and observers that do no locking.
func plainRun(c *Case, lanes int, cdh bool) {
	rng := c.Rng
	a := &plainApp{seed: c.Seed, nproj: rng.Range(1, 3)}
	cfg := configkit.FromApplication(a)
	resets := 0
	opts := []engine.Option{engine.WithResetter(func() { resets++ })}
	if cdh {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	e := engine.MustNew(cfg, opts...)
	t0 := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)

	var facts []fact.Fact
	var lines []string
	var buf fact.Buffer
	observer := obsFunc(func(f fact.Fact) { facts = append(facts, f) })
	logger := fact.NewLogger(func(s string) { lines = append(lines, s) })

	type step struct {
		kind  string
		body  Body
		delta time.Duration
		wait  int
	}
	wantReset := 0
	var want []string
	plans := make([][]step, lanes)
	for l := range plans {
		for i := rng.Range(3, 8); i > 0; i-- {
			s := step{kind: pick(rng, []string{"dispatch", "dispatch", "dispatch", "tick", "reset"}), delta: pick(rng, opDeltas), wait: rng.Intn(3)}
			if lanes == 1 && s.kind == "reset" {
				s.kind = "tick"
			}
			s.body = Body{UID: fmt.Sprintf("x%d-%d", l, i), Inst: fmt.Sprintf("i%d", rng.Intn(3)), Depth: rng.Intn(4)}
			switch s.kind {
			case "reset":
				wantReset++
			case "dispatch":
				want = append(want, s.body.UID)
			}
			plans[l] = append(plans[l], s)
		}
	}
	var wg sync.WaitGroup
	for l := range plans {
		lr := NewRng(c.Seed, "plain-lane", l)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range plans[l] {
				jitter(lr)
				oo := []engine.OperationOption{
					engine.WithObserver(observer), engine.WithObserver(logger), engine.WithObserver(&buf),
					engine.WithCurrentTime(t0.Add(s.delta)),
				}
				switch s.kind {
				case "dispatch":
					e.Dispatch(context.Background(), CmdA{CmdBase{s.body}}, oo...) //nolint:errcheck
				case "tick":
					e.Tick(context.Background(), oo...) //nolint:errcheck
				case "reset":
					e.Reset()
				}
				if lanes == 1 {
					// state is readable as soon as the operation returns
					for _, p := range a.compacts {
						_ = *p
					}
				}
			}
		}()
	}
	wg.Wait()

	if resets != wantReset {
		c.Violate([]string{"C10", "C11"}, fmt.Sprintf("the reset hook was called %d times by %d resets", resets, wantReset))
	}
	cycles, ends := 0, 0
	open := 0
	ids := map[string]string{}
	produced := 0
	for _, f := range facts {
		switch x := f.(type) {
		case fact.DispatchCycleBegun:
			cycles++
			open++
			if open > 1 {
				c.Violate([]string{"C10"}, "a dispatch cycle begun before another completed")
			}
			if wantReset == 0 {
				if u, ok := ids[x.Envelope.MessageID]; ok {
					c.Violate([]string{"C10", "C02"}, fmt.Sprintf("messages %s and %s share the ID %s", u, uidOf(x.Envelope), x.Envelope.MessageID))
				}
				ids[x.Envelope.MessageID] = uidOf(x.Envelope)
			}
		case fact.TickCycleBegun:
			open++
			if open > 1 {
				c.Violate([]string{"C10"}, "a tick cycle begun before another completed")
			}
		case fact.DispatchCycleCompleted:
			ends++
			open--
		case fact.TickCycleCompleted:
			open--
		case fact.EventRecordedByAggregate:
			produced++
		}
	}
	if cycles != len(want) || ends != len(want) {
		c.Fail("%d dispatches were made, but %d dispatch cycles begun and %d completed", len(want), cycles, ends)
	}
	for _, u := range want {
		if a.handled[u] != 1 {
			c.Fail("command %s was handled %d times", u, a.handled[u])
		}
	}
	if len(a.procs) != produced {
		c.Fail("%d events were recorded, but the process handled %d", produced, len(a.procs))
	}
	begun, done := 0, 0
	for _, f := range facts {
		switch f.(type) {
		case fact.ProjectionCompactionBegun:
			begun++
		case fact.ProjectionCompactionCompleted:
			done++
		}
	}
	compacted := 0
	for _, p := range a.compacts {
		compacted += *p
	}
	if begun != compacted || done != compacted {
		c.Fail("%d compactions were performed, %d reported as begun, %d as completed", compacted, begun, done)
	}
	if got := buf.Facts(); len(got) != len(facts) {
		c.Fail("a buffer observed %d facts, another observer %d", len(got), len(facts))
	}
	c.Log("plain: lanes=%d cdh=%v resets=%d dispatches=%d facts=%d lines=%d compactions=%d", lanes, cdh, resets, len(want), len(facts), len(lines), compacted)
	c.Eval(c.Prop, fmt.Sprintf("unsynchronized lanes=%d cdh=%v resets=%d compactions=%d", lanes, cdh, min(resets, 4), min(compacted/4, 12)))
}

// --- rendezvous of compaction and handling ---

// meetProj is a projection whose handling and compaction wait for each other at
// chosen points, for a bounded time unless they must both be in progress.
type meetProj struct {
	compactStarted chan struct{}
	handleStarted  chan struct{}
	order          string
	logs           [2]int
	wait           time.Duration
	errs           [2]bool
	apply          bool

	m      sync.Mutex
	events []string
}

func (x *meetProj) note(s string) {
	x.m.Lock()
	defer x.m.Unlock()
	x.events = append(x.events, s)
}

func (x *meetProj) await(ch chan struct{}) {
	if x.order == "both" {
		<-ch
		return
	}
	select {
	case <-ch:
	case <-time.After(x.wait):
	}
}

func (x *meetProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity("meet-projection", uuidFor("meet-p"))
	c.Routes(dogma.HandlesEvent[EvtA]())
}
func (x *meetProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }
func (x *meetProj) CloseResource(context.Context, []byte) error {
	x.note("close")
	return nil
}

var errMeetHandle, errMeetCompact = errors.New("failed to handle"), errors.New("failed to compact")

func (x *meetProj) HandleEvent(_ context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	close(x.handleStarted)
	if x.order == "compact first" || x.order == "both" {
		x.await(x.compactStarted)
	}
	for i := 0; i < x.logs[0]; i++ {
		s.Log("handle %d", i)
	}
	x.note("handled")
	if x.errs[0] {
		return false, errMeetHandle
	}
	return x.apply, nil
}
func (x *meetProj) Compact(_ context.Context, s dogma.ProjectionCompactScope) error {
	if x.order == "handle first" || x.order == "both" {
		x.await(x.handleStarted)
	}
	for i := 0; i < x.logs[1]; i++ {
		s.Log("compact %d", i)
		if i == 0 {
			close(x.compactStarted)
			// give handling the chance to finish while compaction is running
			time.Sleep(x.wait / 4)
		}
	}
	if x.logs[1] == 0 {
		close(x.compactStarted)
	}
	x.note("compacted")
	if x.errs[1] {
		return errMeetCompact
	}
	return nil
}

type meetApp struct{ p *meetProj }

func (a *meetApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("meet-app", uuidFor("meet"))
	c.RegisterProjection(a.p)
}

// meet forces handling and compaction to overlap while observing.
func meet(c *Case) {
	rng := c.Rng
	p := &meetProj{
		compactStarted: make(chan struct{}),
		handleStarted:  make(chan struct{}),
		order:          pick(rng, []string{"compact first", "handle first", "free"}),
		logs:           [2]int{rng.Intn(3), rng.Intn(4)},
		wait:           time.Duration(rng.Range(200, 2000)) * time.Microsecond,
		errs:           [2]bool{rng.P(25), rng.P(25)},
		apply:          rng.P(80),
	}
	if c.Idx%2000 == 5 {
		// unless both run in parallel, this never ends, and is found to be stuck
		p.order = "both"
	}
	e := engine.MustNew(configkit.FromApplication(&meetApp{p}), engine.EnableProjectionCompactionDuringHandling(true))
	var (
		m       sync.Mutex
		active  int
		overlap bool
		facts   []fact.Fact
		state   []string
	)
	obs := obsFunc(func(f fact.Fact) {
		m.Lock()
		active++
		overlap = overlap || active > 1
		facts = append(facts, f)
		m.Unlock()
		// linger, so that a concurrent notification would be seen
		switch f.(type) {
		case fact.ProjectionCompactionBegun, fact.MessageLoggedByProjection, fact.ProjectionCompactionCompleted:
			time.Sleep(50 * time.Microsecond)
		case fact.HandlingCompleted:
			p.m.Lock()
			state = append([]string(nil), p.events...)
			p.m.Unlock()
		}
		m.Lock()
		active--
		m.Unlock()
	})
	err := e.Dispatch(context.Background(), EvtA{EvtBase{Body{UID: "m"}}}, engine.WithObserver(obs))
	sig := fmt.Sprintf("rendezvous %s logs=%v errs=%v apply=%v", p.order, p.logs, p.errs, p.apply)
	c.Log("%s", sig)
	if overlap {
		c.Violate([]string{"C07"}, "an observer was notified concurrently because of compaction")
	}
	count := map[string]int{}
	for _, s := range state {
		count[s]++
	}
	wantClose := 0
	if p.apply && !p.errs[0] {
		wantClose = 1
	}
	if count["compacted"] != 1 {
		c.Violate([]string{"C07"}, fmt.Sprintf("%d compactions had finished when handling was reported as complete", count["compacted"]))
	}
	if count["handled"] != 1 || count["close"] != wantClose {
		c.Violate([]string{"C07", "C06"}, fmt.Sprintf("the event was handled %d times and the resource closed %d times", count["handled"], count["close"]))
	}
	switch {
	case p.errs[0] && !errors.Is(err, errMeetHandle):
		c.Violate([]string{"C07", "C06"}, fmt.Sprintf("the handling failed, but the operation returned %v", err))
	case p.errs[0] && errors.Is(err, errMeetCompact):
		c.Violate([]string{"C07"}, fmt.Sprintf("the compaction error was reported although handling failed: %v", err))
	case !p.errs[0] && p.errs[1] && !errors.Is(err, errMeetCompact):
		c.Violate([]string{"C07"}, fmt.Sprintf("the compaction failed, but the operation returned %v", err))
	case !p.errs[0] && !p.errs[1] && err != nil:
		c.Violate([]string{"C07"}, fmt.Sprintf("the operation failed without cause: %v", err))
	}
	// everything that compaction logs is reported between its facts
	in, n, seen := false, 0, 0
	for _, f := range facts {
		switch x := f.(type) {
		case fact.ProjectionCompactionBegun:
			in = true
			seen++
		case fact.ProjectionCompactionCompleted:
			if !in {
				c.Violate([]string{"C07"}, "compaction was reported complete before it was reported begun")
			}
			in = false
			if (x.Error != nil) != p.errs[1] {
				c.Violate([]string{"C07"}, fmt.Sprintf("compaction was reported complete with error %v", x.Error))
			}
		case fact.MessageLoggedByProjection:
			if strings.HasPrefix(x.LogFormat, "compact") {
				if !in {
					c.Violate([]string{"C07"}, "a line logged by compaction was reported outside of the compaction")
				}
				if len(x.LogArguments) != 1 || x.LogArguments[0] != n {
					c.Violate([]string{"C07"}, fmt.Sprintf("line %d logged by compaction was reported as %v", n, x.LogArguments))
				}
				n++
			}
		}
	}
	if n != p.logs[1] || seen != 1 {
		c.Violate([]string{"C07"}, fmt.Sprintf("%d of %d lines logged by compaction were reported, within %d compactions", n, p.logs[1], seen))
	}
	c.Eval("C07", sig)
}

// --- buffers ---

type bufFact struct{ p, i int }

// bufferRun uses a buffer from several goroutines.
func bufferRun(c *Case) {
	rng := c.Rng
	var b fact.Buffer
	producers, readers := rng.Range(1, 5), rng.Range(1, 4)
	per := rng.Range(5, 60)
	yield := rng.P(50)
	if rng.P(3) {
		producers, per, yield = 1, 12000, false
	}
	var wg sync.WaitGroup
	snaps := make([][][]fact.Fact, readers)
	copies := make([][][]fact.Fact, readers)
	for p := 0; p < producers; p++ {
		pr := NewRng(c.Seed, "producer", p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				b.Notify(bufFact{p, i})
				if yield {
					jitter(pr)
				}
				// what has been notified by this goroutine must be visible to it
				if i%7 == 0 && i < 60 || i%1000 == 0 {
					found := false
					for _, f := range b.Facts() {
						found = found || f == (bufFact{p, i})
					}
					if !found {
						c.Violate([]string{"C12"}, "a fact is missing from a buffer although it was notified earlier")
					}
				}
			}
		}()
	}
	for r := 0; r < readers; r++ {
		rr := NewRng(c.Seed, "reader", r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				s := b.Facts()
				snaps[r] = append(snaps[r], s)
				copies[r] = append(copies[r], append([]fact.Fact(nil), s...))
				if rr.P(10) && len(s) > 0 {
					// the copy belongs to the caller
					s2 := b.Facts()
					s2[0] = bufFact{-1, -1}
				}
				jitter(rr)
			}
		}()
	}
	wg.Wait()
	final := b.Facts()
	if len(final) != producers*per {
		c.Violate([]string{"C12"}, fmt.Sprintf("a buffer holds %d facts, but %d were notified", len(final), producers*per))
	}
	next := make([]int, producers)
	for _, f := range final {
		x, ok := f.(bufFact)
		if !ok || x.p < 0 || x.i != next[x.p] {
			c.Violate([]string{"C12"}, fmt.Sprintf("a buffer holds %v out of order", f))
			break
		}
		next[x.p]++
	}
	for r := range snaps {
		last := 0
		for i, s := range snaps[r] {
			if len(s) < last {
				c.Violate([]string{"C12"}, "a buffer lost facts")
			}
			last = len(s)
			for j := range s {
				if s[j] != copies[r][i][j] {
					c.Violate([]string{"C12"}, "a copy handed out by a buffer was altered later")
					break
				}
				if j < len(final) && s[j] != final[j] {
					c.Violate([]string{"C12"}, "a buffer re-ordered its facts")
					break
				}
			}
		}
	}
	// a copy isn't altered by facts that are notified later, even by the same goroutine
	before := b.Facts()
	saved := append([]fact.Fact(nil), before...)
	grown := append(before[:len(before):cap(before)], bufFact{-2, 0})
	b.Notify(bufFact{0, per})
	if g := b.Facts(); len(g) == 0 || g[len(g)-1] != (bufFact{0, per}) {
		c.Violate([]string{"C12"}, "appending to a copy handed out by a buffer altered the buffer")
	}
	if grown[len(grown)-1] != (bufFact{-2, 0}) {
		c.Violate([]string{"C12"}, "a copy handed out by a buffer was altered by a later fact")
	}
	for i := range saved {
		if saved[i] != before[i] {
			c.Violate([]string{"C12"}, "a copy handed out by a buffer was altered by a later fact")
			break
		}
	}
	c.Eval("C12", fmt.Sprintf("buffer producers=%d readers=%d", producers, readers))
}
