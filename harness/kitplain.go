package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// kitPlain executes commands from several goroutines within a call action, using
// handlers, observers and expectations that do no locking.
func kitPlain(c *Case) {
	r := c.Rng
	a := &plainApp{seed: c.Seed, nproj: r.Range(1, 3)}
	var facts []fact.Fact
	t := &recT{mode: "return"}
	start := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
	test := testkit.Begin(t, a,
		testkit.StartTimeAt(start),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(obsFunc(func(f fact.Fact) { facts = append(facts, f) }))),
	)
	var ice testkit.CommandExecutorInterceptor
	through := 0
	var mu sync.Mutex
	if r.P(50) {
		ice = func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
			mu.Lock()
			through++
			mu.Unlock()
			return e.ExecuteCommand(ctx, m)
		}
	}
	if r.P(60) {
		test.EnableHandlersLike("projection")
	}
	intg := r.P(30)
	if intg {
		test.EnableHandlers("plain-integration")
	}
	total, events, seen := 0, 0, 0
	var inst []string
	for round := r.Range(1, 4); round > 0; round-- {
		lanes := r.Range(2, 6)
		bodies := make([][]Body, lanes)
		n, ev := 0, 0
		for l := range bodies {
			for i := r.Range(1, 4); i > 0; i-- {
				b := Body{UID: fmt.Sprintf("r%d-%d-%d", round, l, i), Inst: fmt.Sprintf("i%d", r.Intn(3)), Depth: r.Intn(3)}
				bodies[l] = append(bodies[l], b)
				n++
				ev += b.Depth
				inst = append(inst, b.UID)
			}
		}
		errs := make([]error, lanes)
		through = 0
		var opts []testkit.CallOption
		if ice != nil {
			opts = append(opts, testkit.InterceptCommandExecutor(ice))
		}
		call := testkit.Call(func() {
			ex := test.CommandExecutor()
			var wg sync.WaitGroup
			for l := range bodies {
				rng := NewRng(c.Seed, "kit-plain", round, l)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, b := range bodies[l] {
						jitter(rng)
						if err := ex.ExecuteCommand(context.Background(), CmdA{CmdBase{b}}); err != nil {
							errs[l] = errors.Join(errs[l], err)
						}
					}
				}()
			}
			wg.Wait()
		}, opts...)
		matched := 0
		exp := testkit.AllOf(
			testkit.ToExecuteCommandType[CmdA](),
			testkit.ToExecuteCommandMatching(func(CmdA) error { matched++; return nil }),
			testkit.ToSatisfy("see every fact", func(st *testkit.SatisfyT) { seen += len(st.Facts) }),
		)
		t.events = nil
		before := len(facts)
		test.Expect(call, exp)
		for _, e := range t.events {
			if e.Kind != "log" {
				c.Fail("the test failed: %s %v", e, errors.Join(errs...))
				return
			}
		}
		total += n
		events += ev
		dispatched := 0
		for _, f := range facts[before:] {
			if x, ok := f.(fact.DispatchCycleBegun); ok {
				dispatched++
				if !x.EngineTime.Equal(start) {
					c.Violate([]string{"C19", "C20"}, fmt.Sprintf("a command was executed at %s, the clock is at %s", x.EngineTime, start))
				}
			}
		}
		if dispatched != n || matched > n || matched == 0 {
			c.Fail("%d commands were executed, %d were dispatched, %d were seen by an expectation", n, dispatched, matched)
		}
		if ice != nil && through != n {
			c.Fail("%d commands were executed, %d were intercepted", n, through)
		}
		if !intg && errors.Join(errs...) != nil && a.nproj == 0 {
			c.Fail("executing commands failed: %v", errors.Join(errs...))
		}
		c.Eval("C20", fmt.Sprintf("unsynchronized lanes=%d commands=%d intercepted=%v", lanes, n, ice != nil))
	}
	if seen != len(facts) {
		c.Fail("an expectation was given %d facts, an observer %d", seen, len(facts))
	}
	handled := 0
	for _, u := range inst {
		handled += a.handled[u]
		if a.handled[u] != 1 {
			c.Fail("command %s was handled %d times", u, a.handled[u])
		}
	}
	if len(a.procs) != events {
		c.Fail("%d events were recorded, the process handled %d", events, len(a.procs))
	}
	c.Log("plain test: %d commands, %d events, %d facts", total, events, len(facts))
}

// kitStraggle executes commands from goroutines that keep going when the call
// action that started them ends, using handlers, observers and expectations that
// do no locking.
func kitStraggle(c *Case) {
	r := c.Rng
	a := &plainApp{seed: c.Seed, nproj: r.Intn(2)}
	var facts []fact.Fact
	t := &recT{mode: "return"}
	test := testkit.Begin(t, a,
		testkit.StartTimeAt(time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(obsFunc(func(f fact.Fact) { facts = append(facts, f) }))),
	)
	ex := test.CommandExecutor()
	for round := r.Range(1, 3); round > 0; round-- {
		lanes := r.Range(1, 4)
		executed := make([][]string, lanes)
		var wg sync.WaitGroup
		first := make(chan struct{}, lanes)
		rng := NewRng(c.Seed, "straggle", round)
		var opts []testkit.CallOption
		if r.P(40) {
			opts = append(opts, testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
				return e.ExecuteCommand(ctx, m)
			}))
		}
		call := testkit.Call(func() {
			for l := 0; l < lanes; l++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					rng := NewRng(c.Seed, "straggle", round, l)
					for i := 0; i < 300; i++ {
						u := fmt.Sprintf("s%d-%d-%d", round, l, i)
						refused := func() (refused bool) {
							defer func() { refused = recover() != nil }()
							ex.ExecuteCommand(context.Background(), CmdA{CmdBase{Body{UID: u, Inst: "i0", Depth: i % 2}}}) //nolint:errcheck
							return
						}()
						if refused {
							break
						}
						executed[l] = append(executed[l], u)
						if i == 0 {
							first <- struct{}{}
						}
						jitter(rng)
					}
				}()
			}
			<-first
			jitter(rng)
		}, opts...)
		// some keep trying from before the action until after it
		over := make(chan struct{})
		early := 0
		if r.P(60) {
			early = r.Range(1, 2)
		}
		for l := lanes; l < lanes+early; l++ {
			executed = append(executed, nil)
		}
		before := len(facts)
		for l := lanes; l < lanes+early; l++ {
			wg.Add(1)
			tried := make(chan struct{})
			go func() {
				defer wg.Done()
				rng := NewRng(c.Seed, "straggle", round, l)
				for i := 0; ; i++ {
					u := fmt.Sprintf("s%d-%d-%d", round, l, i)
					refused := func() (refused bool) {
						defer func() { refused = recover() != nil }()
						ex.ExecuteCommand(context.Background(), CmdA{CmdBase{Body{UID: u, Inst: "i0", Depth: i % 2}}}) //nolint:errcheck
						return
					}()
					if !refused {
						executed[l] = append(executed[l], u)
						jitter(rng)
					}
					if i == 0 {
						close(tried)
					}
					select {
					case <-over:
						return
					default:
					}
				}
			}()
			<-tried
		}
		seen := 0
		test.Expect(call, testkit.AllOf(
			testkit.ToExecuteCommandType[CmdA](),
			testkit.ToSatisfy("see every fact", func(st *testkit.SatisfyT) { seen = len(st.Facts) }),
		))
		after := len(facts) - before
		close(over)
		wg.Wait()
		if len(facts)-before != after || seen != after {
			c.Fail("%d facts were notified, of which %d were by the end of the action and %d were seen by the expectation", len(facts)-before, after, seen)
		}
		n, dispatched := 0, 0
		for _, us := range executed {
			n += len(us)
			for _, u := range us {
				if a.handled[u] != 1 {
					c.Fail("command %s was handled %d times", u, a.handled[u])
				}
			}
		}
		for _, f := range facts[before:] {
			if _, ok := f.(fact.DispatchCycleBegun); ok {
				dispatched++
			}
		}
		if n != dispatched {
			c.Fail("%d commands were executed, %d were dispatched", n, dispatched)
		}
		c.Eval("C20", fmt.Sprintf("straggling lanes=%d early=%d commands=%d intercepted=%v", lanes, early, min(n, 40), len(opts) > 0))
	}
}

// runPlain runs an engine while commands are dispatched.
func runPlain(c *Case) {
	r := c.Rng
	a := &plainApp{seed: c.Seed, nproj: r.Range(0, 3)}
	var eopts []engine.Option
	if r.P(40) {
		eopts = append(eopts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	e := engine.MustNew(configkit.FromApplication(a), eopts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var facts []fact.Fact
	opts := make([]engine.OperationOption, 0, 4)
	opts = append(opts, engine.WithObserver(obsFunc(func(f fact.Fact) { facts = append(facts, f) })))
	runs, lanes := r.Range(1, 3), r.Range(1, 4)
	results := make([]error, runs)
	epoch := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
	var rg, dg sync.WaitGroup
	for i := range results {
		scale := pick(r, []float64{1, 1e6, 1e7})
		d := pick(r, []time.Duration{time.Microsecond, 50 * time.Microsecond, 300 * time.Microsecond})
		rg.Add(1)
		go func() {
			defer rg.Done()
			results[i] = engine.RunTimeScaled(ctx, e, d, scale, epoch, opts...)
		}()
	}
	var uids []string
	for l := 0; l < lanes; l++ {
		var bs []Body
		for i := r.Range(2, 8); i > 0; i-- {
			bs = append(bs, Body{UID: fmt.Sprintf("x%d-%d", l, i), Inst: fmt.Sprintf("i%d", r.Intn(3)), Depth: r.Intn(4)})
			uids = append(uids, bs[len(bs)-1].UID)
		}
		rng := NewRng(c.Seed, "run-plain", l)
		dg.Add(1)
		go func() {
			defer dg.Done()
			for _, b := range bs {
				jitter(rng)
				e.Dispatch(context.Background(), CmdA{CmdBase{b}}, opts[0], engine.WithCurrentTime(epoch)) //nolint:errcheck
			}
		}()
	}
	dg.Wait()
	cancel()
	rg.Wait()
	failed := 0
	for _, err := range results {
		switch {
		case err == nil:
			c.Fail("a run returned without an error")
		case !errors.Is(err, context.Canceled):
			failed++
		}
	}
	ticks, bad := 0, 0
	for _, f := range facts {
		if x, ok := f.(fact.TickCycleCompleted); ok {
			ticks++
			if x.Error != nil && !errors.Is(x.Error, context.Canceled) {
				bad++
			}
		}
	}
	if bad != failed {
		c.Fail("%d ticks failed, but %d runs returned their errors", bad, failed)
	}
	for _, u := range uids {
		if a.handled[u] != 1 {
			c.Fail("command %s was handled %d times", u, a.handled[u])
		}
	}
	c.Log("plain run: %d runs, %d dispatches, %d ticks, %d failed", runs, len(uids), ticks, bad)
	c.Eval("C25", fmt.Sprintf("concurrent runs=%d lanes=%d ticks=%d failed=%d", runs, lanes, min(ticks/4, 8), failed))
}

// startNow uses tests that are not given a time to start at. What is decided is
// only whether the time lies between two moments, give or take a minute.
func startNow(c *Case) {
	var times []time.Time
	obs := fact.ObserverFunc(func(f fact.Fact) {
		switch x := f.(type) {
		case fact.DispatchCycleBegun:
			times = append(times, x.EngineTime)
		case fact.TickCycleBegun:
			times = append(times, x.EngineTime)
		}
	})
	t := &recT{mode: "return"}
	opts := []testkit.TestOption{testkit.WithUnsafeOperationOptions(engine.WithObserver(obs))}
	if c.Rng.P(50) {
		opts = append(opts, testkit.WithMessageComparator(testkit.DefaultMessageComparator))
	}
	before := time.Now()
	test := testkit.Begin(t, &plainApp{seed: c.Seed, nproj: 1}, opts...)
	after := time.Now()
	clock, total := time.Time{}, time.Duration(0)
	for i, n := 0, c.Rng.Range(2, 6); i < n; i++ {
		times = nil
		var d time.Duration
		if c.Rng.P(50) {
			test.Prepare(testkit.ExecuteCommand(CmdA{CmdBase{Body{UID: fmt.Sprintf("m%d", i), Inst: "i0"}}}))
		} else {
			d = time.Duration(c.Rng.Intn(1000)) * time.Millisecond
			test.Prepare(testkit.AdvanceTime(testkit.ByDuration(d)))
		}
		if t.failed || len(times) == 0 {
			c.Fail("step %d: nothing was done: %v", i, t.events)
			return
		}
		total += d
		got := times[0].Add(-total)
		if i == 0 {
			clock = got
		}
		if got.Before(before.Add(-time.Minute)) || got.After(after.Add(time.Minute)) {
			c.Fail("a test that was begun between %s and %s has its clock start at %s", before, after, got)
			return
		}
		if !got.Equal(clock) {
			c.Fail("step %d: the clock was at %s, is at %s after advancing by %s", i, clock, got, d)
			return
		}
	}
	c.Eval("C19", "no start time")
}
