package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// tickSeen is a tick performed by a run.
type tickSeen struct {
	from  int // sequence number
	begun time.Time
	ended time.Time
	now   time.Time // engine time
	facts []*FactRec
	calls []*Call
}

// runLoop checks a run of an engine.
func runLoop(c *Case) {
	r := c.Rng
	size, prof, mix := defaultSize, defaultProfile, defaultMix
	size.Proc, size.Proj = [2]int{0, 2}, [2]int{0, 3}
	prof.Timeout, prof.PlainErrs = 70, true
	mix.Len, mix.Tick, mix.Reset = [2]int{0, 8}, 10, 0
	switch r.Intn(5) {
	case 0:
		prof.Err, prof.CompactErr = 15, 15
	case 1:
		prof.Cancel = 4
	case 2:
		prof.Panic, prof.Offend, prof.Unexpected = 1, 1, 1
	}
	w := NewWorld(c.Seed, size, prof)
	w.CDH = r.P(30)
	sim := NewSim(c, w)
	sim.alias = map[string][]string{"C05": {"C25"}, "C07": {"C25"}, "C08": {"C25"}, "C09": {"C25"}, "C12": {"C25"}}
	var eopts []engine.Option
	if w.CDH {
		eopts = append(eopts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	e := engine.MustNew(configkit.FromApplication(&app{w}), eopts...)
	for _, o := range GenOps(w, r, mix) {
		c.Log("%s", o)
		sim.Check(RunOp(w, e, o))
	}

	// Settings of the run.
	scale := pick(r, []float64{1, 1, 0.5, 2, 60, 3600, 1e6, 1e-3, 0, math.Pi})
	epoch := w.T0.Add(pick(r, []time.Duration{0, time.Minute, time.Hour, 100 * time.Hour, -time.Hour})).In(pick(r, zones))
	plain := r.P(20)
	if plain {
		scale = 1
	}
	zero := plain || r.P(15)
	interval := pick(r, []time.Duration{time.Microsecond, 100 * time.Microsecond, time.Millisecond, 3 * time.Millisecond})
	if r.P(1) {
		interval = 0
	}
	stop := pick(r, []string{"observer", "observer", "sleep", "sleep", "deadline", "before", "first"})
	ticks := r.Range(1, 7)
	if interval == 0 {
		ticks = min(ticks, 3)
	}
	if stop == "first" {
		ticks, interval = 1, 10*time.Hour
	}
	fixed := r.P(15)
	o := &Op{Kind: "tick", Obs: 1}
	o.Opts = w.genOpts(r, 40)
	if fixed {
		o.Opts = append(o.Opts, Opt{Kind: "time", Time: epoch.Add(time.Hour)})
	}
	c.Log("run scale=%v epoch=%s zero=%v interval=%s stop=%s ticks=%d opts=%v", scale, epoch, zero, interval, stop, ticks, o.Opts)

	ctx, cancel := context.WithCancel(context.Background())
	if stop == "deadline" {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(ticks)*interval+time.Millisecond)
	}
	_, g := give(ctx, "the run")
	ctx, cancel = g.ctx, g.canceling(cancel)
	defer cancel()
	w.cancel = cancel
	w.now = epoch

	// Observe when ticks begin and end. Observers are called in sequence.
	var seen []*tickSeen
	var wg sync.WaitGroup
	watch := obsFunc(func(f fact.Fact) {
		switch x := f.(type) {
		case fact.TickCycleBegun:
			seen = append(seen, &tickSeen{begun: time.Now(), now: x.EngineTime})
			w.now = x.EngineTime
		case fact.TickCycleCompleted:
			if len(seen) == 0 {
				return
			}
			seen[len(seen)-1].ended = time.Now()
			if len(seen) >= ticks {
				switch stop {
				case "observer":
					cancel()
				case "sleep", "first":
					wg.Add(1)
					go func() {
						defer wg.Done()
						jitter(NewRng(c.Seed, "stop"))
						cancel()
					}()
				}
			}
		}
	})
	opts := append(o.options(), engine.WithObserver(watch), engine.WithObserver(w))
	spare := make([]engine.OperationOption, len(opts), len(opts)+4)
	copy(spare, opts)
	if stop == "before" {
		cancel()
	}
	if stop == "first" {
		// The first tick is not delayed by the interval, which is hours.
		t := time.AfterFunc(30*time.Second, cancel)
		defer t.Stop()
	}

	res := &OpResult{Op: o}
	before := time.Now()
	func() {
		defer func() {
			if res.Panicked {
				res.PanicVal = recover()
			}
		}()
		res.Panicked = true
		switch {
		case plain:
			res.Err = engine.Run(ctx, e, interval, spare...)
		case zero:
			res.Err = engine.RunTimeScaled(ctx, e, interval, scale, time.Time{}, spare...)
		default:
			res.Err = engine.RunTimeScaled(ctx, e, interval, scale, epoch, spare...)
		}
		res.Panicked = false
	}()
	wg.Wait()
	calls, facts := w.Rec.Take()
	c.Log("error=%v panic=%v ticks=%d", res.Err, res.PanicVal, len(seen))
	for _, x := range spare[len(opts):cap(spare)] {
		if x != nil {
			c.FailOf("C25", "the caller's options were overwritten")
		}
	}

	// Split what happened into ticks.
	of := func(seq int) *tickSeen {
		var t *tickSeen
		for _, x := range seen {
			if x.from <= seq {
				t = x
			}
		}
		return t
	}
	n := 0
	for _, f := range facts {
		if _, ok := f.F.(fact.TickCycleBegun); ok && n < len(seen) {
			seen[n].from = f.Seq
			n++
		}
	}
	if n != len(seen) {
		c.FailOf("C25", "one observer saw %d ticks, another %d", len(seen), n)
		return
	}
	for _, f := range facts {
		t := of(f.Seq)
		if t == nil {
			c.FailOf("C25", "%s was notified outside of any tick", viewFact(f.F))
			return
		}
		t.facts = append(t.facts, f)
	}
	for _, x := range calls {
		t := of(x.Begin)
		if t == nil {
			c.FailOf("C25", "%s.%s() was called outside of any tick", x.H.Name, x.Method)
			return
		}
		t.calls = append(t.calls, x)
	}

	// Engine time. The run began between the call and the first tick.
	if zero {
		epoch = time.Time{}
	}
	for i, t := range seen {
		if fixed {
			if !t.now.Equal(o.Opts[len(o.Opts)-1].Time) {
				c.FailOf("C25", "tick %d was at %s although the caller's options say otherwise", i, t.now)
			}
			c.Eval("C25", fmt.Sprintf("overridden time scale=%v", scale))
			continue
		}
		lo, hi := time.Duration(0), t.begun.Sub(before)
		if i > 0 {
			lo = seen[i-1].ended.Sub(seen[0].begun)
		}
		from, to := epoch, epoch
		if zero {
			from, to = before, seen[0].begun
		}
		earliest := from.Add(times(lo, scale)).Add(-time.Microsecond)
		latest := to.Add(times(hi, scale)).Add(time.Microsecond)
		if t.now.Before(earliest) || t.now.After(latest) {
			c.FailOf("C25", "tick %d was at %s, but must have been between %s and %s (scale %v)", i, t.now, earliest, latest, scale)
		}
		if i > 0 && t.now.Before(seen[i-1].now) {
			c.FailOf("C25", "tick %d was at %s, after one at %s", i, t.now, seen[i-1].now)
		}
		c.Eval("C25", fmt.Sprintf("tick %d scale=%v zero=%v calls=%d", min(i, 4), scale, zero, min(len(t.calls), 5)))
	}
	if n := len(seen); n > 1 && interval > 0 {
		if d := seen[n-1].begun.Sub(seen[0].begun); d < time.Duration(n-1)*interval/2 {
			c.FailOf("C25", "%d ticks were performed within %s, the interval is %s", n, d, interval)
		}
	}

	// Each tick is checked against the model.
	ctxErr := context.Canceled
	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
		ctxErr = context.DeadlineExceeded
	}
	// If the run is stopped from elsewhere, how far the last tick got is unknown.
	async := stop == "deadline" || stop == "sleep"
	for i, t := range seen {
		x := &Op{Kind: "tick", Obs: 1}
		x.Opts = append(append([]Opt(nil), o.Opts...), Opt{Kind: "time", Time: t.now})
		x.resolve()
		or := &OpResult{Op: x, Calls: t.calls, Facts: t.facts, Given: g}
		last := i == len(seen)-1
		canceled := false
		for _, k := range t.calls {
			canceled = canceled || k.Canceled
		}
		if last {
			or.Panicked, or.PanicVal = res.Panicked, res.PanicVal
			if t.ended.IsZero() || canceled || !errors.Is(res.Err, ctxErr) {
				or.Err = res.Err
			}
		}
		if last && async {
			break
		}
		exp := sim.Check(or)
		if !last && (len(exp.errs) > 0 || exp.canceled) {
			c.FailOf("C25", "another tick was performed after tick %d, which failed (%v) or was canceled", i, exp.errs)
		}
		if last && len(exp.errs) == 0 && !exp.panicked && !exp.canceled && len(seen) < ticks {
			c.FailOf("C25", "the run ended after %d ticks without cause (error %v)", len(seen), res.Err)
		}
	}
	if stop == "first" && len(seen) == 0 {
		c.FailOf("C25", "no tick was performed at the start of the run")
	}
	if !async && len(seen) > ticks {
		c.FailOf("C25", "%d ticks were performed, although the context was canceled after %d", len(seen), ticks)
	}
	if stop == "before" && len(calls) > 0 {
		c.FailOf("C25", "%s.%s() was called although the context was canceled", calls[0].H.Name, calls[0].Method)
	}

	// The result.
	why := "canceled"
	switch {
	case res.Panicked:
		why = "panic"
	case res.Err == nil:
		why = "nil"
		c.FailOf("C25", "the run returned without an error")
	case errors.Is(res.Err, ctxErr):
		if ctx.Err() == nil {
			c.FailOf("C25", "the run returned %v, but the context is not canceled", res.Err)
		}
	case len(seen) == 0:
		why = "other"
		c.FailOf("C25", "the run returned %v without any tick", res.Err)
	default:
		why = "failed"
		t := seen[len(seen)-1]
		found := false
		for _, k := range t.calls {
			if k.Err != nil && errors.Is(res.Err, k.Err) {
				found = true
			}
		}
		if !found {
			c.FailOf("C25", "the run returned %v, which is not the error of the last tick", res.Err)
		}
	}
	if why != "panic" && stop != "deadline" && len(seen) == ticks && why == "canceled" && ctx.Err() == nil {
		c.FailOf("C25", "the run ended with %v before the context was canceled", res.Err)
	}
	c.Eval("C25", fmt.Sprintf("%s stop=%s after=%d interval=%s", why, stop, min(len(seen), 8), interval))
}

func times(d time.Duration, f float64) time.Duration { return time.Duration(float64(d) * f) }

func init() {
	register(&Check{
		ID: "C25", Level: "exploration", Quick: 14000, Thorough: 150000, Races: true,
		Rule: "a case is a generated application and history, followed by a run of the engine; the engine time of each tick must lie between bounds that follow from the clock readings before and after it, and each tick is checked against the sequential model; in some cases commands are dispatched during runs, using handlers and observers that do no locking; non-trivial: a distinct (tick, scale, epoch, number of calls), or a distinct (result, way of stopping, number of ticks, interval)",
		Run: func(c *Case) {
			if c.Rng.P(15) {
				runPlain(c)
				return
			}
			runLoop(c)
		},
	})
}
