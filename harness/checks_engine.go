package main

import (
	"context"
	"fmt"

	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

var checks []*Check

func register(ck *Check) { checks = append(checks, ck) }

// history runs a generated history, shaped by adjust.
func history(c *Case, adjust func(*Size, *Profile, *OpMix)) *Sim {
	size, prof, mix := defaultSize, defaultProfile, defaultMix
	adjust(&size, &prof, &mix)
	vary(c, &size, &prof)
	if c.marathon() {
		mix.Len = [2]int{200, 400}
		mix.Reset = min(mix.Reset, 1)
		if prof.Long {
			mix.Reset = 0
		} else {
			prof.MaxSteps = min(prof.MaxSteps, 4)
			prof.MaxDepth = min(prof.MaxDepth, 4)
		}
		if c.Rng.P(60) {
			prof.Destroy = 0
		}
	}
	w := NewWorld(c.Seed, size, prof)
	w.CDH = c.Rng.P(30)
	w.UseLogger = c.Prop == "C26"
	ops := GenOps(w, c.Rng, mix)
	for _, h := range w.Specs {
		c.Log("handler %s consumes %s produces %s timeouts %s disabled=%v", h.Name, mtNames(h.Consumes), mtNames(h.Produces), mtNames(h.Timeouts), h.Disabled)
	}
	return RunHistory(c, w, ops)
}

// manyIDs checks that IDs are unique over the life of a busy engine.
func manyIDs(c *Case) {
	w := NewWorld(c.Seed, Size{Intg: [2]int{1, 1}}, Profile{})
	e := engine.MustNew(w.Config())
	ids := map[string]int{}
	var i int
	obs := engine.WithObserver(obsFunc(func(f fact.Fact) {
		if x, ok := f.(fact.DispatchBegun); ok {
			if n, ok := ids[x.Envelope.MessageID]; ok {
				c.Fail("messages %d and %d share the ID %q", n, i, x.Envelope.MessageID)
			}
			ids[x.Envelope.MessageID] = i
		}
	}))
	for i = 0; i < 70000 && !c.Done(); i++ {
		if err := e.Dispatch(context.Background(), w.Specs[0].Consumes[0].Mk(Body{UID: fmt.Sprint(i)}), obs); err != nil {
			c.Fail("dispatch %d failed: %s", i, err)
		}
		w.Rec.Take()
	}
	if len(ids) < i {
		c.Fail("%d messages were dispatched, but %d were seen", i, len(ids))
	}
	c.Eval("C02", "many messages")
}

// marathon returns true if the case should be a long one.
func (c *Case) marathon() bool { return c.Idx%250 == 77 }

// vary makes a few applications larger, or their handlers produce more.
func vary(c *Case, s *Size, p *Profile) {
	r := NewRng(c.Seed, "vary")
	grow := func(x *[2]int, n int) {
		if x[1] != 0 {
			x[1] = max(x[1], n)
		}
	}
	if r.P(15) {
		p.Insts = r.Range(4, 8)
	}
	if r.P(4) || c.marathon() && r.P(50) {
		p.Insts = 50
	}
	switch {
	case r.P(4):
		grow(&s.Agg, 4)
		grow(&s.Proc, 7)
		grow(&s.Intg, 4)
		grow(&s.Proj, 7)
		p.MaxDepth = min(p.MaxDepth, 3)
	case r.P(3):
		p.MaxSteps, p.MaxDepth = 30, 2
	case s.Proc[1] > 0 && p.Timeout > 0 && r.P(3):
		s.Proc[0] = max(s.Proc[0], 1)
		p.Hoard, p.Timeout, p.MaxSteps, p.MaxDepth, p.End = true, 90, 20, 3, 2
	case c.marathon() && s.Agg[1] > 0 && r.P(40):
		s.Agg[0] = max(s.Agg[0], 1)
		p.Long, p.Insts, p.Destroy, p.MaxSteps, p.MaxDepth = true, 1, 0, 8, 1
	}
}

func mtNames(ms []*MT) string {
	s := "["
	for i, m := range ms {
		if i > 0 {
			s += " "
		}
		s += m.Name
	}
	return s + "]"
}

// withinTest runs a generated test, instead of a history of operations of an
// engine.
func withinTest(c *Case, adjust func(*Size, *Profile, *OpMix)) {
	k := kitDefaults(c.Rng)
	m := defaultMix
	adjust(&k.size, &k.prof, &m)
	k.plan.Expect, k.plan.Multi = pick(c.Rng, []int{0, 30}), 10
	kit(c, k)
}

// trouble makes handlers misbehave.
func trouble(r *Rng, p *Profile, m *OpMix) {
	switch r.Intn(6) {
	case 0:
		p.Err = 12
	case 1:
		p.Err, p.Panic, p.Unexpected, p.Offend, p.Cancel = 5, 2, 2, 2, 2
	case 2:
		p.Panic, p.Unexpected, p.Offend = 3, 3, 3
	case 3:
		p.Cancel = 6
		m.Cancel = 4
	}
}

const histRule = "a case is a generated application and a history of dispatches, ticks and resets, every step of which is checked against the sequential model; "

func init() {
	reg := func(id, rule string, quick, thorough int, adjust func(c *Case, s *Size, p *Profile, m *OpMix)) {
		register(&Check{
			ID: id, Level: "exploration", Quick: quick, Thorough: thorough, Rule: histRule + rule,
			Run: func(c *Case) {
				if id == "C02" && c.Idx%4000 == 13 {
					manyIDs(c)
					return
				}
				if c.Idx%8 == 3 {
					withinTest(c, func(s *Size, p *Profile, m *OpMix) { adjust(c, s, p, m) })
					return
				}
				history(c, func(s *Size, p *Profile, m *OpMix) { adjust(c, s, p, m) })
			},
		})
	}

	reg("C01", "non-trivial: a distinct (number of recipients, depth, kind) of a delivered message",
		8000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			if r.P(30) {
				s.Proc, s.Proj = [2]int{2, 4}, [2]int{1, 3}
			}
			if r.P(20) {
				p.MaxDepth, p.MaxSteps = 7, 3
			}
		})

	reg("C02", "non-trivial: a distinct (kind, depth, producing handler type, operation) of a produced message or type of a dispatched one",
		8000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			m.Reset, m.NoTime, m.Back, m.Tick, m.Bad = 5, 10, 10, 40, 4
			p.Timeout = 60
			if r.P(30) {
				p.MaxDepth, p.MaxSteps = 9, 3
			}
		})

	reg("C03", "non-trivial: a distinct (length of history, sequence of record/destroy calls, number of instances) of a handled command",
		6000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			s.Agg, s.Proc, s.Intg, s.Proj = [2]int{1, 3}, [2]int{0, 1}, [2]int{0, 1}, [2]int{0, 1}
			p.Destroy, p.Dirt = pick(r, []int{5, 15, 35}), 15
			p.MaxSteps = r.Range(3, 6)
			p.Insts = r.Range(1, 4)
			m.Len, m.Tick, m.Opts, m.Reset = [2]int{10, 30}, 5, 5, 2
		})

	reg("C04", "non-trivial: a distinct (method, instance exists, amount of state, sequence of calls to the scope, number of instances) of a process delivery, or a distinct failure or ignored message",
		6000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			s.Agg, s.Proc, s.Intg, s.Proj = [2]int{1, 1}, [2]int{1, 4}, [2]int{0, 1}, [2]int{0, 0}
			p.End, p.Ignore, p.Timeout = pick(r, []int{5, 20, 35}), 15, 50
			p.MaxSteps = r.Range(3, 6)
			p.Insts = r.Range(1, 4)
			p.MaxDepth = r.Range(3, 5)
			m.Len, m.Tick, m.Reset = [2]int{8, 24}, 35, 2
		})

	reg("C05", "non-trivial: a distinct combination of what was scheduled, how many timeouts were due, pending, canceled or postponed, and how late they were",
		6000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			s.Agg, s.Proc, s.Intg, s.Proj = [2]int{1, 1}, [2]int{1, 3}, [2]int{0, 1}, [2]int{0, 1}
			p.End, p.Timeout, p.Insts = pick(r, []int{4, 15}), 80, r.Range(1, 4)
			p.MaxSteps = r.Range(3, 7)
			m.Len, m.Tick, m.Opts, m.Back, m.Reset = [2]int{8, 26}, 50, pick(r, []int{0, 25, 50}), 6, 2
		})

	reg("C06", "non-trivial: a distinct (version, outcome of handling, closing and compaction) of a delivery to a projection",
		9000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			s.Proj = [2]int{1, 4}
			p.HasVersion, p.NotApplied, p.CompactErr = 15, 30, 15
			if r.P(60) {
				p.Err = 25
			}
			m.Tick = 15
		})

	reg("C08", "non-trivial: a distinct (operation, handler type, reason for being skipped, number of settings), or a rejected handler name",
		8000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			trouble(r, p, m)
			s.Disabled = 25
			s.Intg, s.Proj = [2]int{0, 2}, [2]int{0, 3}
			m.Opts, m.Bad = 75, 5
			p.Timeout = 60
		})

	reg("C09", "non-trivial: a distinct combination of failing handler types and number of messages, or a distinct cancellation or panic",
		8000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			p.Err = pick(r, []int{5, 20, 40})
			p.CompactErr = 20
			if r.P(50) {
				p.Cancel, m.Cancel = 4, 3
			}
			if r.P(30) {
				p.Panic, p.Unexpected, p.Offend = 2, 2, 2
			}
			s.Proj, s.Intg = [2]int{0, 3}, [2]int{0, 3}
		})

	reg("C13", "non-trivial: a distinct (offence or panic, handler type, method, stack depth)",
		10000, 100000,
		func(c *Case, s *Size, p *Profile, m *OpMix) {
			r := c.Rng
			p.Panic, p.Unexpected, p.Offend = r.Intn(8), r.Intn(8), r.Intn(12)
			p.Timeout = 55
			if r.P(40) {
				p.Err = 6
			}
			m.Len = [2]int{10, 30}
			s.Disabled = 4
		})
}

func init() {
	register(&Check{
		ID: "C07", Level: "exploration", Quick: 10000, Thorough: 80000, Races: true,
		Rule: histRule + "some cases instead use handlers and observers that do no locking (judged by the race detector and by counts), or force compaction and handling to overlap; non-trivial: a distinct (enabled, time since last compaction, compaction during handling) of a tick, or a distinct overlap, outcome or count",
		Run: func(c *Case) {
			r := c.Rng
			switch {
			case r.P(20) || c.Idx%2000 == 5:
				meet(c)
			case r.P(20):
				plainRun(c, 1, true)
			default:
				run := func(adjust func(*Size, *Profile, *OpMix)) { history(c, adjust) }
				if c.Idx%8 == 3 {
					run = func(adjust func(*Size, *Profile, *OpMix)) { withinTest(c, adjust) }
				}
				run(func(s *Size, p *Profile, m *OpMix) {
					trouble(r, p, m)
					s.Proj, s.Proc = [2]int{1, 4}, [2]int{0, 1}
					p.CompactErr, p.CompactLogs, p.Log, p.NotApplied = 20, 3, 30, 25
					p.Jitter = r.P(40)
					if r.P(40) {
						p.Err = 15
					}
					m.Tick, m.Opts, m.Reset, m.Len = 50, 20, 3, [2]int{8, 24}
				})
			}
		},
	})
	register(&Check{
		ID: "C10", Level: "exploration", Quick: 8000, Thorough: 50000, Races: true,
		Rule: "a case is a set of concurrent dispatches, ticks and resets; either their observed order is checked against real time and the sequential model, or handlers and observers do no locking (judged by the race detector and by counts), or operations are canceled while blocked behind another; non-trivial: a distinct number of threads, overlapping operations and resets, or combination of blocked operations",
		Run: func(c *Case) {
			r := c.Rng
			switch r.Intn(4) {
			case 0:
				blocked(c)
			case 1:
				plainRun(c, r.Range(2, 8), r.P(50))
			default:
				size, prof, mix := defaultSize, defaultProfile, defaultMix
				trouble(r, &prof, &mix)
				mix.Len = [2]int{6, 24}
				mix.Reset = pick(r, []int{0, 0, 8})
				prof.MaxDepth = 3
				concurrently(c, size, prof, mix, r.Range(2, 8))
			}
		},
	})
	register(&Check{
		ID: "C12", Level: "exploration", Quick: 14000, Thorough: 100000, Races: true,
		Rule: histRule + "some cases use a fact buffer from several goroutines; non-trivial: a distinct kind of fact and operation",
		Run: func(c *Case) {
			r := c.Rng
			if r.P(4) {
				bufferRun(c)
				return
			}
			history(c, func(s *Size, p *Profile, m *OpMix) {
				trouble(r, p, m)
				p.Log, p.CompactLogs, p.CompactErr, p.Timeout = 25, 2, 10, 60
				p.HasVersion = 8
				m.MultiOb, m.Reset = 60, 2
				if r.P(30) {
					m.Opts = 50
				}
			})
		},
	})
	register(&Check{
		ID: "C26", Level: "exploration", Quick: 7000, Thorough: 50000,
		Rule: histRule + "the lines written by the logger are matched one-to-one with the facts; non-trivial: a distinct kind of fact and class of text",
		Run: func(c *Case) {
			r := c.Rng
			if r.P(25) {
				k := kitDefaults(r)
				kitTrouble(r, &k)
				k.prof.Log, k.prof.CompactLogs, k.prof.CompactErr, k.prof.Timeout = 30, 2, 20, 60
				k.prof.WildText = r.P(60)
				k.plan.Sel, k.plan.Expect, k.plan.Multi = 30, 20, 50
				kit(c, k)
				return
			}
			history(c, func(s *Size, p *Profile, m *OpMix) {
				trouble(r, p, m)
				p.Log, p.CompactLogs, p.CompactErr, p.Timeout = 30, 2, 20, 60
				p.WildText = r.P(60)
				if r.P(40) {
					p.Err = 15
				}
				if r.P(30) {
					m.Opts = 50
				}
			})
		},
	})
}

func init() {
	register(&Check{
		ID: "C11", Level: "exploration", Quick: 10000, Thorough: 80000,
		Rule: histRule + "some cases perform operations concurrently with resets, or while resets are blocked behind another operation; non-trivial: a distinct number of live instances, timeouts and compactions discarded by a reset, number of earlier resets before the first ID, or combination of concurrent operations",
		Run: func(c *Case) {
			r := c.Rng
			size, prof, mix := defaultSize, defaultProfile, defaultMix
			switch {
			case r.P(6):
				blocked(c)
			case r.P(10):
				trouble(r, &prof, &mix)
				mix.Len, mix.Reset = [2]int{6, 20}, 20
				prof.MaxDepth = 3
				concurrently(c, size, prof, mix, r.Range(2, 6))
			default:
				history(c, func(s *Size, p *Profile, m *OpMix) {
					trouble(r, p, m)
					s.Proj = [2]int{0, 3}
					p.Timeout = 60
					m.Reset, m.Len, m.Tick = 15, [2]int{10, 30}, 40
				})
			}
		},
	})
}
