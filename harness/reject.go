package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
)

// maker is a use of a function that builds part of a test.
type maker struct {
	fn  string // name of the function
	arg string
	f   func() any
	bad bool
}

// makers returns uses of the functions that build actions and expectations, both
// with arguments that are acceptable and with ones that aren't.
func makers(r *Rng) []maker {
	bad := Body{UID: "bad", Bad: pick(r, []string{"invalid", "100% invalid", " "})}
	good := Body{UID: "good", Inst: "i0"}
	neg := -pick(r, []time.Duration{1, time.Millisecond, time.Hour, 1<<63 - 1})
	pos := pick(r, []time.Duration{0, 1, time.Hour, 1<<63 - 1})
	desc := pick(r, []string{" ", "x", "do something", "%s"})
	n := pick(r, []int{0, -1, -100})
	some := testkit.ToSatisfy("x", func(*testkit.SatisfyT) {})
	list := []testkit.Expectation{some, some, some}[:r.Range(1, 3)]
	var ms []maker
	add := func(fn, arg string, bad bool, f func() any) { ms = append(ms, maker{fn, arg, f, bad}) }

	add("ExecuteCommand", "nil", true, func() any { return testkit.ExecuteCommand(nil) })
	add("RecordEvent", "nil", true, func() any { return testkit.RecordEvent(nil) })
	add("ToExecuteCommand", "nil", true, func() any { return testkit.ToExecuteCommand(nil) })
	add("ToRecordEvent", "nil", true, func() any { return testkit.ToRecordEvent(nil) })
	add("ToExecuteCommandOfType", "nil", true, func() any { return testkit.ToExecuteCommandOfType(nil) })
	add("ToRecordEventOfType", "nil", true, func() any { return testkit.ToRecordEventOfType(nil) })

	c, e := pick(r, commandTypes), pick(r, eventTypes)
	for c.Proto {
		c = pick(r, commandTypes)
	}
	for e.Proto {
		e = pick(r, eventTypes)
	}
	for _, b := range []Body{bad, good} {
		inv, word := b.Bad != "", "valid "
		if inv {
			word = "invalid "
		}
		cm, em := c.Mk(b).(dogma.Command), e.Mk(b).(dogma.Event)
		add("ExecuteCommand", word+c.Name, inv, func() any { return testkit.ExecuteCommand(cm) })
		add("RecordEvent", word+e.Name, inv, func() any { return testkit.RecordEvent(em) })
		add("ToExecuteCommand", word+c.Name, inv, func() any { return testkit.ToExecuteCommand(cm) })
		add("ToRecordEvent", word+e.Name, inv, func() any { return testkit.ToRecordEvent(em) })
	}
	cm, em := c.Mk(good).(dogma.Command), e.Mk(good).(dogma.Event)
	add("ToExecuteCommandOfType", "valid", false, func() any { return testkit.ToExecuteCommandOfType(cm) })
	add("ToRecordEventOfType", "valid", false, func() any { return testkit.ToRecordEventOfType(em) })
	add("ToExecuteCommandType", "valid", false, c.expType)
	add("ToRecordEventType", "valid", false, e.expType)

	add("AdvanceTime", "nil", true, func() any { return testkit.AdvanceTime(nil) })
	add("AdvanceTime", "valid", false, func() any { return testkit.AdvanceTime(testkit.ToTime(time.Time{})) })
	add("ByDuration", "negative", true, func() any { return testkit.ByDuration(neg) })
	add("ByDuration", fmt.Sprint("positive ", pos > 0), false, func() any { return testkit.ByDuration(pos) })
	add("Call", "nil", true, func() any { return testkit.Call(nil) })
	add("Call", "valid", false, func() any { return testkit.Call(func() {}) })
	add("InterceptCommandExecutor", "nil", true, func() any { return testkit.InterceptCommandExecutor(nil) })
	add("InterceptCommandExecutor", "valid", false, func() any {
		return testkit.InterceptCommandExecutor(func(context.Context, dogma.Command, dogma.CommandExecutor) error { return nil })
	})

	add("AllOf", "empty", true, func() any { return testkit.AllOf() })
	add("AnyOf", "empty", true, func() any { return testkit.AnyOf() })
	add("NoneOf", "empty", true, func() any { return testkit.NoneOf() })
	add("AllOf", "empty slice", true, func() any { return testkit.AllOf(list[:0]...) })
	add("AnyOf", "empty slice", true, func() any { return testkit.AnyOf(list[:0]...) })
	add("NoneOf", "empty slice", true, func() any { return testkit.NoneOf(list[:0]...) })
	add("AllOf", fmt.Sprint(len(list)), false, func() any { return testkit.AllOf(list...) })
	add("AnyOf", fmt.Sprint(len(list)), false, func() any { return testkit.AnyOf(list...) })
	add("NoneOf", fmt.Sprint(len(list)), false, func() any { return testkit.NoneOf(list...) })
	add("Not", "valid", false, func() any { return testkit.Not(some) })

	add("ToSatisfy", "nil", true, func() any { return testkit.ToSatisfy(desc, nil) })
	add("ToSatisfy", "no description", true, func() any { return testkit.ToSatisfy("", func(*testkit.SatisfyT) {}) })
	add("ToSatisfy", "neither", true, func() any { return testkit.ToSatisfy("", nil) })
	add("ToSatisfy", "valid", false, func() any { return testkit.ToSatisfy(desc, func(*testkit.SatisfyT) {}) })
	iter := func(int) testkit.Expectation { return some }
	add("ToRepeatedly", "nil", true, func() any { return testkit.ToRepeatedly(desc, 1, nil) })
	add("ToRepeatedly", "no description", true, func() any { return testkit.ToRepeatedly("", 1, iter) })
	add("ToRepeatedly", "no iterations", true, func() any { return testkit.ToRepeatedly(desc, n, iter) })
	add("ToRepeatedly", "valid", false, func() any { return testkit.ToRepeatedly(desc, r.Range(1, 5), iter) })

	add("ToExecuteCommandMatching", "nil", true, func() any { return testkit.ToExecuteCommandMatching[CmdA](nil) })
	add("ToExecuteCommandMatching", "nil for an interface", true, func() any { return testkit.ToExecuteCommandMatching[dogma.Command](nil) })
	add("ToOnlyExecuteCommandsMatching", "nil", true, func() any { return testkit.ToOnlyExecuteCommandsMatching[*CmdGP](nil) })
	add("ToOnlyExecuteCommandsMatching", "nil for an interface", true, func() any { return testkit.ToOnlyExecuteCommandsMatching[dogma.Command](nil) })
	add("ToRecordEventMatching", "nil", true, func() any { return testkit.ToRecordEventMatching[EvtA](nil) })
	add("ToRecordEventMatching", "nil for an interface", true, func() any { return testkit.ToRecordEventMatching[dogma.Event](nil) })
	add("ToOnlyRecordEventsMatching", "nil", true, func() any { return testkit.ToOnlyRecordEventsMatching[*EvtGP](nil) })
	add("ToOnlyRecordEventsMatching", "nil for an interface", true, func() any { return testkit.ToOnlyRecordEventsMatching[dogma.Event](nil) })
	pred := func(dogma.Message) error { return nil }
	add("ToExecuteCommandMatching", "valid", false, func() any { return c.Match(pred) })
	add("ToOnlyExecuteCommandsMatching", "valid", false, func() any { return c.Only(pred) })
	add("ToRecordEventMatching", "valid", false, func() any { return e.Match(pred) })
	add("ToOnlyRecordEventsMatching", "valid", false, func() any { return e.Only(pred) })
	return ms
}

func (t *MT) expType() any { return t.ExpType() }

// checkMakers checks which arguments are rejected.
func checkMakers(c *Case) {
	ms := makers(c.Rng)
	for _, m := range shuffled(c.Rng, ms) {
		var out, pv any
		panicked := true
		func() {
			defer func() {
				if panicked {
					pv = recover()
				}
			}()
			out = m.f()
			panicked = false
		}()
		c.Log("%s(%s): panic %v", m.fn, m.arg, pv)
		c.Eval("C14", fmt.Sprintf("%s(%s)", m.fn, m.arg))
		text := fmt.Sprint(pv)
		switch {
		case panicked != m.bad:
			c.Fail("%s(%s): panicked=%v (%v), expected %v", m.fn, m.arg, panicked, pv, m.bad)
		case !panicked && out == nil:
			c.Fail("%s(%s) returned nil", m.fn, m.arg)
		case panicked && !named(text, m.fn):
			c.Fail("%s(%s): the text %q does not name the function", m.fn, m.arg, text)
		}
	}
}

// named returns true if text contains fn as a word.
func named(text, fn string) bool {
	word := func(b byte) bool {
		return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
	}
	for at := 0; ; {
		i := strings.Index(text[at:], fn)
		if i < 0 {
			return false
		}
		i += at
		j := i + len(fn)
		if (i == 0 || !word(text[i-1])) && (j == len(text) || !word(text[j])) {
			return true
		}
		at = i + 1
	}
}

func init() {
	register(&Check{
		ID: "C14", Level: "exploration", Quick: 7000, Thorough: 60000,
		Rule: histRule + "many operations must be rejected; some cases use generated tests with actions that must be rejected, or functions that build actions and expectations with generated arguments; non-trivial: a distinct (reason for rejection, kind of message, prior state), or function and argument",
		Run: func(c *Case) {
			r := c.Rng
			switch {
			case r.P(10):
				checkMakers(c)
			case r.P(35):
				k := kitDefaults(r)
				kitTrouble(r, &k)
				k.plan.Unknown, k.plan.Unrouted, k.plan.Expect = 30, 20, 30
				k.plan.Advance, k.plan.Call = 15, 10
				kit(c, k)
			default:
				history(c, func(s *Size, p *Profile, m *OpMix) {
					trouble(r, p, m)
					m.Bad, m.Reset, m.Len = pick(r, []int{15, 40}), 2, [2]int{8, 24}
					p.Timeout = 60
				})
			}
		},
	})
}
