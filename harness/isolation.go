package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/testkit"
)

func init() {
	register(&Check{
		ID: "C31", Level: "exploration", Quick: 1800, Thorough: 24000, Races: true,
		Rule: "a case is a number of generated engines or tests, each judged by the sequential model while the others are used in other goroutines (what is wrong counts unless it is wrong in a process of its own, too), or actions and expectations that several tests use at once and repeatedly; non-trivial: a distinct (number of engines and tests, number of steps) or (kind of expectation, verdict, number of uses)",
		Run: func(c *Case) {
			switch {
			case c.Idx%10 == 4:
				locations(c)
			case c.Rng.P(50):
				sharedValues(c)
			default:
				sideBySide(c)
			}
		},
	})
}

// part returns a case that is one of several that make up c. It keeps its
// violations to itself.
func (c *Case) part(i int) *Case {
	p := &Case{Prop: c.Prop, Tier: c.Tier, Seed: H("part", c.Seed, i), Idx: 1, all: true}
	p.w = &worker{sigs: map[string]int{}, known: c.w.known, knownSeen: map[string]string{}, other: map[string]int{}}
	p.Rng = NewRng(p.Seed, "main")
	return p
}

// parts returns the engines and tests of a case.
func parts(seed uint64) (kinds string, run []func(*Case)) {
	r := NewRng(seed, "parts")
	run = make([]func(*Case), r.Range(2, 4))
	for i := range run {
		if r.P(50) {
			kinds += "e"
			run[i] = func(p *Case) {
				history(p, func(s *Size, f *Profile, m *OpMix) {
					trouble(p.Rng, f, m)
					m.Reset, m.Bad = 6, 3
					f.Jitter = p.Rng.P(30)
				})
			}
		} else {
			kinds += "t"
			run[i] = func(p *Case) {
				k := kitDefaults(p.Rng)
				kitTrouble(p.Rng, &k)
				k.plan.Expect = 70
				k.plan.Expects = xmix{Depth: p.Rng.Range(1, 3), Msg: 5, Leaf: 1, Sat: 2, Impossible: 5}
				k.plan.Call, k.plan.Advance, k.plan.Custom = 25, 20, 5
				if p.Rng.P(40) {
					k.conf.ice = genIcept(p.Rng, "of the test")
				}
				for n := p.Rng.Intn(3); n > 0; n-- {
					k.conf.notes = append(k.conf.notes, pick(p.Rng, []note{{"i0", "the first instance"}, {"i1", "100% the second"}, {1, "one"}}))
				}
				k.conf.cmp = pick(p.Rng, comparators)
				kit(p, k)
			}
		}
	}
	return kinds, run
}

// exitPart is the exit code of a process that uses one engine or test and finds
// something to be wrong.
const exitPart = 10

// runPart uses one of the engines or tests of a case, and nothing else.
func runPart(which, known string) int {
	var (
		seed uint64
		i    int
	)
	if _, err := fmt.Sscanf(which, "%d:%d", &seed, &i); err != nil {
		return 2
	}
	c := &Case{Prop: "C31", Seed: seed, w: &worker{known: readKnown(known)}}
	p := c.part(i)
	_, run := parts(seed)
	run[i](p)
	if p.total > 0 {
		return exitPart
	}
	return 0
}

// fineAlone returns true if nothing is wrong with an engine or test that is the
// only one in its process.
func (c *Case) fineAlone(i int) bool {
	self, err := os.Executable()
	if err != nil {
		return false
	}
	cmd := exec.Command(self, "-part", fmt.Sprintf("%d:%d", c.Seed, i), "-known", c.w.path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path=/dev/null")
	return cmd.Run() == nil
}

// sideBySide uses engines and tests at the same time. What goes wrong counts
// unless it also goes wrong in a process that does nothing else.
func sideBySide(c *Case) {
	kinds, run := parts(c.Seed)
	c.Log("side by side: %s", kinds)
	cases := make([]*Case, len(run))
	var wg sync.WaitGroup
	for i := range run {
		cases[i] = c.part(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			run[i](cases[i])
		}()
	}
	wg.Wait()
	sum := 0
	for i, p := range cases {
		sum += len(p.log)
		if p.total > 0 {
			if c.fineAlone(i) {
				for _, v := range p.viol {
					c.Fail("while others were used, %c%d: %s", kinds[i], i, v.Desc)
				}
			}
			return
		}
	}
	c.Eval("C31", fmt.Sprintf("side by side %s size=%d", kinds, sum/8))
}

// sharedStep is an action and an expectation that tests share.
type sharedStep struct {
	kind string
	act  testkit.Action
	exp  testkit.Expectation
}

// sharedValues has several tests use the same actions and expectations.
func sharedValues(c *Case) {
	start := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
	mk := func() []sharedStep {
		r := NewRng(c.Seed, "shared")
		out := make([]sharedStep, r.Range(2, 6))
		for i := range out {
			out[i] = genShared(r, i)
		}
		return out
	}
	notes := c.Rng.P(30)
	rounds := c.Rng.Range(1, 3)
	use := func(steps []sharedStep) (out []string) {
		t := &recT{mode: "return"}
		test := testkit.Begin(t, &plainApp{seed: c.Seed, nproj: 0}, testkit.StartTimeAt(start))
		if notes {
			test.Annotate("i0", "the first instance")
		}
		for round := 0; round < rounds; round++ {
			for _, s := range steps {
				t.events = nil
				test.Expect(s.act, s.exp)
				out = append(out, story(t.events))
			}
		}
		return out
	}
	steps := mk()
	n := c.Rng.Range(1, 4)
	got := make([][]string, n)
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = use(steps)
		}()
	}
	wg.Wait()
	want := make([]string, 0)
	{
		// values that are used only once set the standard
		t := &recT{mode: "return"}
		test := testkit.Begin(t, &plainApp{seed: c.Seed, nproj: 0}, testkit.StartTimeAt(start))
		if notes {
			test.Annotate("i0", "the first instance")
		}
		for round := 0; round < rounds; round++ {
			for _, s := range mk() {
				t.events = nil
				test.Expect(s.act, s.exp)
				want = append(want, story(t.events))
			}
		}
	}
	for i := range got {
		if n == 1 || c.Rng.P(30) {
			got[i] = append(got[i], use(steps)...) // once more, afterwards
		}
		for j, g := range got[i] {
			s := steps[j%len(steps)]
			if w := want[j%len(want)]; g != w {
				c.Fail("test %d of %d, use %d of a shared action and expectation (%s):\n%s\nexpected:\n%s", i, n, j, s.kind, g, w)
				return
			}
			c.Eval("C31", fmt.Sprintf("shared %s passed=%v tests=%d use=%d", s.kind, !strings.Contains(g, "failnow"), n, j/len(steps)))
		}
	}
	c.Log("shared: %d tests, %d steps, %d rounds", n, len(steps), rounds)
}

// story describes what a test logged and signalled, apart from the log of the
// engine and from the order of lines.
func story(events []tEvent) string {
	var lines []string
	for _, e := range events {
		if linePattern.MatchString(e.Text) {
			continue
		}
		for _, l := range strings.Split(e.Text, "\n") {
			lines = append(lines, e.Kind+" "+l)
		}
	}
	slices.Sort(lines)
	return strings.Join(lines, "\n")
}

// genShared generates an action and an expectation that do not refer to a test.
func genShared(r *Rng, i int) sharedStep {
	body := func() Body {
		return Body{UID: fmt.Sprintf("s%d", r.Intn(4)), Inst: fmt.Sprintf("i%d", r.Intn(3)), Depth: r.Intn(3)}
	}
	var s sharedStep
	switch r.Intn(5) {
	case 0:
		s.act = testkit.AdvanceTime(testkit.ByDuration(pick(r, []time.Duration{0, time.Minute, time.Hour})))
	case 1:
		s.act = testkit.RecordEvent(EvtA{EvtBase{body()}})
	case 2:
		s.act = testkit.Call(func() {})
	default:
		s.act = testkit.ExecuteCommand(CmdA{CmdBase{body()}})
	}
	var gen func(depth int) (testkit.Expectation, string)
	gen = func(depth int) (testkit.Expectation, string) {
		if depth > 0 && r.P(50) {
			var xs []testkit.Expectation
			name := ""
			for n := r.Range(1, 3); n > 0; n-- {
				x, k := gen(depth - 1)
				xs = append(xs, x)
				name = k
			}
			switch r.Intn(5) {
			case 0:
				return testkit.AllOf(xs...), "all"
			case 1:
				return testkit.AnyOf(xs...), "any"
			case 2:
				return testkit.NoneOf(xs...), "none"
			case 3:
				return testkit.Not(xs[0]), "not " + name
			default:
				return testkit.ToRepeatedly("try everything", len(xs), func(i int) testkit.Expectation { return xs[i] }), "repeated"
			}
		}
		want := fmt.Sprintf("s%d", r.Intn(4))
		modulus := r.Range(1, 3)
		accept := func(b Body) error {
			switch {
			case b.UID == want:
				return testkit.IgnoreMessage
			case len(b.UID)%modulus == 0:
				return errors.New("wrong length of " + b.UID)
			}
			return nil
		}
		e := body()
		e.UID += fmt.Sprintf(".%d", r.Intn(2))
		e.Depth = 0
		switch r.Intn(10) {
		case 0:
			e.UID += ".c"
			return testkit.ToExecuteCommand(CmdB{CmdBase{e}}), "command"
		case 1:
			return testkit.ToRecordEvent(EvtA{EvtBase{e}}), "event"
		case 2:
			return testkit.ToExecuteCommandType[CmdB](), "command type"
		case 3:
			return testkit.ToRecordEventType[EvtA](), "event type"
		case 4:
			return testkit.ToExecuteCommandMatching(func(m CmdB) error { return accept(bodyOf(m)) }), "command matching"
		case 5:
			return testkit.ToRecordEventMatching(func(m EvtA) error { return accept(bodyOf(m)) }), "event matching"
		case 6:
			return testkit.ToOnlyExecuteCommandsMatching(func(m CmdB) error { return accept(bodyOf(m)) }), "only commands matching"
		case 7:
			return testkit.ToOnlyRecordEventsMatching(func(m EvtA) error { return accept(bodyOf(m)) }), "only events matching"
		case 8:
			return testkit.ToRecordEventType[EvtC](), "impossible"
		default:
			return testkit.ToSatisfy("have few facts", func(t *testkit.SatisfyT) {
				t.Log("there are", len(t.Facts))
				t.Cleanup(func() { t.Log("cleaned up") })
				if len(t.Facts)%modulus == 0 {
					t.Errorf("too many: %d", len(t.Facts))
				}
			}), "satisfy"
		}
	}
	s.exp, s.kind = gen(r.Intn(3))
	return s
}

// locations looks up locations in several goroutines.
func locations(c *Case) {
	cases := make([]*Case, c.Rng.Range(2, 4))
	var wg sync.WaitGroup
	for i := range cases {
		p := c.part(i)
		cases[i] = p
		wg.Add(1)
		go func() {
			defer wg.Done()
			lookups(p)
		}()
	}
	wg.Wait()
	for i, p := range cases {
		// the same lookups, one at a time
		if q := c.part(i); p.total > 0 {
			lookups(q)
			if q.total > 0 {
				return
			}
		}
		for _, v := range p.viol {
			c.Fail("while others were used: %s", v.Desc)
		}
	}
	c.Eval("C31", fmt.Sprintf("locations in %d goroutines", len(cases)))
}

func lookups(c *Case) {
	r := c.Rng
	for range 3 {
		locCalls(c, genFrames(r, frames, 6))
		locPanics(c, genFrames(r, frames, 6), genFrames(r, "pcdmrsin", 6), genFrames(r, "pcdmsin", 6))
		locActions(c, genFrames(r, frames, 6))
		locFuncs(c, "")
	}
}
