package main

import (
	"errors"
	"fmt"
	"regexp"
	"time"

	"github.com/dogmatiq/enginekit/message"
)

// step is a step of a generated test.
type step struct {
	Sels    []sel
	Outside bool
	Act     *actSpec
	Exp     *xspec
}

// planMix shapes generated tests.
type planMix struct {
	Len      [2]int
	Advance  int // percentages of actions
	Call     int
	Custom   int
	Scope    int // dispatches performed by custom actions
	End      int // tests whose context is canceled part-way
	Unknown  int
	Unrouted int
	Reverse  int // percentage of time advances that go backwards
	Fault    int // percentage of custom actions and calls that fail or panic
	Icept    int // percentage of calls that have their own interceptor
	Lanes    int // percentage of calls that use several goroutines
	Cancel   int // percentage of executed commands with a canceled context
	Inside   int // percentage of calls to handlers that cancel the context
	Recover  int // percentage of executed commands with code that recovers from panics
	Sel      int // percentage of steps that change the selection of handlers
	BadSel   int // percentage of selections that are rejected
	Outside  int // percentage of steps before which the executor is used
	Multi    int // percentage of preparations that have several actions
	Expect   int // percentage of steps that have an expectation
	Expects  xmix
}

// xmix shapes generated expectations.
type xmix struct {
	Depth      int
	Msg        int // weights of the kinds of leaf
	Leaf       int
	Sat        int
	Impossible int // percentage of message expectations that can never be met
	Err        int // percentage of leaves that can not be evaluated
	SatPanic   int // percentage of functions that panic
	NilRepeat  int
	Predicates bool // mostly use predicates
}

var defaultPlan = planMix{
	Len:     [2]int{5, 14},
	Advance: 25, Call: 20, Unknown: 1, Custom: 2, Scope: 6, End: 3, Reverse: 8, Fault: 20,
	Icept: 15, Lanes: 0, Cancel: 2, Recover: 50, Sel: 15, BadSel: 5, Outside: 3, Expect: 60, Multi: 25,
	Expects: xmix{Depth: 2, Msg: 6, Leaf: 1, Sat: 1},
}

// genPlan generates a test, without expectations.
func genPlan(w *World, rng *Rng, mix planMix, start time.Time) []*step {
	var steps []*step
	clock := start
	consumed := w.consumed()
	var cmds, unknown, unrouted []*MT
	for _, t := range consumed {
		if t.Kind == message.CommandKind {
			cmds = append(cmds, t)
		}
	}
	for _, s := range [][]*MT{commandTypes, eventTypes, {alienCommand, alienEvent}} {
		for _, t := range s {
			c, p, unsure := w.usage(t)
			switch {
			case unsure || c:
			case p:
				unrouted = append(unrouted, t)
			default:
				unknown = append(unknown, t)
			}
		}
	}
	body := func(uid string) Body {
		b := Body{UID: uid, Text: w.text(rng)}
		b.Inst = w.inst(rng, b)
		for n := rng.Intn(3); n > 0; n-- {
			b.Nums = append(b.Nums, rng.Intn(100))
		}
		return b
	}
	for i, n := 0, rng.Range(mix.Len[0], mix.Len[1]); i < n; i++ {
		st := &step{}
		uid := fmt.Sprintf("m%d", i)
		for rng.P(mix.Sel) {
			st.Sels = append(st.Sels, w.genSel(rng, mix.BadSel))
		}
		st.Outside = rng.P(mix.Outside)
		a := &actSpec{}
		switch {
		case rng.P(mix.Advance):
			a.Kind = "advance"
			a.Adj = pick(rng, []string{"by", "to", "custom"})
			a.D = pick(rng, opDeltas)
			if rng.P(5) {
				a.D = pick(rng, []time.Duration{1000000 * time.Hour, 24 * time.Hour * 366, 1})
			}
			if rng.P(mix.Reverse) {
				a.D = -pick(rng, []time.Duration{1, time.Second, time.Hour, 100 * time.Hour})
				a.Adj = pick(rng, []string{"to", "custom"})
			}
			a.To = clock.Add(a.D).In(pick(rng, zones))
			if a.D >= 0 {
				clock = clock.Add(a.D)
			}
		case rng.P(mix.Call):
			a.Kind = "call"
			a.Lanes = 1
			a.Panic = rng.P(mix.Fault)
			k := rng.Intn(4)
			if rng.P(mix.Lanes) {
				a.Lanes = rng.Range(2, 4)
				k = rng.Range(a.Lanes, 2*a.Lanes)
			}
			for j := 0; j < k && len(cmds) > 0; j++ {
				c := &callSpec{MT: pick(rng, cmds), Body: body(fmt.Sprintf("%s_%d", uid, j)), Lane: j % a.Lanes}
				c.Cancel = rng.P(mix.Cancel)
				c.Limit = rng.P(30)
				c.Recover = rng.P(mix.Recover)
				a.Calls = append(a.Calls, c)
			}
			if len(a.Calls) == 0 {
				a.Lanes = 1
			}
			if rng.P(mix.Icept) {
				a.Icept = genIcept(rng, "of "+uid)
			}
		case rng.P(mix.Scope / 2):
			a.Kind = "multi"
			a.Count = rng.P(40)
			for n := rng.Range(1, 4); n > 0; n-- {
				if x := (&actSpec{Kind: "tick"}); rng.P(35) {
					a.Subs = append(a.Subs, x)
				} else {
					x.Kind, x.MT, x.Body = "dispatch", pick(rng, consumed), body(fmt.Sprintf("%s_%d", uid, n))
					a.Subs = append(a.Subs, x)
				}
			}
		case rng.P(mix.Custom):
			a.Kind = "custom"
			if rng.P(mix.Fault) {
				a.Panic = rng.P(50)
				a.Err = errors.New("failure of " + uid)
			}
		case rng.P(mix.Unknown) && len(unknown) > 0:
			a.Kind = "unknown"
			a.MT, a.Body = pick(rng, unknown), body(uid)
		case rng.P(mix.Unrouted) && len(unrouted) > 0:
			a.Kind = "unconsumed"
			a.MT, a.Body = pick(rng, unrouted), body(uid)
		default:
			a.Kind = "dispatch"
			a.MT, a.Body = pick(rng, consumed), body(uid)
			a.Scope = rng.P(mix.Scope)
			a.Count = a.Scope && rng.P(40)
		}
		st.Act = a
		steps = append(steps, st)
	}
	return steps
}

func genIcept(rng *Rng, name string) *icept {
	return &icept{
		Name: "interceptor " + name,
		Kind: pick(rng, []string{"pass", "pass", "drop", "fail", "subst", "double", "panic"}),
		Err:  errors.New("failure of interceptor " + name),
	}
}

var patterns = []string{"^alpha", "alpha", "-process-", "-aggregate-", "-integration-", "-projection-", `\d$`, "^(beta|gamma)", "^alpha-", "0|1", "e", "", "^omega.*[02468]$", "t-p", "h", "^hx-1$", "(?i)^hx-1$", "^h.x-1$", "^[^h]"}

// genSel generates a selection of handlers.
func (w *World) genSel(rng *Rng, bad int) sel {
	x := sel{On: rng.P(60), Like: rng.P(50)}
	for n := rng.Range(1, 3); n > 0; n-- {
		switch {
		case x.Like && rng.P(15):
			x.Args = append(x.Args, "^"+regexp.QuoteMeta(pick(rng, w.Specs).Name)+"$")
		case x.Like:
			x.Args = append(x.Args, pick(rng, patterns))
		default:
			h := pick(rng, w.Specs)
			if h.Disabled && x.On {
				continue
			}
			x.Args = append(x.Args, h.Name)
		}
	}
	if rng.P(bad) {
		b := pick(rng, []string{"nobody", "^nobody$", w.Specs[0].Name + "x"})
		for _, h := range w.Specs {
			if h.Disabled && rng.P(40) {
				b = h.Name
			}
		}
		if x.Like {
			k := rng.Intn(len(x.Args) + 1)
			x.Args = append(x.Args[:k:k], append([]string{b}, x.Args[k:]...)...)
		} else {
			// whether names that precede a bad one are applied is unspecified
			x.Args = append([]string{b}, x.Args...)
		}
	}
	return x
}

// xgen generates expectations.
type xgen struct {
	w     *World
	rng   *Rng
	mix   xmix
	next  int
	call  bool
	prods []*prod
}

func (g *xgen) tree(depth int) *xspec {
	g.next++
	r := g.rng
	x := &xspec{ID: g.next, Salt: r.next()}
	if depth > 1 && r.P(60) {
		x.Kind = pick(r, []string{"all", "any", "none", "not", "repeat"})
		n := r.Range(1, 4)
		if r.P(5) { // many, but simple ones
			n, depth = r.Range(8, 20), 2
		}
		if x.Kind == "not" {
			n = 1
		}
		for ; n > 0; n-- {
			if x.Kind == "repeat" && r.P(g.mix.NilRepeat) {
				x.Kids = append(x.Kids, nil)
				continue
			}
			k := g.tree(depth - 1)
			if r.P(8) {
				g.next++
				k = &xspec{ID: g.next, Kind: "watch", Kids: []*xspec{k}}
			}
			x.Kids = append(x.Kids, k)
		}
		return x
	}
	k := r.Intn(g.mix.Msg + g.mix.Leaf + g.mix.Sat)
	switch {
	case k < g.mix.Leaf:
		x.Kind = "leaf"
		x.Final = r.P(55)
		for n := r.Intn(4); n > 0; n-- {
			x.Flips = append(x.Flips, r.P(50))
		}
		if r.P(g.mix.Err) {
			x.Err = fmt.Errorf("leaf #%d can not be evaluated", x.ID)
		}
	case k < g.mix.Leaf+g.mix.Sat:
		x.Kind = "satisfy"
		x.Sat = genSat(r, x.ID, r.P(g.mix.SatPanic) && x.ID == 1)
	default:
		g.message(x)
	}
	return x
}

// message makes x an expectation about messages.
func (g *xgen) message(x *xspec) {
	r := g.rng
	x.Kind = pick(r, []string{"msg", "msg", "msg", "type", "oftype", "match", "match", "only", "only", "imatch", "ionly"})
	if g.mix.Predicates && r.P(90) {
		x.Kind = pick(r, []string{"match", "only", "imatch", "ionly"})
	}
	x.Accept = pick(r, []int{0, 10, 50, 80, 100})
	x.Ignore = pick(r, []int{0, 0, 20, 60, 100})
	if x.Accept+x.Ignore > 100 {
		x.Ignore = 100 - x.Accept
	}
	if x.Kind == "imatch" || x.Kind == "ionly" {
		x.MKind = pick(r, []message.Kind{message.CommandKind, message.EventKind})
		return
	}
	var fit, unfit []*MT
	for _, s := range [][]*MT{commandTypes, eventTypes, {alienCommand, alienEvent}} {
		for _, t := range s {
			switch g.w.possible(t, g.call) {
			case yes:
				fit = append(fit, t)
			case no:
				unfit = append(unfit, t)
			}
		}
	}
	var seen []*prod
	for _, p := range g.prods {
		if p.MT.Kind != message.TimeoutKind && g.w.possible(p.MT, g.call) == yes {
			seen = append(seen, p)
		}
	}
	switch {
	case r.P(g.mix.Impossible) || len(fit) == 0 && len(seen) == 0:
		x.MT = pick(r, unfit)
		x.Body = Body{UID: "never"}
	case len(seen) > 0 && r.P(75) || len(fit) == 0:
		p := pick(r, seen)
		x.MT, x.Body = p.MT, p.Body.clone()
		g.mutate(x)
	default:
		x.MT = pick(r, fit)
		x.Body = Body{UID: "other", Inst: "i0", Text: g.w.text(r)}
	}
}

// mutate changes the expected message, or doesn't.
func (g *xgen) mutate(x *xspec) {
	r := g.rng
	if len(x.Body.Nums) == 0 {
		x.Body.Nums = pick(r, [][]int{nil, nil, nil, {}})
	}
	if !r.P(50) {
		return
	}
	b := &x.Body
	switch r.Intn(7) {
	case 0:
		b.UID += "x"
	case 1:
		b.Inst = "other instance"
	case 2:
		b.Depth++
	case 3:
		b.Text += pick(r, []string{" ", "x", "{+", "\n"})
	case 4:
		b.Nums = append(b.Nums, 7)
	case 5:
		if n := len(b.Nums); n > 0 {
			b.Nums[n-1]++
		} else {
			b.Depth = -1
		}
	case 6:
		// another type with the same content
		var same []*MT
		for _, t := range append(append([]*MT(nil), commandTypes...), eventTypes...) {
			if t.Kind == x.MT.Kind && g.w.possible(t, g.call) == yes {
				same = append(same, t)
			}
		}
		if len(same) > 0 {
			x.MT = pick(r, same)
		}
	}
}

// kitConf describes a kind of generated test.
type kitConf struct {
	size Size
	prof Profile
	plan planMix
	conf sessionConf
}

// kit runs a generated test.
func kit(c *Case, k kitConf) *session {
	k.prof.Cancel = k.plan.Inside
	rng := c.Rng
	vary(c, &k.size, &k.prof)
	if c.marathon() {
		k.plan.Len = [2]int{60, 120}
	}
	w := NewWorld(c.Seed, k.size, k.prof)
	if len(w.consumed()) == 0 {
		return nil
	}
	start := w.T0.In(pick(rng, zones))
	k.conf.start = start
	steps := genPlan(w, rng, k.plan, start)
	for _, h := range w.Specs {
		c.Log("handler %s consumes %s produces %s timeouts %s disabled=%v", h.Name, mtNames(h.Consumes), mtNames(h.Produces), mtNames(h.Timeouts), h.Disabled)
	}

	// Find out what is likely to be produced.
	prods := make([][]*prod, len(steps))
	if k.plan.Expect > 0 {
		dry := k.conf
		dry.dry, dry.mode = true, "return"
		s := newSession(c, NewWorld(c.Seed, k.size, k.prof), dry)
		for i, st := range steps {
			for _, x := range st.Sels {
				s.selects(x)
			}
			prods[i] = s.prepare(st.Act.copy()).Prods
		}
		if s.end != nil {
			s.end()
		}
	}

	s := newSession(c, w, k.conf)
	end := -1
	if s.end != nil {
		defer s.end()
		if rng.P(k.plan.End) {
			end = rng.Intn(len(steps))
		}
	}
	for i := 0; i < len(steps); i++ {
		st := steps[i]
		if i == end {
			c.Log("canceled")
			s.end()
			s.ended = true
		}
		if a := st.Act; s.ended && a.Kind != "dispatch" && a.Kind != "custom" {
			continue // whether such actions fail is unspecified
		}
		for _, x := range st.Sels {
			c.Log("%s", x)
			s.selects(x)
		}
		if st.Outside {
			c.Log("outside")
			s.outside()
		}
		if rng.P(k.plan.Expect) {
			mix := k.plan.Expects
			g := &xgen{w: w, rng: rng, mix: mix, call: st.Act.counts(), prods: prods[i]}
			st.Exp = g.tree(rng.Range(1, mix.Depth))
			c.Log("expect %s %s", st.Act, st.Exp)
			s.expect(st.Act, st.Exp)
		} else if end < 0 && rng.P(k.plan.Multi) {
			as := []*actSpec{st.Act}
			for i+1 < len(steps) && len(steps[i+1].Sels) == 0 && !steps[i+1].Outside && rng.P(75) {
				i++
				as = append(as, steps[i].Act)
			}
			c.Log("prepare %s", as)
			s.prepareAll(as)
		} else {
			c.Log("prepare %s", st.Act)
			s.prepare(st.Act)
		}
		if c.Done() {
			break
		}
	}
	s.judgeLate()
	return s
}

// copy returns a copy of a that has not been used.
func (a *actSpec) copy() *actSpec {
	x := *a
	return &x
}

// kitTrouble makes handlers misbehave.
func kitTrouble(r *Rng, k *kitConf) {
	switch r.Intn(5) {
	case 0:
		k.prof.Err = 12
	case 1:
		k.prof.Err, k.prof.Panic, k.prof.Unexpected, k.prof.Offend = 5, 2, 2, 2
	}
}

func kitDefaults(r *Rng) kitConf {
	k := kitConf{size: defaultSize, prof: defaultProfile, plan: defaultPlan}
	k.conf.mode = pick(r, []string{"return", "panic", "goexit"})
	k.conf.bg, k.conf.limit = r.P(20), r.P(30)
	k.size.Proc = [2]int{1, 3}
	return k
}
