package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// xspec describes an expectation.
type xspec struct {
	ID     int
	Kind   string // msg, type, oftype, match, only, imatch, ionly, satisfy, leaf, all, any, none, not, repeat, watch
	MT     *MT
	MKind  message.Kind // of interface-typed predicates
	Body   Body
	Kids   []*xspec
	Salt   uint64
	Accept int // percentage of messages accepted by a predicate
	Ignore int
	Flips  []bool // outcomes of a leaf before it is finalised
	Final  bool
	Err    error // returned when the leaf's predicate is made
	Sat    *satScript

	leaf *leafPred
	made []int
}

func (x *xspec) String() string {
	switch x.Kind {
	case "msg":
		return fmt.Sprintf("msg(%s %+v)", x.MT.Name, x.Body)
	case "type", "oftype", "match", "only":
		return fmt.Sprintf("%s#%d(%s)", x.Kind, x.ID, x.MT.Name)
	case "imatch", "ionly":
		return fmt.Sprintf("%s#%d(%s)", x.Kind, x.ID, x.MKind)
	case "leaf":
		return fmt.Sprintf("leaf#%d(%v)", x.ID, x.Final)
	case "satisfy":
		return fmt.Sprintf("satisfy#%d", x.ID)
	}
	var ks []string
	for _, k := range x.Kids {
		if k == nil {
			ks = append(ks, "<nil>")
		} else {
			ks = append(ks, k.String())
		}
	}
	return fmt.Sprintf("%s#%d(%s)", x.Kind, x.ID, strings.Join(ks, ", "))
}

func (x *xspec) walk(f func(*xspec)) {
	if x == nil {
		return
	}
	f(x)
	for _, k := range x.Kids {
		k.walk(f)
	}
}

// depth returns the height of the tree.
func (x *xspec) depth() int {
	n := 0
	for _, k := range x.Kids {
		if k != nil {
			n = max(n, k.depth())
		}
	}
	return n + 1
}

// tags returns the properties that are violated if the verdict is wrong.
func (x *xspec) tags() string {
	t := map[string]bool{}
	x.walk(func(k *xspec) {
		switch k.Kind {
		case "leaf":
			t["leaf"] = true
		case "satisfy":
			t["C21"] = true
		case "all", "any", "none", "not", "repeat", "watch":
			t["C16"] = true
		default:
			t["C15"] = true
		}
	})
	out := "C17"
	for _, k := range []string{"C15", "C16", "C21"} {
		if t[k] {
			out += " " + k
		}
	}
	return out
}

const (
	predAccept = iota
	predReject
	predIgnore
)

// decide returns what a predicate makes of a message.
func (x *xspec) decide(uid string) int {
	n := int(H(x.Salt, x.ID, uid) % 100)
	switch {
	case n < x.Accept:
		return predAccept
	case n < x.Accept+x.Ignore:
		return predIgnore
	}
	return predReject
}

func (x *xspec) pred(m dogma.Message) error {
	switch x.decide(bodyOf(m).UID) {
	case predAccept:
		return nil
	case predIgnore:
		return testkit.IgnoreMessage
	}
	return errors.New(x.objection(bodyOf(m).UID))
}

// objection returns the text of the error of a predicate that rejects a message.
func (x *xspec) objection(uid string) string {
	k := H(x.Salt, "objection", uid) % 3
	return fmt.Sprintf("rejected by predicate #%d: reason %d%s", x.ID, k, flourish(x.Salt, "objection", k))
}

// build returns the expectation.
func (x *xspec) build(s *session) testkit.Expectation {
	kids := func() []testkit.Expectation {
		var out []testkit.Expectation
		for _, k := range x.Kids {
			out = append(out, k.build(s))
		}
		return out
	}
	switch x.Kind {
	case "msg":
		m := x.MT.Mk(x.Body)
		switch p := m.(type) {
		case CmdI:
			p.ProtoReflect() // changes the internal state of the message
		case EvtI:
			p.ProtoReflect()
		}
		return x.MT.Expect(m)
	case "type":
		return x.MT.ExpType()
	case "oftype":
		return x.MT.ExpOf(x.MT.Mk(x.Body))
	case "match":
		return x.MT.Match(x.pred)
	case "only":
		return x.MT.Only(x.pred)
	case "imatch":
		if x.MKind == message.CommandKind {
			return testkit.ToExecuteCommandMatching(func(m dogma.Command) error { return x.pred(m) })
		}
		return testkit.ToRecordEventMatching(func(m dogma.Event) error { return x.pred(m) })
	case "ionly":
		if x.MKind == message.CommandKind {
			return testkit.ToOnlyExecuteCommandsMatching(func(m dogma.Command) error { return x.pred(m) })
		}
		return testkit.ToOnlyRecordEventsMatching(func(m dogma.Event) error { return x.pred(m) })
	case "satisfy":
		return testkit.ToSatisfy(x.desc(), x.Sat.fn(s))
	case "leaf":
		return &leafExp{x}
	case "watch":
		return &watchExp{x.Kids[0].build(s), s, x}
	case "all":
		return testkit.AllOf(kids()...)
	case "any":
		return testkit.AnyOf(kids()...)
	case "none":
		return testkit.NoneOf(kids()...)
	case "not":
		return testkit.Not(x.Kids[0].build(s))
	case "repeat":
		x.made = nil
		return testkit.ToRepeatedly(x.desc(), len(x.Kids), func(i int) testkit.Expectation {
			x.made = append(x.made, i)
			if i < 0 || i >= len(x.Kids) || x.Kids[i] == nil {
				return nil
			}
			return x.Kids[i].build(s)
		})
	}
	panic(x.Kind)
}

// leafExp is an instrumented expectation.
type leafExp struct{ x *xspec }

func (e *leafExp) Caption() string { return "to be " + e.x.desc() }

func (e *leafExp) Predicate(ps testkit.PredicateScope) (testkit.Predicate, error) {
	if e.x.Err != nil {
		return nil, e.x.Err
	}
	n := 1
	if e.x.leaf != nil {
		n = e.x.leaf.made + 1
	}
	e.x.leaf = &leafPred{x: e.x, made: n, scope: ps}
	return e.x.leaf, nil
}

// leafPred is an instrumented predicate. Its outcome changes with every fact
// until it is finalised.
type leafPred struct {
	x       *xspec
	made    int
	scope   testkit.PredicateScope
	facts   []fact.Fact
	done    int
	late    int // facts after it was finalised
	reports int
	treeOk  bool // what it was told about the outcome of the test
	early   bool // asked for a report before it was finalised
}

func (p *leafPred) Notify(f fact.Fact) {
	if p.done > 0 {
		p.late++
	}
	p.facts = append(p.facts, f)
}

func (p *leafPred) Ok() bool {
	if p.done > 0 || len(p.x.Flips) == 0 {
		return p.x.Final
	}
	return p.x.Flips[len(p.facts)%len(p.x.Flips)]
}

func (p *leafPred) Done() { p.done++ }

func (p *leafPred) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	p.reports++
	p.treeOk = ctx.TreeOk
	if p.done == 0 {
		p.early = true
	}
	return &testkit.Report{TreeOk: ctx.TreeOk, Ok: p.Ok(), Criteria: p.x.desc()}
}

// watchExp is an expectation that asks for the outcome of another whenever there
// is a fact.
type watchExp struct {
	testkit.Expectation
	s *session
	x *xspec
}

func (e *watchExp) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	p, err := e.Expectation.Predicate(s)
	if err != nil {
		return nil, err
	}
	p.Ok()
	return &watchPred{p, e}, nil
}

type watchPred struct {
	testkit.Predicate
	e *watchExp
}

func (p *watchPred) Notify(f fact.Fact) {
	p.Predicate.Notify(f)
	p.Ok()
}

func (p *watchPred) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	r := p.Predicate.Report(ctx)
	if r != nil {
		p.e.s.eval("C22", "report itself %s tree=%v ok=%v", p.e.x.Kids[0].Kind, ctx.TreeOk, p.Ok())
		if r.TreeOk != ctx.TreeOk {
			p.e.s.v("C22", "the report of %v says that the whole passed: %v", p.e.x.Kids[0], r.TreeOk)
		}
		if r.Ok != p.Ok() {
			p.e.s.v("C16", "the report of %v says that it passed: %v", p.e.x.Kids[0], r.Ok)
		}
	}
	return r
}

// tri is a verdict that may be unknown.
type tri int

const (
	no tri = iota
	yes
	dunno
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) String() string { return []string{"fail", "pass", "unknown"}[t] }

// same returns true if two messages of the same type are equal according to the
// test.
func (s *session) same(mt *MT, a, b Body) bool {
	if s.cmp != nil {
		return s.cmp(a, b)
	}
	if mt.Proto {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		return string(x) == string(y)
	}
	return reflect.DeepEqual(a, b)
}

// eval decides whether x is met.
func (s *session) verdict(x *xspec, call bool, prods []*prod) bool {
	of := func(f func(*prod) bool) bool {
		for _, p := range prods {
			if (call || !p.Root) && p.MT == x.MT && f(p) {
				return true
			}
		}
		return false
	}
	switch x.Kind {
	case "msg":
		return of(func(p *prod) bool { return s.same(x.MT, p.Body, x.Body) })
	case "type", "oftype":
		return of(func(*prod) bool { return true })
	case "match":
		return of(func(p *prod) bool { return x.decide(p.Body.UID) == predAccept })
	case "imatch":
		for _, p := range prods {
			if (call || !p.Root) && p.MT.Kind == x.MKind && x.decide(p.Body.UID) == predAccept {
				return true
			}
		}
		return false
	case "only", "ionly":
		for _, p := range prods {
			if p.Root && !call {
				continue
			}
			if x.Kind == "only" && (p.MT.Kind != x.MT.Kind || p.MT == x.MT && x.decide(p.Body.UID) != predReject) {
				continue
			}
			if x.Kind == "ionly" && (p.MT.Kind != x.MKind || x.decide(p.Body.UID) != predReject) {
				continue
			}
			return false
		}
		return true
	case "satisfy":
		return x.Sat.ok()
	case "leaf":
		return x.Final
	}
	n := 0
	for _, k := range x.Kids {
		if s.verdict(k, call, prods) {
			n++
		}
	}
	switch x.Kind {
	case "any":
		return n > 0
	case "none", "not":
		return n == 0
	}
	return n == len(x.Kids)
}

// decideX returns the verdict for x, if it can be known.
func (s *session) decideX(x *xspec, call bool, prods []*prod) tri {
	var sure []*prod
	for _, p := range prods {
		if p.Sure {
			sure = append(sure, p)
		}
	}
	v := s.verdict(x, call, prods)
	if len(sure) != len(prods) && v != s.verdict(x, call, sure) {
		return dunno
	}
	return triOf(v)
}

// usage of a message type by an application.
func (w *World) usage(mt *MT) (consumed, produced, unsure bool) {
	for _, h := range w.Specs {
		if h.Disabled {
			unsure = unsure || h.consumes(mt) || h.produces(mt)
			continue
		}
		consumed = consumed || h.consumes(mt)
		produced = produced || h.produces(mt)
	}
	return
}

// possible returns whether an expectation about mt can be met.
func (w *World) possible(mt *MT, call bool) tri {
	for _, h := range w.Specs {
		if h.produces(mt) || call && h.consumes(mt) {
			return yes
		}
	}
	return no
}

// refusal is a reason for an expectation to be rejected.
type refusal struct {
	x     *xspec
	err   error
	iters []int
}

// refusals returns the reasons for x to be rejected.
func (s *session) refusals(x *xspec, call bool, iters []int) []refusal {
	switch x.Kind {
	case "msg", "type", "oftype", "match", "only":
		if s.w.possible(x.MT, call) == no {
			return []refusal{{x, nil, iters}}
		}
	case "leaf":
		if x.Err != nil {
			return []refusal{{x, x.Err, iters}}
		}
	}
	var out []refusal
	for i, k := range x.Kids {
		it := iters
		if x.Kind == "repeat" {
			it = append(append([]int(nil), iters...), i)
		}
		if k == nil {
			out = append(out, refusal{x, nil, it})
			continue
		}
		out = append(out, s.refusals(k, call, it)...)
	}
	return out
}

func (r refusal) matches(e tEvent) bool {
	if r.err != nil {
		found := false
		for _, a := range e.Args {
			if err, ok := a.(error); ok && errors.Is(err, r.err) {
				found = true
			}
		}
		if !found {
			return false
		}
	} else if r.x.Kind != "repeat" && !strings.Contains(e.Text, r.x.MT.Name) {
		return false
	}
	rest := e.Text
	for _, i := range r.iters {
		want := fmt.Sprintf("iteration %d", i)
		k := strings.Index(rest, want)
		if k < 0 || len(rest) > k+len(want) && rest[k+len(want)] >= '0' && rest[k+len(want)] <= '9' {
			return false
		}
		rest = rest[k+len(want):]
	}
	return true
}

// expect performs a step of the test that has an expectation.
func (s *session) expect(a *actSpec, x *xspec) *stepRes {
	s.w.now = a.timeFor(s.clock)
	act, exp := s.build(a), x.build(s)
	var err error
	var panicked, performed bool
	var pv any
	if x.panics() {
		act = &monitored{act, func(ctx context.Context, do func() error) error {
			if s.given != nil {
				if why := see(ctx, true).is(s.given); why != "" {
					s.v("C27", "%s: the context given to the action %s", a, why)
				}
			}
			performed, panicked = true, true
			func() {
				defer func() {
					if panicked {
						pv = recover()
					}
				}()
				err = do()
				panicked = false
			}()
			if panicked {
				panic(pv)
			}
			return err
		}}
	}
	s.expected = x
	res := s.run(func() {
		if s.test.Expect(act, exp) != s.test {
			s.v("C17", "Expect() did not return the test")
		}
	})
	s.expected = nil
	call := a.counts()
	refs := s.refusals(x, call, nil)
	if performed {
		res.direct, res.err = true, err
		outer, val := res.Panicked, res.PanicVal
		res.Panicked, res.PanicVal = panicked, pv
		s.settle(a, res, len(refs) > 0)
		res.Panicked, res.PanicVal = outer, val
	} else {
		s.settle(a, res, len(refs) > 0)
	}
	s.judge(a, x, res, refs)
	s.checkLog(res)
	s.checkHeadings([]*actSpec{a}, x, res)
	return res
}

// prepare performs a step of the test that has no expectation.
func (s *session) prepare(a *actSpec) *stepRes {
	s.w.now = a.timeFor(s.clock)
	act := s.build(a)
	res := s.run(func() {
		if s.test.Prepare(act) != s.test {
			s.v("C17", "Prepare() did not return the test")
		}
	})
	s.settle(a, res, false)
	s.judge(a, nil, res, nil)
	s.checkLog(res)
	s.checkHeadings([]*actSpec{a}, nil, res)
	return res
}

// monitored is an action that is monitored by a session.
type monitored struct {
	testkit.Action
	do func(context.Context, func() error) error
}

func (x *monitored) Do(ctx context.Context, s testkit.ActionScope) error {
	return x.do(ctx, func() error { return x.Action.Do(ctx, s) })
}

// prepareAll prepares several actions at once.
func (s *session) prepareAll(as []*actSpec) {
	type part struct {
		i     int
		class string
		res   *stepRes
	}
	var parts []*part
	var acts []testkit.Action
	for i, a := range as {
		acts = append(acts, &monitored{s.build(a), func(ctx context.Context, do func() error) error {
			if s.given != nil {
				if why := see(ctx, true).is(s.given); why != "" {
					s.v("C27", "%s: the context given to the action %s", a, why)
				}
			}
			res := &stepRes{Panicked: true}
			p := &part{i: i, res: res}
			parts = append(parts, p)
			s.w.now = a.timeFor(s.clock)
			s.w.Rec.Take()
			s.userCalls, s.subs = nil, nil
			s.begin(a)
			func() {
				defer func() {
					if res.Panicked {
						res.PanicVal = recover()
					}
				}()
				res.direct, res.err = true, do()
				res.Panicked = false
			}()
			s.take(res)
			s.settle(a, res, false)
			p.class, _ = s.outcome(a, res, s.clock)
			s.subs = nil
			if res.Panicked {
				panic(res.PanicVal)
			}
			return res.err
		}})
	}
	res := s.run(func() {
		if s.test.Prepare(acts...) != s.test {
			s.v("C17", "Prepare() did not return the test")
		}
	})
	if s.dry {
		return
	}
	what := fmt.Sprintf("preparing %v", as)
	fails := res.fails()
	failed := 0
	stopped := ""
	for k, p := range parts {
		if stopped != "" {
			s.v("C17", "%s: action %d was performed after %s", what, p.i, stopped)
			return
		}
		if p.i != k {
			s.v("C17", "%s: action %d was performed, expected %d", what, p.i, k)
			return
		}
		if got := map[bool]string{true: "panic", false: "ok"}[p.res.Panicked]; p.class != got && !(p.class == "error" && p.res.err != nil) {
			s.v("C17", "%s: the outcome of action %d is %s (error %v), expected %s", what, p.i, got, p.res.err, p.class)
			return
		}
		switch {
		case p.res.Panicked:
			stopped = "a panic"
			if !res.Panicked || !reflect.DeepEqual(res.PanicVal, p.res.PanicVal) {
				s.v("C17", "%s: action %d panicked with %v, the caller saw %v", what, p.i, p.res.PanicVal, res.PanicVal)
			}
		case p.res.err != nil:
			if failed < len(fails) {
				carried := false
				for _, v := range fails[failed].Args {
					e, ok := v.(error)
					carried = carried || ok && errors.Is(e, p.res.err)
				}
				if !carried {
					s.v("C17", "%s: the failure %v does not carry the error %v", what, fails[failed], p.res.err)
				}
			}
			failed++
			if s.t.mode != "return" {
				stopped = "the test was aborted"
			}
		}
		res.Facts = append(res.Facts, p.res.Facts...)
	}
	switch {
	case stopped == "" && len(parts) != len(as):
		s.v("C17", "%s: only %d actions were performed", what, len(parts))
	case len(fails) != failed || len(res.reports()) > 0:
		s.v("C17", "%s: %d actions failed, but the testing interface saw %v", what, failed, res.Events)
	case res.Panicked && stopped != "a panic":
		s.v("C17", "%s: panicked without cause: %v", what, res.PanicVal)
	case res.Aborted != (stopped == "the test was aborted"):
		s.v("C17", "%s: aborted=%v, %d actions failed", what, res.Aborted, failed)
	}
	s.eval("C17", "prepare %d, %d failed, stopped by %q, mode=%s", len(as), failed, stopped, s.t.mode)
	s.checkLog(res)
	s.checkHeadings(as, nil, res)
}

func (a *actSpec) timeFor(clock simTime) simTime {
	if a.Kind == "advance" {
		return a.target(clock)
	}
	return clock
}

// outcome returns how an action ended: ok, error or panic; and the errors
// returned by handlers.
func (s *session) outcome(a *actSpec, res *stepRes, before simTime) (string, []error) {
	switch a.Kind {
	case "unknown":
		return "error", nil
	case "unconsumed":
		return "panic", nil
	case "custom":
		switch {
		case a.Panic:
			return "panic", nil
		case a.Err != nil:
			return "error", []error{a.Err}
		}
		return "ok", nil
	case "call":
		for _, uc := range s.userCalls {
			if uc != nil && uc.panicked && !uc.spec.Recover && a.Lanes <= 1 {
				return "panic", nil
			}
		}
		if a.Panic {
			return "panic", nil
		}
		return "ok", nil
	case "advance":
		if a.reversed {
			return "error", nil
		}
	}
	var errs []error
	for _, o := range res.Ops {
		if o.exp.panicked {
			return "panic", nil
		}
		if s.ended {
			return "error", []error{context.Canceled}
		}
		for _, e := range o.exp.errs {
			errs = append(errs, e.err)
		}
	}
	if len(errs) > 0 {
		return "error", errs
	}
	return "ok", nil
}

// judge checks how the testing interface was used.
func (s *session) judge(a *actSpec, x *xspec, res *stepRes, refs []refusal) {
	if s.dry {
		return
	}
	fails, reports := res.fails(), res.reports()
	what := fmt.Sprintf("%s expecting %v", a, x)
	if x == nil {
		what = fmt.Sprintf("preparing %s", a)
	}
	class, errs := s.outcome(a, res, s.clock)
	if len(refs) > 0 {
		class = "refused"
	} else if x != nil && x.panics() {
		class = "panic"
	}
	if len(fails) > 0 && s.t.mode != "return" {
		if !res.Aborted {
			s.v("C17", "%s: Expect() or Prepare() returned although the test was aborted", what)
		}
	} else if res.Aborted {
		s.v("C17", "%s: the test was aborted without a failure", what)
	}
	if x != nil {
		defer s.judgeLeaves(a, x, res, class)
	}
	switch class {
	case "panic":
		s.eval("C17", "panic %s expect=%v mode=%s", a.Kind, x != nil, s.t.mode)
		if !res.Panicked {
			s.v(panicTags(x), "%s: the panic did not propagate, instead %v", what, res.Events)
		} else if a.pv != nil && (x == nil || !x.panics()) && res.PanicVal != a.pv {
			s.v("C17", "%s: panicked with %v instead of %v", what, res.PanicVal, a.pv)
		} else if x != nil && x.panics() && a.pv == nil && len(res.Ops) > 0 && !res.Ops[0].exp.panicked {
			if !x.Sat.isPanic(res.PanicVal) {
				s.v("C21", "%s: panicked with %v", what, res.PanicVal)
			}
		}
		if len(fails) > 0 || len(reports) > 0 {
			s.v(panicTags(x), "%s: panicked, but also %v", what, res.Events)
		}
		return
	}
	if res.Panicked {
		s.v("C17 C15 C16 C18 C21 C22", "%s: panicked without cause: %v", what, res.PanicVal)
		return
	}
	switch class {
	case "refused":
		s.eval("C17", "refused mode=%s", s.t.mode)
		s.eval("C18", "refused %s by %s iters=%d depth=%d n=%d", refs[0].x.Kind, a.Kind, len(refs[0].iters), min(x.depth(), 4), min(len(refs), 3))
		if len(fails) != 1 || len(reports) > 0 {
			s.v("C17 C18", "%s: impossible, but the testing interface saw %v", what, res.Events)
			return
		}
		found := false
		for _, r := range refs {
			found = found || r.matches(fails[0])
		}
		if !found {
			tags := "C18"
			if refs[0].err != nil {
				tags = "C17"
			}
			s.v(tags, "%s: the failure does not say why it is impossible: %s", what, fails[0].Text)
		}
	case "error":
		s.eval("C17", "error %s expect=%v mode=%s", a.Kind, x != nil, s.t.mode)
		if a.Kind == "unknown" {
			s.eval("C14", "unknown type %s expect=%v", a.MT.Kind, x != nil)
		}
		tags := "C17"
		switch a.Kind {
		case "unknown":
			tags += " C14"
		case "advance":
			tags += " C19"
		}
		if len(fails) != 1 || len(reports) > 0 {
			s.v(tags, "%s: the action failed, but the testing interface saw %v", what, res.Events)
			return
		}
		for _, err := range errs {
			found := false
			for _, v := range fails[0].Args {
				if e, ok := v.(error); ok && errors.Is(e, err) {
					found = true
				}
			}
			if !found {
				s.v(tags, "%s: the failure does not carry the error %v: %v", what, err, fails[0])
			}
		}
		if a.Kind == "unknown" && !strings.Contains(fails[0].Text, a.MT.Name) {
			s.v(tags, "%s: the failure does not name the type: %v", what, fails[0])
		}
	case "ok":
		if x == nil {
			s.eval("C17", "ok %s mode=%s", a.Kind, s.t.mode)
			if len(fails) > 0 || len(reports) > 0 {
				tags := "C17"
				if a.Kind == "dispatch" {
					tags += " C14"
				}
				s.v(tags, "%s: nothing went wrong, but the testing interface saw %v", what, res.Events)
			}
			return
		}
		s.judgeReport(a, x, res)
	}
}

// panics returns true if evaluating x panics.
func (x *xspec) panics() bool {
	p := false
	x.walk(func(k *xspec) { p = p || k.Kind == "satisfy" && k.Sat.panics() })
	return p
}

// judgeLeaves checks the obligations towards instrumented expectations.
func (s *session) judgeLeaves(a *actSpec, x *xspec, res *stepRes, class string) {
	what := fmt.Sprintf("%s expecting %v", a, x)
	x.walk(func(k *xspec) {
		if k.Kind == "repeat" && class != "refused" {
			if len(k.made) != len(k.Kids) {
				s.v("C16", "%s: repeat #%d asked for iterations %v", what, k.ID, k.made)
			}
		}
		for i, n := range k.made {
			if i != n {
				s.v("C16", "%s: repeat #%d asked for iterations %v", what, k.ID, k.made)
				break
			}
		}
		if k.Kind == "satisfy" {
			s.judgeSatisfy(a, x, k, res, class)
		}
		if k.Kind != "leaf" {
			return
		}
		p := k.leaf
		if p == nil {
			if class != "refused" {
				s.v("C16", "%s: leaf #%d was never evaluated", what, k.ID)
			}
			return
		}
		if p.made != 1 {
			s.v("C16", "%s: leaf #%d was evaluated %d times", what, k.ID, p.made)
		}
		if class == "refused" {
			if len(p.facts) > 0 {
				s.v("C18", "%s: leaf #%d was notified although the expectation is impossible", what, k.ID)
			}
			return
		}
		s.judgeOptions(a, p.scope.Options, what)
		if p.scope.App == nil || p.scope.App.Identity().Name != s.w.Name {
			s.v("C21", "%s: leaf #%d was not given the application", what, k.ID)
		}
		if p.done != 1 && !x.panics() {
			s.v("C16 C17", "%s: leaf #%d was finalised %d times", what, k.ID, p.done)
		}
		if p.late > 0 {
			s.v("C16", "%s: leaf #%d was notified after it was finalised", what, k.ID)
		}
		s.leaves = append(s.leaves, p)
		if p.early {
			s.v("C16", "%s: leaf #%d was asked for a report before it was finalised", what, k.ID)
		}
		if len(p.facts) != len(res.Facts) {
			s.v("C16", "%s: leaf #%d was notified of %d facts instead of %d", what, k.ID, len(p.facts), len(res.Facts))
			return
		}
		for i, f := range p.facts {
			if !sameFact(viewFact(f), viewFact(res.Facts[i].F)) {
				s.v("C16", "%s: fact %d seen by leaf #%d is %s instead of %s", what, i, k.ID, viewFact(f), viewFact(res.Facts[i].F))
				return
			}
		}
		s.eval("C16", "leaf %s facts=%d flips=%d", class, min(len(p.facts), 12), len(k.Flips))
	})
}

// judgeLate checks that expectations are left alone once they have been judged.
func (s *session) judgeLate() {
	for _, p := range s.leaves {
		if p.late > 0 {
			s.v("C16 C17", "leaf #%d was notified of %d facts after it was finalised", p.x.ID, p.late)
		}
		if p.done > 1 {
			s.v("C16 C17", "leaf #%d was finalised %d times", p.x.ID, p.done)
		}
		if p.reports > 1 {
			s.v("C16 C17", "leaf #%d was asked for %d reports", p.x.ID, p.reports)
		}
	}
}

// judgeReport checks the report of an expectation.
func (s *session) judgeReport(a *actSpec, x *xspec, res *stepRes) {
	fails, reports := res.fails(), res.reports()
	call := a.counts()
	v := s.decideX(x, call, res.Prods)
	what := fmt.Sprintf("%s expecting %v", a, x)
	tags := x.tags()
	s.eval("C17", "evaluated %s %s mode=%s", a.Kind, v, s.t.mode)
	n := 0
	for _, p := range res.Prods {
		if call || !p.Root {
			n++
		}
	}
	if x.Kind != "leaf" && len(x.Kids) == 0 {
		s.eval("C15", "%s %s call=%v prods=%d cmp=%v", x.Kind, v, call, min(n, 8), s.cmp != nil)
	} else if len(x.Kids) > 0 {
		s.eval("C16", "%s %s depth=%d kids=%d", x.Kind, v, min(x.depth(), 6), len(x.Kids))
		s.eval("C15", "tree %s depth=%d", v, min(x.depth(), 4))
	}
	if len(refTypes(x)) > 0 {
		s.eval("C18", "accepted %s depth=%d", a.Kind, min(x.depth(), 4))
	}
	if len(reports) != 1 {
		s.v("C17", "%s: %d reports were logged: %v", what, len(reports), res.Events)
		return
	}
	if len(fails) > 1 {
		s.v("C17", "%s: %d failures were signalled: %v", what, len(fails), res.Events)
		return
	}
	failed := len(fails) == 1
	if failed {
		for _, e := range res.Events {
			if e.isReport() {
				break
			}
			if e.Kind != "log" {
				s.v("C17", "%s: failure was signalled before the report was logged: %v", what, res.Events)
			}
		}
	}
	if v != dunno && failed != (v == no) {
		s.v(tags, "%s: should %s, but failed=%v; produced %s", what, v, failed, prodText(res.Prods))
	}
	x.walk(func(k *xspec) {
		if k.Kind == "leaf" && k.leaf != nil && k.leaf.reports > 0 && k.leaf.treeOk == failed {
			s.v("C22", "%s: failed=%v, but leaf #%d was told otherwise", what, failed, k.ID)
		}
	})
	rep := parseReport(reports[0])
	if rep == nil {
		s.v("C16 C17 C22", "%s: malformed report\n%s", what, reports[0])
		return
	}
	if rep.Ok == failed {
		s.v("C17", "%s: failed=%v, but the first line of the report is marked %v", what, failed, rep.Ok)
	}
	pairs := s.matchReport(a, x, rep, res, reports[0])
	s.judgeExplanations(a, pairs, res, failed, reports[0])
}

func refTypes(x *xspec) []*MT {
	var out []*MT
	x.walk(func(k *xspec) {
		if k.MT != nil {
			out = append(out, k.MT)
		}
	})
	return out
}

func prodText(ps []*prod) string {
	var out []string
	for _, p := range ps {
		by := "dispatcher"
		if p.H != nil {
			by = p.H.Name
		}
		out = append(out, fmt.Sprintf("%s %+v by %s sure=%v", p.MT.Name, p.Body, by, p.Sure))
	}
	return strings.Join(out, "; ")
}

// matchReport checks that the marks within a report follow from the outcomes.
func (s *session) matchReport(a *actSpec, x *xspec, n *rnode, res *stepRes, text string) []xpair {
	call := a.counts()
	bad := func(x *xspec, format string, args ...any) {
		s.v("C16", "%s: in the report of %v: %s\n%s", a, x, fmt.Sprintf(format, args...), text)
	}
	var pairs []xpair
	var match func(x *xspec, n *rnode, inv bool)
	match = func(x *xspec, n *rnode, inv bool) {
		pairs = append(pairs, xpair{x, n, inv})
		if v := s.decideX(x, call, res.Prods); v != dunno && n.Ok != (v == yes) {
			tags := x.tags()
			s.v(strings.Replace(tags, "C17", "C16", 1), "%s: %v is marked %v in the report\n%s", a, x, n.Ok, text)
		}
		switch x.Kind {
		case "leaf":
			if !strings.Contains(n.Title, fmt.Sprintf("leaf #%d", x.ID)) {
				bad(x, "found %q instead of leaf #%d", n.Title, x.ID)
			}
		case "satisfy":
			if !strings.Contains(n.Title, fmt.Sprintf("satisfy #%d", x.ID)) {
				bad(x, "found %q instead of satisfy #%d", n.Title, x.ID)
			}
			s.matchSatisfy(a, x, n, inv, text)
		case "watch":
			match(x.Kids[0], n, inv)
		case "all", "any":
			if len(x.Kids) == 1 {
				if len(n.Kids) == 1 && !composite(x.Kids[0]) {
					n = n.Kids[0]
				}
				match(x.Kids[0], n, inv)
				return
			}
			fallthrough
		case "none":
			if len(n.Kids) != len(x.Kids) {
				bad(x, "it has %d children instead of %d", len(n.Kids), len(x.Kids))
				return
			}
			for i, k := range x.Kids {
				match(k, n.Kids[i], inv != (x.Kind == "none"))
			}
		case "repeat":
			if !strings.Contains(n.Title, fmt.Sprintf("repeat #%d", x.ID)) {
				bad(x, "found %q instead of repeat #%d", n.Title, x.ID)
			}
			// Some or all of the failed iterations are shown.
			var failed []*xspec
			for _, k := range x.Kids {
				if s.decideX(k, call, res.Prods) != yes {
					failed = append(failed, k)
				}
			}
			if len(n.Kids) == 1 && len(failed) > 0 && s.decideX(failed[0], call, res.Prods) == no {
				match(failed[0], n.Kids[0], inv)
			}
		case "not":
		default:
			name := ""
			if x.MT != nil && x.Kind != "match" && x.Kind != "only" {
				name = x.MT.Name
			}
			if !strings.Contains(n.Title, name) {
				bad(x, "found %q, which does not name %s", n.Title, name)
			}
		}
	}
	match(x, n, false)
	return pairs
}

func composite(x *xspec) bool {
	for x.Kind == "watch" {
		x = x.Kids[0]
	}
	return len(x.Kids) > 0
}

// panicTags returns the properties violated if a panic does not propagate.
func panicTags(x *xspec) string {
	if x != nil && x.panics() {
		return "C21"
	}
	return "C17"
}
