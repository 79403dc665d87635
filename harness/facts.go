package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
)

// factView is a uniform view of a fact.
type factView struct {
	Kind    string
	Handler configkit.RichHandler
	Name    string
	Inst    string
	HasInst bool
	Env     *envelope.Envelope
	Prod    *envelope.Envelope
	Err     error
	Reason  fact.HandlerSkipReason
	Fmt     string
	Args    []any
	Time    time.Time
	Types   map[configkit.HandlerType]bool
	Names   map[string]bool
}

func (v *factView) String() string {
	s := v.Kind
	if v.Name != "" {
		s += " " + v.Name
	}
	if v.HasInst {
		s += " " + v.Inst
	}
	if v.Env != nil {
		s += " " + uidOf(v.Env)
	}
	if v.Prod != nil {
		s += " => " + uidOf(v.Prod)
	}
	if v.Err != nil {
		s += fmt.Sprintf(" (%v)", v.Err)
	}
	return s
}

func uidOf(e *envelope.Envelope) string {
	if e == nil || e.Message == nil {
		return ""
	}
	return bodyOf(e.Message).UID
}

// viewFact returns a uniform view of f, without depending on which fields any
// specific fact has.
func viewFact(f fact.Fact) *factView {
	rv := reflect.ValueOf(f)
	for rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
	v := &factView{Kind: rv.Type().Name()}
	if rv.Kind() != reflect.Struct {
		return v
	}
	for i := 0; i < rv.NumField(); i++ {
		if !rv.Type().Field(i).IsExported() {
			continue
		}
		x := rv.Field(i).Interface()
		switch n := rv.Type().Field(i).Name; n {
		case "Handler":
			if h, ok := x.(configkit.RichHandler); ok {
				v.Handler = h
				v.Name = h.Identity().Name
			}
		case "InstanceID":
			v.Inst, _ = x.(string)
			v.HasInst = true
		case "Envelope":
			v.Env, _ = x.(*envelope.Envelope)
		case "EventEnvelope", "CommandEnvelope", "TimeoutEnvelope":
			v.Prod, _ = x.(*envelope.Envelope)
		case "Error":
			v.Err, _ = x.(error)
		case "Reason":
			v.Reason, _ = x.(fact.HandlerSkipReason)
		case "LogFormat":
			v.Fmt, _ = x.(string)
		case "LogArguments":
			v.Args, _ = x.([]any)
		case "EngineTime":
			v.Time, _ = x.(time.Time)
		case "EnabledHandlerTypes":
			v.Types, _ = x.(map[configkit.HandlerType]bool)
		case "EnabledHandlers":
			v.Names, _ = x.(map[string]bool)
		}
	}
	return v
}

type factState struct {
	envs    map[string]*envelope.Envelope // uid to (copy of) first envelope
	ids     map[string]string             // message ID to uid
	firstID string                        // the ID of the first message of a new engine
	fresh   bool

	// used to find out whether rejected operations use up IDs
	maxPos int
	sure   bool // no ID can have been used without being seen
	bad    bool // operations have been rejected since the last message
}

// idPos returns the position of an ID in the sequence of IDs used by a new
// engine, or -1 if it is not known.
func idPos(id string) int {
	refOnce.Do(func() {
		w := NewWorld(1, Size{Intg: [2]int{1, 1}}, Profile{})
		e := engine.MustNew(w.Config())
		mt := w.Specs[0].Consumes[0]
		for i := 0; i < 4000; i++ {
			e.Dispatch( //nolint:errcheck
				context.Background(),
				mt.Mk(Body{UID: fmt.Sprint(i)}),
				engine.WithObserver(obsFunc(func(f fact.Fact) {
					if x, ok := f.(fact.DispatchBegun); ok {
						refIDs[x.Envelope.MessageID] = i
					}
				})),
			)
			w.Rec.Take()
		}
	})
	if n, ok := refIDs[id]; ok {
		return n
	}
	return -1
}

var (
	refOnce sync.Once
	refIDs  = map[string]int{}
)

// settle is called after each operation.
func (f *factState) settle(o *Op, exp *opExp) {
	switch o.Kind {
	case "bad":
		f.bad = true
	case "dispatch", "tick":
		f.bad = false
		f.sure = !exp.panicked
	}
}

func newFactState() *factState {
	f := &factState{}
	f.reset()
	return f
}

func (f *factState) reset() {
	f.envs = map[string]*envelope.Envelope{}
	f.ids = map[string]string{}
	f.fresh = true
	f.maxPos, f.sure, f.bad = -1, true, false
}

var handlerTypes = map[HKind]configkit.HandlerType{
	Agg:  configkit.AggregateHandlerType,
	Proc: configkit.ProcessHandlerType,
	Intg: configkit.IntegrationHandlerType,
	Proj: configkit.ProjectionHandlerType,
}

// checkFacts checks the facts of an operation.
func (s *Sim) checkFacts(res *OpResult, exp *opExp) {
	views := make([]*factView, len(res.Facts))
	for i, f := range res.Facts {
		views[i] = viewFact(f.F)
	}

	// All observers see the same facts.
	for i, fs := range res.Others {
		if len(fs) != len(res.Facts) {
			s.v("C12", "observer #%d was notified of %d facts, but observer #%d was notified of %d", i, len(fs), len(res.Others), len(res.Facts))
			continue
		}
		for j, f := range fs {
			if !sameFact(viewFact(f), views[j]) {
				s.v("C12", "observer #%d was notified of %s, but observer #%d was notified of %s", i, viewFact(f), len(res.Others), views[j])
				break
			}
		}
		s.eval("C12", "observers=%d", len(res.Others)+1)
	}

	if res.Op.Kind == "reset" {
		return
	}
	s.checkEnvelopes(res, views)
	if !exp.started {
		if len(views) != 0 {
			s.v("C12 C10", "facts were notified by an operation that never began, starting with %s", views[0])
		}
		return
	}
	p := &fparser{s: s, res: res, exp: exp, views: views}
	if !p.parse() {
		return
	}
	s.eval("C12", "%s messages=%d facts=%d panic=%v cancel=%v", res.Op.Kind, min(len(exp.msgs), 12), min(len(views)/4, 20), exp.panicked, exp.canceled)
}

func sameFact(a, b *factView) bool {
	return a.Kind == b.Kind && a.Name == b.Name && a.Inst == b.Inst && a.Env == b.Env && a.Prod == b.Prod &&
		fmt.Sprint(a.Err) == fmt.Sprint(b.Err) && a.Reason == b.Reason && a.Fmt == b.Fmt && len(a.Args) == len(b.Args) &&
		a.Time.Equal(b.Time)
}

// checkEnvelopes checks that the metadata of each message is correct.
func (s *Sim) checkEnvelopes(res *OpResult, views []*factView) {
	o := res.Op
	for _, v := range views {
		if v.Prod != nil {
			s.checkProduced(v)
		}
		e := v.Env
		if e == nil {
			continue
		}
		if e.Message == nil {
			if v.Kind != "MessageLoggedByProjection" {
				s.v("C02 C12", "%s has an envelope without a message", v.Kind)
			}
			continue
		}
		uid := uidOf(e)
		if s.facts.envs[uid] == nil {
			m := s.msgs[uid]
			if m == nil || o.Kind != "dispatch" || uid != o.Body.UID {
				s.v("C02 C12", "%s refers to message %q, which was never reported as produced", v.Kind, uid)
				continue
			}
			// the message entered from outside
			last := s.facts.maxPos
			s.register(uid, e)
			if e.CausationID != e.MessageID || e.CorrelationID != e.MessageID || e.Origin != nil {
				s.v("C02", "the dispatched message %s has ID %q, cause %q, correlation %q and origin %v", uid, e.MessageID, e.CausationID, e.CorrelationID, e.Origin)
			}
			if !e.CreatedAt.Equal(o.now) {
				s.v("C02", "the dispatched message %s was created at %s, but the engine time is %s", uid, e.CreatedAt, o.now)
			}
			if !bodyOf(e.Message).equal(o.Body) || mtOf(e.Message) != o.MT {
				s.v("C02", "the content of dispatched message %s changed from %#v to %#v", uid, o.Body, e.Message)
			}
			if s.c.Prop == "C14" && s.facts.bad && s.facts.sure {
				if n := idPos(e.MessageID); n >= 0 && n != last+1 {
					s.v("C14", "message %s has ID %q (%d in sequence) although only %d messages exist, an operation that was rejected has changed the engine", uid, e.MessageID, n, last+1)
				}
				s.eval("C14", "ID after rejection, %d messages", min(last+1, 10))
			}
			if s.facts.fresh {
				s.facts.fresh = false
				if s.facts.firstID == "" {
					s.facts.firstID = e.MessageID
				} else if s.facts.firstID != e.MessageID {
					s.v("C11", "the first message ID after a reset is %q, but a new engine starts with %q", e.MessageID, s.facts.firstID)
				}
				s.eval("C11", "first ID after %d resets", min(s.resets, 3))
			}
			s.eval("C02", "root %s", o.MT.Name)
			continue
		}
		s.checkSame(v, e)
	}
}

func (s *Sim) register(uid string, e *envelope.Envelope) {
	if e.MessageID == "" {
		s.v("C02", "message %s has an empty ID", uid)
	} else if u, ok := s.facts.ids[e.MessageID]; ok && u != uid {
		tags := "C02"
		s.v(tags, "messages %s and %s share the ID %q", u, uid, e.MessageID)
	}
	s.facts.ids[e.MessageID] = uid
	if s.c.Prop == "C14" {
		s.facts.maxPos = max(s.facts.maxPos, idPos(e.MessageID))
	}
	c := *e
	if e.Origin != nil {
		oc := *e.Origin
		c.Origin = &oc
	}
	s.facts.envs[uid] = &c
}

// checkSame checks that e matches what was first seen about the same message.
func (s *Sim) checkSame(v *factView, e *envelope.Envelope) {
	uid := uidOf(e)
	x := s.facts.envs[uid]
	if e.MessageID != x.MessageID || e.CausationID != x.CausationID || e.CorrelationID != x.CorrelationID ||
		!e.CreatedAt.Equal(x.CreatedAt) || !e.ScheduledFor.Equal(x.ScheduledFor) {
		s.v("C02 C12", "%s shows message %s as %+v, previously it was %+v", v.Kind, uid, *e, *x)
	}
	if m := s.msgs[uid]; m != nil && (!bodyOf(e.Message).equal(m.body) || mtOf(e.Message) != m.mt) {
		s.v("C02 C12", "%s shows message %s with content %#v, expected %#v", v.Kind, uid, e.Message, m.body)
	}
	if (e.Origin == nil) != (x.Origin == nil) || e.Origin != nil &&
		(e.Origin.Handler.Identity() != x.Origin.Handler.Identity() || e.Origin.HandlerType != x.Origin.HandlerType || e.Origin.InstanceID != x.Origin.InstanceID) {
		s.v("C02 C12", "%s shows message %s with a different origin", v.Kind, uid)
	}
}

func (s *Sim) checkProduced(v *factView) {
	e, parent := v.Prod, v.Env
	if e.Message == nil || parent == nil {
		s.v("C02 C12", "%s is incomplete", v.Kind)
		return
	}
	uid := uidOf(e)
	m := s.msgs[uid]
	if m == nil {
		s.v("C02 C12 C01", "%s reports a message %q that no handler produced", v.Kind, uid)
		return
	}
	if s.facts.envs[uid] != nil {
		s.v("C12", "%s reports that %s was produced again", v.Kind, uid)
		return
	}
	s.register(uid, e)
	if m.origin == nil {
		return
	}
	if e.CausationID != parent.MessageID || uidOf(parent) != m.parent {
		s.v("C02", "message %s was caused by %s (%q), but its cause is %q", uid, m.parent, parent.MessageID, e.CausationID)
	}
	root := strings.SplitN(uid, ".", 2)[0]
	if e.CorrelationID != parent.CorrelationID || s.facts.envs[root] != nil && e.CorrelationID != s.facts.envs[root].MessageID {
		s.v("C02", "message %s has correlation %q, but its cause has %q", uid, e.CorrelationID, parent.CorrelationID)
	}
	if !e.CreatedAt.Equal(s.cur.Op.now) {
		s.v("C02", "message %s was created at %s, but the engine time is %s", uid, e.CreatedAt, s.cur.Op.now)
	}
	if !m.when.IsZero() && !e.ScheduledFor.Equal(m.when) {
		s.v("C02 C05", "timeout %s was scheduled for %s, but its envelope says %s", uid, m.when, e.ScheduledFor)
	}
	if !bodyOf(e.Message).equal(m.body) || mtOf(e.Message) != m.mt {
		s.v("C02", "the content of message %s is %#v, but it was produced as %#v", uid, e.Message, m.body)
	}
	switch {
	case e.Origin == nil:
		s.v("C02", "message %s has no origin", uid)
	case e.Origin.Handler == nil || e.Origin.Handler.Identity().Name != m.origin.Name || e.Origin.HandlerType != handlerTypes[m.origin.Kind] || e.Origin.InstanceID != m.inst:
		s.v("C02", "message %s has origin %+v, but it was produced by %s instance %q", uid, e.Origin, m.origin.Name, m.inst)
	}
	s.eval("C02", "%s depth=%d by %s op=%s", m.mt.Kind, m.body.Depth, m.origin.Kind, s.cur.Op.Kind)
}

// fparser matches the facts of one operation against what is expected.
type fparser struct {
	s     *Sim
	res   *OpResult
	exp   *opExp
	views []*factView
	i     int
	bad   bool
}

func (p *fparser) peek() *factView {
	if p.i < len(p.views) {
		return p.views[p.i]
	}
	return &factView{Kind: "<nothing>"}
}

func (p *fparser) seq() int {
	if p.i < len(p.views) {
		return p.res.Facts[p.i].Seq
	}
	return 0
}

func (p *fparser) fail(format string, args ...any) {
	if !p.bad {
		ctx := ""
		for j := max(0, p.i-3); j < min(len(p.views), p.i+2); j++ {
			ctx += fmt.Sprintf("; #%d %s", j, p.views[j])
		}
		p.s.v("C12", "fact #%d: %s%s", p.i, fmt.Sprintf(format, args...), ctx)
	}
	p.bad = true
}

// take consumes a fact of the given kind.
func (p *fparser) take(kind string) *factView {
	v := p.peek()
	if p.bad {
		return nil
	}
	if v.Kind != kind {
		p.fail("expected %s, got %s", kind, v)
		return nil
	}
	p.i++
	return v
}

func (p *fparser) handlerOK(v *factView, h *HSpec) {
	if v.Handler == nil || v.Name != h.Name || v.Handler.HandlerType() != handlerTypes[h.Kind] || v.Handler.Identity().Key != h.Key {
		p.fail("%s names the wrong handler, expected %s", v, h.Name)
	}
}

func (p *fparser) settings(v *factView) {
	o := p.res.Op
	for k, t := range handlerTypes {
		if v.Types[t] != o.typeOn[k] {
			p.s.v("C12 C08", "%s says that %s handlers are enabled=%v", v.Kind, k, v.Types[t])
		}
	}
	if len(v.Names) != len(o.nameOn) {
		p.s.v("C12 C08", "%s has settings for handlers %v, expected %v", v.Kind, v.Names, o.nameOn)
		return
	}
	for n, on := range o.nameOn {
		if x, ok := v.Names[n]; !ok || x != on {
			p.s.v("C12 C08", "%s has settings for handlers %v, expected %v", v.Kind, v.Names, o.nameOn)
			return
		}
	}
}

func (p *fparser) sameErr(v *factView, want error) {
	if (v.Err == nil) != (want == nil) || want != nil && !errors.Is(v.Err, want) {
		p.fail("%s has error %v, expected %v", v.Kind, v.Err, want)
	}
}

func (p *fparser) parse() bool {
	o, exp := p.res.Op, p.exp
	prefix := "Tick"
	if o.Kind == "dispatch" {
		prefix = "Dispatch"
	}
	v := p.take(prefix + "CycleBegun")
	if v == nil {
		return false
	}
	if !v.Time.Equal(o.now) {
		p.fail("the cycle's engine time is %s, expected %s", v.Time, o.now)
	}
	if o.NoTime && (v.Time.Before(p.res.Before.Truncate(0)) || v.Time.After(p.res.After)) {
		p.s.v("C02 C12", "the default engine time is %s, but the operation took place between %s and %s", v.Time, p.res.Before, p.res.After)
	}
	p.settings(v)
	if o.Kind == "dispatch" && uidOf(v.Env) != o.Body.UID {
		p.fail("the cycle is about %q", uidOf(v.Env))
	}

	if o.Kind == "tick" && !p.ticks() {
		return !p.bad
	}
	rest := exp.msgs
	for !p.bad {
		if p.maybeTimeout(rest) {
			continue
		}
		if len(rest) == 0 {
			break
		}
		k := 0
		if rest[0].due {
			// timeouts of different handlers may come in any order
			k = -1
			for j, me := range rest {
				if !me.due {
					break
				}
				if me.m.uid == uidOf(p.peek().Env) {
					k = j
					break
				}
			}
			if k < 0 {
				if p.exp.panicked && p.i == len(p.views) {
					return true
				}
				if p.exp.canceled && p.peek().Kind == "TickCycleCompleted" && noneEngaged(rest) {
					break
				}
				p.fail("expected the dispatch of a timeout that is due, such as %s", rest[0].m.uid)
				return false
			}
		}
		me := rest[k]
		rest = append(append([]*msgExp(nil), rest[:k]...), rest[k+1:]...)
		if !p.message(me) {
			break
		}
	}
	if p.bad {
		return false
	}
	if exp.panicked {
		if p.i != len(p.views) {
			p.fail("%s was notified after a handler panicked", p.peek())
		}
		return !p.bad
	}
	v = p.take(prefix + "CycleCompleted")
	if v == nil {
		return false
	}
	if fmt.Sprint(v.Err) != fmt.Sprint(p.res.Err) {
		p.fail("the cycle completed with error %v, but the operation returned %v", v.Err, p.res.Err)
	}
	p.settings(v)
	if o.Kind == "dispatch" && uidOf(v.Env) != o.Body.UID {
		p.fail("the cycle is about %q", uidOf(v.Env))
	}
	if p.i != len(p.views) {
		p.fail("%s was notified after the cycle completed", p.peek())
	}
	return !p.bad
}

// noneEngaged returns true if no handler was engaged by any of the messages.
func noneEngaged(mes []*msgExp) bool {
	for _, me := range mes {
		for _, he := range me.handlers {
			if he.g != nil {
				return false
			}
		}
	}
	return true
}

// maybeTimeout skips the facts about the dispatch of a timeout that may, or may
// not, have been lost to an earlier cancellation or panic, and that engaged no
// handler.
func (p *fparser) maybeTimeout(rest []*msgExp) bool {
	v := p.peek()
	if v.Kind != "DispatchBegun" || v.Env == nil {
		return false
	}
	m := p.s.msgs[uidOf(v.Env)]
	if m == nil || !m.maybe {
		return false
	}
	for _, me := range rest {
		if me.m == m {
			return false
		}
	}
	m.maybe = false
	for p.i < len(p.views) && p.peek().Kind != "DispatchCompleted" {
		p.i++
	}
	p.i++
	return true
}

// ticks matches the facts about the ticks of each handler. It returns false if
// nothing should follow.
func (p *fparser) ticks() bool {
	exp := p.exp
	left := map[string]*tickExp{}
	for n, te := range exp.ticks {
		left[n] = te
	}
	for !p.bad {
		v := p.peek()
		if v.Kind != "TickBegun" && v.Kind != "TickSkipped" {
			break
		}
		te := left[v.Name]
		if te == nil {
			p.fail("%s is repeated or unknown", v)
			return false
		}
		delete(left, v.Name)
		p.handlerOK(v, te.h)
		p.i++
		if v.Kind == "TickSkipped" {
			if te.skipped == 0 || byte(v.Reason) != te.skipped {
				p.s.v("C12 C08", "%s gives reason %c, expected %c", v, v.Reason, te.skipped)
			}
			p.s.eval("C08", "tick skipped %s reason=%c", te.h.Kind, v.Reason)
			continue
		}
		if te.skipped != 0 {
			p.s.v("C12 C08", "%s although the handler should have been skipped (%c)", v, te.skipped)
		}
		if te.compact != nil {
			v := p.take("ProjectionCompactionBegun")
			if v == nil {
				return false
			}
			p.handlerOK(v, te.h)
			for _, a := range te.compact.Acts {
				if v := p.take("MessageLoggedByProjection"); v != nil {
					p.handlerOK(v, te.h)
					p.logOK(v, a)
					p.within(p.i-1, a)
				}
			}
			if te.compact.PanicVal != nil {
				if p.i != len(p.views) {
					p.fail("%s was notified after compaction panicked", p.peek())
				}
				return false
			}
			v = p.take("ProjectionCompactionCompleted")
			if v == nil {
				return false
			}
			p.handlerOK(v, te.h)
			p.sameErr(v, te.compact.Err)
		}
		v = p.take("TickCompleted")
		if v == nil {
			return false
		}
		p.handlerOK(v, te.h)
		p.sameErr(v, te.err)
	}
	for n, te := range left {
		if !te.unknown {
			p.fail("the tick of %s is not reported", n)
			return false
		}
	}
	return !p.bad
}

func (p *fparser) logOK(v *factView, a *Act) {
	if fmt.Sprintf(v.Fmt, v.Args...) != fmt.Sprintf(a.Fmt, a.Args...) {
		p.s.v("C12 C07", "%s reports %q (%v), but the handler logged %q (%v)", v, v.Fmt, v.Args, a.Fmt, a.Args)
	}
}

// within checks that fact i was notified while an act was performed.
func (p *fparser) within(i int, a *Act) {
	if a == nil {
		return
	}
	seq := p.res.Facts[i].Seq
	if seq < a.Begin || a.End != 0 && seq > a.End {
		p.fail("%s was not notified when it happened", p.views[i])
	}
}

// message matches the facts about the dispatch of one message. It returns false
// if nothing should follow.
func (p *fparser) message(me *msgExp) bool {
	v := p.take("DispatchBegun")
	if v == nil {
		return false
	}
	if uidOf(v.Env) != me.m.uid {
		p.fail("dispatch of %s begun, expected %s", uidOf(v.Env), me.m.uid)
		return false
	}
	if me.handlers == nil {
		// it is not known how this message should be treated
		for p.i < len(p.views) && p.peek().Kind != "DispatchCompleted" {
			p.i++
		}
		p.i++
		return true
	}
	left := map[string]*hExp{}
	for n, he := range me.handlers {
		left[n] = he
	}
	for len(left) > 0 {
		v := p.peek()
		if v.Kind != "HandlingBegun" && v.Kind != "HandlingSkipped" {
			var ns []string
			for n := range left {
				ns = append(ns, n)
			}
			p.fail("the handling of %s by %v is not reported, got %s", me.m.uid, ns, v)
			return false
		}
		he := left[v.Name]
		if he == nil {
			p.fail("%s is repeated or unknown", v)
			return false
		}
		delete(left, v.Name)
		p.handlerOK(v, he.h)
		if uidOf(v.Env) != me.m.uid {
			p.fail("%s is about the wrong message, expected %s", v, me.m.uid)
		}
		if v.Kind == "HandlingSkipped" {
			if he.skipped == 0 || byte(v.Reason) != he.skipped {
				p.s.v("C12 C08", "%s gives reason %c, expected %c", v, v.Reason, he.skipped)
			}
			p.i++
			continue
		}
		if he.skipped != 0 {
			p.s.v("C12 C08", "%s although the handler should have been skipped (%c)", v, he.skipped)
			p.bad = true
			return false
		}
		if he.g != nil && p.seq() > he.g.begin {
			p.fail("%s after the handler was called", v)
		}
		p.i++
		if !p.inner(me, he) {
			return false
		}
		if he.panicked {
			return false
		}
		i := p.i
		v = p.take("HandlingCompleted")
		if v == nil {
			return false
		}
		p.handlerOK(v, he.h)
		if uidOf(v.Env) != me.m.uid {
			p.fail("%s is about the wrong message, expected %s", v, me.m.uid)
		}
		p.sameErr(v, he.err)
		if he.g != nil && p.res.Facts[i].Seq < he.g.end {
			p.fail("%s before the handler returned", v)
		}
		for _, c := range he.compact {
			if p.res.Facts[i].Seq < c.End || c.End == 0 {
				p.s.v("C07 C12", "handling of %s by %s is reported complete before compaction finished", me.m.uid, he.h.Name)
			}
		}
	}
	v = p.take("DispatchCompleted")
	if v == nil {
		return false
	}
	if uidOf(v.Env) != me.m.uid {
		p.fail("dispatch of %s completed, expected %s", uidOf(v.Env), me.m.uid)
	}
	got := flatten(v.Err)
	if len(got) != len(me.errs) {
		p.fail("dispatch of %s completed with error %v, expected %v", me.m.uid, v.Err, me.errs)
	}
	for _, e := range me.errs {
		if !errors.Is(v.Err, e) {
			p.fail("dispatch of %s completed with error %v, which does not include %v", me.m.uid, v.Err, e)
		}
	}
	return !p.bad
}

// inner matches the facts about the handling of a message by one handler.
func (p *fparser) inner(me *msgExp, he *hExp) bool {
	inner := he.inner
	var comp *Call
	if len(he.compact) > 0 {
		comp = he.compact[0]
	}
	begun, done := comp == nil, comp == nil
	var clogs []*Act
	if comp != nil {
		clogs = comp.Acts
	}
	for !p.bad {
		v := p.peek()
		if comp != nil && !done {
			switch {
			case v.Kind == "ProjectionCompactionBegun" && !begun:
				p.handlerOK(v, he.h)
				begun = true
				p.i++
				continue
			case v.Kind == "MessageLoggedByProjection" && begun && (v.Env == nil || v.Env.Message == nil):
				if len(clogs) == 0 {
					p.fail("%s reports more lines than compaction logged", v)
					return false
				}
				p.handlerOK(v, he.h)
				p.logOK(v, clogs[0])
				if p.seq() < clogs[0].Begin {
					p.fail("%s was notified before it happened", v)
				}
				clogs = clogs[1:]
				p.i++
				continue
			case v.Kind == "ProjectionCompactionCompleted" && begun:
				p.handlerOK(v, he.h)
				if len(clogs) != 0 {
					p.s.v("C07 C12", "compaction of %s is reported complete without reporting %d of the lines it logged", he.h.Name, len(clogs))
				}
				p.sameErr(v, comp.Err)
				if p.seq() < comp.End {
					p.s.v("C07 C12", "compaction of %s is reported complete before it finished", he.h.Name)
				}
				done = true
				p.i++
				continue
			}
		}
		if len(inner) == 0 {
			break
		}
		x := inner[0]
		inner = inner[1:]
		if v.Kind != x.kind {
			tags := "C12"
			p.s.v(tags, "fact #%d: expected %s %s of %s while %s handles %s, got %s", p.i, x.kind, x.inst, x.uid, he.h.Name, me.m.uid, v)
			p.bad = true
			return false
		}
		p.handlerOK(v, he.h)
		if uidOf(v.Env) != me.m.uid {
			p.fail("%s is about the wrong message, expected %s", v, me.m.uid)
		}
		if v.HasInst && v.Inst != x.inst {
			p.fail("%s is about the wrong instance, expected %s", v, x.inst)
		}
		if x.uid != "" && uidOf(v.Prod) != x.uid {
			p.fail("%s reports the wrong message, expected %s", v, x.uid)
		}
		p.within(p.i, x.a)
		if x.a == nil && he.g != nil && he.g.handle != nil && p.seq() > he.g.handle.Begin {
			p.fail("%s was notified after the handler was called", v)
		}
		if x.a != nil && x.a.Kind == "log" {
			p.logOK(v, x.a)
		}
		if x.chk {
			r := p.res.Facts[p.i].Root
			if r == nil {
				p.fail("%s has no root", v)
			} else if !eqStrings(r.Applied, x.root) {
				p.s.v("C12", "%s shows a root that reflects %v, expected %v", v, r.Applied, x.root)
			} else if h := he.g.handle; h != nil && h.Root != nil && he.h.Kind == Proc && h.Root.ID != r.ID {
				p.s.v("C12", "%s shows a root other than the one given to the handler", v)
			}
		}
		p.i++
	}
	if p.bad {
		return false
	}
	if he.panicked {
		return true
	}
	if comp != nil && !done {
		p.s.v("C12 C07", "compaction of %s while handling %s is not reported, got %s", he.h.Name, me.m.uid, p.peek())
		p.bad = true
	}
	return !p.bad
}

// --- panics ---

var (
	locationType = reflect.TypeOf(location.Location{})
	messageType  = reflect.TypeOf((*dogma.Message)(nil)).Elem()
)

// checkPanic checks the value of a panic caused by a handler.
func (s *Sim) checkPanic(res *OpResult, c *Call) {
	v := res.PanicVal
	if c.PanicVal != nil {
		same := false
		switch reflect.TypeOf(c.PanicVal).Kind() {
		case reflect.Pointer:
			same = v == c.PanicVal
		default:
			same = reflect.DeepEqual(v, c.PanicVal)
		}
		if !same {
			s.v("C13", "%s panicked with %#v but the operation panicked with %#v", c.H.Name, c.PanicVal, v)
		}
		s.eval("C13", "value %T in %s %s", c.PanicVal, c.H.Kind, c.Method)
		s.eval("C09", "panic in %s %s", c.H.Kind, c.Method)
		return
	}

	text := fmt.Sprint(v)
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct {
		s.v("C13", "the panic value %#v does not describe that %s %s", v, c.H.Name, causeText(c))
		return
	}
	file, line, fn, msg := c.PanicFile, c.PanicLine, c.PanicFunc, c.Msg
	method := c.Method
	if c.Offence != "" {
		a := c.Acts[len(c.Acts)-1]
		file, line = a.File, a.Line
		if !strings.Contains(text, a.MT.Type.String()) && !strings.Contains(text, a.MT.Name) {
			s.v("C13", "the panic text %q does not name the offending message's type", text)
		}
	}
	if c.NilRoot {
		msg = nil // checked below
	}
	if !strings.Contains(text, c.H.Name) || !strings.Contains(strings.ReplaceAll(text, c.H.Name, ""), c.H.Kind.String()) || !strings.Contains(text, method) {
		s.v("C13", "the panic text %q does not identify the %q %s and %s()", text, c.H.Name, c.H.Kind, method)
	}
	sawLoc, sawMsg := false, false
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if !rv.Type().Field(i).IsExported() {
			continue
		}
		switch x := f.Interface().(type) {
		case location.Location:
			sawLoc = true
			if x.File != file || x.Line != line {
				s.v("C13 C23", "%s %s at %s:%d but the location is reported as %s:%d (%s)", c.H.Name, causeText(c), file, line, x.File, x.Line, x.Func)
			}
			if fn != "" && x.Func != fn {
				s.v("C13 C23", "%s %s in %s but the location is reported as %s", c.H.Name, causeText(c), fn, x.Func)
			}
		case configkit.RichHandler:
			if x.Identity().Name != c.H.Name {
				s.v("C13", "the panic value names handler %q, expected %q", x.Identity().Name, c.H.Name)
			}
		case string:
			if rv.Type().Field(i).Name == "Method" && x != method {
				s.v("C13", "the panic value names method %q, expected %q", x, method)
			}
		default:
			if rv.Type().Field(i).Type == messageType {
				m, _ := x.(dogma.Message)
				sawMsg = true
				want := c.UID
				if msg == nil {
					want = s.handling(res)
				}
				if m == nil || bodyOf(m).UID != want {
					s.v("C13", "the panic value names message %#v, expected %s", m, want)
				}
			}
		}
	}
	if !sawLoc {
		s.v("C13 C23", "the panic value %#v has no location", v)
	}
	if !sawMsg {
		s.v("C13", "the panic value %#v has no message", v)
	}
	depth := ""
	if c.Unexpected {
		depth = fmt.Sprint(c.Nest)
	}
	s.eval("C13", "%s in %s %s %s", causeText(c), c.H.Kind, c.Method, depth)
	s.eval("C23", "%s in %s %s %s", causeText(c), c.H.Kind, c.Method, depth)
	s.eval("C09", "panic in %s %s", c.H.Kind, c.Method)
}

// handling returns the message that was being handled when the operation
// panicked.
func (s *Sim) handling(res *OpResult) string {
	gs := groups(res.Calls)
	if len(gs) == 0 {
		return ""
	}
	g := gs[len(gs)-1]
	return g.uid
}
