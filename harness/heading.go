package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/enginekit/message"
)

// flourishes are texts that should be shown as they are.
var flourishes = []string{"", "", "", " 100%", " %s and %d", " with a event and 1 commands", " <message>", " ---", " é", " \\n"}

// flourish returns one of them.
func flourish(k ...any) string { return flourishes[H(0, fmt.Sprint(k...))%uint64(len(flourishes))] }

// desc returns the description of a user-defined expectation.
func (x *xspec) desc() string {
	return fmt.Sprintf("%s #%d%s", x.Kind, x.ID, flourish(x.Salt, x.ID))
}

// caption returns texts that the caption of x contains, in order.
func (x *xspec) caption() []string {
	words := func(k message.Kind) []string {
		if k == message.CommandKind {
			return []string{"execute", "command"}
		}
		return []string{"record", "event"}
	}
	switch x.Kind {
	case "msg":
		return []string{words(x.MT.Kind)[0], x.MT.Name, words(x.MT.Kind)[1]}
	case "type", "oftype":
		return append(words(x.MT.Kind), x.MT.Name)
	case "match":
		return append(words(x.MT.Kind), "predicate")
	case "only":
		return append(append([]string{"only"}, words(x.MT.Kind)...), "predicate")
	case "imatch":
		return append(words(x.MKind), "predicate")
	case "ionly":
		return append(append([]string{"only"}, words(x.MKind)...), "predicate")
	case "leaf", "satisfy", "repeat":
		return []string{x.desc()}
	case "watch":
		return x.Kids[0].caption()
	case "not":
		return append([]string{"not "}, x.Kids[0].caption()...)
	case "none":
		if len(x.Kids) == 1 {
			return append([]string{"not "}, x.Kids[0].caption()...)
		}
		return []string{"not ", fmt.Sprintf(" %d ", len(x.Kids))}
	case "all", "any":
		if len(x.Kids) == 1 {
			return x.Kids[0].caption()
		}
		if x.Kind == "all" {
			break
		}
		return []string{"at least one", fmt.Sprintf(" %d ", len(x.Kids))}
	}
	return []string{fmt.Sprintf(" %d ", len(x.Kids))}
}

// caption returns texts that the caption of a contains, in order.
func (a *actSpec) caption() []string {
	switch a.Kind {
	case "dispatch", "unconsumed", "unknown":
		if a.Scope {
			break
		}
		if a.MT.Kind == message.CommandKind {
			return []string{"executing", a.MT.Name, "command"}
		}
		return []string{"recording", a.MT.Name, "event"}
	case "advance":
		switch a.Adj {
		case "by":
			return []string{"by " + a.D.String()}
		case "to":
			return []string{"to " + a.To.Format(time.RFC3339)}
		}
		return []string{a.adj.desc}
	case "call":
		return []string{"call"}
	}
	return []string{(&custom{a: a}).Caption()}
}

// isHeading returns true if e announces an action.
func (e tEvent) isHeading() bool {
	return e.Kind == "log" && strings.HasPrefix(e.Text, "--- ") && !e.isReport()
}

// announces returns true if e announces a, of which x is expected.
func (e tEvent) announces(a *actSpec, x *xspec) bool {
	if !e.isHeading() {
		return false
	}
	rest := e.Text
	want := a.caption()
	if x != nil {
		want = append(append([]string{"expect"}, want...), x.caption()...)
	}
	for _, w := range want {
		i := strings.Index(rest, w)
		if i < 0 {
			return false
		}
		rest = rest[i+len(w):]
	}
	return true
}

// begin is called when an action begins to be performed.
func (s *session) begin(a *actSpec) {
	if s.dry || s.c.Prop != "C28" {
		return
	}
	es := s.t.events
	if len(es) == 0 || !es[len(es)-1].announces(a, s.expected) {
		s.v("C28", "%s was not announced when it began (expecting %v): %v", a, s.expected, es)
	}
	s.eval("C28", "%s announced before it began, expectation=%v", a.Kind, s.expected != nil)
}

// checkHeadings checks how the actions of a step were announced.
func (s *session) checkHeadings(as []*actSpec, x *xspec, res *stepRes) {
	if s.dry || s.c.Prop != "C28" {
		return
	}
	n := 0
	for i, e := range res.Events {
		if !e.isHeading() {
			if i == 0 {
				s.v("C28", "%v: %v was logged before the action was announced", as, e)
			}
			continue
		}
		if n == len(as) {
			s.v("C28", "%v: %v was logged after the last action was announced", as, e)
			return
		}
		if !e.announces(as[n], x) {
			s.v("C28", "%v was announced as %q (expecting %v)", as[n], e.Text, x)
		}
		what := as[n].Kind + " " + as[n].Adj
		if x != nil {
			what += " expecting " + x.Kind
			if len(x.Kids) > 0 {
				what += fmt.Sprint(" ", min(len(x.Kids), 4))
			}
		}
		s.eval("C28", "%s position=%d", what, min(n, 3))
		n++
	}
	if x == nil && n < len(as) && !res.Panicked && !res.Aborted || n == 0 {
		s.v("C28", "%v: %d actions were announced: %v", as, n, res.Events)
	}
}
