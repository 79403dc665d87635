package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
)

// expLine describes a line that must be written to the log.
type expLine struct {
	what  string
	env   *envelope.Envelope
	parts []string // text that must appear, in order
	tail  string   // text that the line must end with
	also  func(line string) string
}

// expectLine returns the line that must be logged about a fact, if any.
func expectLine(f fact.Fact) *expLine {
	v := viewFact(f)
	l := &expLine{what: v.String(), env: v.Env}
	handler := v.Name
	if v.HasInst {
		handler += " " + v.Inst
	}
	if v.Name != "" {
		l.parts = append(l.parts, handler)
	}
	say := func(s ...string) { l.parts = append(l.parts, s...) }
	switch v.Kind {
	case "DispatchCycleBegun":
		say("dispatching", v.Time.Format(time.RFC3339))
		l.also = func(s string) string { return showsEnabled(s, v) }
	case "TickCycleBegun":
		say("tick", v.Time.Format(time.RFC3339))
		l.also = func(s string) string { return showsEnabled(s, v) }
	case "DispatchBegun":
		say(mtOf(v.Env.Message).Name)
		l.tail = v.Env.Message.MessageDescription()
	case "HandlingCompleted", "TickCompleted":
		if v.Err == nil {
			return nil
		}
		l.tail = v.Err.Error()
	case "HandlingSkipped":
		say("skipped")
		switch v.Reason {
		case fact.HandlerTypeDisabled:
			say(v.Handler.HandlerType().String(), "disabled")
		case fact.IndividualHandlerDisabled:
			say("disabled")
			l.also = func(s string) string {
				if strings.Contains(s, "Configure") || strings.Contains(s, "handlers are") {
					return "gives another reason"
				}
				return ""
			}
		case fact.IndividualHandlerDisabledByConfiguration:
			say("disabled", "Configure")
		}
	case "AggregateInstanceLoaded", "ProcessInstanceLoaded":
		say("loaded")
	case "AggregateInstanceNotFound", "ProcessInstanceNotFound":
		say("not", "exist")
	case "AggregateInstanceCreated":
		say("created")
	case "AggregateInstanceDestroyed":
		say("destroyed")
	case "AggregateInstanceDestructionReverted":
		say("revert")
	case "ProcessInstanceBegun":
		say("begun")
	case "ProcessInstanceEnded":
		say("ended")
	case "ProcessInstanceEndingReverted":
		say("revert")
	case "ProcessEventIgnored", "ProcessTimeoutIgnored":
		say("ignored")
	case "EventRecordedByAggregate", "EventRecordedByIntegration":
		l.env = v.Prod
		say("recorded", mtOf(v.Prod.Message).Name)
		l.tail = v.Prod.Message.MessageDescription()
	case "CommandExecutedByProcess":
		l.env = v.Prod
		say("executed", mtOf(v.Prod.Message).Name)
		l.tail = v.Prod.Message.MessageDescription()
	case "TimeoutScheduledByProcess":
		l.env = v.Prod
		say("scheduled", v.Prod.ScheduledFor.Format(time.RFC3339), mtOf(v.Prod.Message).Name)
		l.tail = v.Prod.Message.MessageDescription()
	case "MessageLoggedByAggregate", "MessageLoggedByProcess", "MessageLoggedByIntegration", "MessageLoggedByProjection":
		l.tail = fmt.Sprintf(v.Fmt, v.Args...)
	case "ProjectionCompactionCompleted":
		say("compact")
		if v.Err != nil {
			l.tail = v.Err.Error()
		}
	default:
		return nil
	}
	return l
}

// showsEnabled checks that a line shows which handlers are enabled during an
// operation.
func showsEnabled(line string, v *factView) string {
	_, rest, ok := strings.Cut(line, "enabled:")
	if !ok {
		return "does not show what is enabled"
	}
	rest += " "
	for _, t := range configkit.HandlerTypes {
		shown := false
		for _, w := range strings.Fields(rest) {
			n := strings.TrimPrefix(w, "+")
			if _, ok := v.Names[n]; n != w && !ok && strings.HasPrefix(n, t.String()) {
				shown = true
			}
		}
		if shown != v.Types[t] {
			return fmt.Sprintf("shows %s handlers as enabled: %t, expected %t", t, shown, v.Types[t])
		}
	}
	for n, en := range v.Names {
		if has := strings.Contains(rest, " +"+n+" "); has != en {
			return fmt.Sprintf("shows %q as enabled: %t, expected %t", n, has, en)
		}
		if has := strings.Contains(rest, " -"+n+" "); has == en {
			return fmt.Sprintf("shows %q as disabled: %t, expected %t", n, has, !en)
		}
	}
	return ""
}

var linePattern = regexp.MustCompile(`(?s)^\S+ (\S+)  \S+ (\S+)  \S+ (\S+)  (.*)$`)

// checkLines checks that lines tell the story of the given facts.
func checkLines(c *Case, facts []*FactRec, lines []string) {
	bad := func(format string, args ...any) {
		c.Violate([]string{"C26"}, fmt.Sprintf(format, args...))
	}
	for _, fr := range facts {
		l := expectLine(fr.F)
		if l == nil {
			continue
		}
		if len(lines) == 0 {
			bad("no line was logged about %s", l.what)
			return
		}
		line := lines[0]
		lines = lines[1:]
		if why := l.match(line); why != "" {
			bad("the line %q, about %s, %s", line, l.what, why)
			return
		}
		kind, _, _ := strings.Cut(l.what, " ")
		c.Eval("C26", fmt.Sprintf("%s %s", kind, textClass(l.tail)))
	}
	if len(lines) != 0 {
		bad("the line %q was logged about nothing", lines[0])
	}
}

func textClass(s string) string {
	t := ""
	for _, x := range []string{"%", "\n", "●", "{+", "日", "\\"} {
		if strings.Contains(s, x) {
			t += x
		}
	}
	return fmt.Sprintf("%q", t)
}

func (l *expLine) match(line string) string {
	m := linePattern.FindStringSubmatch(line)
	if m == nil {
		return "does not show any IDs"
	}
	var want [3]string
	if l.env != nil {
		want = [3]string{l.env.MessageID, l.env.CausationID, l.env.CorrelationID}
	}
	for i, w := range want {
		got := m[i+1]
		if w == "" {
			if strings.Trim(got, "-") != "" {
				return fmt.Sprintf("shows ID %q, but there is no message", got)
			}
		} else if strings.TrimLeft(got, "0") != strings.TrimLeft(w, "0") {
			return fmt.Sprintf("shows %q as the %s ID, expected %q", got, []string{"message", "causation", "correlation"}[i], w)
		}
	}
	if l.also != nil {
		if why := l.also(m[4]); why != "" {
			return why
		}
	}
	rest := m[4]
	for _, p := range l.parts {
		i := strings.Index(rest, p)
		if i < 0 {
			return fmt.Sprintf("does not show %q", p)
		}
		rest = rest[i+len(p):]
	}
	if l.tail != "" && !strings.HasSuffix(rest, " "+l.tail) {
		return fmt.Sprintf("does not show %q verbatim", l.tail)
	}
	return ""
}
