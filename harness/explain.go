package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/dogmatiq/dapper"
	"github.com/dogmatiq/enginekit/message"
)

// xpair is an expectation together with its report.
type xpair struct {
	x        *xspec
	n        *rnode
	inverted bool
}

func (x *xspec) about() message.Kind {
	if x.MT != nil {
		return x.MT.Kind
	}
	return x.MKind
}

// judgeExplanations checks what a report says about message expectations.
func (s *session) judgeExplanations(a *actSpec, pairs []xpair, res *stepRes, failed bool, text string) {
	for _, p := range res.Prods {
		if !p.Sure {
			return
		}
	}
	for _, o := range res.Ops {
		if o.exp.panicked || o.exp.canceled {
			return
		}
	}
	for _, p := range pairs {
		switch p.x.Kind {
		case "msg", "type", "oftype", "match", "only", "imatch", "ionly":
		default:
			continue
		}
		if !failed {
			s.eval("C22", "passing %s", p.x.Kind)
			if len(p.n.Sections) > 0 {
				s.v("C22", "%s: the report of a passing test has a section %q for %v\n%s", a, p.n.Sections[0].Title, p.x, text)
			}
			continue
		}
		if p.n.Ok || p.inverted {
			continue
		}
		s.explanation(a, p.x, p.n, res, text)
	}
}

// mentions returns the names of the handlers mentioned in t.
func (s *session) mentions(t string) map[string]bool {
	out := map[string]bool{}
	for _, h := range s.w.Specs {
		rest := t
		for {
			i := strings.Index(rest, h.Name)
			if i < 0 {
				break
			}
			before := i == 0 || !isWord(rest[i-1])
			rest = rest[i+len(h.Name):]
			if before && (rest == "" || !isWord(rest[0])) {
				out[h.Name] = true
			}
		}
	}
	return out
}

func isWord(c byte) bool {
	return c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// explanation checks the explanation of a failed message expectation.
func (s *session) explanation(a *actSpec, x *xspec, n *rnode, res *stepRes, text string) {
	call := a.counts()
	kind := x.about()
	relevant := func(k HKind) bool {
		if kind == message.CommandKind {
			return k == Proc
		}
		return k == Agg || k == Intg
	}
	exp := n.section("EXPLANATION").text()
	bad := func(format string, args ...any) {
		s.v("C22", "%s expecting %v: %s; the explanation is %q, produced %s\n%s", a, x, fmt.Sprintf(format, args...), exp, prodText(res.Prods), text)
	}

	var last *prod
	total, ofKind, ignored, matched := 0, 0, 0, 0
	for _, p := range res.Prods {
		if p.Root && !call {
			continue
		}
		total++
		if p.MT.Kind != kind {
			continue
		}
		ofKind++
		if p.MT == x.MT {
			last = p
		}
		if x.Kind == "ionly" || x.Kind == "imatch" || p.MT == x.MT {
			switch x.decide(p.Body.UID) {
			case predIgnore:
				ignored++
			case predAccept:
				matched++
			}
		}
	}

	if x.Kind == "msg" && last != nil {
		got := s.mentions(exp)
		if last.H == nil {
			if len(got) > 0 {
				bad("the last similar message was dispatched by the action itself")
			}
		} else if len(got) != 1 || !got[last.H.Name] {
			bad("the last similar message was produced by %s", last.H.Name)
		}
		s.eval("C22", "similar by=%v call=%v kind=%s", last.H != nil, call, kind)
		s.diff(a, x, n, last, bad)
		return
	}

	s.failedMatches(a, x, n, res, text)

	on, begun := false, len(res.Ops) > 0
	engaged := map[string]bool{}
	extra := false
	for _, o := range res.Ops {
		for k, v := range o.res.Op.typeOn {
			on = on || v && relevant(k)
		}
		for _, me := range o.exp.msgs {
			for name, he := range me.handlers {
				h := s.sim.specs[name]
				if he.skipped == 0 && relevant(h.Kind) {
					engaged[name] = true
					if !o.res.Op.typeOn[h.Kind] {
						extra = true
					}
				}
			}
		}
	}
	var why string
	switch {
	case begun && !call && !on:
		why = "disabled"
	case begun && !call && len(engaged) == 0:
		why = "unengaged"
	case total == 0:
		why = "nothing"
	case ofKind == 0:
		why = "kind"
	default:
		why = "nomatch"
	}
	if why == "disabled" && extra {
		return // relevant handlers were enabled individually
	}
	if x.Kind == "only" || x.Kind == "ionly" {
		want := fmt.Sprintf("%d of %d", matched, ofKind-ignored)
		if matched == 0 {
			want = fmt.Sprintf("none of the %d", ofKind-ignored)
		}
		if !strings.Contains(exp, want) {
			s.v("C22 C30", "%s expecting %v: expected the explanation %q to state %q, produced %s\n%s", a, x, exp, want, prodText(res.Prods), text)
		}
	} else if got := classify(exp); got != why {
		bad("the reason is %s, not %s", why, got)
	}
	s.eval("C22", "%s %s call=%v kind=%s engaged=%d", why, x.Kind, call, kind, min(len(engaged), 4))
	if why == "disabled" || why == "unengaged" {
		return
	}
	got := s.mentions(n.section("SUGGESTIONS").text())
	for h := range engaged {
		if !got[h] {
			bad("%s was engaged but is not listed", h)
		}
	}
	for h := range got {
		if !engaged[h] {
			bad("%s is listed but was not engaged", h)
			continue
		}
		var lines []string
		for _, l := range strings.Split(n.section("SUGGESTIONS").text(), "\n") {
			if s.mentions(l)[h] {
				lines = append(lines, strings.ReplaceAll(l, h, ""))
			}
		}
		if len(lines) != 1 {
			bad("%s is listed %d times", h, len(lines))
		} else if t := handlerTypes[s.sim.specs[h].Kind].String(); !strings.Contains(lines[0], t) {
			bad("%s is not listed as %s", h, t)
		}
	}
}

// failedMatches checks what the report of a failed predicate-based expectation
// says about the messages that did not satisfy it.
func (s *session) failedMatches(a *actSpec, x *xspec, n *rnode, res *stepRes, text string) {
	var exhaustive, open bool
	switch x.Kind {
	case "match":
	case "only":
		exhaustive = true
	case "imatch":
		open = true
	case "ionly":
		exhaustive, open = true, true
	default:
		return
	}
	bad := func(format string, args ...any) {
		s.v("C30", "%s expecting %v: %s; produced %s\n%s", a, x, fmt.Sprintf(format, args...), prodText(res.Prods), text)
	}

	type rejection struct {
		mt    *MT
		text  string
		count int
	}
	var want []*rejection
	ignored := 0
	for _, p := range res.Prods {
		if p.Root && !a.counts() || p.MT.Kind != x.about() {
			continue
		}
		var why string
		switch {
		case open || p.MT == x.MT:
			switch x.decide(p.Body.UID) {
			case predAccept:
				continue
			case predIgnore:
				ignored++
				continue
			}
			why = x.objection(p.Body.UID)
		case exhaustive:
			why = x.MT.Name
		default:
			ignored++
			continue
		}
		known := false
		for _, r := range want {
			if r.mt == p.MT && r.text == why {
				r.count++
				known = true
			}
		}
		if !known {
			want = append(want, &rejection{p.MT, why, 1})
		}
	}

	var got []string
	if sec := n.section("FAILED MATCHES"); sec != nil {
		for _, l := range sec.Lines {
			if strings.TrimSpace(l) != "" {
				got = append(got, l)
			}
		}
	}
	most := 0
	for i, r := range want {
		most = max(most, r.count)
		if i >= len(got) {
			break
		}
		// The line consists of the type, the error and perhaps a count.
		_, rest, ok := strings.Cut(got[i], r.mt.Name)
		if ok {
			_, rest, ok = strings.Cut(rest, r.text)
		}
		switch {
		case !ok:
			bad("item %d is %q, expected it to be about %s and %q", i, got[i], r.mt.Name, r.text)
		case r.count > 1 && numbers(rest) != fmt.Sprint(r.count), r.count == 1 && numbers(rest) != "":
			bad("item %d is %q, but that happened %d times", i, got[i], r.count)
		}
	}
	if len(got) != len(want) {
		bad("there are %d items about rejected messages, expected %d", len(got), len(want))
	}
	says := ""
	if sec := n.section("SUGGESTIONS"); sec != nil {
		for _, l := range sec.Lines {
			if _, rest, ok := strings.Cut(l, "ignored"); ok {
				says += numbers(rest)
			}
		}
	}
	if ignored > 0 && says != fmt.Sprint(ignored) || ignored == 0 && says != "" {
		bad("%d messages were ignored, the report says %q", ignored, says)
	}
	s.eval("C30", "%s rejected=%d repeated=%d ignored=%v call=%v", x.Kind, min(len(want), 4), min(most, 4), ignored > 0, a.counts())
}

// numbers returns the digits in t.
func numbers(t string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, t)
}

// classify returns the reason stated by an explanation.
func classify(t string) string {
	switch {
	case strings.Contains(t, "handler types were enabled"):
		return "disabled"
	case strings.Contains(t, "relevant handlers") && strings.Contains(t, "engaged"):
		return "unengaged"
	case strings.Contains(t, "no messages were produced"):
		return "nothing"
	case strings.Contains(t, "at all"):
		return "kind"
	case strings.Contains(t, "a matching "):
		return "nomatch"
	}
	return "unknown"
}

// diff checks the difference between two messages.
func (s *session) diff(a *actSpec, x *xspec, n *rnode, last *prod, bad func(string, ...any)) {
	sec := n.section("MESSAGE DIFF")
	if sec == nil {
		bad("there is no diff")
		return
	}
	if x.MT.Proto {
		return
	}
	opts := []dapper.Option{dapper.WithPackagePaths(false), dapper.WithUnexportedStructFields(false)}
	for _, nt := range s.notes {
		opts = append(opts, dapper.WithAnnotator(func(v dapper.Value) string {
			if v.Value.Type() == reflect.TypeOf(nt.val) && reflect.DeepEqual(v.Value.Interface(), nt.val) {
				return nt.text
			}
			return ""
		}))
	}
	p := dapper.NewPrinter(opts...)
	want, got := p.Format(x.MT.Mk(x.Body)), p.Format(x.MT.Mk(last.Body))
	notes := 0
	for _, nt := range s.notes {
		if strings.Contains(want+got, nt.text) {
			notes++
		}
	}
	s.eval("C22", "diff notes=%d markup=%v", min(notes, 3), strings.ContainsAny(want+got, "+[]-"))
	if !isDiff(sec.text(), want, got) {
		bad("the difference does not yield\n%s\nand\n%s", want, got)
	}
}

// isDiff returns true if d is a difference between a and b.
func isDiff(d, a, b string) bool {
	type state struct {
		mode byte
		i, j int
	}
	at := map[int]map[state]bool{0: {{'=', 0, 0}: true}}
	add := func(k int, s state) {
		if at[k] == nil {
			at[k] = map[state]bool{}
		}
		at[k][s] = true
	}
	for k := 0; k <= len(d); k++ {
		// states reached without consuming a character of d do not exist
		for s := range at[k] {
			if k == len(d) {
				if s.mode == '=' && s.i == len(a) && s.j == len(b) {
					return true
				}
				continue
			}
			rest := d[k:]
			switch s.mode {
			case '=':
				if s.i < len(a) && s.j < len(b) && a[s.i] == d[k] && b[s.j] == d[k] {
					add(k+1, state{'=', s.i + 1, s.j + 1})
				}
				if strings.HasPrefix(rest, "{+") {
					add(k+2, state{'+', s.i, s.j})
				}
				if strings.HasPrefix(rest, "[-") {
					add(k+2, state{'-', s.i, s.j})
				}
			case '+':
				if s.j < len(b) && b[s.j] == d[k] {
					add(k+1, state{'+', s.i, s.j + 1})
				}
				if strings.HasPrefix(rest, "+}") {
					add(k+2, state{'=', s.i, s.j})
				}
			case '-':
				if s.i < len(a) && a[s.i] == d[k] {
					add(k+1, state{'-', s.i + 1, s.j})
				}
				if strings.HasPrefix(rest, "-]") {
					add(k+2, state{'=', s.i, s.j})
				}
			}
		}
		delete(at, k)
	}
	return false
}
