package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// rspec describes a report.
type rspec struct {
	Ok          bool
	Criteria    string
	Outcome     string
	Explanation string
	Sections    []*sspec
	Kids        []*rspec
}

type sspec struct {
	Title string
	Text  string
}

func (r *rspec) section(title string) *sspec {
	for _, s := range r.Sections {
		if s.Title == title {
			return s
		}
	}
	s := &sspec{Title: title}
	r.Sections = append(r.Sections, s)
	return s
}

var phrases = []string{
	"a few words", "100% of %d", "✓ not a mark", "✗ not a mark either", "• not an item", "EXPLANATION", "  | not a section", "<message>",
	"{+x+} [-y-]", "(in brackets)", "ünïcödé ⚙", "a\ttab", "\"quoted\"", "x", "--- TEST REPORT ---", strings.Repeat("long ", 60),
}

// lines returns text that consists of several lines.
func lines(r *Rng, most int) string {
	var out []string
	for n := r.Range(1, most); n > 0; n-- {
		l := pick(r, phrases)
		switch {
		case len(out) > 0 && n > 1 && r.P(15):
			l = ""
		case r.P(20):
			l = strings.Repeat(" ", r.Range(1, 5)) + l
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// genReport returns a report and what it is made of.
func genReport(r *Rng, depth int) (*rspec, *testkit.Report) {
	m := &rspec{Ok: r.P(50), Criteria: pick(r, phrases)}
	if r.P(40) {
		m.Outcome = pick(r, phrases)
	}
	if r.P(50) {
		m.Explanation = lines(r, pick(r, []int{1, 1, 4}))
	}
	rep := &testkit.Report{TreeOk: r.P(50), Ok: m.Ok, Criteria: m.Criteria, Outcome: m.Outcome, Explanation: m.Explanation}
	titles := shuffled(r, []string{"Suggestions", "Log Messages", "Failed Matches", "Message Diff", "suggestions", "100% %s", "other", "Ünder"})
	for n := r.Intn(9) * r.Intn(2); n > 0; n-- {
		t := titles[r.Intn(4)]
		s, sec := m.section(t), rep.Section(t)
		switch r.Intn(5) {
		case 0:
			l := lines(r, 3)
			s.Text += l + "\n"
			sec.Append("%s", l)
		case 1:
			k, l := r.Intn(100), pick(r, phrases)
			s.Text += fmt.Sprintf("%d%% of %s\n", k, l)
			sec.Append("%d%% of %s", k, l)
			if r.P(30) {
				s.Text += "50% done\n"
				sec.Append("50%% done")
			}
		case 2:
			l := pick(r, phrases)
			s.Text += "• " + l + "\n"
			sec.AppendListItem("%s", l)
		case 3:
			l := lines(r, 4)
			s.Text += l
			sec.Content.WriteString(l)
			if r.P(50) {
				s.Text += "\n"
				sec.Content.WriteByte('\n')
			}
		}
	}
	if depth > 1 {
		for n := r.Intn(4); n > 0; n-- {
			km, kr := genReport(r, depth-1)
			m.Kids = append(m.Kids, km)
			rep.Append(kr)
		}
	}
	return m, rep
}

// render returns the lines of a report.
func (r *rspec) render() []string {
	mark := "✗ "
	if r.Ok {
		mark = "✓ "
	}
	head := mark + r.Criteria
	if r.Outcome != "" {
		head += " (" + r.Outcome + ")"
	}
	out := []string{head}
	var blocks [][]string
	block := func(title, text string) {
		b := []string{title}
		for _, l := range strings.Split(text, "\n") {
			b = append(b, "    "+l)
		}
		blocks = append(blocks, b)
	}
	if r.Explanation != "" {
		block("EXPLANATION", r.Explanation)
	}
	for _, s := range r.Sections {
		if s.Text != "" {
			block(strings.ToUpper(s.Title), strings.TrimSpace(s.Text))
		}
	}
	for i, b := range blocks {
		if i == 0 {
			out = append(out, "")
		} else {
			out = append(out, "  | ")
		}
		for _, l := range b {
			out = append(out, "  | "+l)
		}
	}
	for _, k := range r.Kids {
		for _, l := range k.render() {
			out = append(out, "    "+l)
		}
	}
	return out
}

func (r *rspec) size() (nodes, sections int) {
	nodes, sections = 1, len(r.Sections)
	for _, k := range r.Kids {
		n, s := k.size()
		nodes, sections = nodes+n, sections+s
	}
	return
}

// sameLines returns a description of the first difference between text and the
// lines that are expected, not considering white space at the end of lines.
func sameLines(text string, want []string) string {
	trim := func(s string) string { return strings.TrimRight(s, " \t") }
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	for i := range max(len(got), len(want)) {
		switch {
		case i >= len(got):
			return fmt.Sprintf("line %d is missing: %q", i+1, want[i])
		case i >= len(want):
			return fmt.Sprintf("line %d is not expected: %q", i+1, got[i])
		case trim(got[i]) != trim(want[i]):
			return fmt.Sprintf("line %d is %q, expected %q", i+1, got[i], want[i])
		}
	}
	return ""
}

// limited is a writer that fails after some number of bytes.
type limited struct {
	left int
	err  error
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return len(p), nil
}

// repExp is an expectation that has a fixed report.
type repExp struct {
	ok  bool
	rep *testkit.Report
}

func (e *repExp) Caption() string { return "to be reported" }
func (e *repExp) Predicate(testkit.PredicateScope) (testkit.Predicate, error) {
	return e, nil
}
func (e *repExp) Notify(fact.Fact) {}
func (e *repExp) Ok() bool         { return e.ok }
func (e *repExp) Done()            {}
func (e *repExp) Report(testkit.ReportGenerationContext) *testkit.Report {
	return e.rep
}

// rendering writes generated reports.
func rendering(c *Case) {
	r := c.Rng
	for n := r.Range(1, 4); n > 0 && !c.Done(); n-- {
		m, rep := genReport(r, r.Range(1, 5))
		want := m.render()
		nodes, sections := m.size()
		for i := range 2 {
			var b bytes.Buffer
			count, err := rep.WriteTo(&b)
			switch {
			case err != nil:
				c.Fail("writing a report failed: %v", err)
			case count != int64(b.Len()):
				c.Fail("writing a report wrote %d bytes, but returned %d", b.Len(), count)
			default:
				if why := sameLines(b.String(), want); why != "" {
					c.Fail("the report written %d times is wrong: %s\n%s", i+1, why, b.String())
				}
			}
			c.Eval("C29", fmt.Sprintf("nodes=%d sections=%d", min(nodes, 12), min(sections, 12)))
			if err == nil && b.Len() > 0 {
				broken := errors.New("broken")
				var w io.Writer = &limited{r.Intn(b.Len()), broken}
				if _, err := rep.WriteTo(w); !errors.Is(err, broken) {
					c.Fail("writing a report to a broken destination returned %v", err)
				}
			}
		}

		// Use the report within a test.
		t := &recT{mode: "return"}
		test := testkit.Begin(t, &plainApp{seed: c.Seed})
		e := testkit.Expectation(&repExp{m.Ok, rep})
		ok := m.Ok
		if r.P(50) {
			m2, rep2 := genReport(r, 2)
			if r.P(50) {
				ok = m.Ok && m2.Ok
				e = testkit.AllOf(e, &repExp{m2.Ok, rep2})
			} else {
				ok = m.Ok || m2.Ok
				e = testkit.AnyOf(e, &repExp{m2.Ok, rep2})
			}
			for i, k := range []*rspec{m, m2} {
				if i == 0 {
					want = nil
				}
				for _, l := range k.render() {
					want = append(want, "    "+l)
				}
			}
		}
		test.Expect(testkit.Call(func() {}), e)
		var text string
		for _, ev := range t.events {
			if ev.isReport() {
				text += ev.Text
			}
		}
		head := "--- TEST REPORT ---\n"
		_, body, found := strings.Cut(text, head)
		body = strings.TrimPrefix(body, "\n")
		if len(want) > 0 && strings.HasPrefix(want[0], "    ") {
			_, body, _ = strings.Cut(body, "\n")
		}
		if !found {
			c.Fail("there is no report: %v", t.events)
		} else if why := sameLines(body, want); why != "" {
			c.Fail("the report logged by a test is wrong: %s\n%s", why, text)
		}
		if t.failed == ok {
			c.FailOf("C17", "failed=%v, expected %v", t.failed, !ok)
		}
		c.Eval("C29", fmt.Sprintf("test nodes=%d ok=%v", min(nodes, 12), ok))
	}
}

func init() {
	register(&Check{
		ID: "C29", Level: "exploration", Quick: 16000, Thorough: 120000,
		Rule: "a case is a few generated reports, each of which is written to several destinations and used by an expectation of a test; non-trivial: a distinct (number of reports and sections in a tree, outcome)",
		Run:  rendering,
	})
}
