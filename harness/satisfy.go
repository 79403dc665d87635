package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// satItem is a use of the test handle by a user-defined expectation.
type satItem struct {
	ID     int
	Op     string
	Text   string
	Args   []any // logged after the text
	Level  int   // number of nested functions between the script and the use
	Rec    int   // depth of recursion
	Helper map[string]bool
	Body   []*satItem // of a cleanup function
	Many   string     // the method used by several goroutines
	Busy   bool       // the handle is queried from other goroutines meanwhile
}

// satScript is the behavior of a user-defined expectation.
type satScript struct {
	ID    int
	Items []*satItem

	run *satRun // the most recent execution
}

// satRun is an execution of a script.
type satRun struct {
	sc    *satScript
	t     *testkit.SatisfyT
	calls int
	begun int
	name  string
	facts []fact.Fact
	opts  testkit.PredicateOptions
	trace []string

	it      *satItem
	lines   map[string]int
	helpers map[string]bool
	hit     *satHit // the first failure or skip

	watchers sync.WaitGroup
}

// satHit is where a failure or skip was signalled.
type satHit struct {
	method string
	frames []string // outermost last
	lines  map[string]int
	helper map[string]bool
}

// where returns the line to be reported, or zero if there is none.
func (h *satHit) where() int {
	for _, f := range h.frames {
		if !h.helper[f] {
			return h.lines[f]
		}
	}
	return 0
}

// at records the line of the call to at.
func (r *satRun) at(key string) *satRun {
	_, _, line, _ := runtime.Caller(1)
	r.lines[key] = line
	return r
}

func (r *satRun) mark(key string) {
	r.helpers[key] = true
}

var satMethods = map[string]string{
	"error": "Error", "errorf": "Errorf", "fail": "Fail", "failnow": "FailNow", "fatal": "Fatal", "fatalf": "Fatalf",
	"skip": "Skip", "skipnow": "SkipNow", "skipf": "Skipf",
}

func (it *satItem) aborts() bool {
	switch it.Op {
	case "failnow", "fatal", "fatalf", "skip", "skipnow", "skipf":
		return true
	}
	return false
}

func (it *satItem) args() []any { return append([]any{it.Text}, it.Args...) }

// fn returns the function to be used by ToSatisfy.
func (sc *satScript) fn(s *session) func(*testkit.SatisfyT) {
	sc.run = &satRun{sc: sc}
	return func(t *testkit.SatisfyT) {
		r := sc.run
		r.calls++
		r.t = t
		r.begun = s.w.Rec.Seq()
		r.name = t.Name()
		r.facts = slices.Clone(t.Facts)
		r.opts = t.Options
		r.lines = map[string]int{}
		r.helpers = map[string]bool{}
		defer r.watchers.Wait()
		satItems(r.at("pred"), sc.Items, "pred")
	}
}

// satItems performs a list of items.
func satItems(r *satRun, items []*satItem, from string) {
	for _, it := range items {
		if it.Op == "helper-items" {
			r.trace = append(r.trace, fmt.Sprintf("i%d", it.ID))
			r.mark("items")
			r.t.Helper()
			continue
		}
		satStep(r.at("items"), it, from)
	}
}

// satStep performs an item.
func satStep(r *satRun, it *satItem, from string) {
	r.trace = append(r.trace, fmt.Sprintf("i%d", it.ID))
	r.it = it
	frames := []string{"do"}
	switch it.Op {
	case "helper-step":
		r.mark("step")
		r.t.Helper()
		return
	case "failed":
		r.trace = append(r.trace, fmt.Sprint(r.t.Failed()))
		return
	case "skipped":
		r.trace = append(r.trace, fmt.Sprint(r.t.Skipped()))
		return
	case "parallel":
		r.t.Parallel()
		return
	case "cleanup":
		r.t.Cleanup(func() {
			r.trace = append(r.trace, fmt.Sprintf("c%d", it.ID))
			defer r.watchers.Wait()
			satItems(r.at("cleanup"), it.Body, "cleanup")
		})
		return
	case "panic":
		panic(&userPanic{fmt.Sprintf("script %d item %d", r.sc.ID, it.ID)})
	case "gomany":
		r.many(it)
		return
	}
	if it.Busy {
		r.watch()
	}
	switch {
	case it.Op == "go-log" || it.Op == "go-fail":
		frames = append(frames, "go")
	default:
		if it.Rec > 0 {
			frames = append(frames, "rec0", "rec")
		}
		for i := 4; i > 4-it.Level; i-- {
			frames = append(frames, fmt.Sprintf("lvl%d", i))
		}
		frames = append(frames, "step", "items", from)
	}
	if m := satMethods[strings.TrimPrefix(it.Op, "go-")]; m != "" && r.hit == nil {
		r.hit = &satHit{method: m, frames: frames, lines: r.lines, helper: r.helpers}
		defer func() {
			// keep things as they are at the time of the failure
			h := map[string]bool{}
			for k, v := range r.helpers {
				h[k] = v
			}
			h["rec0"] = h["rec"]
			l := map[string]int{}
			for k, v := range r.lines {
				l[k] = v
			}
			r.hit.helper, r.hit.lines = h, l
		}()
	}
	if strings.HasPrefix(it.Op, "go-") {
		done := make(chan struct{})
		go func() {
			defer close(done)
			satDo(r.at("go"))
		}()
		<-done
		return
	}
	switch it.Level {
	case 0:
		if it.Rec > 0 {
			satRec(r.at("step"), it.Rec)
		} else {
			satDo(r.at("step"))
		}
	case 1:
		satLvl4(r.at("step"))
	case 2:
		satLvl3(r.at("step"))
	case 3:
		satLvl2(r.at("step"))
	default:
		satLvl1(r.at("step"))
	}
}

// many uses one method of the test handle from several goroutines at once.
func (r *satRun) many(it *satItem) {
	if m := satMethods[it.Many]; m != "" && r.hit == nil {
		r.hit = &satHit{method: m, frames: []string{"many"}, lines: map[string]int{}}
	}
	_, _, line, _ := runtime.Caller(0)
	use := map[string]func(){
		"error":   func() { r.t.Error(it.Text) },
		"errorf":  func() { r.t.Errorf("%s", it.Text) },
		"fail":    func() { r.t.Fail() },
		"log":     func() { r.t.Log(it.Text) },
		"logf":    func() { r.t.Logf("%s", it.Text) },
		"helper":  func() { r.t.Helper() },
		"cleanup": func() { r.t.Cleanup(func() { r.trace = append(r.trace, fmt.Sprintf("c%d", it.ID)) }) },
	}
	if h := r.hit; h != nil && len(h.lines) == 0 {
		h.lines["many"] = line + map[string]int{"error": 2, "errorf": 3, "fail": 4}[it.Many]
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			use[it.Many]()
		}()
	}
	if it.Busy {
		r.watch()
	}
	close(start)
	wg.Wait()
}

// watch queries the test handle from other goroutines while the function goes
// on.
func (r *satRun) watch() {
	t := r.t
	for i := 0; i < 2; i++ {
		r.watchers.Add(1)
		begun := make(chan struct{})
		go func() {
			defer r.watchers.Done()
			close(begun)
			for j := 0; j < 50; j++ {
				t.Failed()
				t.Skipped()
				runtime.Gosched()
			}
		}()
		<-begun
	}
}

func satLvl1(r *satRun) {
	if r.it.Helper["lvl1"] {
		r.mark("lvl1")
		r.t.Helper()
	}
	satLvl2(r.at("lvl1"))
}

func satLvl2(r *satRun) {
	if r.it.Helper["lvl2"] {
		r.mark("lvl2")
		r.t.Helper()
	}
	satLvl3(r.at("lvl2"))
}

func satLvl3(r *satRun) {
	if r.it.Helper["lvl3"] {
		r.mark("lvl3")
		r.t.Helper()
	}
	defer r.t.Parallel()
	satLvl4(r.at("lvl3"))
}

func satLvl4(r *satRun) {
	if r.it.Helper["lvl4"] {
		r.mark("lvl4")
		r.t.Helper()
	}
	if r.it.Rec > 0 {
		satRec(r.at("lvl4"), r.it.Rec)
	} else {
		satDo(r.at("lvl4"))
	}
}

func satRec(r *satRun, n int) {
	if r.it.Helper["rec"] {
		r.mark("rec")
		r.t.Helper()
	}
	if n > 1 {
		satRec(r.at("rec"), n-1)
		return
	}
	satDo(r.at("rec0"))
}

// satDo uses the test handle.
func satDo(r *satRun) {
	it := r.it
	if it.Helper["do"] {
		r.mark("do")
		r.t.Helper()
	}
	switch it.Op {
	case "log", "go-log":
		r.at("do").t.Log(it.args()...)
	case "logf":
		r.at("do").t.Logf("%s!", it.Text)
	case "error":
		r.at("do").t.Error(it.args()...)
	case "errorf":
		r.at("do").t.Errorf("%s!", it.Text)
	case "fail", "go-fail":
		r.at("do").t.Fail()
	case "failnow":
		r.at("do").t.FailNow()
	case "fatal":
		r.at("do").t.Fatal(it.args()...)
	case "fatalf":
		r.at("do").t.Fatalf("%s!", it.Text)
	case "skip":
		r.at("do").t.Skip(it.args()...)
	case "skipnow":
		r.at("do").t.SkipNow()
	case "skipf":
		r.at("do").t.Skipf("%s!", it.Text)
	}
}

// satModel is what should happen when a script is executed.
type satModel struct {
	trace    []string
	logs     []string
	failed   bool
	skipped  bool
	cleanups []*satItem
	panics   []string
}

func (sc *satScript) model() *satModel {
	m := &satModel{}
	m.items(sc, sc.Items)
	for len(m.cleanups) > 0 {
		n := len(m.cleanups) - 1
		it := m.cleanups[n]
		m.cleanups = m.cleanups[:n]
		m.trace = append(m.trace, fmt.Sprintf("c%d", it.ID))
		m.items(sc, it.Body)
	}
	return m
}

func (m *satModel) items(sc *satScript, items []*satItem) {
	for _, it := range items {
		m.trace = append(m.trace, fmt.Sprintf("i%d", it.ID))
		switch it.Op {
		case "log", "error", "fatal", "skip", "go-log":
			m.logs = append(m.logs, strings.TrimSuffix(fmt.Sprintln(it.args()...), "\n"))
		case "logf", "errorf", "fatalf", "skipf":
			m.logs = append(m.logs, it.Text+"!")
		case "gomany":
			switch it.Many {
			case "log", "logf", "error", "errorf":
				m.logs = append(m.logs, it.Text, it.Text, it.Text)
			case "cleanup":
				m.cleanups = append(m.cleanups, it, it, it)
			}
			m.failed = m.failed || satMethods[it.Many] != ""
		case "cleanup":
			m.cleanups = append(m.cleanups, it)
		case "panic":
			m.panics = append(m.panics, fmt.Sprintf("script %d item %d", sc.ID, it.ID))
			return
		case "failed":
			m.trace = append(m.trace, fmt.Sprint(m.failed))
		case "skipped":
			m.trace = append(m.trace, fmt.Sprint(m.skipped))
		}
		switch strings.TrimPrefix(it.Op, "go-") {
		case "error", "errorf", "fail", "failnow", "fatal", "fatalf":
			m.failed = true
		case "skip", "skipnow", "skipf":
			m.skipped = true
		}
		if it.aborts() {
			return
		}
	}
}

func (sc *satScript) ok() bool {
	m := sc.model()
	return m.skipped || !m.failed
}

func (sc *satScript) panics() bool { return len(sc.model().panics) > 0 }

func (sc *satScript) isPanic(v any) bool {
	p, ok := v.(*userPanic)
	return ok && slices.Contains(sc.model().panics, p.text)
}

// judgeOptions checks the options that a user-defined expectation was given.
func (s *session) judgeOptions(a *actSpec, o testkit.PredicateOptions, what string) {
	if o.MatchDispatchCycleStartedFacts != a.counts() {
		s.v("C21", "%s: the expectation was told that dispatched messages count: %v", what, o.MatchDispatchCycleStartedFacts)
	}
	for _, t := range [][2]Body{
		{{UID: "a", Text: "x"}, {UID: "a", Text: "x"}},
		{{UID: "a", Text: "x"}, {UID: "a", Text: "y"}},
		{{UID: "a", Text: "x"}, {UID: "b", Text: "x"}},
	} {
		want := reflect.DeepEqual(t[0], t[1])
		if s.cmp != nil {
			want = s.cmp(t[0], t[1])
		}
		if o.MessageComparator == nil {
			if s.cmp != nil {
				s.v("C21", "%s: the expectation was not given the comparator", what)
			}
		} else if got := o.MessageComparator(CmdA{CmdBase{t[0]}}, CmdA{CmdBase{t[1]}}); got != want {
			s.v("C21", "%s: the comparator that the expectation was given says %v about %v and %v", what, got, t[0], t[1])
		}
	}
	s.eval("C21", "options counts=%v comparator=%v", a.counts(), s.cmp != nil)
}

// judgeSatisfy checks how the function was called.
func (s *session) judgeSatisfy(a *actSpec, root, x *xspec, res *stepRes, class string) {
	r := x.Sat.run
	what := fmt.Sprintf("%s expecting %v", a, x)
	switch {
	case r == nil:
		if class != "refused" {
			s.v("C21", "%s: the function was not called", what)
		}
		return
	case class == "refused":
		if r.calls > 0 {
			s.v("C21 C18", "%s: the function was called although the expectation is impossible", what)
		}
		return
	case r.calls == 0 && root.panics() && !x.Sat.panics():
		return
	case r.calls != 1:
		s.v("C21", "%s: the function was called %d times", what, r.calls)
		return
	}
	m := x.Sat.model()
	if !slices.Equal(m.trace, r.trace) {
		s.v("C21", "%s: expected the execution %v, got %v", what, m.trace, r.trace)
	}
	if !strings.Contains(r.name, fmt.Sprintf("satisfy #%d", x.ID)) {
		s.v("C21", "%s: the name is %q", what, r.name)
	}
	s.judgeOptions(a, r.opts, what)
	for _, f := range res.Facts {
		if f.Seq > r.begun {
			s.v("C21", "%s: the function was called before %s", what, viewFact(f.F))
			break
		}
	}
	if len(r.facts) != len(res.Facts) {
		s.v("C21", "%s: the function was given %d facts instead of %d", what, len(r.facts), len(res.Facts))
		return
	}
	for i, f := range r.facts {
		if !sameFact(viewFact(f), viewFact(res.Facts[i].F)) {
			s.v("C21", "%s: fact %d is %s instead of %s", what, i, viewFact(f), viewFact(res.Facts[i].F))
			return
		}
	}
	sig := ""
	for _, it := range x.Sat.Items {
		sig += it.Op[:1]
		if len(sig) == 4 {
			break
		}
	}
	s.eval("C21", "script %s cleanups=%v failed=%v skipped=%v panic=%d", sig, strings.Contains(strings.Join(m.trace, ","), "c"), m.failed, m.skipped, len(m.panics))
}

// matchSatisfy checks the report of a user-defined expectation.
func (s *session) matchSatisfy(a *actSpec, x *xspec, n *rnode, inverted bool, text string) {
	m := x.Sat.model()
	exp, logs := n.section("EXPLANATION"), n.section("LOG MESSAGES")
	hidden := inverted && !n.Ok
	if r := x.Sat.run; r != nil && r.hit != nil && (!hidden || exp != nil) {
		t := exp.text()
		if !strings.Contains(t, r.hit.method+"()") {
			s.v("C21", "%s: the report does not state that %s() was called: %q", a, r.hit.method, t)
		}
		if line := r.hit.where(); line != 0 {
			_, file, _, _ := runtime.Caller(0)
			want := fmt.Sprintf("%s:%d", filepath.Base(file), line)
			if !hasNumber(t, want) {
				s.v("C21", "%s: the report does not state that %s() was called at %s: %q (frames %v, helpers %v)", a, r.hit.method, want, t, r.hit.frames, r.hit.helper)
			}
			nh := 0
			for _, f := range r.hit.frames {
				if r.hit.helper[f] {
					nh++
				} else {
					break
				}
			}
			s.eval("C21", "location %s frames=%d helpers=%d rec=%v", r.hit.method, len(r.hit.frames), nh, slices.Contains(r.hit.frames, "rec"))
		}
	}
	if !hidden || logs != nil {
		rest := strings.Join(strings.Fields(logs.text()), " ")
		for _, l := range m.logs {
			l = strings.Join(strings.Fields(l), " ")
			i := strings.Index(rest, l)
			if i < 0 {
				s.v("C21", "%s: the log message %q is missing from the report or out of order\n%s", a, l, text)
				break
			}
			rest = rest[i+len(l):]
		}
		if strings.TrimSpace(rest) != "" {
			s.v("C21", "%s: the report contains additional log messages %q\n%s", a, rest, text)
		}
	}
}

// hasNumber returns true if text contains want, not followed by a digit.
func hasNumber(text, want string) bool {
	for {
		i := strings.Index(text, want)
		if i < 0 {
			return false
		}
		text = text[i+len(want):]
		if text == "" || text[0] < '0' || text[0] > '9' {
			return true
		}
	}
}

// genSat generates a script.
func genSat(rng *Rng, id int, panics bool) *satScript {
	sc := &satScript{ID: id}
	next := 0
	nasty := pick(rng, []int{5, 20, 40})
	var items func(depth int) []*satItem
	items = func(depth int) []*satItem {
		var out []*satItem
		for n := rng.Intn(6); n > 0; n-- {
			next++
			it := &satItem{ID: next, Helper: map[string]bool{}}
			it.Text = fmt.Sprintf("text %d ", next) + pick(rng, []string{"", "100% %d", "two\nlines", "• item", "EXPLANATION", "✓ ok", "  | x"})
			switch {
			case panics && rng.P(12):
				it.Op = "panic"
			case rng.P(nasty):
				it.Op = pick(rng, []string{"error", "errorf", "fail", "failnow", "fatal", "fatalf", "skip", "skipnow", "skipf", "go-fail"})
			case rng.P(30) && depth < 3:
				it.Op = "cleanup"
				it.Body = items(depth + 1)
			case rng.P(8):
				it.Op = pick(rng, []string{"helper-step", "helper-items"})
			default:
				it.Op = pick(rng, []string{"log", "logf", "go-log", "failed", "skipped", "parallel", "gomany", "log"})
			}
			for rng.P(25) {
				it.Args = append(it.Args, pick(rng, []any{"word", "", 7, true, []string{"a", "b"}, errReason, nil, "%d"}))
			}
			it.Busy = rng.P(20)
			if it.Op == "gomany" {
				it.Many = pick(rng, []string{"log", "logf", "helper", "cleanup", "log", "cleanup"})
				if rng.P(nasty) {
					it.Many = pick(rng, []string{"error", "errorf", "fail"})
				}
			}
			it.Level = rng.Intn(5)
			hp := pick(rng, []int{0, 50, 90, 100})
			for _, k := range []string{"do", "rec", "lvl4", "lvl3", "lvl2", "lvl1"} {
				it.Helper[k] = rng.P(hp)
			}
			if rng.P(15) {
				it.Rec = pick(rng, []int{1, 2, 5, 40, 70, 200})
			}
			out = append(out, it)
		}
		return out
	}
	sc.Items = items(0)
	return sc
}
