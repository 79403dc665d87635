package main

import (
	"errors"
	"fmt"
	"path"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/location"
	looksalike "verif/harness/runtime"
)

// spot is a place in this program.
type spot struct {
	fn   string
	file string
	line int
	last int // last acceptable line, if not the same
}

// place returns the place that is skip calls away from its caller.
func place(skip int) spot {
	pc, file, line, _ := runtime.Caller(skip + 1)
	fr, _ := runtime.CallersFrames([]uintptr{pc + 1}).Next()
	return spot{fr.Function, file, line, line}
}

func (s spot) String() string { return fmt.Sprintf("%s:%d (%s)", path.Base(s.file), s.line, s.fn) }

func (s spot) is(l location.Location) bool {
	return l.File == s.file && l.Line >= s.line && l.Line <= s.last && (s.fn == "" || l.Func == s.fn)
}

// above returns the place of the definition of a function, given its first line.
func (s spot) above() spot {
	s.line--
	return s
}

// --- functions that are looked up ---

func locPlain() spot {
	return place(0).above()
}

func locArgs(a int, b string) (spot, error) {
	s := place(0).above()
	return s, nil
}

func locGeneric[T any](T) spot {
	s := place(0).above()
	s.fn = "" // the name of a generic function depends on the compiler
	return s
}

// locInlined is likely to be inlined by its callers.
func locInlined(n int) int { return n + 1 }

func locCaller() spot {
	_ = locInlined(1)
	return spot{place(0).fn, place(0).file, place(0).line - 2, place(0).line}
}

var locGlobal = func() spot {
	s := place(0).above()
	return s
}

func locMaker() (func() spot, func() spot) {
	return func() spot {
			s := place(0).above()
			return s
		}, func() spot {
			return func() spot { return place(1) }().above()
		}
}

type locRecv struct{ n int }

func (locRecv) Value() spot {
	return place(0).above()
}

func (r *locRecv) Pointer() spot {
	s := place(0).above()
	return s
}

type locNamed func()

func (locNamed) Value() spot {
	return place(0).above()
}

// locOuter has promoted methods.
type locOuter struct{ *locRecv }

// --- ways to make the stack deeper ---

const frames = "pcdgmrsin"

// dig calls f below a stack of frames.
func dig(p string, f func()) {
	if p == "" {
		f()
		return
	}
	rest := p[1:]
	switch p[0] {
	case 'p':
		dig(rest, f)
	case 'c':
		func() { dig(rest, f) }()
	case 'd':
		func() {
			defer func() { dig(rest, f) }()
		}()
	case 'g':
		done := make(chan struct{})
		go func() {
			defer close(done)
			dig(rest, f)
		}()
		<-done
	case 'm':
		locDigger{}.dig(rest, f)
	case 'r':
		func() {
			defer func() {
				_ = recover()
				dig(rest, f)
			}()
			panic("unrelated")
		}()
	case 's':
		done := false
		sort.Slice([]int{2, 1}, func(i, j int) bool {
			if !done {
				done = true
				dig(rest, f)
			}
			return i < j
		})
	case 'n':
		looksalike.Call(func() { dig(rest, f) })
	case 'i':
		var x interface{ dig(string, func()) } = &locDigger{}
		x.dig(rest, f)
	}
}

type locDigger struct{}

func (locDigger) dig(p string, f func()) { dig(p, f) }

func genFrames(r *Rng, kinds string, n int) string {
	var b strings.Builder
	for n = r.Intn(n + 1); n > 0; n-- {
		b.WriteByte(kinds[r.Intn(len(kinds))])
	}
	return b.String()
}

// --- lookups ---

// locFuncs checks the locations of functions and methods.
func locFuncs(c *Case, p string) {
	inner, outer := locMaker()
	local := func() spot { return place(0) }
	k := c.Rng.Intn(1000)
	captured := func() spot {
		if k < 0 {
			return spot{}
		}
		s := place(0)
		s.line -= 4
		return s
	}
	args, _ := locArgs(1, "")
	x := &locRecv{}
	for _, t := range []struct {
		name string
		fn   any
		want spot
	}{
		{"function", locPlain, locPlain()},
		{"function with arguments", locArgs, args},
		{"generic function", locGeneric[int], locGeneric(1)},
		{"generic function 2", locGeneric[*locRecv], locGeneric(x)},
		{"function with inlined call", locCaller, locCaller()},
		{"global closure", locGlobal, locGlobal()},
		{"returned closure", inner, inner()},
		{"returned closure 2", outer, outer()},
		{"local closure", local, local()},
		{"capturing closure", captured, captured()},
		{"method expression", (*locRecv).Pointer, x.Pointer()},
		{"method expression 2", locRecv.Value, x.Value()},
		{"method value", x.Pointer, x.Pointer()},
	} {
		var got location.Location
		dig(p, func() { got = location.OfFunc(t.fn) })
		switch {
		case strings.Contains(t.name, "closure"):
			locText(c, got, false)
		case t.name == "function" || t.name == "function with arguments" || strings.HasPrefix(t.name, "method expression"):
			locText(c, got, true)
		}
		locMethod(c, "OfFunc() of "+t.name, p, got, t.want)
	}
	for _, t := range []struct {
		name string
		recv any
		m    string
		want spot
	}{
		{"pointer receiver", x, "Pointer", x.Pointer()},
		{"value receiver", *x, "Value", x.Value()},
		{"value receiver 2", locNamed(nil), "Value", locNamed(nil).Value()},
		{"value receiver via pointer", x, "Value", x.Value()},
		{"promoted method", locOuter{x}, "Value", x.Value()},
		{"promoted method 2", &locOuter{x}, "Pointer", x.Pointer()},
	} {
		var got location.Location
		dig(p, func() { got = location.OfMethod(t.recv, t.m) })
		locMethod(c, "OfMethod() of "+t.name, p, got, t.want)
	}
}

// locMethod checks the location of a function or method, to which the compiler
// may have added a wrapper.
func locMethod(c *Case, what, p string, got location.Location, want spot) {
	if got.File == "<autogenerated>" {
		c.Eval("C23", what)
		c.Known("C23", "method-wrapper", fmt.Sprintf("%s is that of a wrapper added by the compiler, %s", what, got))
		return
	}
	locCompare(c, what, p, got, want, 1)
}

// locCompare checks a location. slack is the number of lines by which the
// location of a function may differ, as it depends on the compiler.
func locCompare(c *Case, what, p string, got location.Location, want spot, slack int) {
	want.last = max(want.last, want.line+slack)
	c.Eval("C23", fmt.Sprintf("%s depth=%d", what, min(len(p)/4, 6)))
	c.Log("%s below %q: %s", what, p, got)
	if !want.is(got) {
		c.Fail("%s below %q is %s:%d (%s), expected %s", what, p, path.Base(got.File), got.Line, got.Func, want)
	}
}

// locText checks the rendering of a location.
func locText(c *Case, l location.Location, hasName bool) {
	c.Eval("C23", fmt.Sprintf("text file=%t func=%t named=%t", l.File != "", l.Func != "", hasName))
	want := fmt.Sprintf("%s:%d", path.Base(l.File), l.Line)
	text := l.String()
	fl, ok := l.FileLine()
	if ok != (l.File != "") || ok && fl != want {
		c.Fail("the file and line of %#v are shown as %q, %t", l, fl, ok)
	}
	if l.File != "" && !named(text, want) {
		c.Fail("%#v is shown as %q, without the file and line", l, text)
	}
	if l.Func != "" && strings.Contains(text, l.Func) != (hasName || l.File == "") || text == "" {
		c.Fail("%#v is shown as %q, with or without the name of the function", l, text)
	}
}

// locTexts checks the rendering of arbitrary locations.
func locTexts(c *Case) {
	r := c.Rng
	for range 20 {
		var l location.Location
		if r.P(80) {
			l.File = pick(r, []string{"", "/"}) + strings.Repeat("dir/", r.Intn(4)) + pick(r, []string{"a.go", "a b.go", "%s.go", "x_test.go", "日本.go", "func1.go"})
			l.Line = r.Range(1, pick(r, []int{9, 100, 1000000}))
		}
		hasName := r.P(60)
		switch {
		case r.P(15):
		case hasName:
			l.Func = pick(r, []string{"main.", "example.org/x/y.", "example.org/x.func1/y.", "x.y%2ez."}) +
				pick(r, []string{"", "T.", "(*T).", "func1T."}) +
				pick(r, []string{"f", "Func", "func1x", "function2", "funcs", "myfunc1", "init", "日本", "F[...]"})
		default:
			l.Func = pick(r, []string{"main.", "example.org/x/y.", "x.y%2ez."}) +
				pick(r, []string{"f.", "(*T).f.", "T.f.", "init."}) +
				pick(r, []string{"func1", "func12", "func3.1", "func10.2.33", "func1.1.1.1"})
		}
		if l.Func == "" {
			hasName = false
		}
		locText(c, l, hasName)
	}
}

// calledFrom returns the location at which it was called.
func calledFrom() location.Location { return location.OfCall() }

func calledFromGeneric[T any](T) location.Location { return location.OfCall() }

func (*locRecv) calledFrom(...int) location.Location { return location.OfCall() }

// locCalls checks the locations of calls.
func locCalls(c *Case, p string) {
	x := &locRecv{}
	cl := func() location.Location { return location.OfCall() }
	for i, f := range []func() (location.Location, spot){
		func() (location.Location, spot) { return calledFrom(), place(0) },
		func() (location.Location, spot) { return calledFromGeneric("x"), place(0) },
		func() (location.Location, spot) { return x.calledFrom(1, 2), place(0) },
		func() (location.Location, spot) { return cl(), place(0) },
		func() (location.Location, spot) { m := x.calledFrom; return m(), place(0) },
		func() (l location.Location, s spot) {
			func() { l, s = calledFrom(), place(0) }()
			return
		},
		func() (l location.Location, s spot) {
			defer func() { l, s = calledFrom(), place(0) }()
			return
		},
		func() (l location.Location, s spot) {
			for range 3 {
				l, s = calledFrom(), place(0)
			}
			return
		},
	} {
		var got location.Location
		var want spot
		dig(p, func() { got, want = f() })
		locCompare(c, fmt.Sprintf("OfCall() #%d", i), p, got, want, 0)
	}
}

// boom panics in a variety of ways. It tells where.
func boom(kind int, where *spot) {
	switch kind {
	case 0:
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		panic("explicit")
	case 1:
		var m map[string]int
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		m["x"] = 1
	case 2:
		s := []int{1}
		k := len(s) + 3
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		_ = s[k]
	case 3:
		var x *locRecv
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		x.n = 3
	case 4: // panic again
		defer func() {
			v := recover()
			*where = place(0)
			where.line, where.last = where.line+2, where.line+2
			panic(v)
		}()
		panic("first")
	case 5: // panic while panicking
		defer func() {
			*where = place(0)
			where.line, where.last = where.line+2, where.line+2
			panic("second")
		}()
		panic("first")
	case 6: // while returning normally
		defer func() {
			*where = place(0)
			where.line, where.last = where.line+2, where.line+2
			panic(errors.New("deferred"))
		}()
	case 7: // below the standard library
		sort.Slice([]int{3, 2, 1}, func(i, j int) bool {
			*where = place(0)
			where.line, where.last = where.line+2, where.line+2
			panic("callback")
		})
	case 8:
		var v any = "text"
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		_ = v.(int)
	case 9:
		zero := len("")
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		_ = 1 / zero
	case 10: // after a panic that was recovered
		func() {
			defer func() { _ = recover() }()
			panic("recovered")
		}()
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		panic("after")
	case 11: // with a deferred function that panics and recovers
		defer func() {
			defer func() { _ = recover() }()
			panic("recovered")
		}()
		*where = place(0)
		where.line, where.last = where.line+2, where.line+2
		panic("outer")
	case 12: // in functions with names like those of the runtime
		runtimePanic(where)
	case 13:
		gopanic{}.runtime(where)
	case 14:
		looksalike.Panic(func(n int) {
			*where = place(1)
			where.line, where.last = where.line+n, where.line+n
		})
	case 15:
		func() {
			runtime := func() {
				*where = place(0)
				where.line, where.last = where.line+2, where.line+2
				panic("closure")
			}
			runtime()
		}()
	}
}

func runtimePanic(where *spot) {
	*where = place(0)
	where.line, where.last = where.line+2, where.line+2
	panic("runtime")
}

type gopanic struct{}

func (gopanic) runtime(where *spot) {
	*where = place(0)
	where.line, where.last = where.line+2, where.line+2
	panic("gopanic")
}

// locPanics checks the locations of panics. before are frames above the recovery,
// between are those from there to the panic, after are those from the recovery to
// the lookup.
func locPanics(c *Case, before, between, after string) {
	for kind := 0; kind < 16; kind++ {
		var got location.Location
		var want spot
		dig(before, func() {
			defer func() {
				if recover() != nil {
					dig(after, func() { got = location.OfPanic() })
				}
			}()
			dig(between, func() { boom(kind, &want) })
		})
		c.Eval("C23", fmt.Sprintf("OfPanic() kind=%d below=%d between=%d after=%d", kind, min(len(before)/4, 3), min(len(between)/4, 3), min(len(after)/4, 3)))
		locCompare(c, fmt.Sprintf("OfPanic() kind=%d", kind), before+"/"+between+"/"+after, got, want, 0)
	}
}

// locActions checks the locations and captions of actions and expectations.
func locActions(c *Case, p string) {
	b := Body{UID: "m"}
	for _, f := range []func() (testkit.Action, spot){
		func() (testkit.Action, spot) { return testkit.ExecuteCommand(CmdA{CmdBase{b}}), place(0) },
		func() (testkit.Action, spot) { return testkit.RecordEvent(EvtA{EvtBase{b}}), place(0) },
		func() (testkit.Action, spot) { return testkit.AdvanceTime(testkit.ByDuration(1)), place(0) },
		func() (testkit.Action, spot) { return testkit.AdvanceTime(testkit.ToTime(time.Now())), place(0) },
		func() (testkit.Action, spot) {
			return testkit.AdvanceTime(&adjust{f: func(t time.Time) time.Time { return t }}), place(0)
		},
		func() (testkit.Action, spot) { return testkit.Call(func() {}), place(0) },
	} {
		var got testkit.Action
		var want spot
		dig(p, func() { got, want = f() })
		locCompare(c, fmt.Sprintf("Location() of %T", got), p, got.Location(), want, 0)
		locCompare(c, fmt.Sprintf("Location() of %T", got), p, got.Location(), want, 0)
	}
	for _, f := range []func() (string, testkit.Expectation, spot){
		func() (string, testkit.Expectation, spot) {
			return "a", testkit.ToExecuteCommandMatching(func(CmdA) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			return "b", testkit.ToOnlyExecuteCommandsMatching(func(*CmdGP) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			return "c", testkit.ToRecordEventMatching(func(EvtA) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			return "d", testkit.ToOnlyRecordEventsMatching(func(*EvtGP) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			return "e", testkit.ToExecuteCommandMatching(func(dogma.Command) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			return "f", testkit.ToOnlyRecordEventsMatching(func(dogma.Event) error { return nil }), place(0)
		},
		func() (string, testkit.Expectation, spot) {
			want := locPred(CmdA{CmdBase{Body{Bad: "where"}}}).(spotErr).spot
			return "g", testkit.ToExecuteCommandMatching(locPred), want
		},
	} {
		var name string
		var got testkit.Expectation
		var want spot
		dig(p, func() { name, got, want = f() })
		caption := got.Caption()
		c.Eval("C23", fmt.Sprintf("caption %s depth=%d", name, min(len(p)/4, 6)))
		ok := false
		for l := want.line; l <= want.line+1; l++ {
			ok = ok || named(caption, fmt.Sprintf("%s:%d", path.Base(want.file), l))
		}
		if !ok {
			c.Fail("the caption %q does not name %s", caption, want)
		}
	}
}

type spotErr struct{ spot spot }

func (spotErr) Error() string { return "" }

func locPred(m CmdA) error {
	s := place(0).above()
	if m.Bad == "where" {
		return spotErr{s}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C23", Level: "exploration", Quick: 8000, Thorough: 200000,
		Rule: histRule + "in some cases locations are looked up below generated stacks of frames (calls, closures, deferred calls, goroutines, recovered panics, callbacks from the standard library) and compared with what the runtime says at the place itself; non-trivial: a distinct (lookup, stack depth), or a distinct (offence or panic, handler type, method, stack depth)",
		Run: func(c *Case) {
			r := c.Rng
			switch {
			case r.P(50):
				n := pick(r, []int{0, 3, 9, 20, 60})
				switch r.Intn(5) {
				case 4:
					locTexts(c)
				case 0:
					locFuncs(c, genFrames(r, frames, n))
				case 1:
					locCalls(c, genFrames(r, frames, n))
				case 2:
					locPanics(c, genFrames(r, frames, n), genFrames(r, "pcdmrsin", n), genFrames(r, "pcdmsin", n))
				case 3:
					locActions(c, genFrames(r, frames, n))
				}
			default:
				history(c, func(s *Size, p *Profile, m *OpMix) {
					p.Unexpected, p.Offend = r.Range(2, 12), r.Intn(15)
					p.Timeout = 55
					m.Len = [2]int{10, 30}
				})
			}
		},
	})
}
