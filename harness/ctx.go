package main

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"
)

// given is a context that was given to the engine or to a test.
type given struct {
	ctx      context.Context
	name     string
	async    bool        // contexts derived from it may be done later than it is
	canceled atomic.Bool // it was canceled, and contexts derived from it were too
}

type givenKey struct{}

// give returns a context, derived from ctx, that can be recognised.
func give(ctx context.Context, format string, args ...any) (context.Context, *given) {
	g := &given{name: fmt.Sprintf(format, args...)}
	g.ctx = context.WithValue(ctx, givenKey{}, g)
	return g.ctx, g
}

// canceling returns a function that cancels g.
func (g *given) canceling(cancel func()) func() {
	return func() {
		cancel()
		g.canceled.Store(true)
	}
}

// ctxSeen is a context as seen by user code.
type ctxSeen struct {
	ctx  context.Context
	from *given
	bad  []string
}

// see starts to monitor a context. alone tells whether it may not be done any
// earlier than the one it came from.
func see(ctx context.Context, alone bool) *ctxSeen {
	s := &ctxSeen{ctx: ctx}
	if ctx == nil {
		s.bad = append(s.bad, "is nil")
		return s
	}
	s.from, _ = ctx.Value(givenKey{}).(*given)
	if s.from != nil {
		want, ok := s.from.ctx.Deadline()
		got, has := ctx.Deadline()
		if ok && (!has || got.After(want)) || alone && (has != ok || !got.Equal(want)) {
			s.bad = append(s.bad, fmt.Sprintf("has the deadline %v (%v), instead of %v", got, has, want))
		}
	}
	return s
}

// look compares a context with the one it came from.
func (s *ctxSeen) look(when string, alone bool) {
	g := s.from
	if g == nil || s.ctx == nil {
		return
	}
	before := g.canceled.Load()
	got := s.ctx.Err()
	after := g.ctx.Err()
	if before && !g.async {
		if got == nil {
			s.bad = append(s.bad, "is not done "+when)
		} else {
			select {
			case <-s.ctx.Done():
			default:
				s.bad = append(s.bad, "is not closed "+when)
			}
		}
	}
	if got != nil && after == nil && alone {
		s.bad = append(s.bad, fmt.Sprintf("is already done %s (%v)", when, got))
	}
}

// is returns a description of what is wrong with a context that should be, or be
// derived from, the one given.
func (s *ctxSeen) is(g *given) string {
	switch {
	case len(s.bad) > 0:
		return s.bad[0]
	case s.from == nil:
		return "does not have the values of " + g.name
	case s.from != g:
		return "is that of " + s.from.name + " instead of " + g.name
	}
	return ""
}

// enter is called by methods of handlers that are given a context.
func (w *World) enter(c *Call, ctx context.Context) {
	c.Ctx = see(ctx, w.alone(c))
	c.Ctx.look("when the method is called", w.alone(c))
}

// leave is called when such a method ends.
func (w *World) leave(c *Call, when string) {
	if c.Ctx != nil {
		c.Ctx.look(when, w.alone(c))
	}
}

// alone returns true if nothing else may cause the context of a call to be
// canceled. Compaction may be stopped when the handling that it accompanies ends.
func (w *World) alone(c *Call) bool { return !w.CDH || c.Method != "Compact" }

// checkContexts checks the contexts that handlers were given.
func (s *Sim) checkContexts(res *OpResult) {
	if res.Given == nil || s.c.Prop != "C27" {
		return
	}
	for _, c := range res.Calls {
		if c.Ctx == nil {
			continue
		}
		if why := c.Ctx.is(res.Given); why != "" {
			s.v("C27", "the context given to %s.%s() %s", c.H.Name, c.Method, why)
		}
		_, limited := res.Given.ctx.Deadline()
		s.eval("C27", "%s.%s in %s canceled=%v deadline=%v compacting=%v", c.H.Kind, c.Method, res.Op.Kind, res.Given.canceled.Load(), limited, s.w.CDH)
	}
}

// faraway is a deadline that is never reached.
var faraway = time.Now().Add(1000 * time.Hour)
