package main

import (
	"context"
	"fmt"
	"time"

	"github.com/dogmatiq/configkit"
)

// Size bounds the generated applications.
type Size struct {
	Agg, Proc, Intg, Proj [2]int
	Disabled              int // percentage of handlers disabled by configuration
	SharedTimeouts        bool
}

var defaultSize = Size{
	Agg:            [2]int{1, 3},
	Proc:           [2]int{0, 3},
	Intg:           [2]int{0, 2},
	Proj:           [2]int{0, 2},
	Disabled:       8,
	SharedTimeouts: true,
}

var defaultProfile = Profile{
	MaxDepth:    4,
	MaxSteps:    4,
	Insts:       3,
	Produce:     75,
	Destroy:     12,
	End:         12,
	Timeout:     45,
	Log:         10,
	Dirt:        8,
	Ignore:      10,
	HasVersion:  4,
	NotApplied:  12,
	CompactLogs: 1,
}

var handlerWords = []string{"alpha", "beta", "gamma", "delta", "omega", "alphabet"}

// oddNames are valid names that are unusual or resemble each other, none of
// which contains another.
var oddNames = []string{
	"hx-1", "HX-1", "hX-1", "Hx-1", "h.x-1", "h+x-1", "h.X-1", "h/x-1", "100%", "%s%d", "日本", "<nil>", "x-h1", "(h)",
}

// NewWorld generates an application.
func NewWorld(seed uint64, size Size, prof Profile) *World {
	rng := NewRng(seed, "world")
	w := &World{
		insts: pick(rng, instFamilies),
		Seed:  seed,
		Prof:  prof,
		Rec:   &Recorder{},
		Name:  "app-" + pick(rng, handlerWords),
		T0:    time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC),
	}

	if r := NewRng(seed, "epoch"); r.P(20) {
		w.T0 = pick(r, epochs)
	}

	add := func(k HKind, n int) {
		for i := 0; i < n; i++ {
			idx := len(w.Specs)
			w.Specs = append(w.Specs, &HSpec{
				Idx:      idx,
				Name:     fmt.Sprintf("%s-%s-%d", pick(rng, handlerWords), k, idx),
				Key:      uuidFor(seed, "handler", idx),
				Kind:     k,
				Disabled: rng.P(size.Disabled),
			})
		}
	}
	add(Agg, rng.Range(size.Agg[0], size.Agg[1]))
	add(Proc, rng.Range(size.Proc[0], size.Proc[1]))
	add(Intg, rng.Range(size.Intg[0], size.Intg[1]))
	add(Proj, rng.Range(size.Proj[0], size.Proj[1]))

	if rng.P(12) {
		// use names that are easily confused with each other
		for i, n := range shuffled(rng, oddNames)[:min(len(w.Specs), len(oddNames))] {
			w.Specs[i].Name = n
		}
	}

	// Each command is consumed by at most one handler and each event is
	// produced by at most one handler.
	cmds := shuffled(rng, commandTypes)
	evts := shuffled(rng, eventTypes)
	take := func(s *[]*MT, n, reserve int) []*MT {
		n = min(n, len(*s)-reserve)
		x := (*s)[:n]
		*s = (*s)[n:]
		return x
	}
	producers := 0
	for _, h := range w.Specs {
		if h.Kind == Agg || h.Kind == Intg {
			producers++
		}
	}
	for _, h := range w.Specs {
		if h.Kind == Agg || h.Kind == Intg {
			producers--
			h.Consumes = take(&cmds, rng.Range(1, 3), producers)
			n := rng.Range(1, 3)
			if h.Kind == Intg && rng.P(15) {
				n = 0
			}
			h.Produces = take(&evts, n, producers)
		}
	}

	// Prefer messages that are actually used elsewhere in the application.
	var usedCmds, usedEvts []*MT
	for _, h := range w.Specs {
		if h.Kind == Agg || h.Kind == Intg {
			usedCmds = append(usedCmds, h.Consumes...)
			usedEvts = append(usedEvts, h.Produces...)
		}
	}
	choose := func(used, all []*MT, n int) []*MT {
		var out []*MT
		seen := map[*MT]bool{}
		for tries := 0; len(out) < n && tries < 50; tries++ {
			src := used
			if len(used) == 0 || rng.P(12) {
				src = all
			}
			t := pick(rng, src)
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		return out
	}
	for _, h := range w.Specs {
		switch h.Kind {
		case Proc:
			h.Consumes = choose(usedEvts, eventTypes, rng.Range(1, 4))
			h.Produces = choose(usedCmds, commandTypes, rng.Range(1, 3))
			if rng.P(85) {
				if size.SharedTimeouts {
					h.Timeouts = shuffled(rng, timeoutTypes)[:rng.Range(1, 2)]
				} else {
					h.Timeouts = timeoutTypes[h.Idx%len(timeoutTypes) : h.Idx%len(timeoutTypes)+1]
				}
			}
			h.Stateless = rng.P(12)
		case Proj:
			h.Consumes = choose(usedEvts, eventTypes, rng.Range(1, 5))
		}
	}
	// register the handlers in an arbitrary order
	w.Specs = shuffled(rng, w.Specs)
	return w
}

// Config returns the application's configuration.
func (w *World) Config() configkit.RichApplication { return configkit.FromApplication(&app{w}) }

// consumed returns the command and event types consumed by some handler.
func (w *World) consumed() []*MT {
	var out []*MT
	for _, s := range [][]*MT{commandTypes, eventTypes} {
		for _, t := range s {
			for _, h := range w.Specs {
				if h.consumes(t) {
					out = append(out, t)
					break
				}
			}
		}
	}
	return out
}

// Opt is a setting of an operation.
type Opt struct {
	Kind  string // type, name, time
	HKind HKind
	Name  string
	On    bool
	Time  time.Time
}

// Op is an operation performed on an engine.
type Op struct {
	Kind   string // dispatch, tick, reset, bad
	Bad    string // why a "bad" operation must be rejected
	MT     *MT
	Body   Body
	Opts   []Opt
	NoTime bool
	Cancel bool  // the context is canceled before the operation begins
	CtxErr error // the error of the context once it is done, if it is unusual
	Limit  bool  // the context has a deadline, which is never reached
	Exec   bool  // commands are executed by way of an executor
	Obs    int   // number of observers

	now    time.Time
	typeOn map[HKind]bool
	nameOn map[string]bool
}

func (o *Op) String() string {
	switch o.Kind {
	case "dispatch":
		return fmt.Sprintf("dispatch(%s %s @%s %s)", o.MT.Name, o.Body.UID, o.now.Format(time.RFC3339Nano), o.sel())
	case "tick":
		return fmt.Sprintf("tick(@%s %s)", o.now.Format(time.RFC3339Nano), o.sel())
	}
	if o.Kind == "bad" {
		return fmt.Sprintf("bad %s(%s)", o.Bad, o.MT.Name)
	}
	return o.Kind
}

func (o *Op) sel() string {
	s := ""
	for _, x := range o.Opts {
		switch x.Kind {
		case "type":
			s += fmt.Sprintf(" %s=%v", x.HKind, x.On)
		case "name":
			s += fmt.Sprintf(" %s=%v", x.Name, x.On)
		}
	}
	return s
}

// participates returns true if h takes part in the operation, or the reason
// why not.
func (o *Op) participates(h *HSpec) (bool, byte) {
	if on, ok := o.nameOn[h.Name]; ok {
		return on, 'I'
	}
	if h.Disabled {
		return false, 'C'
	}
	return o.typeOn[h.Kind], 'T'
}

// resolve computes the effective settings.
func (o *Op) resolve() {
	o.typeOn = map[HKind]bool{Agg: true, Proc: true, Intg: true, Proj: true}
	o.nameOn = map[string]bool{}
	for _, x := range o.Opts {
		switch x.Kind {
		case "type":
			o.typeOn[x.HKind] = x.On
		case "name":
			o.nameOn[x.Name] = x.On
		case "time":
			o.now = x.Time
		}
	}
}

// OpMix shapes generated histories.
type OpMix struct {
	Len     [2]int
	Tick    int // percentage of operations that are ticks
	Reset   int
	Opts    int // percentage of operations that have enable/disable settings
	Back    int // percentage of operations at an earlier engine time
	Cancel  int // percentage of operations with a canceled context
	NoTime  int
	MultiOb int // percentage of operations with several observers
	Bad     int // percentage of operations that must be rejected
}

var defaultMix = OpMix{Len: [2]int{6, 18}, Tick: 35, Reset: 0, Opts: 15, Back: 4, MultiOb: 10}

var opDeltas = []time.Duration{
	0, 0, time.Nanosecond, time.Second, 5 * time.Second, time.Minute, 29 * time.Minute,
	30 * time.Minute, time.Hour - time.Nanosecond, time.Hour, time.Hour + time.Nanosecond, 90 * time.Minute, 3 * time.Hour,
}

// GenOps generates a history.
func GenOps(w *World, rng *Rng, mix OpMix) []*Op {
	var ops []*Op
	now := w.T0
	n := rng.Range(mix.Len[0], mix.Len[1])
	consumed := w.consumed()
	for i := 0; i < n; i++ {
		o := &Op{Obs: 1}
		now = now.Add(pick(rng, opDeltas))
		if rng.P(3) {
			now = now.Add(300 * time.Hour)
		}
		t := now
		if rng.P(mix.Back) {
			t = now.Add(-pick(rng, opDeltas))
		}
		switch {
		case rng.P(mix.Reset):
			o.Kind = "reset"
			ops = append(ops, o)
			continue
		case rng.P(mix.Bad):
			w.genBad(rng, o, i, consumed)
		case rng.P(mix.Tick) || len(consumed) == 0:
			o.Kind = "tick"
		default:
			o.Kind = "dispatch"
			o.MT = pick(rng, consumed)
			o.Body = Body{UID: fmt.Sprintf("m%d", i), Text: w.text(rng)}
			o.Body.Inst = w.inst(rng, o.Body)
			for n := rng.Intn(3); n > 0; n-- {
				o.Body.Nums = append(o.Body.Nums, rng.Intn(100))
			}
		}
		o.Opts = w.genOpts(rng, mix.Opts)
		if rng.P(mix.NoTime) {
			o.NoTime = true
		} else {
			to := Opt{Kind: "time", Time: t.In(pick(rng, zones))}
			k := rng.Intn(len(o.Opts) + 1)
			o.Opts = append(o.Opts[:k], append([]Opt{to}, o.Opts[k:]...)...)
			if rng.P(5) {
				// an overridden time
				o.Opts = append([]Opt{{Kind: "time", Time: t.Add(7 * time.Hour)}}, o.Opts...)
			}
		}
		o.Cancel = rng.P(mix.Cancel)
		if rng.P(30) {
			o.CtxErr = pick(rng, []error{context.DeadlineExceeded, errReason})
		}
		o.Limit, o.Exec = rng.P(25), rng.P(25)
		if rng.P(mix.MultiOb) {
			o.Obs = rng.Range(2, 3)
			if rng.P(10) {
				o.Obs = rng.Range(4, 9)
			}
		}
		o.resolve()
		ops = append(ops, o)
	}
	return ops
}

func (w *World) genOpts(rng *Rng, pct int) []Opt {
	if !rng.P(pct) {
		return nil
	}
	var opts []Opt
	for n := rng.Range(1, 5); n > 0; n-- {
		if rng.P(50) {
			opts = append(opts, Opt{Kind: "type", HKind: HKind(rng.Intn(4)), On: rng.P(35)})
		} else {
			opts = append(opts, Opt{Kind: "name", Name: pick(rng, w.Specs).Name, On: rng.P(45)})
		}
	}
	return opts
}

// genBad makes o an operation that must be rejected.
func (w *World) genBad(rng *Rng, o *Op, i int, consumed []*MT) {
	o.Kind = "bad"
	o.Body = Body{UID: fmt.Sprintf("m%d", i), Inst: "i0"}
	var un []*MT
	for _, s := range [][]*MT{commandTypes, eventTypes, {alienCommand, alienEvent}} {
		for _, t := range s {
			found := false
			for _, c := range consumed {
				found = found || c == t
			}
			if !found {
				un = append(un, t)
			}
		}
	}
	o.Bad = pick(rng, []string{"invalid", "timeout", "unconsumed", "unknown handler", "unknown handler tick"})
	o.MT = pick(rng, un)
	if len(consumed) > 0 && o.Bad != "unconsumed" {
		o.MT = pick(rng, consumed)
	}
	switch o.Bad {
	case "invalid":
		o.Body.Bad = pick(rng, []string{"bad message content", "100% wrong %d"})
	case "timeout":
		o.MT = pick(rng, append([]*MT{alienTimeout}, timeoutTypes...))
		if rng.P(20) {
			o.Body.Bad = "bad message content"
		}
	}
}
