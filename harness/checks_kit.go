package main

import "strings"

const kitRule = "a case is a generated application and test, every step of which is checked against the sequential model and against what the testing interface saw; "

var comparators = []*comparator{
	nil, nil, nil,
	{"uid", func(a, b Body) bool { return a.UID == b.UID }},
	{"text", func(a, b Body) bool { return strings.TrimSpace(a.Text) == strings.TrimSpace(b.Text) }},
	{"never", func(a, b Body) bool { return false }},
	{"always", func(a, b Body) bool { return true }},
}

func init() {
	reg := func(id, rule string, quick, thorough int, races bool, adjust func(r *Rng, k *kitConf)) {
		register(&Check{
			ID: id, Level: "exploration", Quick: quick, Thorough: thorough, Races: races, Rule: kitRule + rule,
			Run: func(c *Case) {
				if id == "C20" && c.Rng.P(15) {
					if c.Rng.P(30) {
						kitStraggle(c)
					} else {
						kitPlain(c)
					}
					return
				}
				if id == "C19" && c.Idx%40 == 7 {
					startNow(c)
					return
				}
				k := kitDefaults(c.Rng)
				adjust(c.Rng, &k)
				kit(c, k)
			},
		})
	}

	reg("C15", "non-trivial: a distinct (kind of expectation, verdict, number of messages produced, kind of action, comparator)",
		3600, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.plan.Expect = 85
			k.plan.Expects = xmix{Depth: pick(r, []int{1, 1, 3}), Msg: 1}
			k.conf.cmp = pick(r, comparators)
			k.plan.Call = 35
			k.plan.Sel = 20
			k.prof.Timeout = 60
		})

	reg("C16", "non-trivial: a distinct (combination, verdict, depth, number of children), or a distinct (outcome of the action, number of facts) seen by a leaf",
		5000, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.plan.Len = [2]int{3, 8}
			k.plan.Expect = 95
			k.plan.Expects = xmix{Depth: r.Range(2, 7), Msg: r.Intn(3), Leaf: 6, Sat: r.Intn(2)}
			k.plan.Custom = 5
		})

	reg("C17", "non-trivial: a distinct (kind of action, outcome, verdict, testing interface)",
		6000, 45000, false, func(r *Rng, k *kitConf) {
			k.prof.Err = pick(r, []int{0, 5, 20})
			k.prof.Panic, k.prof.Offend = r.Intn(4), r.Intn(4)
			k.plan.Expect = 60
			k.plan.Custom, k.plan.Unknown, k.plan.Unrouted, k.plan.Reverse, k.plan.Fault, k.plan.Multi = 15, 8, 8, 25, 40, 50
			k.plan.Expects = xmix{Depth: pick(r, []int{1, 2}), Msg: 2, Leaf: 5, Sat: 2, Err: 15, Impossible: 10, SatPanic: 10}
		})

	reg("C18", "non-trivial: a distinct (kind of expectation, kind of action, iterations, depth) of a rejected expectation or depth of one that is not",
		3000, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.plan.Expect = 80
			k.plan.Call = 30
			k.size.Disabled = pick(r, []int{0, 10})
			k.plan.Expects = xmix{Depth: r.Range(1, 4), Msg: 6, Leaf: 1, Sat: 1, Impossible: pick(r, []int{0, 10, 30, 60}), NilRepeat: 5}
		})

	reg("C19", "non-trivial: a distinct (kind of adjustment, duration, preceding action), or a distinct (action, time zone)",
		3000, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.plan.Len = [2]int{8, 24}
			k.plan.Advance, k.plan.Reverse, k.plan.Expect = 50, 20, 25
			k.plan.Expects.Impossible = 15
			k.plan.Custom, k.plan.Unknown = 5, 3
			k.plan.Sel = 15
			k.prof.Timeout = 70
		})

	reg("C20", "non-trivial: a distinct (interceptor, number of goroutines, error, panic, cancellation); some cases use handlers, observers and expectations that do no locking",
		4000, 35000, true, func(r *Rng, k *kitConf) {
			k.prof.Err = pick(r, []int{0, 8})
			k.prof.Panic, k.prof.Offend = r.Intn(3), r.Intn(3)
			k.plan.Call, k.plan.Lanes, k.plan.Icept, k.plan.Outside, k.plan.Fault, k.plan.Cancel, k.plan.Expect = 80, pick(r, []int{0, 50}), 40, 25, 15, 4, 30
			k.plan.Inside = pick(r, []int{0, 3, 10})
			if r.P(40) {
				k.conf.ice = genIcept(r, "of the test")
			}
			k.prof.Jitter = r.P(30)
			k.plan.Unknown = 0
		})

	reg("C21", "non-trivial: a distinct (sequence of operations, outcome) of a function, or a distinct (method, number of frames, number of helpers)",
		4500, 45000, true, func(r *Rng, k *kitConf) {
			k.prof.Err = pick(r, []int{0, 0, 10})
			k.plan.Len = [2]int{3, 8}
			k.plan.Expect = 95
			k.plan.Expects = xmix{Depth: pick(r, []int{1, 1, 3}), Sat: 8, Leaf: 1, SatPanic: 20}
		})

	reg("C22", "non-trivial: a distinct (reason, kind of expectation, kind of action, kind of message, number of handlers engaged), or kind of diff",
		3600, 45000, false, func(r *Rng, k *kitConf) {
			k.plan.Expect = 90
			k.plan.Call, k.plan.Advance = 30, 25
			k.plan.Sel = 30
			k.plan.Expects = xmix{Depth: pick(r, []int{1, 1, 3}), Msg: 8, Sat: 1}
			k.prof.WildText = r.P(60)
			k.prof.Produce = pick(r, []int{30, 60, 90})
			k.prof.Timeout = 60
			for n := r.Intn(3); n > 0; n-- {
				k.conf.types = append(k.conf.types, Opt{Kind: "type", HKind: HKind(r.Intn(4)), On: r.P(40)})
			}
			for n := pick(r, []int{0, 1, 2, 3, r.Range(4, 12)}); n > 0; n-- {
				k.conf.notes = append(k.conf.notes, pick(r, []note{
					{"i0", "the first instance"}, {"i1", "100% the second"}, {1, "one"}, {2, "{+two+}"}, {"alpha", "a word"}, {"", "an empty string"},
					{[]int{7}, "a list"}, {Body{UID: "other", Inst: "i0"}, "another"}, {"i0", "also the first"}, {int64(1), "never"},
				}))
			}
		})

	reg("C30", "non-trivial: a distinct (kind of expectation, number of rejections, how often the same one happened, ignored messages, kind of action)",
		3000, 45000, false, func(r *Rng, k *kitConf) {
			k.plan.Expect = 95
			k.plan.Call, k.plan.Advance = 30, 20
			k.plan.Sel = 20
			k.plan.Expects = xmix{Depth: pick(r, []int{1, 1, 2}), Msg: 8, Predicates: true}
			k.prof.Produce = pick(r, []int{60, 90})
			k.prof.MaxSteps = r.Range(3, 6)
			k.prof.Timeout = 60
		})

	reg("C24", "non-trivial: a distinct (selection, number of arguments, number of handlers, panic)",
		4500, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.size.Disabled = 20
			k.size.Intg, k.size.Proj = [2]int{0, 3}, [2]int{0, 3}
			k.plan.Sel, k.plan.BadSel, k.plan.Expect = 60, 15, 10
			k.prof.Timeout = 60
		})

	reg("C28", "non-trivial: a distinct (kind of action, kind and size of expectation, position among the actions prepared together)",
		4500, 45000, false, func(r *Rng, k *kitConf) {
			kitTrouble(r, k)
			k.plan.Len = [2]int{4, 14}
			k.plan.Expect = 60
			k.plan.Expects = xmix{Depth: r.Range(1, 4), Msg: 3, Leaf: 2, Sat: 1, Impossible: 10, NilRepeat: 3, Err: 3}
			k.plan.Custom, k.plan.Unknown, k.plan.Unrouted, k.plan.Multi, k.plan.Scope = 15, 5, 5, 50, 20
			k.plan.Call, k.plan.Advance = 20, 20
			k.prof.Timeout = 60
		})
}
