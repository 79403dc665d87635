package main

func init() {
	register(&Check{
		ID: "C27", Level: "exploration", Quick: 7000, Thorough: 60000,
		Rule: histRule + "each operation has a context of its own, some with a deadline or canceled part-way, and methods of handlers compare the context that they are given with it when they are called, when the operation is canceled and when they end; some cases are generated tests, runs of the engine or concurrent operations instead; non-trivial: a distinct (method, operation, cancellation, deadline, compaction while handling), or custom action",
		Run: func(c *Case) {
			r := c.Rng
			switch {
			case r.P(35):
				k := kitDefaults(r)
				kitTrouble(r, &k)
				k.conf.bg = false
				k.plan.Custom, k.plan.Scope, k.plan.End, k.plan.Icept, k.plan.Call = 10, 30, 30, 50, 30
				k.plan.Multi, k.plan.Expect = 30, 40
				k.plan.Sel, k.plan.Inside = 20, pick(r, []int{0, 10, 30})
				k.conf.types = []Opt{{Kind: "type", HKind: Intg, On: true}, {Kind: "type", HKind: Proj, On: true}}
				if r.P(40) {
					k.conf.ice = genIcept(r, "of the test")
				}
				k.prof.Timeout = 60
				kit(c, k)
			case r.P(15):
				runLoop(c)
			case r.P(8):
				size, prof, mix := defaultSize, defaultProfile, defaultMix
				trouble(r, &prof, &mix)
				mix.Len = [2]int{6, 24}
				prof.MaxDepth = 3
				concurrently(c, size, prof, mix, r.Range(2, 6))
			default:
				history(c, func(s *Size, p *Profile, m *OpMix) {
					trouble(r, p, m)
					p.Cancel = pick(r, []int{0, 3, 10, 30})
					m.Cancel = pick(r, []int{0, 5})
					m.Opts, m.Tick = 20, 40
					p.Timeout = 60
				})
			}
		},
	})
}
