package checks

import (
	"verifmc/core"
)

// Bodies that are appended at any place among the calls, whether or not
// their step is called.

func init() {
	six := func() []Rule { return probesIn(1, 2, 3, 4, 5, 6) }
	register := func(prop string, sets [][]Rule, modes []string, def []string) {
		core.Register(prop, "bodies among the calls",
			"all sequences of up to 4 (for C01 5; thorough one more) of the six steps and of appends to either body (one within the limit, one that fills it), with body access on for none, either or both directions, then the remaining steps or none",
			func(c *core.Ctx, y func(EngineCase)) {
				ops := []string{"conn", "reqh=form", "+req=3", "reqb", "resph=200,plain", "+res=3", "respb", "log"}
				top := c.Pick(4, 5)
				if prop == "C01" {
					top++
				}
				n := 0
				seqs(len(ops), 1, top, func(s []int) {
					body := false
					for _, i := range s {
						body = body || ops[i][0] == '+'
					}
					if !body {
						return
					}
					n++
					for i, r := range sets {
						if len(s) == top && (n+i)%len(sets) != 0 && !c.Thorough {
							continue
						}
						l := append([]string{"url=POST"}, pickS(ops, s)...)
						if (n+i)%3 == 0 {
							l = append(l, "result", "reqb", "respb", "log")
						}
						y(EngineCase{Rules: r, Ops: append(l, "result"), Access: []int{3, 7, 0, 1, 2, 3, 6, 5}[(n+i)%8], Mode: modes[n%len(modes)], Default: def})
					}
				})
			}, runEngine)
	}
	register("C01", [][]Rule{six(), cat(six(), []Rule{hit(1, "allow:request")}, six()), cat(six(), []Rule{hit(2, "allow")}, six())}, []string{"", "on"}, nil)
	register("C02", [][]Rule{
		cat(six(), []Rule{hit(2, "skip"), hit(2, "x2:s"), hit(3, "skip:2"), hit(3, "x2:s"), hit(4, "skip"), hit(4, "x2:t"), hit(5, "skip:3"), hit(5, "x2:v"), hit(6, "skip")}, six()),
		cat(six(), []Rule{hit(3, "allow:phase"), hit(5, "allow:phase")}, six()),
	}, []string{"", "on"}, nil)
	register("C04", [][]Rule{
		{hit(2, "status:501", "deny"), hit(4, "deny"), hit(6, "deny")}, {hit(3, "block"), hit(5, "status:404", "deny")},
		{hit(1, "deny"), hit(2, "x2:n"), hit(3, "x2:n"), hit(4, "x2:n"), hit(5, "x2:n"), hit(6, "x2:n")},
	}, []string{"", "on"}, []string{"status:406", "deny"})
	register("C05", [][]Rule{
		{hit(1, "deny"), hit(2, "deny"), hit(3, "deny"), hit(4, "deny"), hit(5, "deny"), hit(6, "deny"), hit(1, "x2:n"), hit(2, "x2:n"), hit(3, "x2:n"), hit(4, "x2:n"), hit(5, "x2:n"), hit(6, "x2:n")},
		cat([]Rule{hit(2, "allow"), hit(4, "block"), {Ph: 5, V: []string{"A"}, Acts: []string{"log"}}}, six()),
	}, []string{"detect", "off", "on", ""}, []string{"deny"})
	register("C18", [][]Rule{
		{hit(1, "log"), hit(2, "log"), hit(3, "log", "log"), hit(4, "log"), hit(5, "log"), hit(6, "log")},
		{hit(1, "log", "pass"), hit(2, "status:404", "deny"), hit(3, "log"), hit(4, "deny", "log"), hit(5, "log"), hit(6, "log")},
	}, []string{"", "detect", "on"}, nil)
}
