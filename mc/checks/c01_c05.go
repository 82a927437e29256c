package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

var allOps = []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}

// phaseConfigs: two probe rules in every phase, and one action in front of,
// between or behind the probes of one phase.
func phaseConfigs(acts []string, f func([]Rule)) {
	f(append(probesIn(1, 2, 3, 4, 5, 6), probesIn(1, 2, 3, 4, 5, 6)...))
	for _, a := range acts {
		for p := 1; p <= 6; p++ {
			var rules []Rule
			for q := 1; q <= 6; q++ {
				if q == p {
					rules = append(rules, hit(q, a), hit(q, "x2:after"))
				} else {
					rules = append(rules, hit(q, "x2:p"))
				}
			}
			f(rules)
		}
	}
}

func init() {
	// ---------------- C01
	core.Register("C01", "call-sequences",
		"all sequences of up to 5 (thorough 6) host calls out of "+strings.Join(allOps, ",")+"; probe rules in all phases, and none or one of allow, allow:phase, allow:request, deny, skip in any one phase",
		func(c *core.Ctx, y func(EngineCase)) {
			seqs(len(allOps), 1, c.Pick(5, 6), func(s []int) {
				ops := pickS(allOps, s)
				phaseConfigs([]string{"allow", "allow:phase", "allow:request", "deny", "skip"}, func(r []Rule) {
					y(EngineCase{Rules: r, Ops: ops})
				})
			})
		}, runEngine)
	core.Register("C01", "permuted-steps",
		"all orders of the six steps, each subset of them, with two phases holding any two of {nothing, allow, allow:phase, allow:request, deny}, the verdict taken after each step or only at the end",
		func(c *core.Ctx, y func(EngineCase)) {
			acts := []string{"", "allow", "allow:phase", "allow:request", "deny"}
			perms(6, func(p []int) {
				for drop := 0; drop < c.Pick(7, 22); drop++ {
					var ops, every []string
					for i, k := range p {
						if drop > 0 && drop <= 6 && i == drop-1 {
							continue
						}
						if drop > 6 && (i == (drop-7)%5 || i == (drop-7)/5+3) {
							continue
						}
						ops = append(ops, steps6[k])
						every = append(every, steps6[k], "result")
					}
					for a := 0; a < 5; a++ {
						for b := 0; b < 5; b++ {
							for pa := 1; pa <= 5; pa++ {
								pb := pa + 1
								if (pa+a+b+drop)%2 == 1 {
									pb = pa%6 + 1
								}
								rules := probesIn(1, 2, 3, 4, 5, 6)
								if acts[a] != "" {
									rules = append(rules, hit(pa, acts[a]))
								}
								if acts[b] != "" {
									rules = append(rules, hit(pb, acts[b]))
								}
								rules = append(rules, probesIn(pa, pb)...)
								y(EngineCase{Rules: rules, Ops: append(append([]string{}, ops...), "result")})
								y(EngineCase{Rules: rules, Ops: every})
							}
						}
					}
				}
			})
		}, runEngine)
	core.Register("C01", "repeated-steps",
		"the six steps in order, each taken 0 to 2 times (thorough 3), and one step repeated anywhere later, with one action in one phase",
		func(c *core.Ctx, y func(EngineCase)) {
			seqs(c.Pick(3, 4), 6, 6, func(s []int) {
				var ops []string
				for i, n := range s {
					for ; n > 0; n-- {
						ops = append(ops, steps6[i])
					}
				}
				phaseConfigs([]string{"allow", "allow:phase", "allow:request", "deny"}, func(r []Rule) {
					for e := 0; e <= 6; e++ {
						o := append([]string{}, ops...)
						if e > 0 {
							o = append(o, "result", steps6[e-1])
						}
						y(EngineCase{Rules: r, Ops: append(o, "result")})
					}
				})
			})
		}, runEngine)

	// ---------------- C02
	items := func(p int) []Rule {
		one := []string{"1"}
		return []Rule{
			hit(p, "x2:n"), miss(p, "skip"), hit(p, "skip"), hit(p, "skip:2"), hit(p, "skip:3"),
			hit(p, "allow"), hit(p, "allow:phase"), hit(p, "allow:request"), hit(p, "deny"),
			{Ph: p, V: one, Acts: []string{"x0:c"}, Subs: []Rule{{V: one, Acts: []string{"skip"}}}},
			{Ph: p, V: one, Acts: []string{"skip:2"}, Subs: []Rule{{V: one}, {V: []string{"0"}}}},
			miss(p, "allow"),
			hit(p, "skip:1", "log"),
		}
	}
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	core.Register("C02", "rule-lists",
		"all lists of up to 4 (thorough 5) rules of one phase (each phase) out of 13: no action, skip and skip:1..3, allow (three kinds), deny, chains ending in skip, the same not matching; a probe rule before and after in every other phase",
		func(c *core.Ctx, y func(EngineCase)) {
			for p := 1; p <= 6; p++ {
				it := items(p)
				seqs(len(it), 1, c.Pick(4, 5), func(s []int) {
					if len(s) == 5 && p != 1 && p != 3 && p != 6 {
						return
					}
					rules := probesIn(1, 2, 3, 4, 5, 6)
					for _, i := range s {
						rules = append(rules, it[i])
					}
					for q := 1; q <= 6; q++ {
						rules = append(rules, hit(q, "x3:z"))
					}
					y(EngineCase{Rules: rules, Ops: full})
				})
			}
		}, runEngine)
	core.Register("C02", "long-skips",
		"skip:n for n in 1..12, 64, 1000, 1<<31, 1<<62, 1<<63-13 .. 1<<63-1, at each position of lists of 12 rules, alone and twice, over two phases",
		func(c *core.Ctx, y func(EngineCase)) {
			for p := 1; p <= 6; p++ {
				for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 64, 1000, 1 << 31, 1<<62 - 1, 1<<63 - 13, 1<<63 - 4, 1<<63 - 3, 1<<63 - 2, 1<<63 - 1} {
					for at := 0; at < 12; at++ {
						for second := 0; second <= 3; second++ {
							var rules []Rule
							for i := 0; i < 12; i++ {
								r := hit(p, "x2:n")
								if i == at || second > 0 && i == (at+second*2)%12 {
									r = hit(p, fmt.Sprintf("skip:%d", n))
								}
								rules = append(rules, r)
							}
							rules = append(rules, probesIn(1, 2, 3, 4, 5, 6)...)
							y(EngineCase{Rules: rules, Ops: full})
						}
					}
				}
			}
		}, runEngine)
	core.Register("C02", "load-order",
		"all assignments of up to 5 rules to the phases 0..7, added one by one, in pairs and at once; rules of phases that do not exist are never evaluated",
		func(c *core.Ctx, y func(EngineCase)) {
			seqs(8, 1, c.Pick(5, 6), func(s []int) {
				var rules []Rule
				for i, p := range s {
					rules = append(rules, hit(p, fmt.Sprintf("x2:%d", i)))
				}
				for g := 1; g <= 3; g++ {
					y(EngineCase{Rules: rules, Ops: full, Group: g})
				}
			})
		}, runEngine)
	core.Register("C02", "allow-and-calls",
		"all sequences of up to 5 host calls after allow, allow:phase or allow:request in two of the phases",
		func(c *core.Ctx, y func(EngineCase)) {
			acts := []string{"allow", "allow:phase", "allow:request"}
			seqs(7, 2, c.Pick(4, 5), func(s []int) {
				ops := pickS([]string{"conn", "reqh", "reqb", "resph", "respb", "log", "result"}, s)
				for pa := 1; pa <= 6; pa++ {
					for pb := pa; pb <= 6; pb++ {
						for a := 0; a < 3; a++ {
							b := (a + pb) % 3
							rules := append(probesIn(1, 2, 3, 4, 5, 6), hit(pa, acts[a]), hit(pb, acts[b]))
							y(EngineCase{Rules: append(rules, probesIn(1, 2, 3, 4, 5, 6)...), Ops: ops})
						}
					}
				}
			})
		}, runEngine)
	core.Register("C02", "seclang-lists",
		"all lists of up to 4 rules loaded from SecLang text: log, skip, skip:2, skip:3, allow, allow:phase, allow:request, not matching skip and a chain ending in skip, in one phase and split over two; the log records tell which rules ran",
		func(c *core.Ctx, y func(EngineCase)) {
			mk := func(p int) []Rule {
				return []Rule{hit(p, "log"), hit(p, "skip", "log"), hit(p, "skip:2", "log"), hit(p, "log", "skip:3"), hit(p, "allow"),
					hit(p, "allow:phase"), hit(p, "log", "allow:request"), miss(p, "skip"),
					{Ph: p, V: []string{"1"}, Acts: []string{"log"}, Subs: []Rule{hit(0, "skip")}}}
			}
			for p := 1; p <= 5; p++ {
				for q := p; q <= 5; q += 2 {
					seqs(9, 1, c.Pick(4, 5), func(s []int) {
						if len(s) >= 4 && p != q && !c.Thorough {
							return
						}
						var rules []Rule
						for n, i := range s {
							ph := p
							if n%2 == 1 {
								ph = q
							}
							rules = append(rules, mk(ph)[i])
						}
						for ph := 1; ph <= 5; ph++ {
							rules = append(rules, hit(ph, "log"))
						}
						y(EngineCase{Rules: rules, Ops: full, Sec: true})
					})
				}
			}
		}, runEngine)

	// ---------------- C03
	valsAlpha := []string{"-", "1", "0", "1,0", "0,1", "0,0", "1,1", "0,0,1"}
	core.Register("C03", "targets",
		"all rules with 0 to 3 targets (thorough 4) of 0 to 3 matching or not matching values, negated or not; log, probe and deny actions; a second rule behind",
		func(c *core.Ctx, y func(EngineCase)) {
			seqs(len(valsAlpha), 0, c.Pick(3, 4), func(s []int) {
				for _, not := range []bool{false, true} {
					for p := 1; p <= 6; p += 2 {
						r := Rule{Ph: p, V: pickS(valsAlpha, s), Not: not, Acts: []string{"x2:m", "log"}}
						y(EngineCase{Rules: []Rule{r, hit(p, "x2:n")}, Ops: full})
					}
				}
			})
		}, runEngine)
	tr := []string{"a", "d", "r", "x"}
	core.Register("C03", "transformations",
		"all sequences of up to 4 of four non-commuting transformations; the operator accepts one string: the result of any such sequence on the value; up to two values; negated or not",
		func(c *core.Ctx, y func(EngineCase)) {
			apply := func(s []int, v string) string {
				for _, i := range s {
					v = transProbe(tr[i], v)
				}
				return v
			}
			var all [][]int
			seqs(len(tr), 0, 3, func(s []int) { all = append(all, append([]int{}, s...)) })
			seqs(len(tr), 0, c.Pick(4, 5), func(s []int) {
				ts := pickS(tr, s)
				seen := map[string]bool{}
				for _, o := range append(all, append([]int{}, s...)) {
					w := apply(o, "bc")
					if seen[w] || w == "" {
						continue
					}
					seen[w] = true
					for _, not := range []bool{false, true} {
						y(EngineCase{Rules: []Rule{{Ph: 2, V: []string{"bc"}, T: ts, Want: w, Not: not, Acts: []string{"x2:m"}}}, Ops: []string{"conn", "reqh", "result"}})
						y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{"zz", "c,bc"}, T: ts, Want: w, Not: not, Acts: []string{"x2:m"}}}, Ops: []string{"conn", "reqh", "result"}})
					}
				}
			})
		}, runEngine)
	core.Register("C03", "chains",
		"all chains of 1 to 4 links (thorough 5), each matching, not matching, without values or negated, each with a log, data and disruptive probe, deny or status; followed by a second chain",
		func(c *core.Ctx, y func(EngineCase)) {
			links := []Rule{
				{V: []string{"1"}, Acts: []string{"x3:d", "x0:m", "log"}},
				{V: []string{"0"}, Acts: []string{"x3:d", "x2:l"}},
				{V: []string{"-"}, Acts: []string{"x2:l"}},
				{V: []string{"0"}, Not: true, Acts: []string{"x4:f", "x1:s"}},
				{V: []string{"1"}, Not: true, Acts: []string{"log"}},
				{V: []string{"1"}, Acts: []string{"deny", "status:501"}},
				{V: []string{"-", "1"}, Acts: nil},
				{V: []string{"1"}, Acts: []string{"status:502", "x3:q"}},
			}
			seqs(len(links), 1, c.Pick(4, 5), func(s []int) {
				mk := func(p int) Rule {
					r := links[s[0]]
					r.Ph = p
					for _, i := range s[1:] {
						r.Subs = append(r.Subs, links[i])
					}
					return r
				}
				y(EngineCase{Rules: []Rule{mk(1), hit(1, "x2:n"), mk(2), mk(5)}, Ops: []string{"conn", "result", "reqh", "result", "reqb", "respb", "result"}})
			})
		}, runEngine)
	core.Register("C03", "action-groups",
		"all orders of writing five actions of the five groups in a rule, the same in its chained rule, and all lists of up to 4 actions out of eight kinds",
		func(c *core.Ctx, y func(EngineCase)) {
			g := []string{"x0:a", "x1:b", "x2:c", "x3:d", "x4:e"}
			perms(5, func(p []int) {
				a := pickS(g, p)
				perms(5, func(q []int) {
					y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{"1"}, Acts: a, Subs: []Rule{{V: []string{"1"}, Acts: pickS(g, q)}}}}, Ops: []string{"conn", "result"}})
				})
			})
			k := []string{"x0:a", "x1:b", "x2:c", "x2:d", "x3:e", "x4:f", "deny", "status:410", "log", "skip"}
			seqs(len(k), 1, c.Pick(4, 5), func(s []int) {
				skips := 0
				for _, i := range s {
					if k[i] == "skip" {
						skips++
					}
				}
				if skips > 1 {
					return
				}
				y(EngineCase{Rules: []Rule{hit(3, pickS(k, s)...), hit(3, "x2:n"), hit(3, "x2:o")}, Ops: []string{"reqb", "result"}})
			})
		}, runEngine)
	core.Register("C03", "seclang-chains",
		"all chains of 1 to 4 rules loaded from SecLang text, each link matching or not and with log, deny or status, two chains in a row",
		func(c *core.Ctx, y func(EngineCase)) {
			links := []Rule{hit(0, "log"), miss(0, "log"), hit(0, "status:501"), hit(0, "deny"), hit(0, "log", "status:404")}
			seqs(len(links), 1, c.Pick(4, 5), func(s []int) {
				for p := 1; p <= 5; p++ {
					mk := func(s []int) Rule {
						r := links[s[0]]
						r.Ph = p
						for _, i := range s[1:] {
							r.Subs = append(r.Subs, links[i])
						}
						return r
					}
					y(EngineCase{Sec: true, Rules: []Rule{mk(s), hit(p, "log"), mk(s[:(len(s)+1)/2]), hit(p, "deny")}, Ops: full})
				}
			})
		}, runEngine)

	// ---------------- C04
	statuses := []string{"99", "100", "101", "200", "299", "302", "403", "404", "500", "599", "600", "0", "-1", "1000"}
	core.Register("C04", "status-values",
		"deny with every status in -1..1001, written before or after deny, in the starter or the chained rule, or in the default actions that block runs; the verdict taken twice",
		func(c *core.Ctx, y func(EngineCase)) {
			for n := -1; n <= 1001; n++ {
				st := fmt.Sprintf("status:%d", n)
				ops := []string{"conn", "result", "result", "reqh", "result", "log", "result"}
				one := []string{"1"}
				for _, acts := range [][]string{{st, "deny"}, {"deny", st}, {st, "log", "deny"}} {
					y(EngineCase{Rules: []Rule{hit(1, acts...), hit(2, "deny")}, Ops: ops})
				}
				y(EngineCase{Rules: []Rule{{Ph: 1, V: one, Acts: []string{st}, Subs: []Rule{{V: one, Acts: []string{"deny"}}}}, hit(2, "deny")}, Ops: ops})
				y(EngineCase{Rules: []Rule{{Ph: 1, V: one, Acts: []string{"deny"}, Subs: []Rule{{V: one, Acts: []string{st}}}}, hit(2, "deny")}, Ops: ops})
				y(EngineCase{Rules: []Rule{hit(1, st), hit(1, "deny")}, Ops: ops})
				y(EngineCase{Rules: []Rule{hit(1, "block"), hit(2, "deny")}, Default: []string{st, "deny"}, Ops: ops})
				y(EngineCase{Rules: []Rule{hit(1, st, "block"), hit(2, "block")}, Default: []string{"deny"}, Ops: ops})
				y(EngineCase{Rules: []Rule{hit(1, "status:405", "block")}, Default: []string{"deny", st}, Ops: ops})
				if n >= 0 {
					y(EngineCase{Sec: true, Rules: []Rule{hit(1, st, "deny"), hit(2, "deny")}, Ops: ops})
				}
			}
		}, runEngine)
	denyItems := []Rule{
		hit(0, "deny"), hit(0, "status:501", "deny"), hit(0, "status:200", "deny"), hit(0, "status:502"), hit(0, "log"),
		hit(0, "pass"), hit(0, "block"), hit(0, "status:503", "block"), miss(0, "deny"), hit(0, "allow"), hit(0, "allow:phase"),
		hit(0, "status:600", "deny"), {V: []string{"A"}, Acts: []string{"deny"}}, {V: []string{"1"}, Acts: []string{"status:504"}, Subs: []Rule{hit(0, "deny"), miss(0, "x2:u")}},
	}
	core.Register("C04", "verdict-histories",
		"all triples of rules out of 14 (deny, with statuses, block, pass, allow, abort, failing chains) in all phase patterns, the verdict taken after each call, only at the end, or twice, host aborts with status or error in between",
		func(c *core.Ctx, y func(EngineCase)) {
			defaults := [][]string{nil, {"deny"}, {"status:406", "deny"}, {"log"}}
			opss := [][]string{
				{"conn", "result", "reqh", "result", "reqb", "result", "log", "result"},
				{"conn", "reqh", "reqb", "resph", "respb", "log", "result", "result"},
				{"conn", "reqh", "result", "reqb", "result", "result", "resph", "respb", "result", "log", "result"},
				{"conn", "result", "reqh", "err:418", "result", "reqb", "result", "log", "result"},
				{"conn", "abort:503", "reqh", "result", "result", "reqb", "log", "result"},
				{"reqh", "conn", "result", "log", "reqb", "result"},
			}
			phases := [][3]int{{1, 1, 1}, {1, 2, 3}, {2, 2, 3}, {6, 6, 6}, {1, 3, 3}, {2, 1, 6}, {3, 6, 6}, {2, 2, 2}, {3, 3, 3}}
			if c.Thorough {
				phases = phases[:0]
				for i := 0; i < 216; i++ {
					phases = append(phases, [3]int{i/36 + 1, i/6%6 + 1, i%6 + 1})
				}
			}
			seqs(len(denyItems), 1, 3, func(s []int) {
				for pi, ph := range phases {
					if !c.Thorough && len(s) < 3 && pi > 3 {
						continue
					}
					var rules []Rule
					for i, k := range s {
						r := denyItems[k]
						r.Ph = ph[i]
						rules = append(rules, r)
					}
					rules = append(rules, hit(3, "x2:n"))
					blocks := strings.Contains(fmt.Sprint(rules), "block")
					for di, d := range defaults {
						if di > 0 && !blocks {
							continue
						}
						for _, ops := range opss {
							y(EngineCase{Rules: rules, Default: d, Ops: ops})
						}
					}
				}
			})
		}, runEngine)
	core.Register("C04", "call-sequences",
		"all sequences of up to 5 (thorough 6) calls out of conn, reqh, reqb, log, result, abort with status, abort with error, over five rule sets that deny",
		func(c *core.Ctx, y func(EngineCase)) {
			ops := []string{"conn", "reqh", "reqb", "log", "result", "abort:503", "err:418"}
			sets := [][]Rule{
				{hit(1, "deny"), hit(1, "x2:n"), hit(2, "log"), hit(3, "pass")},
				{hit(2, "status:501", "deny"), hit(2, "pass"), hit(3, "pass"), hit(6, "deny")},
				{hit(1, "log"), hit(2, "deny"), hit(3, "status:502", "deny")},
				{hit(1, "pass"), hit(3, "status:404"), hit(3, "deny"), hit(6, "log")},
				{{Ph: 2, V: []string{"A"}, Acts: []string{"deny"}}, hit(2, "pass"), hit(3, "deny"), hit(6, "x2:z")},
			}
			seqs(len(ops), 1, c.Pick(5, 6), func(s []int) {
				for _, r := range sets {
					y(EngineCase{Rules: r, Ops: pickS(ops, s)})
				}
			})
		}, runEngine)
	_ = statuses

	// ---------------- C05
	modes := []string{"", "on", "off", "detect"}
	core.Register("C05", "modes",
		"every initial mode (never set, On, Off, DetectionOnly) and all triples of rules out of the 14 of C04 plus skips and allows, over all phase patterns and result patterns",
		func(c *core.Ctx, y func(EngineCase)) {
			its := append(append([]Rule{}, denyItems...), hit(0, "allow:request"), hit(0, "skip"), hit(0, "log", "deny", "skip"))
			opss := [][]string{
				{"conn", "result", "reqh", "result", "reqb", "result", "resph", "respb", "log", "result"},
				{"conn", "reqh", "reqb", "resph", "respb", "log", "result", "result"},
			}
			phases := [][3]int{{1, 1, 1}, {1, 2, 3}, {2, 2, 6}, {3, 3, 5}, {6, 6, 6}, {4, 5, 6}}
			seqs(len(its), 1, 3, func(s []int) {
				for _, ph := range phases {
					var rules []Rule
					for i, k := range s {
						r := its[k]
						r.Ph = ph[i]
						rules = append(rules, r)
					}
					rules = append(rules, probesIn(1, 2, 3, 4, 5, 6)...)
					for _, m := range modes {
						for oi, ops := range opss {
							if len(s) == 3 && oi == 1 && !c.Thorough {
								continue
							}
							y(EngineCase{Mode: m, Rules: rules, Default: []string{"status:406", "deny"}, Ops: ops})
						}
					}
				}
			})
		}, runEngine)
	core.Register("C05", "mode-changes",
		"all sequences of three modes set before and between the calls of a transaction, over six rule sets, results taken everywhere",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := [][]Rule{
				{hit(1, "deny"), hit(2, "deny"), hit(3, "deny"), hit(4, "deny"), hit(5, "deny"), hit(6, "deny")},
				{hit(1, "log"), hit(2, "allow"), hit(3, "log"), hit(5, "log"), hit(6, "log")},
				{hit(1, "block"), hit(2, "block"), hit(3, "x2:n"), hit(6, "x2:n")},
				{{Ph: 2, V: []string{"A"}, Acts: []string{"log"}}, hit(2, "x2:n"), hit(3, "x2:n")},
				{hit(1, "skip"), hit(1, "deny"), hit(1, "allow:phase"), hit(1, "log"), hit(2, "x2:n")},
				{hit(1, "allow:request"), hit(2, "x2:n"), hit(3, "x2:n"), hit(4, "deny")},
			}
			base := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "respb", "log", "result"}
			seqs(4, 3, 3, func(ms []int) {
				for a := 0; a <= len(base); a++ {
					for b := a; b <= len(base); b++ {
						var ops []string
						for i, o := range base {
							if i == a && ms[1] > 0 {
								ops = append(ops, "mode:"+modes[ms[1]])
							}
							if i == b && ms[2] > 0 {
								ops = append(ops, "mode:"+modes[ms[2]])
							}
							ops = append(ops, o)
						}
						for _, r := range sets {
							y(EngineCase{Mode: modes[ms[0]], Rules: r, Default: []string{"deny"}, Ops: ops})
						}
					}
				}
			})
		}, runEngine)

	// ---------------- C18
	logItems := []Rule{
		hit(0, "log"), hit(0, "log", "log"), hit(0, "deny"), hit(0, "log", "status:501", "deny"), hit(0, "pass", "log"), hit(0, "pass"),
		miss(0, "log"), {V: []string{"1"}, Acts: []string{"log"}, Subs: []Rule{hit(0, "log"), hit(0, "log")}},
		{V: []string{"1"}, Acts: []string{"log"}, Subs: []Rule{hit(0, "log"), miss(0, "log")}},
		hit(0, "block"), hit(0, "log", "allow"), hit(0, "skip", "log"), {V: []string{"A"}, Acts: []string{"log"}},
	}
	core.Register("C18", "records",
		"all triples of logging rules out of 13 (log once and twice, deny, pass, chains, block, allow, skip, aborting targets) in all phase patterns, with each pattern of taking the result, three client addresses, On and DetectionOnly",
		func(c *core.Ctx, y func(EngineCase)) {
			steps := []string{"conn", "reqh", "reqb", "resph", "respb", "log"}
			phases := [][3]int{{1, 1, 1}, {1, 2, 3}, {2, 2, 6}, {3, 5, 5}, {4, 4, 6}}
			n := 0
			seqs(len(logItems), 1, 3, func(s []int) {
				for pi, ph := range phases {
					var rules []Rule
					for i, k := range s {
						r := logItems[k]
						r.Ph = ph[i]
						rules = append(rules, r)
					}
					for take := 0; take < 64; take++ {
						if len(s) == 3 && !c.Thorough && (take+pi)%8 != n%8 {
							continue
						}
						var ops []string
						for i, o := range steps {
							if i == 0 && take%3 > 0 {
								o = []string{"", "conn2", "conn3"}[take%3]
							}
							ops = append(ops, o)
							if take>>uint(i)&1 == 1 {
								ops = append(ops, "result")
							}
						}
						ops = append(ops, "result", "result")
						m := ""
						if (take+n)%4 == 3 {
							m = "detect"
						}
						y(EngineCase{Mode: m, Rules: rules, Default: []string{"status:302", "deny"}, Ops: ops})
					}
				}
				n++
			})
		}, runEngine)
	core.Register("C18", "call-sequences",
		"all sequences of up to 5 (thorough 6) calls out of conn (two addresses), reqh, reqb, result, abort with an error text holding %, over four rule sets; On and DetectionOnly",
		func(c *core.Ctx, y func(EngineCase)) {
			ops := []string{"conn", "conn2", "reqh", "reqb", "result", "err:418", "log"}
			sets := [][]Rule{
				{hit(1, "log"), hit(2, "log", "log"), hit(3, "deny"), hit(6, "log")},
				{hit(1, "deny"), hit(2, "pass", "log"), hit(3, "pass")},
				{hit(2, "status:404", "deny"), hit(3, "log")},
				{hit(1, "log", "allow:phase"), hit(1, "log"), hit(2, "log"), hit(3, "log"), hit(6, "deny")},
			}
			seqs(len(ops), 1, c.Pick(5, 6), func(s []int) {
				for i, r := range sets {
					m := ""
					if i%2 == len(s)%2 {
						m = "detect"
					}
					y(EngineCase{Mode: m, Rules: r, Ops: pickS(ops, s)})
				}
			})
		}, runEngine)
}
