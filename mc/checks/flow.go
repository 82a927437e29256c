package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Flow actions wherever they can be written, rule sets with phases left out,
// and addresses of every length.

// addresses gives client addresses and ports of many lengths and forms.
func addresses(c *core.Ctx) [][2]string {
	res := [][2]string{
		{"fe80::1%eth0", "1"}, {"2001:0db8:85a3:0000:0000:8a2e:0370:7334", "65535"},
		{"2001:0db8:85a3:0000:0000:8a2e:255.255.255.255%enp0s31f6.1234", "65535"},
		{"[::1]", "http"}, {"/var/run/some/long/path/of/a/socket.sock", ""}, {"a b", "c d"}, {"10.0.0.1, 10.0.0.2", "80"},
		{"%", "%%"}, {"%s", "%d"}, {"é", "ü"}, {"\x00", "\xff"}, {"]", ")"}, {":", ":"}, {"unknown", "-"}, {"", "0"},
	}
	for n := 0; n <= c.Pick(130, 520); n++ {
		res = append(res, [2]string{strings.Repeat("a", n), "80"}, [2]string{"10.1.2.3", strings.Repeat("7", n)})
		if n%7 == 0 {
			res = append(res, [2]string{strings.Repeat("1234:", n) + "z", strings.Repeat("9", n)})
		}
	}
	for _, n := range []int{255, 256, 257, 1000, 1023, 1024, 4096, 65536} {
		res = append(res, [2]string{strings.Repeat("b", n), "80"}, [2]string{"h", strings.Repeat("8", n)})
	}
	return res
}

func init() {
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}

	core.Register("C01", "sparse-rule-sets",
		"rules in every subset of the six phases (the other phases have none): all sequences of up to 4 (thorough 5) steps, and all orders of the six steps once and twice; with none or one of allow, allow:phase, allow:request, deny in the first or last phase that has rules",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := func(f func([]Rule)) {
				for m := 0; m < 64; m++ {
					var ph []int
					for p := 1; p <= 6; p++ {
						if m>>uint(p-1)&1 == 1 {
							ph = append(ph, p)
						}
					}
					f(probesIn(ph...))
					if len(ph) == 0 {
						continue
					}
					for _, a := range []string{"allow", "allow:phase", "allow:request", "deny"} {
						f(append(probesIn(ph...), hit(ph[0], a)))
						if len(ph) > 1 {
							f(append([]Rule{hit(ph[len(ph)-1], a)}, probesIn(ph...)...))
						}
					}
				}
			}
			sets(func(r []Rule) {
				seqs(6, 1, c.Pick(4, 5), func(s []int) {
					y(EngineCase{Rules: r, Ops: append(pickS(steps6, s), "result")})
				})
				n := 0
				perms(6, func(p []int) {
					n++
					ops := pickS(steps6, p)
					y(EngineCase{Rules: r, Ops: append(ops, "result")})
					if n%5 == 0 || c.Thorough {
						y(EngineCase{Rules: r, Ops: append(append(append(pickS(steps6, p), "result"), pickS(steps6, p)...), "result")})
					}
				})
			})
		}, runEngine)

	flow := []string{"", "allow", "allow:phase", "allow:request", "skip", "skip:2", "block", "deny", "log"}
	defs := [][]string{nil, {"allow"}, {"allow:phase"}, {"allow:request"}, {"deny"}, {"allow:phase", "deny"}}
	acts := func(is ...int) []string {
		var res []string
		for _, i := range is {
			if flow[i] != "" {
				res = append(res, flow[i])
			}
		}
		return res
	}
	one := []string{"1"}
	around := func(p int, r Rule) []Rule {
		return cat(probesIn(1, 2, 3, 4, 5, 6), []Rule{r}, many(3, hit(p, "x2:n")), probesIn(1, 2, 3, 4, 5, 6))
	}
	core.Register("C02", "chained-flow",
		"rules with every pair of and chains of up to 3 (thorough 4) links with every choice of none, allow, allow:phase, allow:request, skip, skip:2, block, deny, log in each, chains of two links with a pair each, in every phase, with six lists of default actions; the last link matching or not; the result taken at the end and after each step",
		func(c *core.Ctx, y func(EngineCase)) {
			put := func(p int, r Rule) {
				blocks := strings.Contains(fmt.Sprint(r), "block")
				for di, d := range defs {
					if di > 0 && !blocks {
						break
					}
					y(EngineCase{Rules: around(p, r), Default: d, Ops: full})
					y(EngineCase{Rules: around(p, r), Default: d, Ops: each})
				}
			}
			n := 0
			for p := 1; p <= 6; p++ {
				seqs(len(flow), 1, c.Pick(3, 4), func(s []int) {
					r := hit(p, acts(s[0])...)
					for _, i := range s[1:] {
						r.Subs = append(r.Subs, Rule{V: one, Acts: acts(i)})
					}
					put(p, r)
					if len(s) > 1 {
						r.Subs = append([]Rule{}, r.Subs...)
						r.Subs[len(s)-2].V = []string{"0"}
						put(p, r)
					}
				})
				seqs(len(flow), 2, 2, func(s []int) { put(p, hit(p, acts(s...)...)) })
				seqs(len(flow), 4, 4, func(s []int) {
					n++
					if !c.Thorough && n%6 != p%6 {
						return
					}
					put(p, Rule{Ph: p, V: one, Acts: acts(s[0], s[1]), Subs: []Rule{{V: one, Acts: acts(s[2], s[3])}}})
				})
			}
		}, runEngine)
	core.Register("C02", "two-flows",
		"two rules with flow actions in the same phase or in any two phases: every pair of single actions, pairs, and two-link chains out of none, allow (three kinds), skip, skip:2, block, deny, log; default actions that allow or deny",
		func(c *core.Ctx, y func(EngineCase)) {
			var rules []Rule
			seqs(len(flow), 1, 2, func(s []int) {
				rules = append(rules, hit(0, acts(s...)...))
				if len(s) == 2 {
					rules = append(rules, Rule{V: one, Acts: acts(s[0]), Subs: []Rule{{V: one, Acts: acts(s[1])}}})
				}
			})
			n := 0
			for _, a := range rules {
				for _, b := range rules {
					n++
					for p := 1; p <= 6; p++ {
						for q := p; q <= 6; q++ {
							if !c.Thorough && (n+p+q)%4 != 0 {
								continue
							}
							a.Ph, b.Ph = p, q
							y(EngineCase{Rules: cat(probesIn(1, 2, 3, 4, 5, 6), []Rule{a, b}, probesIn(p, p, q, q), probesIn(1, 2, 3, 4, 5, 6)), Default: defs[n%len(defs)], Ops: full})
						}
					}
				}
			}
		}, runEngine)
	core.Register("C02", "seclang-flow",
		"the same flow actions written in SecLang: every rule with a pair, every chain of two and three links; a logging rule in each phase tells which ones ran",
		func(c *core.Ctx, y func(EngineCase)) {
			put := func(p int, r Rule) {
				log := func() []Rule {
					return []Rule{hit(1, "log"), hit(2, "log"), hit(3, "log"), hit(4, "log"), hit(5, "log")}
				}
				blocks := strings.Contains(fmt.Sprint(r), "block")
				for di, d := range defs {
					if di > 0 && !blocks {
						break
					}
					y(EngineCase{Sec: true, Default: d, Rules: cat(log(), []Rule{r}, many(3, hit(p, "log")), log()), Ops: full})
				}
			}
			for p := 1; p <= 5; p++ {
				seqs(len(flow), 2, 2, func(s []int) { put(p, hit(p, acts(s...)...)) })
				seqs(len(flow), 2, 3, func(s []int) {
					r := hit(p, acts(s[0])...)
					for _, i := range s[1:] {
						r.Subs = append(r.Subs, Rule{V: one, Acts: acts(i)})
					}
					put(p, r)
				})
			}
		}, runEngine)

	core.Register("C18", "addresses",
		"client addresses and ports of every length 0..130 (thorough 520) and up to 65536, IPv6 with zones, sockets, with blanks, %, brackets and non-ASCII; records of log, deny, chained, block and abort-with-error in several phases",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := [][]Rule{
				{hit(1, "log"), hit(2, "deny", "log"), hit(3, "log"), hit(6, "log", "log")},
				{{Ph: 1, V: one, Acts: []string{"log"}, Subs: []Rule{hit(0, "log")}}, hit(2, "block"), hit(6, "log")},
			}
			for _, a := range addresses(c) {
				for i, r := range sets {
					for _, m := range []string{"", "detect"} {
						op := "conn=" + a[0] + "\x00" + a[1]
						if strings.ContainsRune(a[0], 0) {
							op = "conn=" + "nul\x00" + a[1]
						}
						ops := []string{op, "result", "reqh", "result", "err:418", "log", "result", "result"}
						if i == 1 {
							ops = []string{op, "reqh", "reqb", "result", "log", "result"}
						}
						y(EngineCase{Mode: m, Rules: r, Default: []string{"log", "deny"}, Ops: ops})
					}
				}
			}
		}, runEngine)
	core.Register("C18", "chained-records",
		"rules with every pair and chains of two and three links with every choice of none, log, deny, block, allow, allow:phase, allow:request, skip in each, in every phase; default actions that log, allow and deny; each record names the phase of its rule; On and DetectionOnly",
		func(c *core.Ctx, y func(EngineCase)) {
			k := []string{"", "log", "deny", "block", "allow", "allow:phase", "allow:request", "skip"}
			pick := func(is ...int) []string {
				var res []string
				for _, i := range is {
					if k[i] != "" {
						res = append(res, k[i])
					}
				}
				return res
			}
			for p := 1; p <= 6; p++ {
				put := func(r Rule) {
					rules := cat([]Rule{r, hit(p, "log")}, []Rule{hit(6, "log"), hit(p%6+1, "log", "log")})
					for _, d := range [][]string{{"log"}, {"log", "allow"}, {"allow:phase", "deny"}} {
						y(EngineCase{Rules: rules, Default: d, Ops: full})
						y(EngineCase{Rules: rules, Default: d, Ops: each, Mode: "detect"})
						y(EngineCase{Rules: rules, Default: d, Ops: append([]string{"conn2", "err:418"}, each...)})
					}
				}
				seqs(len(k), 1, 3, func(s []int) {
					put(hit(p, pick(s...)...))
					r := hit(p, pick(s[0])...)
					for _, i := range s[1:] {
						r.Subs = append(r.Subs, Rule{V: one, Acts: pick(i)})
					}
					put(r)
				})
				seqs(len(k), 4, 4, func(s []int) {
					put(Rule{Ph: p, V: one, Acts: pick(s[0], s[1]), Subs: []Rule{{V: one, Acts: pick(s[2], s[3])}}})
				})
			}
		}, runEngine)
}
