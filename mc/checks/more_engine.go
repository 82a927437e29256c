package checks

import (
	"fmt"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// What a host passes to the calls, and the number of things there are, must
// not matter for which rules run and which verdict comes out.

// callArgs gives the complete calls of a transaction with every argument
// varied: all response codes and header kinds of both sides, bodies, methods,
// addresses, access switches and limits, and orders of supplying the parts.
func callArgs(c *core.Ctx, f func(ops []string, access int)) {
	codes := []int{-1, 0, 1, 99, 100, 101, 102, 103, 199, 200, 201, 204, 205, 206, 226, 299, 300, 301, 302, 303, 304, 307, 308, 399, 400, 401, 403, 404, 405, 413, 418, 499, 500, 501, 502, 503, 504, 511, 599, 600, 999, 1000, 1 << 31}
	kinds := []string{"nil", "empty", "form", "multi", "plain", "gzip", "empties"}
	methods := []string{"", "=GET", "=HEAD", "=POST", "=PUT", "=PATCH", "=OPTIONS", "=CONNECT", "=TRACE", "=DELETE", "=get", "=nil"}
	conns := []string{"conn", "conn2", "conn3", "conn=", "conn=127.0.0.1", "conn=unix", "conn=::1"}
	sizes := []int{-1, 0, 1, 4, 5, 8, 9}
	build := func(conn, method, rk string, code int, pk string, qn, pn int, resultAt int) []string {
		ops := []string{conn, "url" + method, "reqh=" + rk}
		if qn >= 0 {
			ops = append(ops, fmt.Sprintf("+req=%d", qn))
		}
		ops = append(ops, "reqb", fmt.Sprintf("resph=%d,%s", code, pk))
		if pn >= 0 {
			ops = append(ops, fmt.Sprintf("+res=%d", pn))
		}
		ops = append(ops, "respb", "log")
		var res []string
		for i, o := range ops {
			res = append(res, o)
			if resultAt == 1 || resultAt == 2 && i%2 == 0 {
				res = append(res, "result")
			}
		}
		return append(res, "result")
	}
	n := 0
	for _, code := range codes {
		for _, pk := range kinds {
			for _, pn := range sizes {
				for acc := 0; acc < 8; acc++ {
					n++
					f(build(conns[n%len(conns)], methods[n%len(methods)], kinds[n/3%len(kinds)], code, pk, sizes[n/7%len(sizes)], pn, n%3), acc)
				}
			}
		}
	}
	for _, m := range methods {
		for _, rk := range kinds {
			for _, qn := range sizes {
				for acc := 0; acc < 8; acc++ {
					for _, conn := range conns {
						n++
						if !c.Thorough && n%3 != 0 {
							continue
						}
						f(build(conn, m, rk, codes[n%len(codes)], kinds[n/5%len(kinds)], qn, sizes[n/11%len(sizes)], n%3), acc)
					}
				}
			}
		}
	}
	// responses announced several times, bodies arriving between all steps
	for _, a := range codes {
		for _, b := range codes {
			if !c.Thorough && (a > 600 || b > 600) {
				continue
			}
			f([]string{"conn", "url", "reqh=form", "+req=3", "reqb", fmt.Sprintf("resph=%d,plain", a), "+res=2", fmt.Sprintf("resph=%d,empty", b), "+res=3", "respb", "result", "log", "result"}, 3)
			f([]string{"conn", "url", "reqh", "reqb", fmt.Sprintf("resph=%d,nil", a), "result", fmt.Sprintf("resph=%d,gzip", b), "result", "respb", "log", "result"}, 0)
		}
	}
	parts := []string{"+req=2", "+res=2", "+req=9", "+res=9", "+req=0", "+res=0"}
	seqs(len(parts), 1, 2, func(s []int) {
		base := []string{"conn", "url=POST", "reqh=form", "reqb", "resph=200,plain", "respb", "log", "result"}
		for at := 0; at <= len(base); at++ {
			for to := at; to <= len(base); to++ {
				for acc := 0; acc < 8; acc += 1 {
					var ops []string
					for i, o := range base {
						if i == at {
							ops = append(ops, parts[s[0]])
						}
						if i == to && len(s) > 1 {
							ops = append(ops, parts[s[1]])
						}
						ops = append(ops, o)
					}
					f(ops, acc)
				}
			}
		}
	})
	// ... and between steps that are taken again
	again := [][]string{
		{"conn", "reqh=form", "reqb", "reqb", "resph", "reqb", "respb", "respb", "log", "respb", "log", "result"},
		{"conn", "conn", "reqh", "reqh", "conn", "reqb", "result", "reqb", "reqh", "resph", "result", "resph", "reqb", "respb", "resph", "respb", "log", "reqb", "result"},
		{"reqb", "reqb", "respb", "respb", "resph", "log", "log", "result"},
	}
	for bi, base := range again {
		for at := 0; at <= len(base); at++ {
			for to := at; to <= len(base); to++ {
				for k := 0; k < 16; k++ {
					if !c.Thorough && bi == 1 && (at+to+k)%4 != 0 {
						continue
					}
					ops := append([]string{}, base[:at]...)
					ops = append(ops, parts[k%2+2*(k/8)])
					ops = append(ops, base[at:to]...)
					ops = append(ops, parts[k/2%2])
					f(append(ops, base[to:]...), []int{0, 3, 7}[(k/4+at)%3])
				}
			}
		}
	}
}

// counts are the numbers of things tried where there can be many.
func counts(c *core.Ctx) []int {
	var res []int
	for i := 0; i <= 40; i++ {
		res = append(res, i)
	}
	res = append(res, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 300, 301, 511, 512, 513)
	if c.Thorough {
		res = append(res, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049)
	}
	return res
}

func many(n int, r Rule) []Rule {
	var res []Rule
	for i := 0; i < n; i++ {
		res = append(res, r)
	}
	return res
}

func cat(l ...[]Rule) []Rule {
	var res []Rule
	for _, r := range l {
		res = append(res, r...)
	}
	return res
}

func reps(n int, s ...string) []string {
	var res []string
	for i := 0; i < n; i++ {
		res = append(res, s...)
	}
	return res
}

func init() {
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}
	six := func() []Rule { return probesIn(1, 2, 3, 4, 5, 6) }
	argRule := "what the host passes to the calls: 43 response codes, seven kinds of header maps (nil, empty, and others) for both directions, 12 methods, 7 addresses, no, empty and longer bodies of both directions, both access switches and small limits; responses announced twice with all pairs of codes; body pieces between all steps, once and repeated"
	register := func(prop string, sets [][]Rule, modes []string, def []string) {
		core.Register(prop, "call-arguments", argRule,
			func(c *core.Ctx, y func(EngineCase)) {
				n := 0
				callArgs(c, func(ops []string, acc int) {
					n++
					for i, r := range sets {
						if !c.Thorough && len(sets) > 3 && (i+n)%2 == 1 {
							continue
						}
						y(EngineCase{Rules: r, Ops: ops, Access: acc, Mode: modes[(n+i)%len(modes)], Default: def})
					}
				})
			}, runEngine)
	}
	register("C01", [][]Rule{six(), cat(six(), []Rule{hit(1, "allow:request")}, six()), cat(six(), []Rule{hit(2, "allow")}, six())}, []string{"", "on"}, nil)
	register("C02", [][]Rule{
		cat(six(), []Rule{hit(2, "skip"), hit(2, "x2:s"), hit(3, "skip:2"), hit(3, "x2:s"), hit(4, "skip"), hit(4, "x2:t"), hit(5, "skip:3"), hit(5, "x2:v"), hit(6, "skip")}, six()),
		cat(six(), []Rule{hit(2, "allow:request")}, six()), cat(six(), []Rule{hit(3, "allow:phase"), hit(4, "allow:phase")}, six()),
	}, []string{"", "on"}, nil)
	one := []string{"1"}
	register("C03", [][]Rule{
		{{Ph: 1, V: one, Acts: []string{"x3:d", "x0:m"}, Subs: []Rule{{V: []string{"-", "0,1"}}}}, {Ph: 2, V: one, Acts: []string{"x2:a"}, Subs: []Rule{{V: []string{"0"}}}}, {Ph: 3, V: []string{"0,1"}, Not: true, Acts: []string{"x2:b"}},
			{Ph: 4, V: []string{"0", "bc"}, T: []string{"a", "r"}, Want: "acb", Acts: []string{"x2:c"}, Subs: []Rule{{V: []string{"bc"}, T: []string{"d", "x"}, Want: "cbc"}}}, {Ph: 5, V: one, Not: true, Acts: []string{"x2:e"}}, {Ph: 5, V: []string{"0"}, Not: true, Acts: []string{"x2:f"}}, hit(6, "x4:f", "x1:e", "x3:d")},
	}, []string{"", "on"}, nil)
	register("C04", [][]Rule{
		{hit(2, "status:501", "deny"), hit(4, "deny"), hit(6, "deny")}, {hit(3, "block"), hit(5, "status:404", "deny")}, {hit(1, "deny"), hit(2, "x2:n"), hit(3, "x2:n"), hit(4, "x2:n"), hit(5, "x2:n"), hit(6, "x2:n")},
		{hit(5, "deny"), hit(6, "log")}, {hit(4, "status:599", "deny"), hit(5, "x2:n")},
	}, []string{"", "on"}, []string{"status:406", "deny"})
	register("C05", [][]Rule{
		{hit(1, "deny"), hit(2, "deny"), hit(3, "deny"), hit(4, "deny"), hit(5, "deny"), hit(6, "deny"), hit(1, "x2:n"), hit(2, "x2:n"), hit(3, "x2:n"), hit(4, "x2:n"), hit(5, "x2:n"), hit(6, "x2:n")},
		cat([]Rule{hit(2, "allow"), hit(4, "block"), {Ph: 5, V: []string{"A"}, Acts: []string{"log"}}}, six()),
	}, []string{"detect", "off", "on", ""}, []string{"deny"})
	register("C18", [][]Rule{
		{hit(1, "log"), hit(2, "log"), hit(3, "log", "log"), hit(4, "log"), hit(5, "log"), hit(6, "log")},
		{hit(1, "log", "pass"), hit(2, "status:404", "deny"), hit(3, "log"), hit(4, "deny", "log"), hit(5, "log"), hit(6, "log")},
	}, []string{"", "detect", "on"}, nil)

	// ---------------- numbers
	core.Register("C01", "sizes",
		"0..40 and numbers around the multiples of 50 and powers of two up to 512 (thorough: 2049) of: rules in a phase, calls of a step, results taken, default actions; each phase evaluated once",
		func(c *core.Ctx, y func(EngineCase)) {
			for _, n := range counts(c) {
				for p := 1; p <= 6; p++ {
					y(EngineCase{Rules: cat(six(), many(n, hit(p, "x2:m")), six()), Ops: full})
					y(EngineCase{Rules: cat(many(n, miss(p, "x2:m")), six()), Ops: each, Group: n})
					ops := append([]string{}, full[:p]...)
					ops = append(ops, reps(n, steps6[p-1])...)
					ops = append(ops, full[p:]...)
					y(EngineCase{Rules: cat(six(), six()), Ops: ops})
					y(EngineCase{Rules: cat(six(), []Rule{hit(p, "deny")}, six()), Ops: append(append(append([]string{}, full...), reps(n, steps6[p-1], "result")...), full...)})
				}
				y(EngineCase{Rules: six(), Ops: append(append([]string{"conn"}, reps(n, "result")...), full[1:]...)})
				y(EngineCase{Rules: six(), Ops: append(reps(n, "url", "result"), full...)})
			}
		}, runEngine).WithBudget(1 << 30)
	core.Register("C02", "sizes",
		"the same numbers of rules in front of and behind a skip, an allow of each kind or a deny, skip:n over up to n+2 rules, n skips in a row",
		func(c *core.Ctx, y func(EngineCase)) {
			for _, n := range counts(c) {
				for p := 1; p <= 6; p++ {
					for _, a := range []string{"skip", "allow", "allow:phase", "allow:request", fmt.Sprintf("skip:%d", n+1), "deny"} {
						if n > 64 && (n+p)%2 == 1 && !c.Thorough {
							continue
						}
						y(EngineCase{Rules: cat(six(), many(n, miss(p, "x2:m")), []Rule{hit(p, a)}, six(), six()), Ops: full})
						y(EngineCase{Rules: cat(six(), []Rule{hit(p, a)}, many(n, hit(p, "x2:m")), six(), six()), Ops: full})
					}
					y(EngineCase{Rules: cat(many(n, hit(p, "skip")), six(), six()), Ops: full})
					y(EngineCase{Rules: cat([]Rule{hit(p, "skip")}, []Rule{{Ph: p, V: one, Acts: []string{"x2:c"}, Subs: many(n, hit(0, "x2:l"))}}, six()), Ops: full})
				}
				if n > 0 && n < 300 {
					y(EngineCase{Sec: true, Rules: cat([]Rule{hit(2, fmt.Sprintf("skip:%d", n), "log")}, many(n+2, hit(2, "log"))), Ops: full})
				}
			}
		}, runEngine).WithBudget(1 << 30)
	ids := []int{0, 1, 2, 7, -1, 900000}
	core.Register("C02", "rule-ids",
		"all lists of up to 5 rules with ids out of 0, 1, 2, 7, -1, 900000, repeated ones included, with a skip or an allow at every position, in one phase and split over two; by API and from text: the order of the text is what counts",
		func(c *core.Ctx, y func(EngineCase)) {
			seqs(len(ids), 2, c.Pick(4, 5), func(s []int) {
				for at := 0; at <= len(s); at++ {
					for _, a := range []string{"skip", "allow:phase", "x1:q", "skip:2"} {
						var rules []Rule
						for i, k := range s {
							r := hit(3, fmt.Sprintf("x2:%d", i))
							if i == at {
								r = hit(3, a)
							}
							if a == "x1:q" && i == at {
								r = hit(2, a)
							}
							r.Id = ids[k]
							rules = append(rules, r)
						}
						y(EngineCase{Rules: rules, Ops: full, Group: 1 + at%3})
					}
				}
				if len(s) <= 4 {
					for at := 0; at < len(s); at++ {
						var rules []Rule
						for i, k := range s {
							r := hit(3, "log")
							if i%2 == 1 {
								r = hit(2, "log")
							}
							if i == at {
								r = hit(3, "log", "skip")
							}
							r.Id = 10 - i
							if ids[k] > 0 {
								r.Id = ids[k]
							}
							rules = append(rules, r)
						}
						y(EngineCase{Sec: true, Rules: rules, Ops: full})
					}
				}
			})
		}, runEngine)
	core.Register("C03", "sizes",
		"the same numbers of targets, values of a target, transformations, chained rules and actions, the deciding one first, last or in the middle; values of those lengths and around 4096 and 65536",
		func(c *core.Ctx, y func(EngineCase)) {
			ops := []string{"conn", "reqh", "reqb", "result"}
			for _, n := range counts(c) {
				for k, pos := range []int{0, n / 2, n} {
					p := k + 1
					v := []string{}
					for i := 0; i <= n; i++ {
						v = append(v, []string{"0", "-", "0,0"}[i%3])
					}
					v[pos] = "0,1"
					for _, not := range []bool{false, true} {
						y(EngineCase{Rules: []Rule{{Ph: p, V: v, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
						y(EngineCase{Rules: []Rule{{Ph: p, V: []string{fmt.Sprintf("#%d,1,#%d", pos, n-pos)}, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
					}
					all := []string{}
					for i := 0; i <= n; i++ {
						all = append(all, "1")
					}
					if n > 0 {
						y(EngineCase{Rules: []Rule{{Ph: p, V: all, Not: true, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
					}
					subs := many(n, hit(0, "x2:l"))
					y(EngineCase{Rules: []Rule{{Ph: p, V: one, Acts: []string{"x2:m"}, Subs: subs}, hit(p, "x2:n")}, Ops: ops})
					if pos < n {
						subs = append([]Rule{}, subs...)
						subs[pos] = miss(0, "x2:l")
						y(EngineCase{Rules: []Rule{{Ph: p, V: one, Acts: []string{"x2:m"}, Subs: subs}, hit(p, "x2:n")}, Ops: ops})
					}
					if n == 0 {
						continue
					}
					acts := []string{}
					for i := 0; i < n; i++ {
						acts = append(acts, fmt.Sprintf("x%d:%d", (i*3+k)%5, i))
					}
					y(EngineCase{Rules: []Rule{hit(p, acts...), hit(p, "x2:n")}, Ops: ops})
					// transformations: an "a" at every place but one "r"
					ts := reps(n, "a")
					ts[pos*(n-1)/n] = "r"
					w := "b"
					for _, t := range ts {
						w = transProbe(t, w)
					}
					y(EngineCase{Rules: []Rule{{Ph: p, V: []string{"b"}, T: ts, Want: w, Acts: []string{"x2:m"}}, {Ph: p, V: []string{"b"}, T: ts[:n-1], Want: w, Acts: []string{"x2:no"}}}, Ops: ops})
				}
			}
			for _, n := range append(counts(c), 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537) {
				if n == 0 {
					continue
				}
				v := fmt.Sprintf("*%db", n)
				for _, not := range []bool{false, true} {
					y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{v}, Want: v, Not: not, Acts: []string{"x2:m"}}}, Ops: ops})
					y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{"0," + v}, T: []string{"d", "x"}, Want: fmt.Sprintf("*%db", 2*n-1), Not: not, Acts: []string{"x2:m"}}}, Ops: ops})
				}
			}
		}, runEngine).WithBudget(1 << 30)
	core.Register("C04", "sizes",
		"the same numbers of: rules in front of a deny, denies in a row, statuses, repeated results, repeated aborts, default actions",
		func(c *core.Ctx, y func(EngineCase)) {
			for _, n := range counts(c) {
				for p := 1; p <= 6; p += 1 {
					if n > 128 && p%2 == 0 && !c.Thorough {
						continue
					}
					y(EngineCase{Rules: cat(many(n, hit(p, "status:501")), []Rule{hit(p, "status:502", "deny")}, six()), Ops: each})
					y(EngineCase{Rules: cat(many(n, hit(p, "deny")), six(), six()), Ops: full})
					y(EngineCase{Rules: cat(many(n, miss(p, "deny")), []Rule{hit(p, "block")}, six()), Default: append(reps(n, "x1:d"), "deny"), Ops: each})
					y(EngineCase{Rules: cat([]Rule{hit(p, "deny")}, six()), Ops: append(append(append([]string{}, full[:p+1]...), reps(n, "result")...), full[1:]...)})
					y(EngineCase{Rules: six(), Ops: append(append(append([]string{}, full[:p]...), reps(n, "err:418", "abort:503", "result")...), full[p:]...)})
				}
				acts := append(reps(n, "status:404"), "status:405", "deny")
				y(EngineCase{Rules: []Rule{hit(1, acts...), hit(2, "deny")}, Ops: each})
				y(EngineCase{Rules: []Rule{{Ph: 1, V: one, Acts: []string{"deny"}, Subs: append(many(n, hit(0, "x2:l")), hit(0, "status:505"))}, hit(2, "deny")}, Ops: each})
			}
		}, runEngine).WithBudget(1 << 30)
	core.Register("C05", "sizes",
		"the same numbers of matching rules that deny, block, allow or abort, and of mode changes, in every mode",
		func(c *core.Ctx, y func(EngineCase)) {
			for _, n := range counts(c) {
				for _, m := range []string{"", "on", "off", "detect"} {
					for _, a := range []string{"deny", "block", "allow", "log"} {
						y(EngineCase{Mode: m, Rules: cat(many(n, hit(2, a)), six()), Default: []string{"deny"}, Ops: each})
					}
					y(EngineCase{Mode: m, Rules: cat(many(n, Rule{Ph: 3, V: []string{"A"}, Acts: []string{"deny"}}), six()), Ops: full})
					y(EngineCase{Mode: "on", Rules: cat([]Rule{hit(1, "deny"), hit(2, "deny"), hit(3, "deny")}, six()), Ops: append(append([]string{}, reps(n, "mode:off", "mode:on", "mode:detect")...), each...)})
				}
			}
		}, runEngine).WithBudget(1 << 30)
	core.Register("C18", "sizes",
		"the same numbers of log actions in one rule, of logging rules in one phase and spread over the phases, of logged aborts, and of results taken in between",
		func(c *core.Ctx, y func(EngineCase)) {
			for _, n := range counts(c) {
				for _, m := range []string{"", "detect"} {
					for _, ops := range [][]string{full, each} {
						y(EngineCase{Mode: m, Rules: many(n, hit(2, "log")), Ops: ops})
						y(EngineCase{Mode: m, Rules: []Rule{hit(3, reps(n, "log")...)}, Ops: ops})
						var l []Rule
						for i := 0; i < n; i++ {
							l = append(l, hit(i%6+1, "log"))
						}
						y(EngineCase{Mode: m, Rules: l, Ops: ops})
						y(EngineCase{Mode: m, Rules: cat(many(n, hit(2, "pass", "log")), many(n, hit(5, "log")), []Rule{hit(6, "deny")}), Ops: ops})
						y(EngineCase{Mode: m, Rules: []Rule{{Ph: 2, V: one, Acts: []string{"log"}, Subs: many(n, hit(0, "log"))}}, Ops: ops})
						y(EngineCase{Mode: m, Rules: many(n, hit(4, "block")), Default: []string{"log", "log"}, Ops: ops})
					}
					y(EngineCase{Mode: m, Rules: []Rule{hit(1, "log"), hit(6, "log")}, Ops: append(append([]string{"conn"}, reps(n, "err:418")...), "result", "log", "result")})
					y(EngineCase{Mode: m, Rules: []Rule{hit(1, "log"), hit(6, "log", "log")}, Ops: append(append([]string{"conn"}, reps(n, "result", "err:418")...), "result", "log", "result")})
				}
			}
		}, runEngine).WithBudget(1 << 30)
}
