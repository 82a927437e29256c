package checks

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity/operators"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Modes that change between repeated steps, verdicts beside allow, lists of
// default actions, and rule sets of which the transaction is not.

func init() {
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}
	one := []string{"1"}

	core.Register("C01", "modes in between",
		"all sequences of up to 5 (thorough 6) of conn, reqh, reqb, result and Off, On, DetectionOnly, and each of the six steps in order with the mode set before it, set again behind it, and the step called once more, over five rule sets",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := [][]Rule{
				probesIn(1, 2, 3, 4, 5, 6),
				cat(probesIn(1, 2, 3, 4, 5, 6), []Rule{hit(1, "deny"), hit(2, "deny"), hit(3, "deny")}),
				cat([]Rule{hit(1, "allow:phase"), hit(2, "allow:request")}, probesIn(1, 2, 3, 4, 5, 6)),
				{hit(2, "allow"), hit(1, "deny"), hit(3, "x2:p"), hit(6, "x2:p")},
				{{Ph: 1, V: []string{"A"}, Acts: []string{"log"}}, hit(1, "x2:p"), hit(2, "deny"), hit(3, "x2:p")},
			}
			ops := []string{"conn", "reqh", "reqb", "result", "mode:off", "mode:on", "mode:detect"}
			seqs(len(ops), 1, c.Pick(5, 6), func(s []int) {
				o := pickS(ops, s)
				if !strings.Contains(strings.Join(o, " "), "mode") {
					return
				}
				for _, r := range sets {
					y(EngineCase{Rules: r, Ops: o})
				}
			})
			ms := []string{"", "mode:off", "mode:on", "mode:detect"}
			for _, r := range sets {
				for p := range steps6 {
					seqs(4, 4, 4, func(s []int) {
						var o []string
						add := func(l ...string) {
							for _, x := range l {
								if x != "" {
									o = append(o, x)
								}
							}
						}
						for i, st := range steps6 {
							if i != p {
								add(st)
								continue
							}
							add(ms[s[0]], st, ms[s[1]], st, ms[s[2]], "result", st, ms[s[3]])
						}
						add(steps6[p], "result")
						y(EngineCase{Rules: r, Ops: o})
						y(EngineCase{Mode: "off", Rules: r, Ops: o})
					})
				}
			}
		}, runEngine)

	core.Register("C01", "phases by number",
		"all sequences of up to 5 (thorough 6) direct calls for phases 1 to 4 and 6 mixed with the steps conn, reqh, resph and log, and all pairs and triples of direct calls for -1, 0, 1, 2, 5, 6, 7, 100, over four rule sets",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := [][]Rule{
				probesIn(1, 2, 3, 4, 5, 6),
				cat([]Rule{hit(1, "allow:phase"), hit(2, "allow:request")}, probesIn(1, 2, 3, 4, 5, 6)),
				{hit(1, "allow"), hit(2, "deny"), hit(6, "x2:p")},
				cat([]Rule{hit(1, "skip"), hit(1, "x2:p"), hit(1, "x2:p")}, probesIn(2, 3), []Rule{hit(4, "deny"), hit(6, "log")}),
			}
			ops := []string{"phase:1", "phase:2", "phase:3", "phase:4", "phase:6", "conn", "reqh", "resph", "log"}
			seqs(len(ops), 1, c.Pick(5, 6), func(s []int) {
				o := pickS(ops, s)
				for i, r := range sets {
					if len(s) > 4 && i > c.Pick(0, 3) {
						break
					}
					y(EngineCase{Rules: r, Ops: append(o, "result")})
				}
			})
			ops = []string{"phase:-1", "phase:0", "phase:1", "phase:2", "phase:5", "phase:6", "phase:7", "phase:100"}
			seqs(len(ops), 1, 3, func(s []int) {
				for _, r := range sets {
					for _, m := range []string{"on", "detect"} {
						y(EngineCase{Mode: m, Rules: r, Ops: append(pickS(ops, s), "conn", "result", "reqh", "log", "result")})
					}
				}
			})
		}, runEngine)

	core.Register("C04", "verdicts dropped",
		"all sequences of up to 6 (thorough 7) of conn, reqh, reqb, log, result and a reset of the verdict by the host, over three rule sets; a reset takes like result, and is harmless before everything else",
		func(c *core.Ctx, y func(EngineCase)) {
			sets := [][]Rule{
				{hit(1, "deny"), hit(1, "x2:p"), hit(2, "status:501", "log", "deny"), hit(3, "x2:p"), hit(6, "status:410", "deny")},
				{hit(1, "log"), hit(2, "block"), hit(3, "deny"), hit(6, "x2:p")},
				{hit(2, "allow", "log"), hit(1, "log", "deny"), hit(6, "deny")},
			}
			ops := []string{"reset", "conn", "reqh", "reqb", "log", "result"}
			seqs(len(ops), 1, c.Pick(6, 7), func(s []int) {
				o := pickS(ops, s)
				if !strings.Contains(strings.Join(o, " "), "reset") {
					return
				}
				for _, r := range sets {
					for _, m := range []string{"on", "detect"} {
						y(EngineCase{Mode: m, Rules: r, Default: []string{"log", "deny"}, Ops: append(o, "result")})
					}
				}
			})
		}, runEngine)

	core.Register("C04", "redirections",
		"an action of the host that redirects (address, pause, status 302) among log, deny, status, allow and a probe: every list of up to 3 of these in each of two rules in the same or different phases, with the verdict taken at the end, after each step, twice, or dropped, and with an abort behind it",
		func(c *core.Ctx, y func(EngineCase)) {
			al := []string{"x3:redirect", "log", "deny", "status:501", "allow", "x2:p"}
			seqs(len(al), 1, 3, func(s []int) {
				a := pickS(al, s)
				if !strings.Contains(strings.Join(a, " "), "redirect") {
					return
				}
				seqs(len(al), 0, c.Pick(2, 3), func(s []int) {
					b := pickS(al, s)
					if strings.Count(strings.Join(b, " "), "redirect") > 1 {
						return
					}
					for _, ph := range [][2]int{{1, 1}, {1, 2}, {2, 6}} {
						rules := []Rule{hit(ph[0], a...), hit(ph[0], "x2:n"), hit(ph[1], b...), hit(3, "deny"), hit(6, "x2:p")}
						for _, o := range [][]string{
							append(append([]string{}, full...), "result"), each,
							{"conn", "result", "result", "reqh", "reqb", "result", "log", "result"},
							{"conn", "reset", "result", "reqh", "reqb", "reset", "log", "result"},
							{"conn", "result", "reqh", "result", "abort:413", "result", "reqb", "result", "log", "result"},
						} {
							y(EngineCase{Rules: rules, Ops: o})
						}
					}
				})
			})
		}, runEngine)

	acts := []string{"deny", "block", "allow", "allow:phase", "allow:request", "status:501", "skip", "log"}
	core.Register("C04", "verdicts beside allow",
		"every list of up to 3 (thorough 4) actions out of "+strings.Join(acts, ", ")+" in one rule, and split over a chain at every place, in every phase, with four lists of default actions, followed by rules that deny",
		func(c *core.Ctx, y func(EngineCase)) {
			defs := [][]string{{"deny"}, {"allow", "deny"}, {"deny", "allow:phase"}, {"status:406", "log", "deny", "allow:request"}}
			seqs(len(acts), 1, c.Pick(3, 4), func(s []int) {
				l := pickS(acts, s)
				for p := 1; p <= 6; p++ {
					for cut := 1; cut <= len(l); cut++ {
						r := Rule{Ph: p, V: one, Acts: l[:cut]}
						if cut < len(l) {
							r.Subs = []Rule{{V: one, Acts: l[cut:]}}
						}
						rules := []Rule{r, hit(p, "status:410", "deny"), hit(6, "x2:n")}
						if p < 6 {
							rules = append(rules, hit(p+1, "status:411", "deny"))
						}
						for di, d := range defs {
							if di > 0 && !strings.Contains(strings.Join(l, " "), "block") {
								break
							}
							y(EngineCase{Rules: rules, Default: d, Ops: full})
							y(EngineCase{Rules: rules, Default: d, Ops: each})
						}
					}
				}
			})
		}, runEngine)

	core.Register("C05", "default actions",
		"block over every list of up to 4 (thorough 5) default actions out of log, deny, status, allow, allow:phase, skip and a probe, alone, between other actions and in chains, in every mode, in two phases",
		func(c *core.Ctx, y func(EngineCase)) {
			al := []string{"log", "deny", "status:406", "allow", "allow:phase", "skip", "x2:d"}
			seqs(len(al), 0, c.Pick(4, 5), func(s []int) {
				d := pickS(al, s)
				for i, rules := range [][]Rule{
					{hit(1, "block"), hit(1, "x2:n"), hit(2, "log"), hit(6, "log")},
					{hit(2, "log", "block", "skip"), hit(2, "log"), hit(2, "block"), hit(3, "log")},
					{{Ph: 2, V: one, Acts: []string{"block"}, Subs: []Rule{hit(0, "block", "log")}}, hit(2, "log"), hit(3, "x2:n")},
				} {
					for _, m := range []string{"detect", "on", "off"} {
						if m != "detect" && len(s) > 3 {
							continue
						}
						ops := each
						if (len(s)+i)%2 == 1 {
							ops = full
						}
						y(EngineCase{Mode: m, Rules: rules, Default: d, Ops: ops})
					}
				}
			})
		}, runEngine)

	core.Register("C19", "sets of a transaction",
		"a transaction over a set that is not its engine's, or the set of whose engine is replaced or removed between any two calls: every list of two rules out of ten (skips, allows, deny, block, log, chains) in five phase patterns; it keeps to its own rules and default actions",
		func(c *core.Ctx, y func(EngineCase)) {
			items := []Rule{hit(0, "x2:n"), hit(0, "skip"), hit(0, "skip:3"), hit(0, "allow"), hit(0, "allow:phase"), hit(0, "deny"), hit(0, "block"), hit(0, "log", "block"),
				{V: one, Acts: []string{"log"}, Subs: []Rule{hit(0, "block", "skip:2")}}, miss(0, "deny")}
			for _, ph := range [][2]int{{1, 1}, {1, 2}, {2, 3}, {3, 3}, {2, 6}} {
				seqs(len(items), 2, 2, func(s []int) {
					a, b := items[s[0]], items[s[1]]
					a.Ph, b.Ph = ph[0], ph[1]
					rules := cat([]Rule{a}, many(4, hit(ph[0], "x2:p")), []Rule{b}, many(4, hit(ph[1], "x2:q")), probesIn(1, 2, 3, 4, 5, 6))
					for _, d := range [][]string{{"log", "deny"}, {"allow:phase", "x2:d"}, nil} {
						for _, m := range []string{"on", "detect"} {
							y(EngineCase{Mode: m, Rules: rules, Default: d, Ops: full, Foreign: true})
							y(EngineCase{Mode: m, Rules: rules, Default: d, Ops: each, Foreign: true})
							for at := 0; at <= 4; at++ {
								for _, w := range []string{"swap", "unset"} {
									o := append(append(append([]string{}, full[:at]...), w), full[at:]...)
									y(EngineCase{Mode: m, Rules: rules, Default: d, Ops: o})
									if m == "on" {
										y(EngineCase{Mode: m, Rules: rules, Default: d, Ops: o, Foreign: true})
									}
								}
							}
						}
					}
				})
			}
		}, runEngine)

	marks := []string{"I", "i", "İ", "ı", "Σ", "σ", "ς", "A", "a", "ẞ", "ß", "K", "Å", "Ǆ", "ǅ", "J", "Ω", "Α", "É", "E",
		"\u0307", "\u0301", "\u0300", "\u030a", "\u0345", "\u0323", "\u00ad", "\u200d", "\u200c", "\ufe0f", "\ufeff", "\ufffd", "\u1100", "\u1161", "\u2028", "\u0085", "\u202e",
		" ", "\u00a0", "\x00", "\n", "%", "4", "%49", "%u0049", "%u0307", "+", "\U0001F1E6", "\U0001F468", "\U00010400"}
	core.Register("C11", "neighbours",
		fmt.Sprintf("every string of two and three (thorough four) out of %d letters with special cases, combining and invisible characters, blanks and escapes, and each code point below U+3000 before and behind eight of them, through every transformation", len(marks)),
		func(ctx *core.Ctx, yield func(TransCase)) {
			seqs(len(marks), 2, ctx.Pick(3, 4), func(s []int) {
				if len(s) == 4 && (s[0]+s[3])%3 != 0 {
					return
				}
				yield(TransCase{In: core.B(strings.Join(pickS(marks, s), ""))})
			})
			for r := rune(0); r < 0x3000; r++ {
				for _, m := range []string{"\u0307", "\u0301", "\u200d", "Σ", "I", "A", " ", "%"} {
					yield(TransCase{In: core.B(string(r) + m)})
					yield(TransCase{In: core.B(m + string(r))})
				}
			}
		}, runTrans)

	pieces := []string{"a", "b", " ", "(", ")", "[", "]", "^", "-", "\\", "|", ".", "$", "*", "+", "?", "{2}", "{1,}", "{", "}", ",", "1", "#", "!", "/",
		"(?x)", "(?i)", "(?-s)", "(?U)", "(?m:", "(?:", "(?=", "(?<!", "(?>", "(?|", "(?#", "(?P<n>", "(?<n>", "(?P=n)", "(?(1)", "(*UTF8)",
		"\\d", "\\h", "\\1", "\\k<n>", "\\Q", "\\E", "\\z", "\\Z", "\\G", "\\K", "\\R", "\\X", "\\pL", "\\p{Greek}", "\\x{41}", "\\x4", "\\101", "\\cA", "\\e", "[[:alpha:]]", "[^", "&&", "\n", "é", "\xff"}
	core.Register("C12", "expression texts",
		fmt.Sprintf("every text of up to 3 out of %d pieces of the syntax of this and other dialects of regular expressions, and of 4 (thorough 5) out of the first 25: accepted exactly when it is a regular expression, which then decides about eleven subjects", len(pieces)),
		func(ctx *core.Ctx, yield func(OpCase)) {
			seqs(len(pieces), 1, 3, func(s []int) { yield(OpCase{Arg: core.B(strings.Join(pickS(pieces, s), ""))}) })
			seqs(25, 4, ctx.Pick(4, 5), func(s []int) { yield(OpCase{Arg: core.B(strings.Join(pickS(pieces, s), ""))}) })
		}, runRxText)
}

var rxTextSubjects = []string{"", "a", "b", "ab", "aab", "a b", "A", "(a", "1", "\n", "é"}

func runRxText(ctx *core.Ctx, c OpCase) *core.Fail {
	text := string(c.Arg)
	re, err := regexp.Compile(text)
	op, oerr := operators.NewOperatorRx(text)
	ctx.Trans(1)
	if (err == nil) != (oerr == nil) {
		return core.Failf("@rx %q: made with error %v, want %v", text, oerr, err)
	}
	ctx.State(text)
	if err != nil {
		ctx.Outcome("refused")
		return nil
	}
	if op.Args() != text {
		return core.Failf("@rx %q has the argument %q", text, op.Args())
	}
	for _, s := range rxTextSubjects {
		ctx.Trans(1)
		if got, want := op.Match(someTx(ctx), s), re.MatchString(s); got != want {
			return core.Failf("@rx %q of the value %q is %v, want %v", text, s, got, want)
		}
	}
	return nil
}
