package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Numbers and sizes far beyond ordinary ones: of everything there can be many
// of, or that can be long. A guard, a buffer or a counter that gives up
// somewhere shows where the largest of them is beyond it.

// large gives the numbers around 1000, 10000, 100000 and the powers of two
// from lo to hi.
func large(lo, hi int) []int {
	var res []int
	for p := 1; p <= hi; p *= 2 {
		for d := -1; d <= 1; d++ {
			if p+d >= lo && p+d <= hi {
				res = append(res, p+d)
			}
		}
	}
	for p := 1000; p <= hi+1; p *= 10 {
		for d := -1; d <= 1; d++ {
			if p+d >= lo && p+d <= hi {
				res = append(res, p+d)
			}
		}
	}
	return res
}

func x(n int, s string) string { return fmt.Sprintf("%d*%s", n, s) }

func times(n int, r Rule) Rule { r.Times = n; return r }

func init() {
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}
	six := func() []Rule { return probesIn(1, 2, 3, 4, 5, 6) }
	one := []string{"1"}
	ns := func(c *core.Ctx) []int { return large(999, c.Pick(65537, 1<<20+1)) }
	top := 100001
	rule := "numbers around 1000, 10000 and the powers of two from 1000 to 65537 (thorough: 1048577), and 100001, of: "

	core.Register("C01", "large numbers", rule+"rules in a phase, calls of one step, results taken",
		func(c *core.Ctx, y func(EngineCase)) {
			for i, n := range append(ns(c), top) {
				p := i%6 + 1
				y(EngineCase{Rules: cat([]Rule{times(n, miss(p, "x2:m"))}, six()), Ops: each, Group: n})
				y(EngineCase{Rules: cat(six(), []Rule{times(n, hit(p, "x2:m"))}, six()), Ops: full})
				ops := append(append(append([]string{}, full[:p]...), x(n, steps6[p-1])), full[p:]...)
				y(EngineCase{Rules: six(), Ops: append(ops, x(n, "result"), "log", "reqh", "result")})
			}
		}, runEngine).WithBudget(1 << 40)
	core.Register("C02", "large numbers", rule+"rules in front of and behind a skip or an allow, rules skipped, rules that skip, chained rules behind a skip",
		func(c *core.Ctx, y func(EngineCase)) {
			for i, n := range append(ns(c), top) {
				p := i%6 + 1
				for _, a := range []string{"skip", "allow:phase", fmt.Sprintf("skip:%d", n), "allow:request", fmt.Sprintf("skip:%d", n+7), "allow"} {
					y(EngineCase{Rules: cat([]Rule{times(n, miss(p, "x2:m")), hit(p, a), times(3, hit(p, "x2:o"))}, six()), Ops: full})
					y(EngineCase{Rules: cat([]Rule{hit(p, a), times(n, hit(p, "x2:m"))}, six(), six()), Ops: full})
				}
				y(EngineCase{Rules: cat([]Rule{times(n, hit(p, "skip"))}, six(), six()), Ops: full})
				y(EngineCase{Rules: cat([]Rule{times(n, miss(p, "x2:m"))}, six()), Ops: full})
				y(EngineCase{Rules: cat([]Rule{hit(p, "skip"), {Ph: p, V: one, Acts: []string{"x2:c"}, Subs: []Rule{times(n, hit(0, "x2:l"))}}}, six()), Ops: full})
			}
		}, runEngine).WithBudget(1 << 40)
	core.Register("C03", "large numbers", rule+"targets, values of one target, transformations, chained rules and actions, the deciding one last; values of such lengths and around the powers of two up to 1<<22 (thorough: 1<<26)",
		func(c *core.Ctx, y func(EngineCase)) {
			ops := []string{"conn", "reqh", "reqb", "result"}
			for i, n := range append(ns(c), top) {
				p := i%3 + 1
				for _, not := range []bool{false, true} {
					y(EngineCase{Rules: []Rule{{Ph: p, V: []string{x(n, "0"), "1"}, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
					y(EngineCase{Rules: []Rule{{Ph: p, V: []string{x(n, "1"), "0"}, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
					y(EngineCase{Rules: []Rule{{Ph: p, V: []string{x(n, "-"), "1"}, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
					y(EngineCase{Rules: []Rule{{Ph: p, V: []string{fmt.Sprintf("#%d,1", n)}, Not: not, Acts: []string{"x2:m"}}, hit(p, "x2:n")}, Ops: ops})
				}
				for _, last := range []Rule{hit(0, "x2:z"), miss(0, "x2:z")} {
					y(EngineCase{Rules: []Rule{{Ph: p, V: one, Acts: []string{"x2:m"}, Subs: []Rule{times(n, hit(0, "x2:l")), last}}, hit(p, "x2:n")}, Ops: ops})
				}
				y(EngineCase{Rules: []Rule{hit(p, x(n, "x2:a"), x(n, "x1:b"), "x0:c", "x4:d"), hit(p, "x2:n")}, Ops: ops})
				w := fmt.Sprintf("*%da", n)
				y(EngineCase{Rules: []Rule{{Ph: p, V: []string{""}, T: []string{x(n, "a")}, Want: w, Acts: []string{"x2:m"}}, {Ph: p, V: []string{""}, T: []string{x(n-1, "a")}, Want: w, Acts: []string{"x2:no"}}}, Ops: ops})
			}
			for _, n := range append(large(999, c.Pick(1<<22+1, 1<<26+1)), top) {
				v := fmt.Sprintf("*%db", n)
				for _, not := range []bool{false, true} {
					y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{v}, Want: v, Not: not, Acts: []string{"x2:m"}}}, Ops: ops})
					y(EngineCase{Rules: []Rule{{Ph: 1, V: []string{"0," + v}, T: []string{"d", "x"}, Want: fmt.Sprintf("*%db", 2*n-1), Not: not, Acts: []string{"x2:m"}}}, Ops: ops})
				}
			}
		}, runEngine).WithBudget(1 << 40)
	core.Register("C04", "large numbers", rule+"rules in front of a deny, denies, statuses, results, aborts, default actions, statuses of chained rules",
		func(c *core.Ctx, y func(EngineCase)) {
			for i, n := range append(ns(c), top) {
				p := i%6 + 1
				y(EngineCase{Rules: cat([]Rule{times(n, hit(p, "status:501")), hit(p, "status:502", "deny")}, six()), Ops: each})
				y(EngineCase{Rules: cat([]Rule{times(n, hit(p, "deny"))}, six()), Ops: full})
				y(EngineCase{Rules: cat([]Rule{times(n, miss(p, "deny")), hit(p, "block")}, six()), Default: []string{x(n, "x1:d"), "deny"}, Ops: each})
				y(EngineCase{Rules: cat([]Rule{hit(p, "deny")}, six()), Ops: append(append(append([]string{}, full[:p+1]...), x(n, "result")), full[1:]...)})
				y(EngineCase{Rules: []Rule{hit(1, x(n, "status:404"), "status:405", "deny"), hit(2, "deny")}, Ops: each})
				y(EngineCase{Rules: []Rule{{Ph: 1, V: one, Acts: []string{"deny"}, Subs: []Rule{times(n, hit(0, "x2:l")), hit(0, "status:505")}}, hit(2, "deny")}, Ops: each})
				if n < 40000 {
					y(EngineCase{Rules: six(), Ops: append(append(append([]string{}, full[:p]...), x(n, "err:418"), "abort:503", "result"), full[p:]...)})
				}
			}
		}, runEngine).WithBudget(1 << 40)
	core.Register("C05", "large numbers", rule+"matching rules that deny, block or log, in every mode; mode changes",
		func(c *core.Ctx, y func(EngineCase)) {
			for i, n := range append(ns(c), top) {
				p := i%6 + 1
				for _, m := range []string{"", "on", "off", "detect"} {
					for _, a := range []string{"deny", "block", "allow"} {
						y(EngineCase{Mode: m, Rules: cat([]Rule{times(n, miss(p, a)), hit(p, "x2:m", a)}, six()), Default: []string{"deny"}, Ops: each})
						y(EngineCase{Mode: m, Rules: cat([]Rule{times(n, hit(p, a))}, six()), Default: []string{"deny"}, Ops: each})
					}
					y(EngineCase{Mode: m, Rules: cat([]Rule{hit(1, "deny"), hit(2, "deny"), hit(3, "deny")}, six()), Ops: append([]string{x(n, "mode:on"), x(n, "mode:detect")}, each...)})
				}
			}
		}, runEngine).WithBudget(1 << 40)
	core.Register("C18", "large numbers", rule+"log actions in one rule, rules that log, chained rules that log, logged aborts, results taken between them",
		func(c *core.Ctx, y func(EngineCase)) {
			for i, n := range append(ns(c), top) {
				p := i%6 + 1
				for _, m := range []string{"", "detect"} {
					y(EngineCase{Mode: m, Rules: []Rule{times(n, hit(p, "log")), hit(6, "log")}, Ops: full})
					y(EngineCase{Mode: m, Rules: []Rule{hit(p, x(n, "log"), "pass"), hit(p, "log")}, Ops: each})
					y(EngineCase{Mode: m, Rules: []Rule{{Ph: p, V: one, Acts: []string{"log"}, Subs: []Rule{times(n, hit(0, "log"))}}, hit(6, "deny")}, Ops: each})
					y(EngineCase{Mode: m, Rules: []Rule{hit(p, "log"), hit(6, "log")}, Ops: append(append(append([]string{}, full[:p]...), x(n, "result")), full[p:]...)})
					if n < 40000 {
						y(EngineCase{Mode: m, Rules: []Rule{hit(1, "log"), hit(6, "log")}, Ops: []string{"conn", x(n, "err:418"), "result", "log", "result"}})
					}
				}
			}
		}, runEngine).WithBudget(1 << 40)

	core.Register("C06", "large pieces", "bodies of one to three pieces of 1 byte, and of sizes around 1<<17 to 1<<22 (thorough 1<<25), memory limits 0, 5, 131072, 1<<20, and around the total; read back in four ways",
		func(c *core.Ctx, y func(BufCase)) {
			sizes := []int{1, 1<<17 + 1, 1<<18 - 1, 1 << 18, 1<<19 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 1, 1<<22 + 1}
			if c.Thorough {
				sizes = append(sizes, 1<<23+1, 1<<24+1, 1<<25+1)
			}
			n := 0
			seqs(len(sizes), 1, 3, func(s []int) {
				sum := 0
				var o []string
				for _, i := range s {
					sum += sizes[i]
					o = append(o, fmt.Sprintf("a%d", sizes[i]))
				}
				if len(s) == 3 && sum > 3<<20 && !c.Thorough {
					return
				}
				for _, mem := range []int{0, 5, 131072, 1 << 20, sum - 1, sum} {
					n++
					rd := [][]string{{"T", "k0", "T"}, {"r7", "r1048577", "r4096", "T"}, {"k0", "S", "B", "r32768", "T"}, {"k5", "r2", "k0", "r2097153", "T"}}[n%4]
					if len(s) == 3 && n%3 != 0 {
						continue
					}
					y(BufCase{Mem: int64(mem), Total: int64(sum), Ops: append(append(append([]string{}, o...), "a1"), rd...)})
				}
			})
		}, runBuf).WithBudget(1 << 40)
	core.Register("C07", "large bodies", "bodies one below, at and one above memory limits around 1000, 10000 and the powers of two from 1000 to 1<<21 (thorough: 1<<25), of one argument, of many, and of many empty ones, whole and in pieces",
		func(c *core.Ctx, yield func(InspCase)) {
			for i, mem := range large(999, c.Pick(1<<21+1, 1<<25+1)) {
				for k, n := range []int{mem - 1, mem, mem + 1, mem + 4096} {
					for bi, b := range []string{"a=" + strings.Repeat("x", n-2), strings.Repeat("a=1&b=22&", n/9+1)[:n], strings.Repeat("&", n), strings.Repeat("%41", n/3+1)[:n]} {
						if n > 300000 && (bi == 1 || (bi+i)%2 == 0) {
							continue
						}
						mode := []string{"on", "detect"}[(i+k)%2]
						op := "never"
						if n == mem+1 {
							op = "any"
						}
						yield(InspCase{Req: Req{Method: []string{"POST", "PUT", "PATCH"}[(i+k)%3], URL: "/", CT: urlenc, Body: core.B(b), Split: []int{0, 1000, 65536, mem}[(i+bi)%4], Mem: int64(mem)},
							Mode: mode, Target: []string{"REQUEST_BODY", "ARGS_POST", "&ARGS_POST", "ARGS_NAMES"}[(bi+k)%4], Op: op, Acts: "deny,status:418"})
					}
				}
			}
		}, runInsp).WithBudget(1 << 40)
	core.Register("C08", "large bodies", "numbers of arguments around 10000 and the powers of two from 4097 to 65537, of equal and different names; single names and values of lengths around the powers of two up to 1<<21; multipart fields of these lengths, and up to 1000 fields",
		func(c *core.Ctx, yield func(ArgCase)) {
			post := func(b string, split int) {
				yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: urlenc, Body: core.B(b), Split: split, Mem: 1 << 27}, Reads: []string{"ARGS_POST", "ARGS_POST_NAMES", "ARGS"}})
			}
			for _, n := range append(large(4097, c.Pick(65537, 1<<18+1)), top) {
				post(joinOf(n, "&", func(i int) string { return fmt.Sprintf("n%d=v%d", i, i) }), 0)
				post(joinOf(n, "&", func(i int) string { return fmt.Sprintf("n=%d", i) }), 10000)
				post(strings.Repeat("&", n)+"a=1", 0)
				post(strings.Repeat("%zz&", n)+"a=1", 0)
			}
			for _, n := range large(1<<14, c.Pick(1<<21+1, 1<<24+1)) {
				l := strings.Repeat("x", n)
				post("a="+l+"&b=1", 0)
				post(l+"=1&b=2", 65536)
				post("a="+strings.Repeat("%41", n)+"&b=1", 0)
				for k, mem := range []int64{0, 40, 1 << 27} {
					yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: "multipart/form-data; boundary=B", Mem: mem, Split: k * 4096}, Multi: true, Boundary: "B", Parts: []Part{{Name: "f", Value: "d", Rep: n, File: []string{"", "f", "f"}[k]}, {Name: "a", Value: "e", Rep: n}, {Name: "b", Value: "1"}}, Reads: []string{"ARGS_POST", "ARGS_POST_NAMES"}})
				}
			}
			for n := 900; n <= 1000; n += 10 {
				var ps []Part
				for i := 0; i < n; i++ {
					ps = append(ps, Part{Name: core.B(fmt.Sprintf("n%d", i)), Value: core.B(fmt.Sprint(i))})
				}
				yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: "multipart/form-data; boundary=B"}, Multi: true, Boundary: "B", Parts: ps, Reads: []string{"ARGS_POST", "ARGS_POST_NAMES"}})
			}
		}, runArgs).WithBudget(1 << 40)
	core.Register("C09", "large numbers", "255 to 1025 (thorough 4097) included or excluded names, and single names and regexes, on requests with 1000 to 10001 entries in every collection",
		func(c *core.Ctx, y func(SelCase)) {
			pre := map[string]string{"ARGS": "a", "ARGS_GET": "a", "ARGS_POST": "n", "REQUEST_COOKIES": "s", "REQUEST_HEADERS": "h", "RESPONSE_HEADERS": "r"}
			for _, coll := range collections {
				p := pre[strings.TrimSuffix(coll, "_NAMES")]
				for _, n := range []int{1000, 1025, 4097, 10001} {
					for _, s := range [][]string{{coll}, {"&" + coll}, {fmt.Sprintf("%s:%s%d", coll, p, n-1)}, {fmt.Sprintf("&%s:%s%d", coll, p, n-1)}, {coll, fmt.Sprintf("!%s:%s%d", coll, p, n-1)}, {fmt.Sprintf("%s:/9$/", coll), fmt.Sprintf("!%s:/99$/", coll)}} {
						y(SelCase{Sel: s, Sep: "|", Quote: `"`, Req: 100 + n})
					}
				}
				for _, n := range large(255, c.Pick(1025, 4097)) {
					inc := listOf(n, func(i int) string { return fmt.Sprintf("%s:%s%d", coll, p, (i*7)%1301) })
					exc := listOf(n, func(i int) string { return fmt.Sprintf("!%s:%s%d", coll, p, (i*5)%1301) })
					y(SelCase{Sel: inc, Sep: "|", Quote: `"`, Req: 100 + 1300})
					y(SelCase{Sel: append([]string{coll}, exc...), Sep: ",", Quote: `'`, Req: 100 + 1300})
				}
			}
		}, runSel).WithBudget(1 << 40)
	core.Register("C10", "large numbers", "numbers of arguments, cookies and headers around 10000 and the powers of two from 2049 to 65537 (thorough: 262145); bodies and parts of lengths around the powers of two up to 1<<22; all variables",
		func(c *core.Ctx, y func(VarCase)) {
			for _, n := range append(large(2047, c.Pick(65537, 1<<18+1)), top) {
				r := wideReq(n)
				r.Proto, r.RProto, r.Mem = "HTTP/1.1", "HTTP/1.1", 1<<27
				vs := allVars
				if n > 20000 {
					vs = append(append([]string{}, collections...), "REQUEST_URI", "QUERY_STRING", "REQUEST_BODY")
				}
				y(VarCase{r, vs})
			}
			for _, n := range large(1<<18, c.Pick(1<<22+1, 1<<25+1)) {
				l := strings.Repeat("x", n)
				for _, q := range []Req{{URL: core.B("/" + l + "/y?a=1")}, {URL: core.B("/p?a=" + l + "&b=1")}, {URL: "/", Hdr: [][2]core.B{{"Cookie", core.B("a=" + l + "; b=1")}, {"X", core.B(l)}}}, {URL: "/", Body: core.B("a=" + l + "&b=1")}, {URL: "/", RHdr: [][2]core.B{{"X", core.B(l)}}}, {URL: core.B("/" + strings.Repeat("y/", n/2))}} {
					q.Method, q.CT, q.Code, q.Mem = "POST", urlenc, 200, 1<<27
					y(VarCase{q, allVars})
				}
			}
		}, runVars).WithBudget(1 << 40)
	core.Register("C11", "far offsets", "each of twelve symbols, a capital and a blank beyond ASCII in front of, between and behind numbers of letters around the powers of two up to 1<<21 (thorough: 1<<24), through every transformation",
		func(ctx *core.Ctx, yield func(TransCase)) {
			for _, n := range append(append([]int{300, 4095, 4096, 4097}, large(999, ctx.Pick(1<<18+1, 1<<21+1))...), ctx.Pick(1<<20+1, 1<<24+1), ctx.Pick(1<<21+1, 1<<22+1)) {
				l := strings.Repeat("a", n)
				for i, s := range []string{"%41", "%u0041", "%uFF21", "%", "\x00", "  ", "\u00a0", "\u00a0 ", "B", "+", "É", "Ж", "İ", "\r\n"} {
					switch {
					case n < 20000:
						yield(TransCase{In: core.B(l + s + "z")})
						yield(TransCase{In: core.B(s + l)})
						yield(TransCase{In: core.B(s + l + s)})
					case i%3 == 0:
						yield(TransCase{In: core.B(s + l + s)})
					case i%3 == 1:
						yield(TransCase{In: core.B(l + s + "z")})
					default:
						yield(TransCase{In: core.B(s + l + s + l[:n/2] + s)})
					}
				}
			}
		}, runTrans).WithBudget(1 << 40)
	core.Register("C12", "large numbers", "numbers of operators around 10000 and the powers of two up to 16385, made before the first is used",
		func(ctx *core.Ctx, yield func(ManyOpsCase)) {
			for _, n := range large(4097, ctx.Pick(16385, 65537)) {
				for _, k := range []string{"rx", "eq", "gt"} {
					yield(ManyOpsCase{n, k})
				}
			}
		}, runManyOps).WithBudget(1 << 40)
	core.Register("C13", "large numbers", "numbers of rules, chained rules, targets, actions, transformations and metadata around 10000 and the powers of two from 1023 to 16385 (thorough 65537), and 65537 rules; texts of words of up to 1<<21 bytes",
		func(ctx *core.Ctx, yield func(DocCase)) {
			rule := func(ts []string, arg string, as []string) Item {
				return Item{Rules: []DRule{{Targets: ts, Op: "rx", Arg: core.B(arg), Acts: acts(as...)}}}
			}
			as := []string{"id:1", "phase:2", "log"}
			doc := func(l Layout, items ...Item) { yield(DocCase{Items: items, L: l}) }
			for i, n := range append(large(1023, ctx.Pick(16385, 65537)), 65537) {
				l := []Layout{{}, {AQ: 1, ArgQ: 1, Sep: 4, TQ: 1, End: 1}, {AQ: 1, OQ: 1, ArgQ: 2, Gap: 3, TSep: 1, End: 2}}[i%3]
				doc(l, rule([]string{"ARGS"}, "x", append(listOf(n, func(i int) string { return fmt.Sprintf("tag:t%d", i) }), as...)))
				doc(l, rule([]string{"ARGS"}, "x", append(append([]string{}, as...), listOf(n, func(i int) string { return []string{"t:urlDecode", "t:lowercase", "t:none"}[i%3] })...)))
				var many []Item
				it := Item{}
				for i := 0; i < n; i++ {
					many = append(many, rule([]string{"ARGS"}, fmt.Sprintf("x%d", i%1000), []string{fmt.Sprintf("id:%d", i), fmt.Sprintf("phase:%d", 1+i%5), "log"}))
					r := DRule{Targets: []string{"ARGS"}, Op: "eq", Arg: core.B(fmt.Sprint(i)), Acts: acts("log")}
					if i == 0 {
						r.Acts = acts(as...)
					}
					it.Rules = append(it.Rules, r)
				}
				doc(l, many...)
				doc(l, it, many[0])
				if n < 5000 {
					yield(DocCase{Items: []Item{rule(listOf(n, func(i int) string { return fmt.Sprintf("ARGS:a%d", i) }), "x", as)}, L: l, Fetch: true})
				}
			}
			for _, n := range large(1<<17, ctx.Pick(1<<21+1, 1<<23+1)) {
				w := strings.Repeat("w", n)
				doc(Layout{OQ: n % 2}, rule([]string{"ARGS"}, "x", append(as, "msg:"+w, "tag:a b")), rule([]string{"ARGS:" + w}, "x", as))
			}
		}, runDoc).WithBudget(1 << 40)
	core.Register("C14", "large numbers", "1001, 1025, 4097, 16385 and 65537 (thorough: all around 10000 and the powers of two between) directives, targets, actions, transformations and chained rules, with something bad behind them all, in front, or nowhere; words of up to 1<<21 bytes that are no name",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			ns := []int{1001, 1025, 4097, 16385, 65537}
			if ctx.Thorough {
				ns = large(1023, 65537)
			}
			for _, n := range ns {
				for _, at := range []int{0, n - 1, n} {
					list := func(sep string, good func(int) string, bad string) string {
						return joinOf(n, sep, func(i int) string {
							if i == at {
								return bad
							}
							return good(i)
						})
					}
					text := func(s string) { yield(LoadCase{Text: core.B(s)}) }
					ruleText := func(i int) string { return fmt.Sprintf("SecRule ARGS \"x%d\" \"id:%d,log\"", i%100, i+1) }
					for _, bad := range []string{"SecBogus x", "SecRule ARGS \"(\" \"id:1,log\"", "SecRule ARGS x \"id:1,bogus\"", "SecRule ARGS x \"id:1,chain\""} {
						text(list("\n", ruleText, bad) + "\n")
					}
					text("SecRule ARGS x \"" + list(",", func(i int) string { return fmt.Sprintf("tag:a%d", i) }, "bogus:1") + "\"\n")
					text("SecRule ARGS x \"id:1," + list(",", func(i int) string { return "t:none" }, "t:bogus") + "\"\n")
					text(list("\n", func(i int) string { return "SecRule ARGS x \"chain\"" }, "SecRule ARGS \"@eq y\" \"chain\"") + "\nSecRule ARGS y \"log\"\n")
					if n < 5000 {
						text("SecRule " + list("|", func(i int) string { return fmt.Sprintf("ARGS:a%d", i) }, "ARGS_BOGUS") + " x \"id:1,log\"\n")
					}
				}
			}
			for _, n := range large(1<<17, ctx.Pick(1<<21+1, 1<<23+1)) {
				w := strings.Repeat("w", n)
				if n < 300000 { // such words take time that grows with the square of their length
					yield(LoadCase{Text: core.B("SecRule ARGS x \"id:1," + w + "\"\n")})
				}
				for _, s := range []string{"SecRuleEngine On\nSec" + w + " x\n", "SecRule ARGS x \"msg:" + w + ",bogus\"\n", "SecRule ARGS x \"id:1,log\"\n" + w, "SecRule ARGS \"" + w + " \"id:1\"\n", "SecRuleEngine On\n" + strings.Repeat("\n", n) + "SecBogus\n"} {
					yield(LoadCase{Text: core.B(s)})
				}
			}
		}, runLoad).WithBudget(1 << 40)
}
