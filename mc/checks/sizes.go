package checks

import (
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"

	"verifmc/core"
)

// Everything is also explored along its length: every count and size up to a
// bound, and those around the powers of two beyond it.

// counted gives 1..lo and the three numbers around each power of two up to hi.
func counted(lo, hi int) []int {
	var res []int
	for i := 1; i <= lo; i++ {
		res = append(res, i)
	}
	for p := 4; p <= hi; p *= 2 {
		for d := -1; d <= 1; d++ {
			if p+d > lo && p+d <= hi {
				res = append(res, p+d)
			}
		}
	}
	for _, n := range []int{100, 1000, 10000} {
		if n > lo && n <= hi {
			res = append(res, n)
		}
	}
	return res
}

func listOf(n int, f func(int) string) []string {
	res := make([]string, n)
	for i := range res {
		res[i] = f(i)
	}
	return res
}

func joinOf(n int, sep string, f func(int) string) string { return strings.Join(listOf(n, f), sep) }

// longRx is a subject of two runs of b around a word, and the patterns asked
// of it.
type LongRxCase struct {
	Before int `json:"before"`
	After  int `json:"after"`
}

var longRxOps = map[string]ms.Operator{}

func runLongRx(ctx *core.Ctx, c LongRxCase) *core.Fail {
	subj := strings.Repeat("b", c.Before) + "Xy" + strings.Repeat("b", c.After)
	has := func(n int) bool { return c.Before >= n || c.After >= n }
	for _, q := range []struct {
		p string
		w bool
	}{
		{"Xy", true}, {"X$", false}, {"xy", false}, {"(?i)xY", true}, {"^Xy", c.Before == 0}, {"Xy$", c.After == 0}, {"^b*X", true}, {"yb*$", true}, {"^b+X", c.Before > 0},
		{"b{64}", has(64)}, {"b{1000}", has(1000)}, {"^b{7}X", c.Before == 7}, {"yb{255}$", c.After == 255}, {"b", has(1)}, {"^[^b]", c.Before == 0}, {"Xy.{512}", c.After >= 512}, {"^.{2,300}$", c.Before+c.After <= 298}, {"z", false}, {"b$", c.After > 0},
	} {
		o := longRxOps[q.p]
		if o == nil {
			var err error
			if o, err = operators.NewOperatorRx(q.p); err != nil {
				return core.Failf("@rx refuses %q: %v", q.p, err)
			}
			longRxOps[q.p] = o
		}
		ctx.Trans(1)
		ctx.State(q.p, c.Before, c.After)
		if got := o.Match(someTx(ctx), subj); got != q.w {
			return core.Failf("@rx %q of %d times b, Xy, %d times b is %v, want %v", q.p, c.Before, c.After, got, q.w)
		}
	}
	return nil
}

// ManyOpsCase makes a number of operators before any of them is used.
type ManyOpsCase struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
}

func runManyOps(ctx *core.Ctx, c ManyOpsCase) *core.Fail {
	var ops []ms.Operator
	for i := 0; i < c.N; i++ {
		arg := fmt.Sprint(i)
		if c.Kind == "rx" {
			arg = "^v" + arg + "$"
		}
		r, f := loadOne(ms.NewEngine(), fmt.Sprintf("SecRule REMOTE_ADDR \"@%s %s\" \"id:1,phase:2,log\"\n", c.Kind, arg))
		if f != nil {
			return f
		}
		ops = append(ops, r.Operator)
	}
	for i, o := range ops {
		for _, j := range []int{0, i / 2, i - 1, i, i + 1, c.N - 1} {
			v, want := fmt.Sprint(j), i == j
			if c.Kind == "rx" {
				v = "v" + v
			} else if c.Kind == "gt" {
				want = j > i
			}
			ctx.Trans(1)
			if got := o.Match(someTx(ctx), v); got != want {
				return core.Failf("the operator @%s number %d of %d, given %q, says %v, want %v", c.Kind, i, c.N, v, got, want)
			}
		}
	}
	ctx.State(c.Kind, c.N)
	return nil
}

func init() {
	core.Register("C06", "many appends", "every number of appends up to 40 and around the powers of two up to 4096, of 1, 2, 3, 7 and 100 bytes, memory limits 0, 5, half, all but one, all; read back in three ways",
		func(c *core.Ctx, y func(BufCase)) {
			for _, n := range counted(40, c.Pick(4096, 8192)) {
				for _, sz := range []int{1, 2, 3, 7, 100} {
					if n*sz > c.Pick(140000, 300000) {
						continue
					}
					sum := n * sz
					var o []string
					for i := 0; i < n; i++ {
						o = append(o, fmt.Sprintf("a%d", sz))
					}
					for _, mem := range []int{0, 5, sum / 2, sum - 1, sum} {
						for _, rd := range [][]string{{"T", "k0", "T"}, {"r7", "r4096", "r1", "B", "T"}, {"k0", "S", "r32768"}} {
							y(BufCase{Mem: int64(mem), Total: int64(sum), Ops: append(append(append([]string{}, o...), "a1"), rd...)})
						}
					}
					if sum < 524228 {
						y(BufCase{Resp: true, Total: int64(sum), Ops: append(append([]string{}, o...), "a1", "S", "r3", "T")})
					}
				}
			}
		}, runBuf).WithBudget(1 << 40)

	core.Register("C07", "body sizes", "bodies one below, at and one above every memory limit up to 40 and around the powers of two up to 65536, of one argument and of many, whole and in pieces",
		func(ctx *core.Ctx, yield func(InspCase)) {
			for _, mem := range counted(40, ctx.Pick(65536, 1<<20)) {
				if mem < 3 {
					continue
				}
				for _, n := range []int{mem - 1, mem, mem + 1, 2*mem + 1} {
					one := "a=" + strings.Repeat("x", n-2)
					lots := strings.Repeat("a=1&b=22&", n/9+1)[:n]
					for bi, b := range []string{one, lots} {
						for si, split := range []int{0, mem, (mem + 1) / 2, 1, 1000} {
							if split == 1 && n > 300 || split == 1000 && n <= 1000 {
								continue
							}
							tg := []string{"REQUEST_BODY", "ARGS_POST", "&ARGS_POST", "ARGS_NAMES"}[(n+si+bi)%4]
							for _, mode := range []string{"on", "detect"} {
								op := "never"
								if n == mem+1 {
									op = "any"
								}
								yield(InspCase{Req: Req{Method: "POST", URL: "/", CT: urlenc, Body: core.B(b), Split: split, Mem: int64(mem)}, Mode: mode, Target: tg, Op: op, Acts: "deny,status:418"})
							}
						}
					}
				}
			}
		}, runInsp).WithBudget(1 << 40)

	core.Register("C08", "many arguments", "every number of arguments up to 64 and around the powers of two up to 4096 (thorough 16384), with all names different, all the same, a malformed pair in every place, long names and values; every number of multipart fields up to 32 and around the powers of two up to 512, with and without files",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			post := func(body string, split int) {
				if len(body) > 131072 {
					r := Req{Method: "POST", URL: "/?g=1", CT: urlenc, Body: core.B(body), Split: split, Mem: 1 << 22}
					yield(ArgCase{Req: r, Reads: allReads})
					return
				}
				yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: urlenc, Body: core.B(body), Split: split}, Reads: allReads})
			}
			for _, n := range counted(64, ctx.Pick(4096, 16384)) {
				post(joinOf(n, "&", func(i int) string { return fmt.Sprintf("n%d=v%d", i, i) }), 0)
				post(joinOf(n, "&", func(i int) string { return fmt.Sprintf("n=%d", i) }), 1000)
				post(joinOf(n, "&", func(i int) string { return "%6e=%25" }), 4096)
				post(joinOf(n, "&", func(i int) string { return "=" }), 0)
				for _, at := range []int{0, n / 2, n - 1} {
					post(joinOf(n, "&", func(i int) string {
						if i == at {
							return "%zz=1"
						}
						return fmt.Sprintf("n%d=v%d", i, i)
					}), 0)
				}
				long := strings.Repeat("x", n)
				post(long+"=1&"+long+"y="+long, 100)
				post("a="+strings.Repeat("%41", n)+"&"+strings.Repeat("+", n)+"=b", 0)
				post(strings.Repeat("&", n)+"a=1"+strings.Repeat("&", n), 0)
			}
			for _, n := range counted(32, 512) {
				for k := 0; k < 3; k++ {
					var ps []Part
					for i := 0; i < n; i++ {
						p := Part{Name: core.B(fmt.Sprintf("n%d", i)), Value: core.B(fmt.Sprintf("v%d", i))}
						switch {
						case k == 1:
							p.Name = "n"
						case k == 2 && i%2 == 0:
							p.File = "f"
						}
						ps = append(ps, p)
					}
					for _, mem := range []int64{0, 40} {
						yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: "multipart/form-data; boundary=B", Mem: mem}, Multi: true, Boundary: "B", Parts: ps, Reads: allReads})
					}
				}
				yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: "multipart/form-data; boundary=B"}, Multi: true, Boundary: "B", Parts: []Part{{Name: core.B(strings.Repeat("n", n)), Value: "v", Rep: n * n / 4}, {Name: "z", Value: "\r\n--", Rep: n}}, Reads: allReads})
				if n <= 70 {
					b, ps := strings.Repeat("b", n), []Part{{Name: "z", Value: "2"}, {Name: "a", Value: "--bb"}, {Name: "a", Value: "1"}}
					if n <= 2 {
						ps[1].Value = "--c"
					}
					yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: core.B("multipart/form-data; boundary=" + b)}, Multi: true, Boundary: b, Parts: ps, Reads: backReads})
				}
			}
		}, runArgs).WithBudget(1 << 40)

	core.Register("C09", "many selectors", "every number of included names, excluded names, regexes and mixtures up to 24 and around the powers of two up to 256, on requests with 12 and 300 entries in every collection",
		func(c *core.Ctx, y func(SelCase)) {
			pre := map[string]string{"ARGS": "a", "ARGS_GET": "a", "ARGS_POST": "n", "REQUEST_COOKIES": "s", "REQUEST_HEADERS": "h", "RESPONSE_HEADERS": "r"}
			for _, coll := range collections {
				p := pre[strings.TrimSuffix(coll, "_NAMES")]
				for _, n := range counted(24, c.Pick(64, 256)) {
					inc := listOf(n, func(i int) string { return fmt.Sprintf("%s:%s%d", coll, p, (i*7)%301) })
					exc := listOf(n, func(i int) string { return fmt.Sprintf("!%s:%s%d", coll, p, (i*5)%301) })
					rx := listOf(n, func(i int) string { return fmt.Sprintf("%s:/^%s%d$/", coll, p, i) })
					xrx := listOf(n, func(i int) string { return fmt.Sprintf("!%s:/^%s%d[02468]*$/", coll, p, i) })
					cnt := listOf(n, func(i int) string { return fmt.Sprintf("&%s:%s%d", coll, p, i*3) })
					for ri, r := range []int{112, 400} {
						if r == 400 && n > 70 && !c.Thorough {
							continue
						}
						for _, s := range [][]string{inc, append([]string{coll}, exc...), rx, append([]string{coll}, xrx...), append(append([]string{}, inc...), exc...), append(append([]string{}, xrx...), rx...), cnt} {
							l := selLayouts[(n+ri)%6]
							y(SelCase{Sel: s, Sep: l[0], Quote: l[1], Req: r})
						}
					}
				}
			}
		}, runSel)

	core.Register("C10", "wide requests", "every number of arguments, cookies and headers up to 40 and around the powers of two up to 1024, with different and with equal names; names, values, paths and lines of every such length, and around the powers of two up to 1<<17 (thorough 1<<20); all variables",
		func(c *core.Ctx, y func(VarCase)) {
			for _, n := range counted(40, c.Pick(1024, 4096)) {
				r := wideReq(n)
				r.RBody, r.Proto, r.RProto = core.B(strings.Repeat("r", n)), "HTTP/1.1", "HTTP/1.1"
				y(VarCase{r, allVars})
				// one name for all
				q := Req{Method: "POST", CT: urlenc, Code: 200, URL: core.B("/p?" + joinOf(n, "&", func(i int) string { return fmt.Sprintf("a=%d", i) })), Body: core.B(joinOf(n, "&", func(i int) string { return fmt.Sprintf("a=%d", i) }))}
				for i := 0; i < n; i++ {
					q.Hdr = append(q.Hdr, [2]core.B{"X", core.B(fmt.Sprint(i))}, [2]core.B{"Cookie", core.B(fmt.Sprintf("a=%d; a=x; b%d", i, i))})
					q.RHdr = append(q.RHdr, [2]core.B{"X", core.B(fmt.Sprint(i))})
				}
				y(VarCase{q, allVars})
				// long names and values
				l := strings.Repeat("x", n)
				q = Req{Method: "PUT", CT: urlenc, Code: 200, URL: core.B("/" + l + "/y" + l + "?" + l + "=1&b=" + l + "&" + l), Body: core.B(l + "=1&b=" + l), Proto: "HTTP/1.1",
					Hdr: [][2]core.B{{core.B(l), "1"}, {"X", core.B(l)}, {"Cookie", core.B(l + "=" + l + "; " + l + "y=1;" + strings.Repeat(";", n) + "z")}}, RHdr: [][2]core.B{{core.B(l), "1"}, {"X", core.B(l)}, {"Content-Type", core.B("text/" + l + "; a=b")}, {"Content-Length", core.B(strings.Repeat("9", n))}}}
				y(VarCase{q, allVars})
				q = Req{Method: "GET", URL: core.B(strings.Repeat("/a%41", n) + strings.Repeat("/", n%9)), Code: 200}
				y(VarCase{q, allVars})
			}
			for _, n := range counted(1024, c.Pick(1<<17+1, 1<<20+1)) {
				if n <= 1025 {
					continue
				}
				l := strings.Repeat("x", n)
				for _, q := range []Req{
					{URL: core.B("/" + l + "/y?a=1")}, {URL: core.B("/y" + l)}, {URL: core.B("/p?" + l)}, {URL: core.B("/p?a=" + l + "&b=" + l)}, {URL: core.B("/p?" + l + "=1"), Hdr: [][2]core.B{{"X", core.B(l)}}},
					{URL: "/", Hdr: [][2]core.B{{core.B(l), "1"}, {"A", "2"}}}, {URL: "/", Hdr: [][2]core.B{{"Cookie", core.B("a=" + l + "; b=1")}}}, {URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(l + "=a; b=1")}}},
					{URL: "/", Hdr: [][2]core.B{{"Cookie", core.B("c=" + l)}, {"Cookie", core.B("d=1; e=" + l + "; f")}}},
					{URL: "/", Body: core.B("a=" + l + "&b=1")}, {URL: "/", Body: core.B(l + "=1&b=" + l)}, {URL: "/", Body: core.B("a=" + strings.Repeat("%41", n))},
					{URL: "/", RHdr: [][2]core.B{{"X", core.B(l)}, {"X", "1"}, {core.B(l), "2"}}}, {URL: "/", RBody: core.B(l)}, {URL: "/", RHdr: [][2]core.B{{"Content-Type", core.B("text/" + l)}}},
					{URL: "/", Method: l}, {URL: "/", IP: l},
				} {
					if q.Method == "" {
						q.Method = "POST"
					}
					if len(q.RBody) > 524228 {
						continue
					}
					q.CT, q.Code, q.Mem, q.Proto, q.RProto = urlenc, 200, 1<<23, "HTTP/1.1", "HTTP/1.1"
					y(VarCase{q, allVars})
				}
			}
		}, runVars)

	core.Register("C11", "offsets", "each of twelve symbols behind every number up to 300 (thorough 1500) and around the powers of two up to 1<<17 (thorough 1<<20) of seven fillers (beyond 2000 of five, beyond 20000 of two), with and without an end, through every transformation",
		func(ctx *core.Ctx, yield func(TransCase)) {
			for _, n := range counted(ctx.Pick(300, 1500), ctx.Pick(1<<17+1, 1<<20+1)) {
				for _, f := range []string{"a", "é", " ", "+", "%41", "B", "\x00"} {
					if n > 2000 && len(f) > 1 || n > 20000 && f != "a" && f != " " {
						continue
					}
					for _, s := range []string{"%41", "%", "%4", "%u0041", "%u00e9", "\x00", " ", "\u00a0", "\n", "B", "+", "é"} {
						yield(TransCase{In: core.B(strings.Repeat(f, n) + s + "z")})
						if n <= 300 {
							yield(TransCase{In: core.B(strings.Repeat(f, n) + s)})
						}
					}
				}
			}
		}, runTrans).WithBudget(1 << 28)

	core.Register("C12", "long numbers", "numbers behind every number up to 70 and around the powers of two up to 4096 of zeros and blanks, and of that many digits, against the arguments of every sign and size",
		func(ctx *core.Ctx, yield func(OpCase)) {
			for _, n := range counted(70, 4096) {
				for _, v := range []string{strings.Repeat("0", n) + "7", strings.Repeat(" ", n) + "7", "7" + strings.Repeat(" ", n), "-" + strings.Repeat("0", n) + "7", strings.Repeat("9", n), "-" + strings.Repeat("9", n), strings.Repeat("1", n) + "x", strings.Repeat("0", n), "+" + strings.Repeat("0", n) + "9223372036854775807", "1" + strings.Repeat("0", n), strings.Repeat(" ", n) + "x"} {
					for _, a := range []string{"0", "7", "-7", "9223372036854775807", "-9223372036854775808", "8"} {
						yield(OpCase{Val: core.B(v), Arg: core.B(a)})
					}
				}
			}
		}, runCompare).WithBudget(1 << 24)
	core.Register("C12", "long subjects", "a word behind and before every number of letters up to 70 and around the powers of two up to 1<<18 (thorough 1<<21), by nineteen patterns",
		func(ctx *core.Ctx, yield func(LongRxCase)) {
			ns := append([]int{0}, counted(70, 16384)...)
			for _, a := range ns {
				for _, b := range ns {
					if a <= 70 && b <= 70 || a == b || a < 2 || b < 2 || a == 255 || b == 255 {
						yield(LongRxCase{a, b})
					}
				}
			}
			for _, n := range counted(20000, ctx.Pick(1<<18, 1<<21)) {
				if n > 20000 {
					yield(LongRxCase{n, 0})
					yield(LongRxCase{0, n})
					yield(LongRxCase{n, 7})
				}
			}
			yield(LongRxCase{1 << 20, 3})
			yield(LongRxCase{2, 1 << 20})
		}, runLongRx)
	core.Register("C12", "many operators", "every number of operators up to 70 and around the powers of two up to 2048, all made before the first is used",
		func(ctx *core.Ctx, yield func(ManyOpsCase)) {
			for _, n := range counted(70, 2048) {
				for _, k := range []string{"rx", "eq", "gt"} {
					yield(ManyOpsCase{n, k})
				}
			}
		}, runManyOps).WithBudget(1 << 30)

	core.Register("C13", "counts and lengths", "every number of targets, tags, actions, transformations, chained rules and rules, and every length of index, message, argument and blanks, up to 40 and around the powers of two up to 1024 (lengths 8192), in three layouts",
		func(ctx *core.Ctx, yield func(DocCase)) {
			doc := func(items ...Item) {
				for _, l := range []Layout{{}, {AQ: 1, ArgQ: 1, Sep: 4, TQ: 1, End: 1}, {AQ: 1, OQ: 1, ArgQ: 2, Gap: 3, TSep: 1, End: 2}} {
					yield(DocCase{Items: items, L: l, Fetch: len(items) < 70})
				}
			}
			rule := func(ts []string, arg string, as []string) Item {
				return Item{Rules: []DRule{{Targets: ts, Op: "rx", Arg: core.B(arg), Acts: acts(as...)}}}
			}
			as := []string{"id:1", "phase:2", "log"}
			for _, n := range counted(40, ctx.Pick(512, 2048)) {
				doc(rule(listOf(n, func(i int) string { return fmt.Sprintf("ARGS:a%d", i) }), "x", as))
				doc(rule(append([]string{"REQUEST_HEADERS"}, listOf(n, func(i int) string { return fmt.Sprintf("!REQUEST_HEADERS:/a%d/", i) })...), "x", as))
				doc(rule([]string{"ARGS"}, "x", append(listOf(n, func(i int) string { return fmt.Sprintf("tag:t%d", i) }), as...)))
				doc(rule([]string{"ARGS"}, "x", append(as, listOf(n, func(i int) string { return []string{"t:urlDecode", "t:lowercase", "t:none"}[i%3] })...)))
				doc(rule([]string{"ARGS"}, "x", append(as, listOf(n, func(i int) string { return fmt.Sprintf("log") })...)))
				var many []Item
				it := Item{}
				for i := 0; i < n; i++ {
					many = append(many, rule([]string{"ARGS"}, fmt.Sprintf("x%d", i), []string{fmt.Sprintf("id:%d", i), fmt.Sprintf("phase:%d", 1+i%5), "log"}))
					r := DRule{Targets: []string{"ARGS"}, Op: "eq", Arg: core.B(fmt.Sprint(i)), Acts: acts("log")}
					if i == 0 {
						r.Acts = acts(as...)
					}
					it.Rules = append(it.Rules, r)
				}
				doc(many...)
				doc(it)
				doc(append(append([]Item{}, many...), Item{Dir: "SecRuleEngine", Val: "On"}, it)...)
			}
			for _, n := range append(counted(40, 8192), 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131073) {
				w := strings.Repeat("w", n)
				doc(rule([]string{"ARGS:" + w, "!REQUEST_HEADERS:/" + w + "/"}, "x", as))
				doc(rule([]string{"ARGS"}, w, append(as, "msg:"+w, "tag:a "+w+", b")))
				doc(rule([]string{"ARGS"}, w+" "+w+"\\d\"'"+w, as))
				doc(rule([]string{"ARGS"}, "x"+strings.Repeat(" ", n)+"y", append(as, "msg:"+strings.Repeat("'", n)+"z", "tag:"+strings.Repeat(",", n)+"z")))
				for _, pad := range []string{" ", "\n", "\t"} {
					yield(DocCase{Items: []Item{rule([]string{"ARGS"}, "x", as)}, L: Layout{Pad: pad, PadN: n}})
				}
			}
		}, runDoc).WithBudget(1 << 30)

	core.Register("C14", "counts and lengths", "every number of directives, targets, actions, chained rules and continued lines up to 40 and around the powers of two up to 1024, with something bad in every place (up to 40; first, middle and last beyond), and words of every such length",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			text := func(s string) { yield(LoadCase{Text: core.B(s)}) }
			for _, n := range counted(40, ctx.Pick(512, 2048)) {
				at := []int{0, n / 2, n - 1, n} // n: nowhere
				if n <= 40 {
					at = nil
					for i := 0; i <= n; i++ {
						at = append(at, i)
					}
				}
				for _, k := range at {
					list := func(sep string, good func(int) string, bad string) string {
						return joinOf(n, sep, func(i int) string {
							if i == k {
								return bad
							}
							return good(i)
						})
					}
					ruleText := func(i int) string { return fmt.Sprintf("SecRule ARGS:a%d \"x%d\" \"id:%d,log\"", i, i, i+1) }
					for _, bad := range []string{"SecBogus x", "SecRule ARGS \"(\" \"id:1,log\"", "SecRule BOGUS x \"id:1\"", "SecRuleEngine Perhaps", "SecRule ARGS x \"id:1,bogus\"", "SecRule ARGS"} {
						text(list("\n", ruleText, bad) + "\n")
					}
					text(list("\r\n", func(i int) string { return "SecRuleEngine On" }, "SecRuleEngine"))
					text("SecRule " + list("|", func(i int) string { return fmt.Sprintf("ARGS:a%d", i) }, "ARGS_BOGUS") + " x \"id:1,log\"\n")
					text("SecRule " + list("|", func(i int) string { return fmt.Sprintf("ARGS:/a%d/", i) }, "!ARGS:/(/") + " x \"id:1,log\"\n")
					text("SecRule ARGS x \"" + list(",", func(i int) string { return fmt.Sprintf("tag:a%d", i) }, "bogus:1") + "\"\n")
					text("SecRule ARGS x \"id:1," + list(",", func(i int) string { return "t:none" }, "t:bogus") + "\"\n")
					text("SecRule ARGS x \"id:1," + list(",\\\n", func(i int) string { return "log" }, "status:999") + "\"\n")
					text(list("\n", func(i int) string { return "SecRule ARGS x \"chain\"" }, "SecRule ARGS \"@eq y\" \"chain\"") + "\nSecRule ARGS y \"log\"\n")
				}
			}
			for _, n := range append(counted(40, 8192), 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131073) {
				w := strings.Repeat("w", n)
				for _, s := range []string{"Sec" + w + " x\n", "SecRule " + w + " x \"id:1\"\n", "SecRule ARGS:" + w + " " + w + " \"id:1,msg:" + w + "\"\n", "SecRule ARGS x \"" + w + "\"\n", "SecRule ARGS x \"id:1,t:" + w + "\"\n", "SecRule ARGS \"@" + w + " x\" \"id:1\"\n", "SecRuleEngine " + w + "\n",
					"SecRuleEngine O" + strings.Repeat("n", n) + "\n", "SecRule ARGS \"@eq " + strings.Repeat("1", n) + "\" \"id:1\"\n", "SecRule ARGS x \"id:" + strings.Repeat("1", n) + "\"\n", "SecRule ARGS x \"id:" + strings.Repeat("0", n) + "1\"\n", "SecRule ARGS x \"id:1,status:" + strings.Repeat("0", n) + "404\"\n",
					"SecRule ARGS \"" + strings.Repeat("(", n) + "\" \"id:1\"\n", "SecRule ARGS \"" + w + " \"id:1\"\n", "SecRule ARGS x \"" + strings.Repeat("id:1,", n) + "\n", "SecRule ARGS x 'id:1" + strings.Repeat("\\\n", n) + ",log'\n", strings.Repeat("\\", n), strings.Repeat("\"", n), strings.Repeat("SecRule ", n)} {
					text(s)
				}
			}
		}, runLoad).WithBudget(1 << 30)

	core.Register("C17", "many appends", "every number of appends up to 12 and around the powers of two up to 64, of 1, 3 and 1000 bytes; the file can only grow to a size around each piece end, from one append on for one, two or all that follow",
		func(c *core.Ctx, y func(FaultCase)) {
			for _, n := range counted(12, c.Pick(64, 256)) {
				for _, sz := range []int{1, 3, 1000} {
					var p []int
					for i := 0; i < n; i++ {
						p = append(p, sz)
					}
					for _, mem := range []int{0, sz*n/2 + 1} {
						for _, from := range []int{0, 1, n / 2, n - 2, n - 1} {
							if from < 0 || from >= n {
								continue
							}
							for _, to := range []int{from + 1, from + 2, n} {
								if to > n {
									continue
								}
								for _, F := range []int{0, sz*from - 1, sz * from, sz*from + 1, sz*from + sz/2, sz*from + sz, sz*from + sz + 1} {
									if F >= 0 {
										y(FaultCase{Mem: int64(mem), Total: 1 << 30, Pieces: p, Fault: "fsize", Bytes: F, From: from, To: to, Read: []string{"read", "string", "writeto"}[(F+from+n)%3]})
									}
								}
								y(FaultCase{Mem: int64(mem), Total: 1 << 30, Pieces: p, Fault: []string{"nodir", "nofile"}[n%2], From: from, To: to, Read: []string{"read", "string", "writeto"}[(from+n)%3]})
							}
						}
					}
				}
			}
		}, runFault).WithBudget(1 << 40)
}
