package checks

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Long values, arguments and texts that differ in a single place, one used
// right after the other in one transaction or on one engine.

var tx struct {
	t    *ms.Transaction
	left int
}

// someTx gives transformations and operators a transaction: one with a
// request, which serves some hundred calls.
func someTx(ctx *core.Ctx) *ms.Transaction {
	if tx.left--; tx.left > 0 {
		return tx.t
	}
	return newTx(ctx)
}

func newTx(ctx *core.Ctx) *ms.Transaction {
	e := ms.NewEngine()
	e.TmpPath = ctx.Dir
	e.Enable(ms.StatusOn)
	t, err := e.NewTransaction()
	if err != nil {
		panic(err)
	}
	u, _ := url.Parse("/p?a=b")
	t.ProcessConnection("10.0.0.1", "4242", "10.0.0.2", "80")
	t.ProcessRequestURL(u, "GET", "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{"Host": {"h"}})
	tx.t, tx.left = t, 256
	return t
}

// AlikeCase is two texts of N characters that differ in the one at At.
type AlikeCase struct {
	N    int    `json:"n"`
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Turn bool   `json:"turn,omitempty"` // the second one first
}

func alikeSizes(max int) []int {
	var res []int
	for n := 1; n <= 40; n++ {
		res = append(res, n)
	}
	for _, b := range []int{48, 64, 80, 96, 100, 128, 200, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384, 32768, 65536} {
		for _, n := range []int{b - 1, b, b + 1} {
			if n <= max {
				res = append(res, n)
			}
		}
	}
	return res
}

func alikePlaces(n int) []int {
	seen := map[int]bool{}
	var res []int
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			res = append(res, i)
		}
	}
	if n <= 130 {
		for i := 0; i < n; i++ {
			add(i)
		}
		return res
	}
	for i := 0; i < 16; i++ {
		add(i)
		add(n - 1 - i)
		add(i * n / 16)
		add(1 << uint(i))
		add(n - 1<<uint(i))
	}
	return res
}

var alikeMarks = map[string][2]string{"capital": {"A", "B"}, "escape": {"%41", "%42"}, "wide": {"%u0041", "%uFF22"}, "blank": {" ", "\u00a0"}, "null": {"\x00", "x"}, "broken": {"%4", "%g"}, "letters": {"é", "ê"}, "plus": {"+", " "}}

func alikeText(c AlikeCase, mark string) string {
	return strings.Repeat("a", c.At) + mark + strings.Repeat("b", c.N-1-c.At)
}

func runAlikeTrans(ctx *core.Ctx, c AlikeCase) *core.Fail {
	m := alikeMarks[c.Kind]
	if c.Turn {
		m[0], m[1] = m[1], m[0]
	}
	newTx(ctx)
	for _, s := range []string{m[0], m[1], m[0]} {
		if f := runTransOn(ctx, alikeText(c, s), nil); f != nil {
			return f
		}
	}
	return nil
}

func runAlikeOp(ctx *core.Ctx, c AlikeCase) *core.Fail {
	var args, subj []string
	var want func(i, j int) bool
	name := "rx"
	switch c.Kind {
	case "rx", "rx anchored", "rx folded":
		for _, m := range []string{"x", "y", "[xy]", "z"} {
			a := alikeText(c, m)
			if c.Kind == "rx anchored" {
				a = "^" + a + "$"
			} else if c.Kind == "rx folded" {
				a = "(?i)" + strings.ToUpper(a)
				if m == "[xy]" {
					a = "(?i)" + alikeText(c, "[xy]")
				}
			}
			args, subj = append(args, a), append(subj, alikeText(c, m))
		}
		subj[2] = alikeText(c, "w")
		want = func(i, j int) bool { return i == j && i != 2 || i == 2 && j < 2 }
	default: // numbers, in 18 digits at most, behind zeros
		name = c.Kind
		num := func(d byte) string {
			b := []byte(strings.Repeat("0", c.N))
			for i := range b {
				if i >= c.N-18 {
					b[i] = '5'
				}
			}
			b[c.At] = d
			return string(b)
		}
		if c.At < c.N-18 {
			return nil
		}
		for _, d := range []byte("1283") {
			args, subj = append(args, num(d)), append(subj, num(d))
		}
		val := []int{1, 2, 8, 3}
		want = func(i, j int) bool { // argument i, value j
			a, v := val[i], val[j]
			return map[string]bool{"eq": v == a, "ge": v >= a, "gt": v > a, "le": v <= a, "lt": v < a}[name]
		}
	}
	var ops []ms.Operator
	for i := range args {
		k := i
		if c.Turn {
			k = len(args) - 1 - i
		}
		r, f := loadOne(ms.NewEngine(), fmt.Sprintf("SecRule REMOTE_ADDR \"@%s %s\" \"id:1,phase:2,log\"\n", name, args[k]))
		if f != nil {
			return f
		}
		ops = append(ops, r.Operator)
	}
	if c.Turn {
		for i := range ops[:len(ops)/2] {
			ops[i], ops[len(ops)-1-i] = ops[len(ops)-1-i], ops[i]
		}
	}
	t := newTx(ctx)
	for turn := 0; turn < 2; turn++ {
		for i, o := range ops {
			for j, s := range subj {
				ctx.Trans(1)
				if got := o.Match(t, s); got != want(i, j) {
					return core.Failf("@%s %.300q, given %.300q, says %v, want %v (%d characters that differ in number %d)", name, args[i], s, got, want(i, j), c.N, c.At)
				}
			}
		}
	}
	ctx.State(c.Kind, c.N, c.At)
	return nil
}

func init() {
	core.Register("C11", "alike", "two values of every length up to 40 and around powers of two to 16384 (thorough 65536) that differ in one place (every place up to 130, 80 places beyond) in a capital, an escape, a blank, a null, a letter or a malformed escape, one after the other and again in one transaction, through every transformation",
		func(ctx *core.Ctx, yield func(AlikeCase)) {
			for _, n := range alikeSizes(ctx.Pick(16385, 65537)) {
				for _, at := range alikePlaces(n) {
					for _, k := range []string{"capital", "escape", "wide", "blank", "null", "broken", "letters", "plus"} {
						if n > 1025 && ctx.Pick(0, 1) == 0 && k != "capital" && k != "escape" {
							continue
						}
						yield(AlikeCase{N: n, At: at, Kind: k, Turn: (n+at)%2 == 1})
					}
				}
			}
		}, runAlikeTrans).WithBudget(1 << 26)
	core.Register("C12", "alike", "four expressions of every length up to 40 and around powers of two to 513 (thorough 16385), or numbers with up to 513 leading zeros, that differ in one place, all alive at once, each given four values that differ there, twice in one transaction",
		func(ctx *core.Ctx, yield func(AlikeCase)) {
			for _, n := range alikeSizes(ctx.Pick(513, 16385)) {
				for _, at := range alikePlaces(n) {
					for _, k := range []string{"rx", "rx anchored", "rx folded", "eq", "ge", "gt", "le", "lt"} {
						yield(AlikeCase{N: n, At: at, Kind: k, Turn: (n+at)%2 == 1})
					}
				}
			}
		}, runAlikeOp).WithBudget(1 << 26)
}

// ---------------------------------------------------------------------

// AlikeSel reads two selections that differ in one place on one request.
type AlikeSel struct {
	C    AlikeCase `json:"c"`
	Coll string    `json:"collection"`
}

func runAlikeSel(ctx *core.Ctx, c AlikeSel) *core.Fail {
	var names []string
	for _, m := range []string{"x", "y"} {
		names = append(names, alikeText(c.C, m))
	}
	if c.C.Turn {
		names[0], names[1] = names[1], names[0]
	}
	r := Req{Method: "POST", URL: core.B("/p?" + names[0] + "=1&" + names[1] + "=2&o=3"), Proto: "HTTP/1.1", CT: urlenc, Body: core.B(names[0] + "=4&" + names[1] + "=5&o=6"),
		Hdr: [][2]core.B{{"Cookie", core.B(names[0] + "=7; " + names[1] + "=8; o=9")}, {core.B(names[0]), "10"}, {core.B(names[1]), "11"}}, Code: 200,
		RHdr: [][2]core.B{{core.B(names[0]), "12"}, {core.B(names[1]), "13"}}}
	e := r.engine(ctx.Dir)
	var rules []*ms.SecRule
	var sels [][]string
	for _, n := range names {
		var sel []string
		switch c.C.Kind {
		case "name":
			sel = []string{c.Coll + ":" + n}
		case "regex":
			sel = []string{c.Coll + ":/" + n + "/"}
		case "anchored":
			sel = []string{c.Coll + ":/^" + n + "$/"}
		case "without":
			sel = []string{c.Coll, "!" + c.Coll + ":" + n}
		case "regex without":
			sel = []string{c.Coll, "!" + c.Coll + ":/" + n + "/"}
		case "count":
			sel = []string{"&" + c.Coll + ":" + n}
		}
		rule, f := targetRule(e, strings.Join(sel, "|"))
		if f != nil {
			return f
		}
		rules, sels = append(rules, rule), append(sels, sel)
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	if err := r.play(t); err != nil {
		return core.Failf("%v", err)
	}
	for turn := 0; turn < 2; turn++ {
		for i, rule := range rules {
			want := expectSel(r, sels[i])
			ctx.Trans(1)
			if got := fetchAll(rule, t); !sameMultiset(got, want) {
				return core.Failf("targets %.300s yield %s, want %s", strings.Join(sels[i], "|"), quoteAll(got), quoteAll(want))
			}
			ctx.State(c.C.N, c.C.At, c.Coll, c.C.Kind, i)
		}
	}
	return nil
}

// AlikeText loads two texts that differ in one place: a rule among N others.
type AlikeText struct {
	N    int    `json:"n"`  // filler rules
	At   int    `json:"at"` // in front of the rule
	Kind string `json:"kind"`
	Via  string `json:"via"` // new: a new set for each text; add: both added to sets of their own
}

var alikeRules = map[string][2]string{
	"argument":  {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@rx y\" \"id:2,phase:2,log\"\n"},
	"operator":  {"SecRule ARGS \"@ge 1\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@le 1\" \"id:2,phase:2,log\"\n"},
	"id":        {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@rx x\" \"id:3,phase:2,log\"\n"},
	"phase":     {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@rx x\" \"id:2,phase:3,log\"\n"},
	"action":    {"SecRule ARGS \"@rx x\" \"id:2,phase:2,deny\"\n", "SecRule ARGS \"@rx x\" \"id:2,phase:2,skip\"\n"},
	"tag":       {"SecRule ARGS \"@rx x\" \"id:2,phase:2,tag:a\"\n", "SecRule ARGS \"@rx x\" \"id:2,phase:2,tag:b\"\n"},
	"negation":  {"SecRule ARGS \"!@rx x\" \"id:2,phase:2\"\n", "SecRule ARGS \"@rx xy\" \"id:2,phase:2\"\n"},
	"wrong arg": {"SecRule ARGS \"@ge 1\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@ge a\" \"id:2,phase:2,log\"\n"},
	"wrong dir": {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRula ARGS \"@rx x\" \"id:2,phase:2,log\"\n"},
	"wrong var": {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGT \"@rx x\" \"id:2,phase:2,log\"\n"},
	"wrong act": {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@rx x\" \"id:2,phase:2,lag\"\n"},
	"cut":       {"SecRule ARGS \"@rx x\" \"id:2,phase:2,log\"\n", "SecRule ARGS \"@rx x\" \"id:2,phase:2,log\n\""},
}

func runAlikeText(ctx *core.Ctx, c AlikeText) *core.Fail {
	fill := "SecRule ARGS \"@rx f\" \"id:1,phase:2,log\"\n"
	pair := alikeRules[c.Kind]
	for turn := 0; turn < 2; turn++ {
		for k, own := range pair {
			text := strings.Repeat(fill, c.At) + own + strings.Repeat(fill, c.N-c.At)
			bad := k == 1 && (strings.HasPrefix(c.Kind, "wrong") || c.Kind == "cut")
			ds, err := seclang.NewDireSet(), error(nil)
			if c.Via == "new" {
				ds, err = seclang.NewDireSetFromSecLangString(text)
			} else {
				err = ds.AddSecLangString(text)
			}
			ctx.Trans(1)
			if bad {
				if err == nil {
					return core.Failf("accepted, %d rules in front: %q", c.At, own)
				}
				continue
			}
			if err != nil {
				return core.Failf("refused, %d rules in front: %q: %v", c.At, own, err)
			}
			e := ms.NewEngine()
			e.TmpPath = ctx.Dir
			if err := ds.Execute(e); err != nil {
				return core.Failf("not executed: %v", err)
			}
			one, f := loadOne(ms.NewEngine(), own) // what the rule means alone
			if f != nil {
				return f
			}
			l := e.RuleSet.Phases[2]
			at, n := c.At, c.N+1
			if one.Phase != 2 {
				l, at, n = e.RuleSet.Phases[one.Phase], 0, 1
			}
			if len(l) != n {
				return core.Failf("%d rules in phase %d, want %d", len(l), one.Phase, n)
			}
			if got, want := describe(l[at]), describe(one); got != want {
				return core.Failf("%q, %d rules in front, is loaded as %s, want %s", own, c.At, got, want)
			}
			ctx.State(c.Kind, k, c.N, c.At)
		}
	}
	return nil
}

func describe(r *ms.SecRule) string {
	var acts []string
	for _, a := range r.Actions {
		acts = append(acts, a.Name()+":"+a.Value())
	}
	return fmt.Sprint("id ", r.Id, ", phase ", r.Phase, ", ", r.Operator.Name(), " ", r.Operator.Args(), " ", r.Not, ", ", acts, r.MetaData)
}

func init() {
	core.Register("C09", "alike", "two selections by name, regex, anchored regex, exclusion (plain, regex) or count, of names of every length up to 40 and around powers of two to 513 (thorough 4097) that differ in one place, both on one request that has both, in six collections",
		func(ctx *core.Ctx, yield func(AlikeSel)) {
			for _, n := range alikeSizes(ctx.Pick(257, 4097)) {
				for _, at := range alikePlaces(n) {
					for i, coll := range []string{"ARGS", "ARGS_GET", "REQUEST_COOKIES", "REQUEST_HEADERS", "RESPONSE_HEADERS", "ARGS_POST"} {
						for j, k := range []string{"name", "regex", "anchored", "without", "regex without", "count"} {
							if n > 40 && (i+j+at)%6 != 0 {
								continue
							}
							yield(AlikeSel{AlikeCase{N: n, At: at, Kind: k, Turn: (n+at)%2 == 1}, coll})
						}
					}
				}
			}
		}, runAlikeSel)
	core.Register("C10", "alike", "a request whose path, last segment, query value, query name, cookie value or name, header value or response header of every length up to 40 and around powers of two to 513 (thorough 4097) is handed over again, different in one place, to the same transaction: all variables before and after",
		func(ctx *core.Ctx, yield func(AlongCase)) {
			var vs []string
			for _, v := range allVars {
				switch v {
				case "ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY", "RESPONSE_BODY":
				default:
					vs = append(vs, v)
				}
			}
			all := 1<<uint(len(vs)) - 1
			for _, n := range alikeSizes(ctx.Pick(513, 4097)) {
				for _, at := range alikePlaces(n) {
					for k := 0; k < 9; k++ {
						var r [2]Req
						for i, m := range []string{"x", "y"} {
							w := alikeText(AlikeCase{N: n, At: at}, m)
							p := []string{"p", "f", "q", "v", "k", "u", "h", "t", "10.0.0.1"}
							if p[k] = w; k == 8 && n > 130 {
								break
							}
							r[i] = Req{Method: "GET", URL: core.B("/" + p[0] + "/" + p[1] + "?" + p[2] + "=" + p[3] + "&z=1"), Proto: "HTTP/1.1", IP: p[8], Code: 200,
								Hdr: [][2]core.B{{"Cookie", core.B(p[4] + "=" + p[5] + "; z=2")}, {"X", core.B(p[6])}}, RHdr: [][2]core.B{{"Content-Type", core.B("text/" + p[7])}, {"Y", core.B(p[7])}}}
						}
						if r[1].Method == "" {
							continue
						}
						at := make([]int, 9)
						at[4], at[8] = all, all
						yield(AlongCase{Reqs: r, Parts: []int{0, 1, 2, 4, 8, 9, 10, 12}, At: at, Vars: vs})
					}
				}
			}
		}, runAlong)
	texts := func(kinds ...string) func(*core.Ctx, func(AlikeText)) {
		return func(ctx *core.Ctx, yield func(AlikeText)) {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 16, 24, 32, 64, 100, 128, ctx.Pick(200, 256), ctx.Pick(256, 1000), ctx.Pick(300, 1024), ctx.Pick(400, 2000)} {
				for _, at := range alikePlaces(n + 1) {
					for i, k := range kinds {
						for j, v := range []string{"new", "add"} {
							if n > 32 && (i+at)%4 != 0 || n > 5 && (i+j+at)%2 != 0 {
								continue
							}
							yield(AlikeText{n, at, k, v})
						}
					}
				}
			}
		}
	}
	core.Register("C13", "alike", "two texts of up to 400 (thorough 2000) rules that differ in one character or word of one rule (argument, operator, id, phase, action, tag, negation), loaded one after the other and again: each means what it says",
		texts("argument", "operator", "id", "phase", "action", "tag", "negation"), runAlikeText).WithBudget(1 << 26)
	core.Register("C14", "alike", "an accepted text of up to 400 (thorough 2000) rules and one that differs from it in a single wrong argument, directive, variable, action or in an open quote, loaded one after the other and again: the second is refused each time",
		texts("wrong arg", "wrong dir", "wrong var", "wrong act", "cut"), runAlikeText).WithBudget(1 << 26)
}
