package checks

import (
	"errors"
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// rules that share their parts

// PartsCase is up to three rules (or links of one chain) made of parts, each
// of which exists once and is used by every rule that has it. A rule is a
// number: bit 0 the variable, bit 1 the operator, bit 2 negation, bit 3 the
// transformation, bit 4 the action, bit 5 that it has no variable at all.
type PartsCase struct {
	Rules []int `json:"rules"`
	Chain bool  `json:"chain"`
	Real  bool  `json:"real"` // variables and operators of the package
	Own   bool  `json:"own"`  // every rule has its own copies
	Runs  int   `json:"runs"` // transactions
}

type flip struct{}

func (flip) Name() string { return "flip" }
func (flip) Trans(_ *ms.Transaction, s string) string {
	return strings.NewReplacer("0", "1", "1", "0").Replace(s)
}

func runParts(ctx *core.Ctx, c PartsCase) *core.Fail {
	rec := &recorder{}
	type parts struct {
		v [2]ms.Variable
		o [2]ms.Operator
		t ms.Trans
		a [2]ms.Action
	}
	makeParts := func() *parts {
		p := &parts{t: flip{}, a: [2]ms.Action{&probeAct{rec, 2, "a"}, &probeAct{rec, 2, "b"}}}
		if c.Real {
			p.v = [2]ms.Variable{variables.NewVariableRequestMethod(), variables.NewVariableRequestProtocol()}
			p.o[0], _ = operators.NewOperatorRx("^0$")
			p.o[1], _ = operators.NewOperatorEq("1")
		} else {
			p.v = [2]ms.Variable{&probeVar{r: rec, vals: []string{"0"}}, &probeVar{r: rec, vals: []string{"1"}}}
			p.o = [2]ms.Operator{&probeOp{[]string{"0"}}, &probeOp{[]string{"1"}}}
		}
		return p
	}
	shared := makeParts()
	var rules []*ms.SecRule
	want := ""
	all := true
	for _, n := range c.Rules {
		p := shared
		if c.Own {
			p = makeParts()
		}
		r := ms.NewSecRule()
		r.Phase = 2
		if n>>5 == 0 {
			r.AppendVariables(p.v[n&1])
		}
		r.SetOperator(p.o[n>>1&1])
		r.Not = n>>2&1 == 1
		val := n & 1
		if n>>3&1 == 1 {
			r.AppendTrans(p.t)
			val = 1 - val
		}
		r.AppendActions(p.a[n>>4&1])
		m := n>>5 == 0 && (val == n>>1&1) != r.Not
		all = all && m
		if m || c.Chain {
			want += string("ab"[n>>4&1])
		}
		rules = append(rules, r)
	}
	e := ms.NewEngine()
	e.TmpPath = ctx.Dir
	if c.Chain {
		if !all {
			want = ""
		}
		rules[0].AppendSubRules(rules[1:]...)
		rules = rules[:1]
	}
	e.AddSecRule(rules...)
	for i := 0; i <= c.Runs; i++ {
		rec.ev = nil
		t, err := e.NewTransaction()
		if err != nil {
			return core.Failf("NewTransaction: %v", err)
		}
		u, _ := Req{URL: "/"}.parsedURL()
		t.ProcessConnection("10.0.0.1", "1", "10.0.0.2", "2")
		t.ProcessRequestURL(u, "0", "1")
		t.ProcessRequestHeader(nil)
		ctx.Trans(1)
		got := ""
		for _, ev := range rec.ev {
			got += strings.Fields(ev)[1]
		}
		if got != want {
			return core.Failf("rules %v (chained %v) acted as %q, want %q in transaction %d", c.Rules, c.Chain, got, want, i)
		}
	}
	ctx.State(fmt.Sprint(c.Rules), c.Chain, c.Real, c.Own, want)
	ctx.Outcome(want)
	return nil
}

// ---------------------------------------------------------------------
// large response bodies

// NeedleCase is a body that holds one word, at an offset.
type NeedleCase struct {
	Len   int    `json:"len"`
	At    int    `json:"at"` // -1: nowhere
	Split int    `json:"split"`
	Resp  bool   `json:"resp"`
	Mode  string `json:"mode"`
	Op    string `json:"op"`
}

func runNeedle(ctx *core.Ctx, c NeedleCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	b := []byte(strings.Repeat("x", c.Len))
	if c.At >= 0 {
		copy(b[c.At:], "needle")
	}
	r := Req{Method: "POST", URL: "/", Code: 200, CT: urlenc, Split: c.Split, Mem: 1 << 26}
	target, phase, status := "REQUEST_BODY", 3, 200
	if c.Resp {
		target, phase, r.RBody = "RESPONSE_BODY", 5, core.B(b)
	} else {
		r.Body = core.B(b)
	}
	e := r.engine(ctx.Dir)
	e.ResponseBody = 1 << 26
	setMode(e, c.Mode)
	if f := loadRules(e, fmt.Sprintf("SecRule %s \"%s\" \"id:1,phase:%d,log,deny,status:418\"\n", target, c.Op, phase)); f != nil {
		return f
	}
	hit := c.At >= 0
	switch c.Op {
	case "needle$":
		hit = hit && c.At == c.Len-6
	case "^needle":
		hit = c.At == 0
	case "!@rx needle":
		hit = !hit
	case "@eq 0":
		hit = true
	}
	n := 0
	if hit && c.Mode != "off" {
		n = 1
		if c.Mode == "on" {
			status, n = 418, 2
		} else {
			n = 2
		}
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer t.Request.Body.Close()
	defer t.Response.Body.Close()
	if err := r.play(t); err != nil {
		return core.Failf("%v", err)
	}
	ctx.Trans(1)
	if res := t.Result(); res.Status != status || res.Disruptive != (status != 200) || len(res.Log) != n {
		return core.Failf("%s of %d bytes with the word at %d, %s, mode %s: status %d and %d records, want %d and %d", target, c.Len, c.At, c.Op, c.Mode, res.Status, len(res.Log), status, n)
	}
	ctx.State(c.Len, c.At, c.Resp, c.Mode, c.Op)
	return nil
}

// ---------------------------------------------------------------------
// what aborts say

var abortTexts = []string{"", " ", "\n", "one\ntwo", "one\r\ntwo\r\n", "a\x00b", "%", "%s%d%v", "%!s(MISSING)", "100%", "]", "[client 1.2.3.4:5] (phase 2) x", "(phase 9)", "\"'", "\\n", "é\u2028", "\xff\xfe", "\x1b[31m", "ModSecurity: Access denied with code 403",
	strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("y", 1025), strings.Repeat("line\n", 70), strings.Repeat("z", 70000)}

// AbortTextCase is a list of aborts, each with the text of that number.
type AbortTextCase struct {
	Mode  string `json:"mode"`
	Texts []int  `json:"texts"`
	Step  int    `json:"step"` // phases run before them
	Same  bool   `json:"same"` // one error object for equal texts
	Taken bool   `json:"taken"`
}

func runAbortTexts(ctx *core.Ctx, c AbortTextCase) *core.Fail {
	e := ms.NewEngine()
	e.TmpPath = ctx.Dir
	setMode(e, c.Mode)
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	steps := []func(){func() { t.ProcessConnection("10.9.8.7", "65", "10.0.0.2", "2") }, func() { t.ProcessRequestHeader(nil) }, func() { t.ProcessRequestBody() },
		func() { t.ProcessResponseHeaders(200, "", nil) }, func() { t.ProcessResponseBody() }, func() { t.ProcessLogging() }}
	for i := 0; i < c.Step; i++ {
		steps[i]()
	}
	errs := map[int]error{}
	var want []logExp
	check := func() *core.Fail {
		res := t.Result()
		ctx.Trans(1)
		if s := checkLogs(res.Log, want); s != "" {
			return core.Failf("aborts %v after %d steps, mode %s: %s", c.Texts, c.Step, c.Mode, s)
		}
		if c.Mode != "on" {
			want = nil // taken, and no abort took place
		}
		return nil
	}
	for _, n := range c.Texts {
		err := errs[n]
		if err == nil || !c.Same {
			err = errors.New(abortTexts[n])
			errs[n] = err
		}
		t.AbortWithError(500, err)
		x := logExp{ip: "10.9.8.7", port: "65", phase: c.Step}
		if c.Step == 0 {
			x.ip, x.port, x.phase = "", "", -1
		}
		if plain := strings.Trim(abortTexts[n], "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ%0123456789()") == ""; plain && len(abortTexts[n]) < 300 {
			x.contains = []string{abortTexts[n]}
		}
		want = append(want, x)
		if c.Taken {
			if f := check(); f != nil {
				return f
			}
		}
	}
	ctx.State(c.Mode, fmt.Sprint(c.Texts), c.Step)
	return check()
}

// ---------------------------------------------------------------------
// sets executed on engines in every state

// BeforeCase executes texts on an engine in some state, and then makes the
// engine inspect everything.
type BeforeCase struct {
	Texts []string `json:"texts"`
	Mode  string   `json:"mode"`
	Acc   int      `json:"acc"`
	Rules int      `json:"rules"` // that are there already
	Lim   int64    `json:"lim"`
}

func runBefore(ctx *core.Ctx, c BeforeCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	run := func(prepare bool) ([]string, *core.Fail) {
		e := ms.NewEngine()
		e.TmpPath = ctx.Dir
		own := func() {
			for i := 0; i < c.Rules; i++ {
				r := probeRule(&recorder{}, i%6+1, "own")
				r.AppendActions(actions.NewActionLog())
				e.AddSecRule(r)
			}
		}
		own()
		full := func() {
			setMode(e, "on")
			e.RequestBodyAccess, e.ResponseBodyAccess = true, true
			e.RequestBody, e.RequestBodyInMem, e.ResponseBody = 1000, 1000, 1000
		}
		if prepare {
			setMode(e, c.Mode)
			e.RequestBodyAccess, e.ResponseBodyAccess = c.Acc&1 == 1, c.Acc&2 == 2
			e.RequestBody, e.RequestBodyInMem, e.ResponseBody = c.Lim, c.Lim, c.Lim
		} else {
			full()
		}
		for _, s := range c.Texts {
			ds, err := seclang.NewDireSetFromSecLangString(s)
			if err == nil {
				err = ds.Execute(e)
			}
			if err != nil {
				return nil, core.Failf("a valid text was refused: %v: %s", err, s)
			}
		}
		full()
		var obs []string
		for k := range orderReqs {
			ctx.Traces(1)
			obs = append(obs, (&txn{e: e, r: orderReqs[k]}).all()...)
		}
		return obs, nil
	}
	want, f := run(false)
	if f != nil {
		return f
	}
	got, f := run(true)
	if f != nil {
		return f
	}
	if d := firstDiff(got, want); d != "" {
		return core.Failf("executed on an engine in mode %s with access %d, limits %d and %d rules, before it inspects everything, rather than after: %s\n%s", c.Mode, c.Acc, c.Lim, c.Rules, d, strings.Join(c.Texts, ""))
	}
	ctx.State(strings.Join(c.Texts, ""), c.Mode, c.Acc, c.Rules, c.Lim)
	ctx.Outcome(fmt.Sprint(want))
	return nil
}

func init() {
	core.Register("C03", "shared parts", "every list of up to three rules, and every chain of up to three links, made of no or one of two variables, two operators, two actions, a transformation and negation in every combination, whose equal parts are one and the same object, or each rule's own",
		func(ctx *core.Ctx, yield func(PartsCase)) {
			for n := 1; n <= 3; n++ {
				seqs(ctx.Pick([]int{64, 64, 48}[n-1], 64), n, n, func(s []int) {
					for _, k := range s {
						if k >= 32 && k&1 == 1 {
							return // there is no variable
						}
					}
					if n == 3 && !ctx.Thorough && s[0]&16 != 0 && s[1]&16 == 0 && s[2]&16 == 0 {
						return // the same with the actions exchanged
					}
					l := append([]int{}, s...)
					for k := 0; k < 2; k++ {
						yield(PartsCase{Rules: l, Chain: k == 1, Real: (s[0]+s[len(s)-1])%2 == 0, Runs: 1})
					}
					if n < 3 {
						for k := 0; k < 8; k++ {
							yield(PartsCase{Rules: l, Chain: k&1 == 1, Real: k&2 == 2, Own: k&4 == 4, Runs: 2})
						}
					}
				})
			}
		}, runParts)
	core.Register("C07", "a word in a body", "response and request bodies of lengths around 1000, 10000, 100000, the default limits and the powers of two from 64 to 1<<20 (thorough 1<<24) with a word at the beginning, around those places and at the end, or nowhere, in three modes",
		func(ctx *core.Ctx, yield func(NeedleCase)) {
			lens := append(large(64, ctx.Pick(1<<20, 1<<24)), 524227, 524228, 524229, 300000)
			for i, n := range lens {
				at := map[int]bool{-1: true, 0: true, n - 6: true, n / 2: true}
				for _, p := range lens {
					if p > n/4 && p < n-6 {
						at[p] = true
						at[p-3] = true
					}
				}
				k := 0
				for a := -1; a < n; a++ {
					if !at[a] {
						continue
					}
					k++
					for _, resp := range []bool{true, false} {
						yield(NeedleCase{Len: n, At: a, Split: []int{0, 4096, 65536, 100000}[(i+k)%4], Resp: resp, Mode: "on", Op: []string{"needle", "needle$", "^needle", "!@rx needle", "needle"}[(i+k)%5]})
						if a == n-6 {
							for _, m := range []string{"on", "detect", "off"} {
								for _, o := range []string{"needle", "needle$"} {
									yield(NeedleCase{Len: n, At: a, Split: []int{65536, 0}[i%2], Resp: resp, Mode: m, Op: o})
								}
							}
						}
					}
				}
			}
		}, runNeedle).WithBudget(1 << 40)
	core.Register("C08", "file names", "every list of up to three (thorough: four) parts whose field names and file names are two letters, nothing or each other, with and without a type: the fields are what has no file name, and nothing else is one",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			var parts []Part
			for _, n := range []core.B{"a", "b", "a.b", "filename"} {
				for _, f := range []string{"", "a", "b", "filename", "a=b"} {
					parts = append(parts, Part{Name: n, File: f, Value: "v"})
				}
			}
			parts = append(parts, Part{Name: "a", Hdr: "Content-Type: application/octet-stream", Value: "w"}, Part{Name: "b", Hdr: "X: filename=a", Value: "w"}, Part{Name: "filename=a", Value: "x"}, Part{Name: "a; filename=b", Value: "x"})
			seqs(len(parts), 1, ctx.Pick(3, 4), func(s []int) {
				var ps []Part
				for i, k := range s {
					p := parts[k]
					p.Value += core.B(fmt.Sprint(i))
					ps = append(ps, p)
				}
				mem := int64(0)
				if (s[0]+len(s))%3 == 0 {
					mem = 1
				}
				yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: "multipart/form-data; boundary=B", Mem: mem}, Multi: true, Boundary: "B", Parts: ps, Reads: [][]string{allReads, backReads}[len(s)%2]})
			})
		}, runArgs).WithBudget(1 << 24)
	core.Register("C18", "abort texts", fmt.Sprintf("aborts with every error of %d texts (empty, several lines, %%, controls, what looks like a record, up to 70000 bytes), one to three of them, before, between and after the steps, in three modes: one record each", len(abortTexts)),
		func(ctx *core.Ctx, yield func(AbortTextCase)) {
			seqs(len(abortTexts), 1, ctx.Pick(2, 3), func(s []int) {
				for step := 0; step <= 6; step++ {
					for _, m := range []string{"on", "detect"} {
						for k := 0; k < 4; k++ {
							if len(s) > 1 && (step+k+s[0])%3 != 0 && s[0] != s[1] {
								continue
							}
							yield(AbortTextCase{Mode: m, Texts: append([]int{}, s...), Step: step, Same: k&1 == 1, Taken: k&2 == 2})
						}
					}
				}
			})
		}, runAbortTexts)
	core.Register("C19", "executed before", "rules about every variable in every phase, plain, counted, negated and chained, and with settings around them, executed on an engine in every mode, access and with small limits, before the engine is set to inspect everything: as if executed afterwards",
		func(ctx *core.Ctx, yield func(BeforeCase)) {
			for _, v := range allVars {
				for ph := 1; ph <= 5; ph++ {
					texts := []string{
						fmt.Sprintf("SecRule %s \"!@rx ^no such$\" \"id:1,phase:%d,log\"\n", v, ph),
						fmt.Sprintf("SecRule &%s \"@ge 0\" \"id:1,phase:%d,log,deny,status:418\"\n", v, ph),
						fmt.Sprintf("SecRule REMOTE_ADDR \".\" \"id:1,phase:%d,log,chain\"\nSecRule %s \".\" \"log\"\n", ph, v),
					}
					for ti, s := range texts {
						for mi, m := range []string{"on", "off", "detect", "new"} {
							for acc := 0; acc < 4; acc++ {
								if m == "new" {
									m = ""
								}
								c := BeforeCase{Texts: []string{s}, Mode: m, Acc: acc, Rules: []int{0, 7, 1}[(ti+mi+acc)%3], Lim: []int64{1000, 0, -1, 1}[(ti+ph+acc)%4]}
								yield(c)
								if ti == 0 {
									c.Texts = []string{s, "SecRuleEngine Off\nSecRequestBodyAccess Off\n" + s + "SecResponseBodyAccess Off\n" + s}
									yield(c)
								}
							}
						}
					}
				}
			}
		}, runBefore)
}
