package checks

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"unicode"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// body access that is switched between the readings of one transaction

// SwitchCase reads variables in turn, with the access switches as given at
// each reading (bits: request bodies, response bodies).
type SwitchCase struct {
	Req   Req      `json:"req"`
	Parts []Part   `json:"parts,omitempty"` // of a multipart body with boundary B
	Reads []string `json:"reads"`
	On    []int    `json:"on"`
}

func runSwitch(ctx *core.Ctx, c SwitchCase) *core.Fail {
	os.Setenv("TMPDIR", ctx.Dir)
	defer cleanDir(ctx.Dir)
	r := c.Req
	var form []pair
	if c.Parts != nil {
		r.Body = core.B(buildMultipart(ArgCase{Parts: c.Parts, Boundary: "B"}))
		for _, p := range c.Parts {
			if p.File == "" && p.Name != "" && !p.NoCD {
				form = append(form, pair{string(p.Name), p.value()})
			}
		}
	}
	e := r.engine(ctx.Dir)
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer t.Request.Body.Close()
	defer t.Response.Body.Close()
	if err := r.play(t); err != nil {
		return core.Failf("%v", err)
	}
	mem := r.Mem
	if mem == 0 {
		mem = 131072
	}
	for i, name := range c.Reads {
		ctx.Trans(1)
		rule, f := targetRule(e, name)
		if f != nil {
			return f
		}
		r.NoReqB, r.NoResB = c.On[i]&1 == 0, c.On[i]&2 == 0
		e.RequestBodyAccess, e.ResponseBodyAccess = !r.NoReqB, !r.NoResB
		if !r.NoReqB && c.Parts == nil && int64(len(r.Body)) > mem && name != "RESPONSE_BODY" {
			fetchAll(rule, t)
			if res := t.Result(); res.Status != 413 || !res.Disruptive {
				return core.Failf("reading %d, %s, of a body of %d bytes with memory limit %d: status %d, disruptive %v, want 413, true", i, name, len(r.Body), mem, res.Status, res.Disruptive)
			}
			return nil
		}
		got, want := fetchAll(rule, t), targetValues(r, name, form)
		if !sameMultiset(got, want) {
			return core.Failf("reading %d, %s, with access %d yields %s, want %s (readings %v with access %v)", i, name, c.On[i], quoteAll(got), quoteAll(want), c.Reads, c.On)
		}
		if res := t.Result(); res.Status != 200 || res.Disruptive {
			return core.Failf("reading %d, %s, with access %d ends with status %d, disruptive %v", i, name, c.On[i], res.Status, res.Disruptive)
		}
		ctx.State(name, c.On[i], strings.Join(want, "\x00"))
	}
	ctx.Outcome(fmt.Sprint(c.Reads, c.On))
	return nil
}

func init() {
	core.Register("C07", "switched access", "every sequence of up to 3 readings of five (thorough: seven) targets, with the access switches in every position at each, of bodies within and above the memory limit, urlencoded and multipart, held in memory and spilled",
		func(ctx *core.Ctx, yield func(SwitchCase)) {
			targets := []string{"REQUEST_BODY", "ARGS_POST", "&ARGS", "ARGS_NAMES", "ARGS_POST|RESPONSE_BODY"}
			if ctx.Thorough {
				targets = append(targets, "RESPONSE_BODY", "&REQUEST_BODY")
			}
			parts := []Part{{Name: "a", Value: "1"}, {Name: "b", Value: "22"}, {Name: "f", Value: "d", File: "f"}}
			seqs(len(targets)*4, 1, 3, func(s []int) {
				var c SwitchCase
				for _, i := range s {
					c.Reads = append(c.Reads, targets[i/4])
					c.On = append(c.On, i%4)
				}
				c.Req = Req{Method: "POST", URL: "/?g=1&a=2", CT: urlenc, Body: "a=1&b=22", RBody: "rb"}
				yield(c)
				c.Req.Mem, c.Req.Split = 4, 3
				if !strings.Contains(c.Reads[0]+c.Reads[len(c.Reads)-1], "|") {
					yield(c)
				}
				c.Req.CT, c.Req.Body = "multipart/form-data; boundary=B", ""
				c.Parts = parts
				yield(c)
				c.Req.Mem = 0
				yield(c)
			})
		}, runSwitch)
	core.Register("C07", "declared lengths", "33 kinds of further request headers (lengths that are wrong, encodings, connections, ...) and every pair of them, beside bodies at and above the memory limit, in three modes, inspected by five targets",
		func(ctx *core.Ctx, yield func(InspCase)) {
			n := 0
			for i, a := range furtherHeaders {
				for j, b := range furtherHeaders {
					h := append([][2]core.B{}, a...)
					if j > 0 {
						h = append(h, b...)
					}
					for _, size := range []int{3, 4, 200000} {
						for _, mode := range []string{"on", "detect", "off"} {
							for _, tg := range []string{"REQUEST_BODY", "ARGS_POST", "ARGS", "&ARGS_POST_NAMES", "RESPONSE_BODY"} {
								n++
								if i > 0 && j > 0 && n%7 != 0 && !ctx.Thorough {
									continue
								}
								q := Req{Method: []string{"POST", "PUT", "PATCH"}[n%3], URL: "/?q=1", CT: core.B(formTypes[n%len(formTypes)]), Hdr: h, Mem: 3, Body: "a=bc", RBody: "rb", Split: n % 4}
								if size < 4 {
									q.Body = q.Body[:size]
								} else if size > 4 {
									q.Mem, q.Split = 0, 0
									q.Body = core.B("a=" + strings.Repeat("x", 131070+n%2))
								}
								yield(InspCase{Req: q, Mode: mode, Target: tg, Op: []string{"any", "exact", "never"}[n/5%3], Acts: []string{"log", "deny,status:418"}[n/7%2]})
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C08", "characters of other scripts", "raw and escaped bytes beyond ASCII (Latin-1, UTF-8, UTF-16, UTF-7, overlong, byte order marks), in names and values, with 27 and 17 ways of writing the content type",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			texts := []string{"\xe9", "é", "%e9", "%C3%A9", "\xff\xfe", "\ufeff", "%EF%BB%BF", "a\x00", "\x00a", "+AOk-", "&#233;", "%u00e9", "\xc0\xaf", "%c0%af", "ｅ", "日本", "\x80", "\xa0", "İ", "\u2028", "%26%23233;", "\\xe9", "=?utf-8?q?=e9?=", "utf-8''%e9"}
			for i, s := range texts {
				for k, ct := range formTypes {
					for m, f := range []string{"a=@&b=1", "@=1&b=2", "a=1&a=@@", "@", "@=@&a=x%zz"} {
						if strings.ContainsAny(s, ";") && m == 4 {
							continue
						}
						yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1&a=2", CT: core.B(ct), Split: (i + k + m) % 3, Body: core.B(strings.ReplaceAll(f, "@", s))}, Reads: allReads})
					}
				}
				if strings.ContainsAny(s, "\x00\r\n") {
					continue
				}
				for k, ct := range multiTypes {
					yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: core.B(ct), Split: (i + k) % 3, Mem: int64(k % 2)}, Multi: true, Boundary: "B", Parts: []Part{{Name: "a", Value: core.B(s)}, {Name: "c", Value: core.B("1" + s)}}, Reads: allReads})
				}
			}
		}, runArgs)
	core.Register("C08", "boundaries", "every character a boundary can have, 1 to 70 times, and pairs of them, in front of fields and files",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			ps := [][]Part{{{Name: "a", Value: "1"}, {Name: "b", Value: "x y"}}, {{Name: "f", Value: "data", File: "f"}, {Name: "a", Value: "2"}, {Name: "a", Value: "3"}}}
			put := func(bd string, n int) {
				yield(ArgCase{Req: Req{Method: []string{"POST", "PUT"}[n%2], URL: "/", CT: core.B("multipart/form-data; boundary=\"" + bd + "\""), Split: n % 5, Mem: int64(n % 2)}, Multi: true, Parts: ps[n/2%2], Boundary: bd, Reads: allReads})
			}
			chars := "'()+_,-./:=?aZ09"
			n := 0
			for _, ch := range chars {
				for k := 1; k <= 70; k++ {
					put(strings.Repeat(string(ch), k), n)
					n++
				}
				for _, d := range chars {
					for k := 1; k <= 35; k += 1 + k/3 {
						put(strings.Repeat(string(ch)+string(d), k), n)
						put(strings.Repeat(string(ch), k)+strings.Repeat(string(d), k), n)
						n++
					}
				}
			}
		}, runArgs)
	core.Register("C10", "response types", "response content types of 12 media types with 33 kinds of parameters, well-formed, malformed and repeated, in several letter cases and with blanks: the media type alone",
		func(c *core.Ctx, y func(VarCase)) {
			params := []string{"", ";", "; ", ";;", "; charset", "; charset=", "; charset=utf-8", ";charset=\"utf-8\"", "; charset=\"utf-8", "; =", "; =x", "; x=\"", "; charset=a; charset=b", "; charset=a; CHARSET=a", "; charset=a, text/html", "; x=y z", "; x=\xe9", "; x=é", "; x*=utf-8''%e9", "; x*=bad", "; x*0=a; x*1=b", "; x*0=a; x*0=b", "; boundary=a/b", "; a=1; b=2; c=3",
				" ;charset=x", "\t;\tcharset=x", "; charset=x;", "; charset=x; ;", "; charset='x'", "; q=0.5", "; x=\\", "; x=\"\\", "; " + strings.Repeat("p=1;", 50)}
			for _, m := range []string{"text/html", "TEXT/HTML", "Text/Html", "application/json", "application/vnd.a+json", "image/svg+xml", "a/b", "x-a.b/c_d-e", "text", "multipart/form-data", urlenc, "application/octet-stream"} {
				for i, p := range params {
					for _, pre := range []string{"", " "} {
						y(VarCase{Req{Method: "GET", URL: "/", Code: 200, RHdr: [][2]core.B{{"Content-Type", core.B(pre + m + p)}}}, []string{"RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS"}})
						y(VarCase{Req{Method: "POST", URL: "/", CT: core.B(pre + m + p), Body: "a=1", Code: i}, []string{"REQUEST_BODY", "ARGS_POST", "REQUEST_HEADERS", "RESPONSE_CONTENT_TYPE"}})
					}
				}
			}
		}, runVars)
	core.Register("C11", "raw bytes", "every string up to 5 (thorough 6) symbols of percent escapes, blanks, nulls, capitals, and bytes that are not UTF-8 (alone, cut short, overlong), and every byte in front of, between and behind ASCII: decoding keeps them, nothing else is lost or changed beside them",
		func(ctx *core.Ctx, yield func(TransCase)) {
			al := []string{"\xe9", "\xff", "\xc3", "%", "41", "%e9", "+", " ", "\x00", "B", "\xe2\x82", "é"}
			seqs(len(al), 1, ctx.Pick(5, 6), func(s []int) { yield(TransCase{In: core.B(strings.Join(pickS(al, s), ""))}) })
			for b := 0x80; b < 0x100; b++ {
				x := string([]byte{byte(b)})
				for _, s := range []string{x, "%41" + x, x + "%41", "A" + x + "b", "%" + x, "%4" + x, "%u" + x + "041", "%u0041" + x, x + x + x, "  " + x + "  ", "\x00" + x + "\x00", "+" + x + "+", x + "é" + x, "%" + fmt.Sprintf("%02x", b) + x} {
					yield(TransCase{In: core.B(s)})
					yield(TransCase{In: core.B(s), Rep: 300})
				}
			}
		}, runTrans).WithBudget(1 << 24)
}

// FoldCase is a letter, matched case by case with every character.
type FoldCase struct {
	Letter rune `json:"letter"`
	Hi     int  `json:"hi"` // code points below
}

func runFold(ctx *core.Ctx, c FoldCase) *core.Fail {
	l := string(c.Letter)
	orbit := map[rune]bool{c.Letter: true}
	for r := unicode.SimpleFold(c.Letter); r != c.Letter; r = unicode.SimpleFold(r) {
		orbit[r] = true
	}
	type form struct {
		pat, pre, post string
		fold           bool
	}
	for _, f := range []form{{l, "", "", false}, {"(?i)" + l, "", "", true}, {"(?i)^" + l + "$", "", "", true}, {"(?i)x" + l + "y", "zx", "yz", true}, {"x" + l + "y", "x", "y", false}, {"(?i)[" + l + "]", "#", "#", true}, {"(?i)" + l + "|\\x{10ffff}", "!", "", true}, {"(?i)" + l + l, l, "", true}} {
		o, err := operators.NewOperatorRx(f.pat)
		if err != nil {
			return core.Failf("@rx refuses %q: %v", f.pat, err)
		}
		ctx.State(f.pat)
		for r := rune(0); r < rune(c.Hi); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			want := r == c.Letter || f.fold && orbit[r] || r == 0x10ffff && strings.HasSuffix(f.pat, "}")
			s := f.pre + string(r) + f.post
			if got := o.Match(someTx(ctx), s); got != want {
				return core.Failf("@rx %q of %q (%U) is %v, want %v", f.pat, s, r, got, want)
			}
		}
		ctx.Trans(c.Hi)
	}
	return nil
}

func init() {
	core.Register("C12", "letter cases", "each letter and 40 further characters with case forms of their own, alone, in words and classes, case by case and not, against every code point below U+20000 (thorough: all)",
		func(ctx *core.Ctx, yield func(FoldCase)) {
			for _, r := range "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ019_-éÉßẞſKÅåσςΣİıΩωµμжЖǅǆᲀвΐΰͅι\u1c88ﬅﬆÿŸ\U00010400\U00010428" {
				yield(FoldCase{r, ctx.Pick(0x20000, 0x110000)})
			}
		}, runFold).WithBudget(1 << 40)
}

// PermCase is a set of targets that rules read in every order.
type PermCase struct {
	Req     Req      `json:"req"`
	Targets []string `json:"targets"`
	Mode    string   `json:"mode"`
	Op      string   `json:"op"`
	Acts    string   `json:"acts"`
	One     bool     `json:"one,omitempty"` // all in one rule
}

var rulePlace = regexp.MustCompile(`rule [0-9]+`)

func runPerm(ctx *core.Ctx, c PermCase) *core.Fail {
	var first, firstText string
	var fail *core.Fail
	perms(len(c.Targets), func(p []int) {
		if fail != nil {
			return
		}
		ctx.Traces(1)
		e := c.Req.engine(ctx.Dir)
		defer cleanDir(ctx.Dir)
		text := ""
		ts := pickS(c.Targets, p)
		if c.One {
			text = fmt.Sprintf("SecRule %s \"%s\" \"id:1,phase:3,%s\"\n", strings.Join(ts, "|"), c.Op, c.Acts)
		} else {
			for i, k := range p {
				text += fmt.Sprintf("SecRule %s \"%s\" \"id:%d,phase:3,%s\"\n", ts[i], c.Op, k+1, c.Acts)
			}
		}
		if fail = loadRules(e, text); fail != nil {
			return
		}
		setMode(e, c.Mode)
		t, err := e.NewTransaction()
		if err != nil {
			fail = core.Failf("NewTransaction: %v", err)
			return
		}
		defer t.Request.Body.Close()
		if err := c.Req.play(t); err != nil {
			fail = core.Failf("%v", err)
			return
		}
		r := t.Result()
		ctx.Trans(len(p))
		var logs []string
		for _, l := range r.Log {
			logs = append(logs, rulePlace.ReplaceAllString(l, "rule")) // the place differs
		}
		obs := fmt.Sprintf("status %d, disruptive %v, %d records %q", r.Status, r.Disruptive, len(logs), sorted(logs))
		if r.Status == 413 && !c.One { // what stood behind has not run
			obs = fmt.Sprintf("status %d, disruptive %v", r.Status, r.Disruptive)
		}
		ctx.State(text, c.Mode, string(c.Req.CT), len(c.Req.Body))
		ctx.Outcome(obs)
		if first == "" {
			first, firstText = obs, text
		} else if obs != first {
			fail = core.Failf("%sends with %s,\n%swith %s", text, obs, firstText, first)
		}
	})
	return fail
}

func init() {
	core.Register("C16", "orders of readings", "every set of up to four of eight targets that read the body or the query, in every order, as targets of one rule and of a rule each, of bodies within and above the memory limit, well-formed and malformed, urlencoded and multipart, in three modes: the same verdict and records",
		func(ctx *core.Ctx, yield func(PermCase)) {
			targets := []string{"ARGS_POST", "REQUEST_BODY", "ARGS", "ARGS_POST_NAMES", "&ARGS_NAMES", "ARGS_GET", "REQUEST_HEADERS", "&REQUEST_BODY"}
			mp := "multipart/form-data; boundary=B"
			reqs := []Req{
				{CT: urlenc, Body: "a=1&b=2"}, {CT: urlenc, Body: "a=123456789", Mem: 4}, {CT: urlenc, Body: "a=1&b=%zz&c=3"}, {CT: urlenc, Body: "a=1&b=%zz&c=3", Mem: 12},
				{CT: core.B(mp), Body: core.B(mpBody)}, {CT: core.B(mp), Body: core.B(mpBody), Mem: 1}, {CT: core.B(mp), Body: "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n"}, {CT: core.B(mp), Body: "a=123456789", Mem: 4}, {CT: "text/plain", Body: "a=123456789", Mem: 4},
			}
			for set := 1; set < 1<<uint(len(targets)); set++ {
				var ts []string
				for i, t := range targets {
					if set>>uint(i)&1 == 1 {
						ts = append(ts, t)
					}
				}
				if len(ts) > ctx.Pick(4, 5) {
					continue
				}
				for i, r := range reqs {
					r.Method, r.URL = []string{"POST", "PUT", "PATCH"}[(set+i)%3], "/?g=1&h=%zz"
					for k, mode := range []string{"on", "detect", ""} {
						for _, one := range []bool{false, true} {
							yield(PermCase{Req: r, Targets: ts, Mode: mode, Op: []string{"@rx .", "@rx ^never$", "!@eq 99"}[(set+i+k)%3], Acts: "log", One: one})
						}
					}
				}
			}
		}, runPerm).WithBudget(1 << 40)
}

// SameCase is two texts loaded for an engine each; then the rules of the first
// engine are changed by its API.
type SameCase struct {
	A    string `json:"a"`
	B    string `json:"b"`
	Mut  string `json:"mut"`
	Link bool   `json:"link,omitempty"` // the chained rules, too
	Reqs []int  `json:"reqs"`
}

var ruleChanges = map[string]func(*ms.SecRule){
	"actions":     func(r *ms.SecRule) { r.AppendActions(realAct(nil, "status:499"), realAct(nil, "deny")) },
	"first":       func(r *ms.SecRule) { r.Actions = append(r.Actions[:0], realAct(nil, "deny")) },
	"operator":    func(r *ms.SecRule) { r.SetOperator(&probeOp{[]string{"no such value"}}) },
	"always":      func(r *ms.SecRule) { r.SetOperator(&probeOp{[]string{"no such value"}}); r.Not = true },
	"not":         func(r *ms.SecRule) { r.Not = !r.Not },
	"transforms":  func(r *ms.SecRule) { r.AppendTrans(probeTrans{"d"}) },
	"transforms0": func(r *ms.SecRule) { r.Trans = append(r.Trans[:0], probeTrans{"x"}) },
	"variables":   func(r *ms.SecRule) { r.AppendVariables(&probeVar{r: &recorder{}, vals: []string{"x1", "1"}}) },
	"variables0": func(r *ms.SecRule) {
		r.Variables = append(r.Variables[:0], &probeVar{r: &recorder{}, vals: []string{"x1", "1"}})
	},
	"include": func(r *ms.SecRule) {
		for _, v := range r.Variables {
			v.Include("zz")
		}
	},
	"exclude": func(r *ms.SecRule) {
		for _, v := range r.Variables {
			v.Exclude("/./")
		}
	},
	"links": func(r *ms.SecRule) { r.SubRules = append(r.SubRules[:0], realRule(&recorder{}, miss(0), "")) },
	"id":    func(r *ms.SecRule) { r.Id += 1000; r.Phase = 5 },
}

func runSame(ctx *core.Ctx, c SameCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	load := func(name string) (*ms.Engine, *seclang.DireSet, *core.Fail) {
		e := ms.NewEngine()
		e.TmpPath = ctx.Dir
		ds, err := seclang.NewDireSetFromSecLangString(histText(name))
		if err == nil {
			err = ds.Execute(e)
		}
		if err != nil {
			return nil, nil, core.Failf("valid rules %s were refused: %v", name, err)
		}
		return e, ds, nil
	}
	a, _, f := load(c.A)
	if f != nil {
		return f
	}
	b, set, f := load(c.B)
	if f != nil {
		return f
	}
	watch := func(e *ms.Engine) (obs []string) {
		ctx.Traces(1)
		e.RequestBodyAccess, e.ResponseBodyAccess = true, true
		for _, k := range c.Reqs {
			obs = append(obs, (&txn{e: e, r: orderReqs[k]}).all()...)
		}
		return obs
	}
	want := watch(b)
	for _, l := range a.RuleSet.Phases {
		for _, r := range l {
			for _, s := range r.SubRules {
				if c.Link {
					ruleChanges[c.Mut](s)
				}
			}
			ruleChanges[c.Mut](r)
		}
	}
	ctx.Trans(1)
	if d := firstDiff(watch(b), want); d != "" {
		return core.Failf("changing the %s of the rules of an engine with the text %s changes another engine that has loaded %s: %s", c.Mut, c.A, c.B, d)
	}
	again := ms.NewEngine()
	again.TmpPath = ctx.Dir
	if err := set.Execute(again); err != nil {
		return core.Failf("executing a set again: %v", err)
	}
	if d := firstDiff(watch(again), want); d != "" {
		return core.Failf("changing the %s of the rules of an engine with the text %s changes the set of another that has loaded %s: %s", c.Mut, c.A, c.B, d)
	}
	late, _, f := load(c.B)
	if f != nil {
		return f
	}
	if d := firstDiff(watch(late), want); d != "" {
		return core.Failf("after the %s of the rules of an engine with the text %s have been changed, an engine that loads %s: %s", c.Mut, c.A, c.B, d)
	}
	ctx.State(c.A, c.B, c.Mut, c.Link)
	ctx.Outcome(fmt.Sprint(want))
	return nil
}

func init() {
	core.Register("C19", "rules changed", "every pair of the rule sets of the other properties (the same text twice, too), each loaded for an engine of its own; then each of thirteen changes to all rules of one engine by its API: the other engine, its set, and a later load of its text are as before",
		func(ctx *core.Ctx, yield func(SameCase)) {
			var names, muts []string
			for n := range sharedRules {
				names = append(names, n)
			}
			names = append(names, "wide", "everything")
			for n := range ruleChanges {
				muts = append(muts, n)
			}
			sort.Strings(names)
			sort.Strings(muts)
			for i, a := range names {
				for j, b := range names {
					for k, m := range muts {
						for _, link := range []bool{false, true} {
							reqs := []int{0, 1, 2, 3, 4, len(orderReqs) - 2, len(orderReqs) - 1}
							if a != b {
								if !ctx.Thorough && (i+j+k)%2 == 0 {
									continue
								}
								reqs = reqs[(i+j)%5 : (i+j)%5+2]
							}
							yield(SameCase{a, b, m, link, reqs})
						}
					}
				}
			}
		}, runSame).WithBudget(1 << 40)
}

// texts yields every concatenation of one to n of the given pieces.
func texts(alph []string, n int, f func(string)) {
	seqs(len(alph), 1, n, func(idx []int) { f(strings.Join(pickS(alph, idx), "")) })
}

func init() {
	core.Register("C13", "argument texts", "the arguments of tag, msg, rev and ver and of the operators made of every sequence of up to 3 of 24 pieces (names of the language, separators, quotes, signs, macros, escapes), in five layouts",
		func(ctx *core.Ctx, yield func(DocCase)) {
			pcs := []string{"own", ":", ",", " ", "'", `"`, "@", "!", "a", "=", "%{", "}", `\`, "id", "deny", "t:", "none", "|", "/", "#", "chain", "\t", "1", "SecRule"}
			ls := []Layout{{}, {AQ: 1, ArgQ: 1, Sep: 1}, {ArgQ: 2, Col: 3, End: 1}, {ArgQ: 1, OQ: 1, Esc: true, Sep: 5}, {OQ: 2, ArgQ: 2, Gap: 1}}
			for _, own := range []string{"tag", "msg", "rev", "ver"} {
				pcs[0] = own
				texts(pcs, 3, func(s string) {
					for _, l := range ls {
						yield(DocCase{Items: []Item{{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "x", Acts: []Act{{N: "id", A: "1", V: true}, {N: own, A: core.B(s), V: true}, {N: "log"}}}}}}, L: l})
					}
				})
			}
			for _, own := range []string{"rx", "@rx", "@eq"} {
				pcs[0] = own
				texts(pcs, ctx.Pick(3, 4), func(s string) {
					if _, err := regexp.Compile(s); err != nil {
						return
					}
					for _, op := range []string{"rx", ""} {
						if op == "" && (s[0] == '@' || s[0] == '!') {
							continue
						}
						for i, l := range ls {
							yield(DocCase{Items: []Item{{Rules: []DRule{{Targets: []string{"ARGS"}, Not: i%2 == 1, Op: op, Arg: core.B(s), Acts: acts("id:1", "log")}}}}, L: l})
						}
					}
				})
			}
		}, runDoc)
	core.Register("C13", "index texts", "indexes made of every sequence of up to 3 (thorough: 4) of 14 pieces on collections whose entries have such names, included, excluded and counted, behind a colon and behind a dot",
		func(ctx *core.Ctx, yield func(DocCase)) {
			texts([]string{"a", ":", ".", "/", "b", "!", "&", " ", "'", `"`, "^", "A", "=", "@"}, ctx.Pick(3, 4), func(s string) {
				if len(s) > 1 && s[0] == '/' && s[len(s)-1] == '/' {
					if _, err := regexp.Compile(s[1 : len(s)-1]); err != nil {
						return
					}
				}
				for _, coll := range []string{"ARGS", "REQUEST_COOKIES", "RESPONSE_HEADERS"} {
					for _, f := range []string{"", "!", "&"} {
						for _, l := range []Layout{{}, {Dots: true}, {TQ: 1, Dots: true, Esc: true}, {TQ: 2}} {
							yield(DocCase{Items: []Item{{Rules: []DRule{{Targets: []string{f + coll + ":" + s, "ARGS_GET:b"}, Op: "rx", Arg: "x", Acts: acts("id:1", "phase:5", "log")}}}}, L: l, Fetch: true})
						}
					}
				}
			})
		}, runDoc)
}
