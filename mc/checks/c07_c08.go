package checks

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C07: body access and oversized bodies

// InspCase is a body given to rules that look at it.
type InspCase struct {
	Req    Req      `json:"req"`
	Total  int64    `json:"total,omitempty"` // total limit, 0 default
	Mode   string   `json:"mode,omitempty"`
	Target string   `json:"target"`
	Op     string   `json:"op"`            // any, never, eq0, exact
	Pos    int      `json:"pos,omitempty"` // 0 plain, 1 first link of a chain, 2 last link
	Acts   string   `json:"acts"`
	Ops    []string `json:"ops,omitempty"`   // result takings between the steps
	Sec    string   `json:"sec,omitempty"`   // access directives instead of API flags
	Parts  []Part   `json:"parts,omitempty"` // of a multipart body with boundary B
}

var inspOps = map[string]string{"any": "@rx .*", "never": "!@rx ^never$", "eq0": "@eq 0", "noteq9": "!@eq 99"}

func opHolds(op string, vals []string, body string) bool {
	for _, v := range vals {
		n, isInt := refInt(v)
		zero := !isInt || n.Sign() == 0
		switch op {
		case "any", "never":
			return true
		case "eq0":
			if zero {
				return true
			}
		case "noteq9":
			if !isInt || n.String() != "99" {
				return true
			}
		case "exact":
			if v == body {
				return true
			}
		}
	}
	return false
}

// probeRule always matches and tells that it ran.
func probeRule(rec *recorder, ph int, tag string) *ms.SecRule {
	r := ms.NewSecRule()
	r.Phase = ph
	r.AppendVariables(&probeVar{r: rec, vals: []string{"1"}})
	r.SetOperator(&probeOp{[]string{"1"}})
	r.AppendActions(&probeAct{rec, 2, tag})
	return r
}

// targetValues gives what a list of targets yields, by the reference reading.
func targetValues(r Req, targets string, form []pair) []string {
	var res []string
	for _, tg := range strings.Split(targets, "|") {
		count := strings.HasPrefix(tg, "&")
		tg = strings.TrimPrefix(tg, "&")
		var vals []string
		if _, ok := r.collection(tg, form); ok {
			vals = r.selected(tg, form, func(string) bool { return true })
		} else {
			vals, _ = r.scalar(tg)
		}
		if count {
			vals = []string{strconv.Itoa(len(vals))}
		}
		res = append(res, vals...)
	}
	return res
}

func cleanDir(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "m*-*"))
	for _, f := range fs {
		os.Remove(f)
	}
}

func runInsp(ctx *core.Ctx, c InspCase) *core.Fail {
	os.Setenv("TMPDIR", ctx.Dir)
	r := c.Req
	var form []pair
	if c.Parts != nil {
		r.Body = core.B(buildMultipart(ArgCase{Parts: c.Parts, Boundary: "B"}))
		for _, p := range c.Parts {
			if p.File == "" && p.Name != "" && !p.NoCD {
				form = append(form, pair{string(p.Name), p.value()})
			}
		}
		defer cleanDir(ctx.Dir)
	}
	e := r.engine(ctx.Dir)
	if c.Total != 0 {
		e.RequestBody, e.ResponseBody = c.Total, c.Total
	}
	if r.Mem == 0 {
		r.Mem = 131072
	} else if r.Mem < 0 {
		r.Mem, e.RequestBodyInMem = 0, 0
	}
	if c.Sec != "" {
		e.RequestBodyAccess, e.ResponseBodyAccess = false, false
		if f := loadRules(e, c.Sec); f != nil {
			return f
		}
	}
	setMode(e, c.Mode)
	rec := &recorder{}
	resp := strings.Contains(c.Target, "RESPONSE")
	ph := 3
	if resp {
		ph = 5
	}
	// what the buffers accept
	var accepted, raccepted []byte
	take := func(total int64, to *[]byte) func([]byte) error {
		return func(p []byte) error {
			if int64(len(*to)+len(p)) <= total {
				*to = append(*to, p...)
			}
			return nil
		}
	}
	totalReq, totalRes := int64(134217728), int64(524228)
	if c.Total != 0 {
		totalReq, totalRes = c.Total, c.Total
	}
	appendSplit([]byte(r.Body), r.Split, take(totalReq, &accepted))
	appendSplit([]byte(r.RBody), r.Split, take(totalRes, &raccepted))
	model := r
	model.Body, model.RBody = core.B(accepted), core.B(raccepted)
	body := string(model.Body)
	if resp {
		body = string(model.RBody)
	}
	op := inspOps[c.Op]
	if c.Op == "exact" {
		op = "@rx ^(?s:" + strings.ReplaceAll(regexp.QuoteMeta(body), `\`, `\\`) + ")$"
	}
	insp := fmt.Sprintf("SecRule %s \"%s\"", c.Target, op)
	plain := "SecRule REMOTE_ADDR \"@rx .*\""
	var text string
	switch c.Pos {
	case 0:
		text = fmt.Sprintf("%s \"id:1,phase:%d,%s\"\n", insp, ph, c.Acts)
	case 1:
		text = fmt.Sprintf("%s \"id:1,phase:%d,%s,chain\"\n%s \"id:2\"\n", insp, ph, c.Acts, plain)
	case 2:
		text = fmt.Sprintf("%s \"id:1,phase:%d,%s,chain\"\n%s \"id:2,chain\"\n%s \"id:3\"\n", plain, ph, c.Acts, plain, insp)
	}
	e.AddSecRule(probeRule(rec, ph, "before"))
	if f := loadRules(e, text); f != nil {
		return f
	}
	l := e.RuleSet.Phases[ph]
	if len(l) != 2 {
		return core.Failf("%d rules in phase %d after loading %q, want 2", len(l), ph, text)
	}
	l[1].AppendActions(&probeAct{rec, 2, "inspect"})
	for _, s := range l[1].SubRules {
		s.AppendActions(&probeAct{rec, 2, "link"})
	}
	e.AddSecRule(probeRule(rec, ph, "after"), probeRule(rec, 4, "resph"), probeRule(rec, 6, "log"))
	if !resp {
		e.AddSecRule(probeRule(rec, 5, "respb"))
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer func() {
		t.Request.Body.Close()
		t.Response.Body.Close()
		cleanDir(ctx.Dir)
	}()

	inspected := model.bodyInspected() && mediaType(string(r.CT)) == "application/x-www-form-urlencoded" && !resp
	reads := false
	for _, tg := range strings.Split(c.Target, "|") {
		tg = strings.TrimPrefix(tg, "&")
		reads = reads || tg == "REQUEST_BODY" || strings.HasPrefix(tg, "ARGS") && !strings.HasPrefix(tg, "ARGS_GET")
	}
	over := inspected && reads && int64(len(model.Body)) > r.Mem
	hits := !over && opHolds(c.Op, targetValues(model, c.Target, form), body)

	// expectations
	aborted := false
	pending := 200 // status of the pending verdict
	logs := 0
	countLogs := !strings.Contains(c.Target, "|")
	var want []string
	expect := func(phase int, tags ...string) {
		if aborted || c.Mode == "off" || pending != 200 {
			return
		}
		for _, tag := range tags {
			if tag != "inspect" {
				want = append(want, tag)
				continue
			}
			if over {
				logs++ // the abort record
				if c.Mode == "detect" {
					continue // left open
				}
				aborted, pending = true, 413
				return
			}
			if hits {
				want = append(want, "inspect")
				for _, a := range strings.Split(c.Acts, ",") {
					if a == "deny" {
						logs++
						if c.Mode != "detect" {
							pending = 403
							if strings.Contains(c.Acts, "status:418") {
								pending = 418
							}
						}
					}
					if a == "log" {
						logs++
					}
				}
				if c.Pos == 1 {
					want = append(want, "link")
				} else if c.Pos == 2 {
					want = append(want, "link", "link")
				}
				if pending != 200 {
					return
				}
			}
		}
	}
	check := func(step string) *core.Fail {
		ctx.Trans(1)
		var got []string
		for _, ev := range rec.ev {
			if strings.HasPrefix(ev, "act ") {
				tag := strings.Fields(ev)[1]
				if over && c.Mode == "detect" && (tag == "inspect" || tag == "link") {
					continue
				}
				got = append(got, tag)
			}
		}
		if g, w := strings.Join(got, " "), strings.Join(want, " "); g != w {
			return core.Failf("after step %s these rules have acted: %q, want %q (%s, body %.40q of %d, memory limit %d)", step, g, w, text, body, len(body), r.Mem)
		}
		ctx.State(inspected, over, hits, c.Mode, c.Acts, len(body), r.Mem, step, pending, len(want))
		return nil
	}
	result := func(step string) *core.Fail {
		ctx.Trans(1)
		i := t.Result()
		if i.Status != pending || i.Disruptive != (pending != 200) {
			return core.Failf("result after %s: status %d disruptive %v, want %d %v (%s, body %.40q of %d, memory limit %d)", step, i.Status, i.Disruptive, pending, pending != 200, text, body, len(body), r.Mem)
		}
		if countLogs && !(over && c.Mode == "detect") && len(i.Log) != logs {
			return core.Failf("result after %s has %d records, want %d: %q (%s, body of %d, memory limit %d)", step, len(i.Log), logs, i.Log, text, len(body), r.Mem)
		}
		if !aborted {
			pending, logs = 200, 0
		}
		ctx.Outcome(fmt.Sprint(i.Status, i.Disruptive, len(i.Log)))
		return nil
	}
	steps := []string{"conn", "reqh", "body", "reqb", "resph", "rbody", "respb", "log", "end"}
	for _, st := range steps {
		part := r
		part.Skip = ^0
		switch st {
		case "conn":
			part.Skip &^= skipConn | skipURL
		case "reqh":
			part.Skip &^= skipReqH
		case "body":
			part.Skip = r.Skip
			if r.Skip&skipBody == 0 {
				var got []byte
				appendSplit([]byte(r.Body), r.Split, func(p []byte) error {
					fits := int64(len(got)+len(p)) <= totalReq
					err := t.AppendRequestBody(p)
					if fits {
						got = append(got, p...)
					}
					if (err == nil) != fits {
						got = nil
						panic(fmt.Sprintf("append of %d bytes: error %v, within the total limit: %v", len(p), err, fits))
					}
					return nil
				})
			}
			continue
		case "reqb":
			t.ProcessRequestBody()
			if !resp {
				expect(3, "before", "inspect", "after")
			}
		case "resph":
			part.Skip &^= skipRespH
			code, rproto, rhdr := r.Code, r.RProto, http.Header(nil)
			if code == 0 {
				code = 200
			}
			if rproto == "" {
				rproto = "HTTP/1.1"
			}
			if r.RHdr != nil {
				rhdr = header(r.RHdr)
			}
			t.ProcessResponseHeaders(code, rproto, rhdr)
			expect(4, "resph")
			part.Skip = ^0
		case "rbody":
			appendSplit([]byte(r.RBody), r.Split, func(p []byte) error { t.AppendResponseBody(p); return nil })
			continue
		case "respb":
			t.ProcessResponseBody()
			if resp {
				expect(5, "before", "inspect", "after")
			} else {
				expect(5, "respb")
			}
		case "log":
			t.ProcessLogging()
			expect(6, "log")
		}
		if st == "conn" || st == "reqh" {
			if err := part.play(t); err != nil {
				return core.Failf("%v", err)
			}
		}
		if f := check(st); f != nil {
			return f
		}
		for _, o := range c.Ops {
			if o == st {
				for k := 0; k < 2; k++ {
					if f := result(st); f != nil {
						return f
					}
				}
			}
		}
	}
	if f := result("end"); f != nil {
		return f
	}
	return result("end")
}

const urlenc = "application/x-www-form-urlencoded"

func init() {
	targets := []string{"REQUEST_BODY", "ARGS", "ARGS_POST", "ARGS_NAMES", "ARGS_POST_NAMES", "&REQUEST_BODY", "&ARGS_POST", "&ARGS", "REMOTE_ADDR|ARGS_POST", "ARGS_POST|REMOTE_ADDR", "REQUEST_BODY|ARGS", "&ARGS_POST_NAMES|&REQUEST_URI"}
	full := "a=bcde"
	core.Register("C07", "oversized", "every body size from 0 to 6 around every memory limit from 0 to 4, in every split, inspected by every kind of target, operator, negation and chain position, with every action, mode and method",
		func(ctx *core.Ctx, yield func(InspCase)) {
			for n := 0; n <= len(full); n++ {
				for mem := int64(-1); mem <= 4; mem++ {
					if mem == 0 {
						continue
					}
					for split := 0; split <= ctx.Pick(3, 6) && split <= n; split++ {
						for _, mode := range []string{"", "on", "detect", "off"} {
							for _, tg := range targets {
								for _, op := range []string{"any", "never", "eq0", "noteq9"} {
									for pos := 0; pos < 3; pos++ {
										for _, acts := range []string{"deny,status:418", "log", "allow", "skip:2,log", "deny,log"} {
											if (mode == "" || mode == "off") && (acts != "deny,log" || pos > 0) {
												continue
											}
											if acts == "allow" || acts == "skip:2,log" {
												// these stop the probes: only where the rule must not act
												if n == 0 || n <= int(mem) || mode != "on" {
													continue
												}
											}
											yield(InspCase{Req: Req{Method: "POST", URL: "/?q=1", CT: urlenc, Body: core.B(full[:n]), Split: split, Mem: mem},
												Mode: mode, Target: tg, Op: op, Pos: pos, Acts: acts})
										}
									}
								}
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C07", "verdict stays", "results taken after every subset of steps, for bodies one below, at and one above the memory limit",
		func(ctx *core.Ctx, yield func(InspCase)) {
			at := []string{"conn", "reqh", "reqb", "resph", "respb", "log"}
			for set := 0; set < 64; set++ {
				var ops []string
				for i, s := range at {
					if set>>i&1 == 1 {
						ops = append(ops, s)
					}
				}
				for n := 2; n <= 4; n++ {
					for _, mode := range []string{"on", "detect", "off"} {
						for _, acts := range []string{"deny,status:418", "log"} {
							for _, tg := range []string{"ARGS_POST", "REQUEST_BODY", "&ARGS"} {
								for _, m := range []string{"POST", "PUT", "PATCH"} {
									yield(InspCase{Req: Req{Method: m, URL: "/", CT: urlenc, Body: core.B(full[:n]), Split: 1, Mem: 3}, Mode: mode, Target: tg, Op: "any", Acts: acts, Ops: ops})
								}
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C07", "access", "both access switches, by API and by every pair of directives, every method, content type, and body size around the limit, for request and response body targets",
		func(ctx *core.Ctx, yield func(InspCase)) {
			dirs := []string{""}
			for _, a := range []string{"", "SecRequestBodyAccess On\n", "SecRequestBodyAccess Off\n"} {
				for _, b := range []string{"", "SecResponseBodyAccess On\n", "SecResponseBodyAccess Off\n", "SecRequestBodyAccess On\n", "SecRequestBodyAccess off\n"} {
					dirs = append(dirs, a+b+"SecRuleEngine On\n")
				}
			}
			for _, tg := range append(append([]string{}, targets...), "RESPONSE_BODY", "&RESPONSE_BODY", "RESPONSE_BODY|REMOTE_ADDR") {
				for _, m := range []string{"POST", "PUT", "PATCH", "GET", "HEAD", "DELETE", "OPTIONS", "post", ""} {
					for _, ct := range []string{urlenc, urlenc + "; charset=UTF-8", "Application/X-WWW-Form-Urlencoded", "text/plain", ""} {
						for acc := 0; acc < 4; acc++ {
							for di, d := range dirs {
								if di > 0 && (acc > 0 || ct != urlenc || m != "POST") {
									continue
								}
								r := Req{Method: m, URL: "/?q=1", CT: core.B(ct), Mem: 3, NoReqB: acc&1 == 1, NoResB: acc&2 == 2}
								if d != "" {
									on := func(what string) bool {
										i, j := strings.LastIndex(strings.ToLower(d), what+" on"), strings.LastIndex(strings.ToLower(d), what+" off")
										return i > j
									}
									r.NoReqB, r.NoResB = !on("secrequestbodyaccess"), !on("secresponsebodyaccess")
								}
								for _, n := range []int{0, 3, 4} {
									for _, rn := range []int{0, 5} {
										for _, op := range []string{"any", "eq0", "exact"} {
											q := r
											q.Body, q.RBody = core.B(full[:n]), core.B("rbody"[:rn])
											yield(InspCase{Req: q, Mode: "on", Target: tg, Op: op, Acts: "log", Sec: d})
										}
									}
								}
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C07", "multipart access", "well-formed multipart bodies of one to three parts, both access switches by API and by directives, every method, memory limits that spill them, every kind of target, in three modes: form fields are seen exactly when request bodies are inspected",
		func(ctx *core.Ctx, yield func(InspCase)) {
			lists := [][]Part{
				{{Name: "a", Value: "1"}}, {{Name: "a", Value: ""}, {Name: "b", Value: "x=y&z"}}, {{Name: "f", Value: "data", File: "f.txt"}},
				{{Name: "f", Value: "data", File: "f.txt"}, {Name: "a", Value: "0"}, {Name: "a", Value: "long ", Rep: 100}},
			}
			for _, tg := range append(append([]string{}, targets...), "&ARGS_NAMES", "ARGS_NAMES|ARGS", "RESPONSE_BODY") {
				for _, ps := range lists {
					for _, m := range []string{"POST", "PUT", "PATCH", "GET", "DELETE", "post", ""} {
						for acc := 0; acc < 4; acc++ {
							for _, d := range []string{"", "SecRequestBodyAccess On\n", "SecRequestBodyAccess On\nSecRequestBodyAccess Off\n", "SecResponseBodyAccess On\n"} {
								if d != "" && acc > 0 {
									continue
								}
								r := Req{Method: m, URL: "/?q=1", CT: "multipart/form-data; boundary=B", NoReqB: acc&1 == 1, NoResB: acc&2 == 2, RBody: "rb"}
								if d != "" {
									r.NoReqB, r.NoResB = strings.HasSuffix(d, "ff\n") || d[3:6] == "Res", d[3:6] != "Res"
								}
								for _, mem := range []int64{0, 1, 64} {
									for _, split := range []int{0, 7} {
										for _, op := range []string{"any", "eq0"} {
											for _, mode := range []string{"on", "detect", "off"} {
												if mode != "on" && (op != "any" || split > 0) {
													continue
												}
												q := r
												q.Mem, q.Split = mem, split
												yield(InspCase{Req: q, Mode: mode, Target: tg, Op: op, Acts: "deny,log", Sec: d, Parts: ps})
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C07", "total limit", "every body of up to 6 bytes in every split with every small total and memory limit: what was accepted is inspected exactly, for both directions",
		func(ctx *core.Ctx, yield func(InspCase)) {
			for n := 0; n <= 6; n++ {
				for split := 0; split <= n; split++ {
					for total := int64(1); total <= 6; total++ {
						for mem := int64(1); mem <= 6; mem++ {
							for _, tg := range []string{"REQUEST_BODY", "ARGS_POST", "&ARGS_POST", "RESPONSE_BODY", "&RESPONSE_BODY"} {
								for _, mode := range []string{"on", "detect"} {
									b := core.B(full[:n])
									yield(InspCase{Req: Req{Method: "POST", URL: "/", CT: urlenc, Body: b, RBody: b, Split: split, Mem: mem}, Total: total, Mode: mode, Target: tg, Op: "exact", Acts: "deny,status:418"})
								}
							}
						}
					}
				}
			}
		}, runInsp)
	core.Register("C07", "default limits", "bodies around the default memory limit, in one piece and in pieces of several sizes",
		func(ctx *core.Ctx, yield func(InspCase)) {
			for _, n := range []int{131071, 131072, 131073, 131072 + 4096} {
				for _, split := range []int{0, 1024, 4096, 65536, 131071, 131072, n - 1} {
					for _, tg := range []string{"REQUEST_BODY", "ARGS_POST", "ARGS_POST_NAMES", "&ARGS"} {
						for _, mode := range []string{"on", "detect"} {
							yield(InspCase{Req: Req{Method: "POST", URL: "/", CT: urlenc, Body: core.B("a=" + strings.Repeat("x", n-2)), Split: split}, Mode: mode, Target: tg, Op: "never", Acts: "deny,status:418"})
						}
					}
				}
			}
			for _, n := range []int{524227, 524228, 524229} {
				for _, split := range []int{0, 4096, 65536, n - 1} {
					for _, op := range []string{"never", "any"} {
						yield(InspCase{Req: Req{Method: "GET", URL: "/", RBody: core.B(strings.Repeat("y", n)), Split: split}, Mode: "on", Target: "RESPONSE_BODY", Op: op, Acts: "deny,status:418"})
					}
				}
			}
		}, runInsp)
}

// ---------------------------------------------------------------------
// C08: body arguments

// Part is one part of a multipart body.
type Part struct {
	Name  core.B `json:"name"`
	Value core.B `json:"value"`
	File  string `json:"file,omitempty"`
	NoCD  bool   `json:"noDisposition,omitempty"`
	Hdr   string `json:"hdr,omitempty"`
	Rep   int    `json:"rep,omitempty"` // repeat the value
}

func (p Part) value() string {
	if p.Rep > 1 {
		return strings.Repeat(string(p.Value), p.Rep)
	}
	return string(p.Value)
}

// ArgCase is a body and the readings made of it.
type ArgCase struct {
	Req      Req      `json:"req"`
	Parts    []Part   `json:"parts,omitempty"`
	Multi    bool     `json:"multi,omitempty"`
	Boundary string   `json:"boundary,omitempty"`
	Pre      core.B   `json:"pre,omitempty"`
	Post     core.B   `json:"post,omitempty"`
	Cut      int      `json:"cut,omitempty"`    // drop that many bytes from the end
	Damage   int      `json:"damage,omitempty"` // 1 + place of a byte that is dropped (or replaced)
	With     core.B   `json:"with,omitempty"`
	Reads    []string `json:"reads"`
}

func buildMultipart(c ArgCase) string {
	var b strings.Builder
	b.WriteString(string(c.Pre))
	for _, p := range c.Parts {
		b.WriteString("--" + c.Boundary + "\r\n")
		if !p.NoCD {
			b.WriteString(`Content-Disposition: form-data; name="` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(string(p.Name)) + `"`)
			if p.File != "" {
				b.WriteString(`; filename="` + p.File + `"`)
			}
			b.WriteString("\r\n")
		}
		if p.Hdr != "" {
			b.WriteString(p.Hdr + "\r\n")
		}
		b.WriteString("\r\n" + p.value() + "\r\n")
	}
	b.WriteString("--" + c.Boundary + "--")
	b.WriteString(string(c.Post))
	return b.String()
}

var fetchRules = map[string]*ms.SecRule{}

// fetchRule gives the (cached) loaded rule for a target.
func fetchRule(target string) (*ms.SecRule, *core.Fail) {
	if r := fetchRules[target]; r != nil {
		return r, nil
	}
	r, f := targetRule(ms.NewEngine(), target)
	if f == nil {
		fetchRules[target] = r
	}
	return r, f
}

// argReading makes one transaction and reads the variables in order.
func argReading(ctx *core.Ctx, r Req, reads []string) (res [][]string, f *core.Fail) {
	e := r.engine(ctx.Dir)
	t, err := e.NewTransaction()
	if err != nil {
		return nil, core.Failf("NewTransaction: %v", err)
	}
	defer func() {
		t.Request.Body.Close()
		t.Response.Body.Close()
	}()
	if err := r.play(t); err != nil {
		return nil, core.Failf("%v", err)
	}
	for _, v := range reads {
		rule, f := fetchRule(v)
		if f != nil {
			return nil, f
		}
		ctx.Trans(1)
		res = append(res, fetchAll(rule, t))
	}
	return res, nil
}

func runArgs(ctx *core.Ctx, c ArgCase) *core.Fail {
	os.Setenv("TMPDIR", ctx.Dir)
	defer cleanDir(ctx.Dir)
	r := c.Req
	defined := true
	var form []pair
	if c.Multi {
		body := buildMultipart(c)
		if c.Cut > 0 {
			body = body[:len(body)-c.Cut]
		}
		if c.Damage > 0 {
			body = body[:c.Damage-1] + string(c.With) + body[c.Damage:]
		}
		r.Body = core.B(body)
		defined = c.Cut <= len(c.Post) && c.Damage == 0
		for _, p := range c.Parts {
			if p.NoCD {
				continue
			}
			if p.Name == "" || p.File != "" {
				continue
			}
			form = append(form, pair{string(p.Name), p.value()})
		}
		defined = defined && len(c.Parts) > 0
	} else {
		_, malformed := formPairs(string(r.Body))
		defined = !(malformed && strings.Contains(string(r.Body), ";"))
	}
	reads := c.Reads
	res, f := argReading(ctx, r, reads)
	if f != nil {
		return f
	}
	for i, v := range reads {
		if defined {
			var want []string
			if _, ok := r.collection(v, form); ok {
				want = r.selected(v, form, func(string) bool { return true })
			} else {
				want, _ = r.scalar(v)
			}
			if !sameMultiset(res[i], want) {
				return core.Failf("reading %d, %s, yields %s, want %s (%s %q, body %.300q)", i, v, quoteAll(res[i]), quoteAll(want), r.Method, string(r.CT), string(r.Body))
			}
			ctx.State(v, strings.Join(want, "\x00"), i)
		}
		for j := 0; j < i; j++ {
			if reads[j] == v && !sameMultiset(res[i], res[j]) {
				return core.Failf("%s yields %s at reading %d and %s at reading %d (body %.300q)", v, quoteAll(res[j]), j, quoteAll(res[i]), i, string(r.Body))
			}
		}
	}
	if !defined {
		// every order of reading gives the same answers
		for i := range reads {
			alone, f := argReading(ctx, r, reads[i:i+1])
			if f != nil {
				return f
			}
			if !sameMultiset(alone[0], res[i]) {
				return core.Failf("%s yields %s when read first, and %s after %v (body %.300q)", reads[i], quoteAll(alone[0]), quoteAll(res[i]), reads[:i], string(r.Body))
			}
			ctx.State("malformed", reads[i], strings.Join(sorted(res[i]), "\x00"))
		}
		// names and values belong to the same reading
		both, f := argReading(ctx, r, []string{"ARGS_POST_NAMES", "ARGS_POST"})
		if f != nil {
			return f
		}
		if (len(both[0]) == 0) != (len(both[1]) == 0) {
			return core.Failf("names %s but values %s (body %.300q)", quoteAll(both[0]), quoteAll(both[1]), string(r.Body))
		}
	}
	ctx.Outcome(fmt.Sprint(defined, len(res[0])))
	return nil
}

var argReads = []string{"ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_BODY"}
var allReads = append(append([]string{}, argReads...), argReads...)
var backReads = []string{"REQUEST_BODY", "ARGS_NAMES", "ARGS", "ARGS_POST_NAMES", "ARGS_POST"}

func post(body string) Req {
	return Req{Method: "POST", URL: "/?g=1&a=2", CT: urlenc, Body: core.B(body)}
}

func init() {
	alpha := []string{"a", "b", "=", "&", "%", "+", "4", "1"}
	core.Register("C08", "urlencoded", "every URL-encoded body up to a length over the significant characters, read twice by every argument variable",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			seqs(len(alpha), 0, ctx.Pick(5, 7), func(idx []int) {
				r := post(strings.Join(pickS(alpha, idx), ""))
				r.Split = len(idx) % 3
				yield(ArgCase{Req: r, Reads: allReads})
				if len(idx) <= 4 {
					yield(ArgCase{Req: r, Reads: backReads})
				}
			})
		}, runArgs).WithBudget(1 << 24)
	core.Register("C08", "bytes", "every percent escape and every single byte, in names and values of URL-encoded bodies beside well-formed pairs",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			for b := 0; b < 256; b++ {
				for _, s := range []string{fmt.Sprintf("%%%02x", b), fmt.Sprintf("%%%02X", b), string([]byte{byte(b)}), string([]byte{'%', byte(b), '1'}), string([]byte{'%', '1', byte(b)})} {
					for _, f := range []string{"a=%", "%=a", "ok=1&x%y=z&b=2", "ok=1&y=%", "%&ok=1"} {
						yield(ArgCase{Req: post(strings.Replace(f, "%", s, 1)), Reads: allReads})
					}
				}
			}
		}, runArgs)
	core.Register("C08", "readings", "every sequence of up to three readings, every split and method, access switch and memory limit, for well-formed and malformed URL-encoded bodies",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			bodies := []string{"", "a", "a=1", "a=1&a=1&b=2", "a=%4&b=2", "%zz", "&&", "=", "a=1&%=2&c=%61", "a=1;b=2", "a;b&c=3"}
			for _, b := range bodies {
				seqs(len(argReads), 1, ctx.Pick(3, 4), func(idx []int) {
					for split := 0; split <= 3; split++ {
						r := post(b)
						r.Split = split
						yield(ArgCase{Req: r, Reads: pickS(argReads, idx)})
						if len(idx) <= 2 {
							for _, m := range []string{"PUT", "PATCH", "GET", "HEAD", "DELETE"} {
								r.Method = m
								yield(ArgCase{Req: r, Reads: pickS(argReads, idx)})
							}
							r.Method = "POST"
							r.NoReqB = true
							yield(ArgCase{Req: r, Reads: pickS(argReads, idx)})
							r.NoReqB = false
							for _, ct := range []string{urlenc + ";charset=utf-8", "APPLICATION/x-www-form-urlencoded", "text/plain", "application/json", ""} {
								r.CT = core.B(ct)
								yield(ArgCase{Req: r, Reads: pickS(argReads, idx)})
							}
						}
					}
				})
			}
		}, runArgs)
	parts := []Part{
		{Name: "a", Value: "1"}, {Name: "a", Value: ""}, {Name: "b", Value: "x\r\ny"}, {Name: "f", Value: "data!", File: "f.txt"}, {Name: "", Value: "noname"},
		{Name: "é\"q", Value: "\x00\xff"}, {Name: "a", Value: "--B\r\n-- B", Hdr: "Content-Type: text/plain; charset=x"}, {Name: "x", NoCD: true, Value: "z"}, {Name: "long", Value: "0123456789", Rep: 500}, {Name: "a=1&b", Value: "%41+"},
	}
	multi := func(b string) Req {
		q := b
		if strings.ContainsAny(b, " :=?/,()") {
			q = `"` + b + `"`
		}
		return Req{Method: "POST", URL: "/?g=1&a=2", CT: core.B("multipart/form-data; boundary=" + q)}
	}
	core.Register("C08", "multipart", "every list of up to three parts of ten kinds, with memory limits that spill them, several boundaries, preambles, epilogues and splits",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			seqs(len(parts), 1, ctx.Pick(3, 4), func(idx []int) {
				var ps []Part
				for _, i := range idx {
					ps = append(ps, parts[i])
				}
				for _, mem := range []int64{0, 1, 64} {
					for split := 0; split <= 97; split += 97 {
						if len(idx) == 3 && (split == 97) != (mem == 64) {
							continue
						}
						r := multi("B")
						if split == 97 {
							r = multi("x B:1")
						}
						r.Mem, r.Split = mem, split
						bd := strings.Trim(strings.SplitN(string(r.CT), "boundary=", 2)[1], `"`)
						if strings.Contains(ps[0].value(), "--B") && bd == "B" {
							continue // the value holds the boundary
						}
						has := false
						for _, p := range ps {
							has = has || strings.Contains(p.value(), "--B") && bd == "B"
						}
						if has {
							continue
						}
						c := ArgCase{Req: r, Multi: true, Parts: ps, Boundary: bd, Reads: allReads}
						yield(c)
						if len(idx) < 3 {
							c.Reads = backReads
							c.Pre, c.Post = "preamble\r\n", "\r\nepilogue\r\n"
							yield(c)
							c.Pre, c.Post = "", "\r\n"
							yield(c)
						}
					}
				}
			})
		}, runArgs).WithBudget(1 << 24)
	core.Register("C08", "damaged multipart", "every truncation, every dropped byte and every replaced byte of several multipart bodies, in memory and spilled: no crash, and the same answer for every order of reading",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			sets := [][]Part{
				{{Name: "a", Value: "1"}},
				{{Name: "a", Value: "1"}, {Name: "b", Value: ""}, {Name: "a", Value: "2"}},
				{{Name: "f", Value: "data", File: "f"}, {Name: "a", Value: "1"}},
				{{Name: "a", Value: "1", Hdr: "Content-Type: text/plain"}, {Name: "f", Value: "0123456789", Rep: 30, File: "f"}},
			}
			for _, ps := range sets {
				for _, mem := range []int64{0, 3} {
					for _, rd := range [][]string{{"ARGS_POST_NAMES", "ARGS_POST_NAMES", "ARGS_POST", "ARGS"}, {"ARGS_POST", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES"}, {"ARGS", "ARGS", "ARGS_NAMES", "REQUEST_BODY", "ARGS"}} {
						r := multi("B")
						r.Mem = mem
						c := ArgCase{Req: r, Multi: true, Parts: ps, Boundary: "B", Reads: rd}
						n := len(buildMultipart(c))
						for cut := 1; cut < n; cut++ {
							c.Cut = cut
							yield(c)
						}
						c.Cut = 0
						for i := 1; i <= n; i++ {
							for _, w := range []core.B{"", "\n", "x", "\"", "-", "\x00", "\xff", ":"} {
								c.Damage, c.With = i, w
								yield(c)
							}
						}
					}
				}
			}
			// wrong or missing boundaries, and bodies that are no multipart at all
			for _, ct := range []string{"multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=C", "multipart/form-data; boundary=\"", "multipart/form-data; Boundary=B", "multipart/mixed; boundary=B", "Multipart/Form-Data; boundary=B", "multipart/", "multipart/x", "multipart/form-data; boundary=" + strings.Repeat("b", 80), "multipart", ";", "/", "a/b; =", "\x00"} {
				for _, mem := range []int64{0, 3} {
					for _, rd := range [][]string{allReads, backReads} {
						c := ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: core.B(ct), Mem: mem}, Multi: true, Parts: sets[1], Boundary: "B", Damage: 1, With: "-", Reads: rd}
						yield(c)
						c.Parts, c.Damage = nil, 0
						yield(c)
					}
				}
			}
		}, runArgs)
}
