package checks

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
	"verifmc/mcsched"
)

// ---------------------------------------------------------------------
// observable behaviour of a transaction, and of a load

// txn is one transaction, advanced call by call.
type txn struct {
	e    *ms.Engine
	r    Req
	t    *ms.Transaction
	obs  []string
	mid  bool // read the values in every phase, too
	dead bool
}

func (x *txn) note(f string, a ...interface{}) { x.obs = append(x.obs, fmt.Sprintf(f, a...)) }

func (x *txn) result() {
	i := x.t.Result()
	x.note("%d %v %v %q", i.Status, i.Disruptive, i.Url, i.Log)
	if x.mid {
		x.values()
	}
}

// values reads every target of every rule, through the shared rules.
func (x *txn) values() {
	var ps []int
	for p := range x.e.RuleSet.Phases {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		for _, r := range x.e.RuleSet.Phases[p] {
			for _, s := range append([]*ms.SecRule{r}, r.SubRules...) {
				x.note("%d: %q", s.Id, sorted(s.FetchAllTransformedVariables(x.t)))
			}
		}
	}
}

// calls are the steps of a host, in order.
func (x *txn) calls() []func() {
	r := x.r
	if r.IP == "" {
		r.IP = "10.1.2.3"
	}
	all := []struct {
		skip int
		f    func()
	}{
		{0, func() {
			t, err := x.e.NewTransaction()
			if err != nil {
				x.note("no transaction: %v", err)
				x.dead = true
				return
			}
			x.t = t
		}},
		{skipConn, func() { x.t.ProcessConnection(r.IP, "5555", "192.0.2.1", "80"); x.result() }},
		{skipURL, func() {
			u, err := url.Parse(string(r.URL))
			if err != nil {
				panic(err)
			}
			x.t.ProcessRequestURL(u, r.Method, r.Proto)
		}},
		{skipReqH, func() { x.t.ProcessRequestHeader(r.header()); x.result() }},
		{skipBody, func() {
			if err := appendSplit([]byte(r.Body), r.Split, x.t.AppendRequestBody); err != nil {
				x.note("append: %v", err)
			}
		}},
		{skipBody, func() { x.t.ProcessRequestBody(); x.result() }},
		{skipRespH, func() { x.t.ProcessResponseHeaders(r.Code, r.RProto, header(r.RHdr)); x.result() }},
		{skipRBody, func() {
			if err := appendSplit([]byte(r.RBody), r.Split, x.t.AppendResponseBody); err != nil {
				x.note("append: %v", err)
			}
			x.t.ProcessResponseBody()
			x.result()
		}},
		{0, func() { x.t.ProcessLogging(); x.result() }},
		{0, func() { x.values() }},
	}
	var res []func()
	for _, c := range all {
		c := c
		if r.Skip&c.skip == 0 {
			res = append(res, func() {
				if !x.dead {
					c.f()
				}
			})
		}
	}
	return res
}

func (x *txn) all() []string {
	for _, f := range x.calls() {
		f()
	}
	return x.obs
}

// loading is what a load does, and what the set does to a fresh engine.
func loading(text, dir string) []string {
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		return []string{"refused: " + err.Error()}
	}
	return []string{shape(ds, dir)}
}

// ---------------------------------------------------------------------
// the shared rules and the colliding requests

var sharedRules = map[string]string{
	"args": `SecRuleEngine On
SecRule ARGS:/^a/|!ARGS:/b$/|ARGS_NAMES "x1" "id:1,phase:2,log,msg:'m, n',t:lowercase,t:urlDecodeUni"
SecRule &ARGS:/a/ "@gt 1" "id:2,phase:3,status:401,deny"
`,
	"chain": `SecRule REQUEST_METHOD "POST" "id:1,phase:3,chain,log,status:409"
SecRule ARGS_POST:a "x" "id:2,chain,t:compressWhitespace"
SecRule ARGS_GET "y|z" "id:3,deny"
SecRule REMOTE_ADDR "@rx ^10" "id:4,phase:3,log"
`,
	"flow": `SecRule ARGS "x1" "id:1,phase:2,skip:2,log"
SecRule REMOTE_ADDR "." "id:2,phase:2,log"
SecRule ARGS "z" "id:3,phase:2,allow:request,log"
SecRule REQUEST_METHOD "!@rx GET" "id:4,phase:2,log"
SecRule ARGS "y" "id:5,phase:3,block,status:402"
SecRule RESPONSE_STATUS "@ge 400" "id:6,phase:4,deny"
`,
	"headers": `SecRule REQUEST_HEADERS:a|REQUEST_HEADERS_NAMES|REQUEST_COOKIES:/s/|REQUEST_COOKIES_NAMES "v1" "id:1,phase:2,log,t:removeWhitespace"
SecRule &REQUEST_HEADERS "@le 2" "id:2,phase:2,log"
SecRule RESPONSE_HEADERS:a|RESPONSE_CONTENT_TYPE|RESPONSE_PROTOCOL "w2" "id:3,phase:4,deny,status:502"
`,
	"bodies": `SecRequestBodyAccess On
SecResponseBodyAccess On
SecRule REQUEST_BODY|RESPONSE_BODY "q" "id:1,phase:5,log"
SecRule ARGS_POST|ARGS_POST_NAMES "x1" "id:2,phase:3,log,t:urlDecode,t:none"
SecRule QUERY_STRING|REQUEST_URI|REQUEST_FILENAME|REQUEST_BASENAME|REQUEST_PROTOCOL "z" "id:3,phase:3,log"
`,
	"trans": `SecRule ARGS "@rx a b" "id:1,phase:3,log,t:lowercase,t:urlDecode,t:compressWhitespace"
SecRule ARGS "@rx ab" "id:2,phase:3,log,t:urlDecodeUni,t:removeWhitespace,t:lowercase"
SecRule ARGS:n "@eq 007" "id:3,phase:3,log,deny"
`,
	// every rule and chain matches every request
	"always": `SecRule REMOTE_ADDR "." "id:1,phase:2,log,status:405,chain"
SecRule ARGS|REQUEST_HEADERS|REMOTE_ADDR "!@rx ^none$" "id:2,log,chain,t:lowercase"
SecRule &ARGS "@ge 0" "id:3,log,skip"
SecRule REMOTE_ADDR "." "id:4,phase:2,deny"
SecRule REMOTE_ADDR ".*" "id:5,phase:3,block,chain,status:407"
SecRule REQUEST_URI ".*" "id:6,log,skip:1,chain"
SecRule REMOTE_ADDR "!@eq 9" "id:7,log"
SecRule RESPONSE_STATUS ".*" "id:8,phase:4,allow:phase,log,chain"
SecRule REMOTE_ADDR "." "id:9,status:501,log"
SecRule REMOTE_ADDR "." "id:10,phase:5,deny,status:503,chain"
SecRule RESPONSE_STATUS ".*" "id:11,log"
`,
	"detect": `SecRuleEngine DetectionOnly
SecRule ARGS "x" "id:1,phase:2,deny,status:410"
SecRule ARGS "x" "id:2,phase:2,allow"
SecRule ARGS "y" "id:3,phase:3,block,log"
`,
}

const mpBody = "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx1 A\tB\r\n--B\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\n8\r\n--B--\r\n"

var sharedReqs = []Req{
	{Method: "GET", URL: "/p/z.html?a1=X1&ab=x1&a=%41+B&n=7", Proto: "HTTP/1.1", IP: "10.0.0.1",
		Hdr: [][2]core.B{{"a", "v 1"}, {"Cookie", "s=v1"}}, Code: 200, RProto: "HTTP/1.1", RHdr: [][2]core.B{{"a", "w1"}}, RBody: "rq"},
	{Method: "POST", URL: "/y?y=z&q=1", Proto: "HTTP/1.0", IP: "10.0.0.2", CT: "application/x-www-form-urlencoded", Body: "a=x1&c=%2541%20%20b&n=8",
		Hdr: [][2]core.B{{"a", "u"}, {"Cookie", "t=v1; s=v2"}, {"b", "w"}}, Code: 500, RProto: "HTTP/1.0", RHdr: [][2]core.B{{"a", "w2"}, {"Content-Type", "text/x"}}, RBody: "ok", Split: 5},
	{Method: "PUT", URL: "/?a2=x1&a3=y", Proto: "HTTP/2", IP: "10.0.0.3", CT: "multipart/form-data; boundary=B", Body: mpBody, Code: 404, RHdr: [][2]core.B{{"Content-Length", "3"}}, RBody: "q q", Mem: 16},
	{Method: "POST", URL: "/q", IP: "192.168.0.9", CT: "application/x-www-form-urlencoded", Body: "bad=%zz&x=x1&a=y", Code: 200, RProto: "p"},
}

// freshReqs hold a number, 70000, in every part. Each execution replaces it by
// one that the process has not seen before: whatever is kept from one use to
// the next is cold in every execution.
var freshReqs = []Req{
	{Method: "POST", URL: "/p70000/f70000.php?k70000=v70000&a=%u006b70000+%41b70000&%6b70000=%u00e970000&n=70000", Proto: "HTTP/1.70000", IP: "10.0.70000", CT: "application/x-www-form-urlencoded; p=x70000",
		Body: "k70000=%u00e970000%20q&b=70000&n=%uff2170000&c=+%u4e2d", Hdr: [][2]core.B{{"X70000", "y70000"}, {"Y", "%u20ac70000"}, {"Cookie", "c70000=d70000; s=70000"}, {"Cookie", "t=k%u00e9"}}, Code: 200, RProto: "HTTP/70000",
		RHdr: [][2]core.B{{"Content-Type", "text/x70000; q=70000"}, {"Content-Length", "70000"}, {"R70000", "s70000"}}, RBody: "r70000 %u00e9 body", Split: 7},
	{Method: "PUT", URL: "/q70000?a70000=%u4e2d70000&k=%41+%25x70000", Proto: "HTTP/1.70000", IP: "10.0.70000", CT: "multipart/form-data; boundary=B70000", Body: "--B70000\r\nContent-Disposition: form-data; name=\"m70000\"\r\n\r\n%u00e970000 x\r\n--B70000\r\nContent-Disposition: form-data; name=\"f\"; filename=\"70000\"\r\n\r\ndata70000\r\n--B70000--\r\n",
		Hdr: [][2]core.B{{"X70000", "z70000"}, {"Cookie", "c70000"}}, Code: 404, RHdr: [][2]core.B{{"R70000", "%u00e9"}, {"Content-Type", "Image/70000"}}, RBody: "70000", Mem: 30},
	{Method: "GET", URL: "/f70000.php?k70000=w&b=%uff41%u00e9%u4e2d%u20ac", IP: "::70000", Hdr: [][2]core.B{{"X70000", "y70000"}, {"Cookie", "c70000=%u00e9"}}, Code: 500, RHdr: [][2]core.B{{"Content-Type", "text/x70000; q=70000"}}, RBody: "%u00e970000"},
}

func init() {
	sharedRules["fresh"] = `SecRequestBodyAccess On
SecResponseBodyAccess On
SecRule ARGS|ARGS_NAMES|REQUEST_COOKIES|REQUEST_COOKIES_NAMES|REQUEST_HEADERS|REQUEST_HEADERS_NAMES|!ARGS:/^b$/ "@rx (k70000|\\xe9)$" "id:1,phase:3,log,msg:'m70000',tag:70000,t:lowercase,t:urlDecodeUni,t:compressWhitespace"
SecRule ARGS:k70000|ARGS:/k70000/|REQUEST_HEADERS:X70000|REQUEST_COOKIES:/^c70000/|RESPONSE_HEADERS:R70000 "70000" "id:2,phase:4,log,status:401,t:urlDecode,t:removeNulls,chain"
SecRule ARGS_POST|ARGS_POST_NAMES|REQUEST_BODY "@rx ." "id:3,log,chain,t:urlDecodeUni,t:removeWhitespace"
SecRule &ARGS|&REQUEST_HEADERS:X70000|ARGS:n "@ge 70000" "id:4,log,t:replaceNulls"
SecRule QUERY_STRING|REQUEST_URI|REQUEST_FILENAME|REQUEST_BASENAME|REQUEST_PROTOCOL|REQUEST_METHOD|REMOTE_ADDR "!@rx ^70000$" "id:5,phase:2,log,t:urlDecodeUni,t:lowercase"
SecRule RESPONSE_CONTENT_TYPE|RESPONSE_CONTENT_LENGTH|RESPONSE_PROTOCOL|RESPONSE_STATUS|RESPONSE_HEADERS|RESPONSE_HEADERS_NAMES "70000" "id:6,phase:4,log,skip:1,t:urlDecodeUni"
SecRule RESPONSE_STATUS "." "id:7,phase:4,deny"
SecRule RESPONSE_BODY "r70000|.70000" "id:8,phase:5,log,t:urlDecodeUni,deny,status:503"
`
}

const freshMark = "70000"

var freshNo int

// freshToken is a number this process has not used yet.
func freshToken() string {
	freshNo++
	return fmt.Sprintf("%05d", 70000+freshNo%9999+1)
}

// renew replaces the mark by the token in every part of the request.
func (r Req) renew(tok string) Req {
	if tok == "" {
		return r
	}
	b := func(s core.B) core.B { return core.B(strings.ReplaceAll(string(s), freshMark, tok)) }
	kv := func(l [][2]core.B) (res [][2]core.B) {
		for _, p := range l {
			res = append(res, [2]core.B{b(p[0]), b(p[1])})
		}
		return
	}
	r.URL, r.CT, r.Body, r.RBody, r.Hdr, r.RHdr = b(r.URL), b(r.CT), b(r.Body), b(r.RBody), kv(r.Hdr), kv(r.RHdr)
	r.Proto, r.RProto, r.IP = string(b(core.B(r.Proto))), string(b(core.B(r.RProto))), string(b(core.B(r.IP)))
	return r
}

// aged replaces the token by the mark in what was observed.
func aged(obs []string, tok string) []string {
	if tok == "" {
		return obs
	}
	res := make([]string, len(obs))
	for i, o := range obs {
		res[i] = strings.ReplaceAll(o, tok, freshMark)
	}
	return res
}

// sharedReq gives request i; from 100 on, those of the similar rules.
func sharedReq(i int) Req {
	if i >= 1000 {
		return freshReqs[i-1000]
	}
	if i >= 200 {
		return nearReqs[i-200]
	}
	if i >= 100 {
		return similarReq(i - 100)
	}
	return sharedReqs[i]
}

// ConcCase is a rule set shared by threads: requests, or texts to load.
type ConcCase struct {
	Rules string           `json:"rules"`
	Reqs  []int            `json:"reqs"`
	Loads []core.B         `json:"loads,omitempty"`
	Bound int              `json:"bound"` // preemptions
	Occ   int              `json:"occ"`   // switch at the first Occ visits of a statement only, 0 all
	Mid   bool             `json:"mid,omitempty"`
	Chunk int              `json:"chunk"`
	Of    int              `json:"of"`
	Plan  []mcsched.Switch `json:"plan,omitempty"`
	Only  bool             `json:"only,omitempty"` // just this plan
}

// SoloCase is one thread of a ConcCase.
type SoloCase struct {
	Rules string `json:"rules"`
	Req   int    `json:"req"`
	Mid   bool   `json:"mid"`
	Mem   int64  `json:"mem"`
	Load  core.B `json:"load,omitempty"`
}

func sharedEngine(dir, rules string, mem int64) (*ms.Engine, *core.Fail) {
	return tokenEngine(dir, rules, mem, "")
}

func tokenEngine(dir, rules string, mem int64, tok string) (*ms.Engine, *core.Fail) {
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	if mem != 0 {
		e.RequestBodyInMem = mem
	}
	shareDefaults(e, rules)
	text := histText(rules)
	if tok != "" {
		text = strings.ReplaceAll(text, freshMark, tok)
	}
	return e, loadRules(e, text)
}

// shareDefaults gives the engine the default actions of a rule set.
func shareDefaults(e *ms.Engine, rules string) {
	if rules == "always" {
		for _, a := range []string{"log", "status:406", "deny"} {
			e.RuleSet.AddDefaultActions(realAct(nil, a))
		}
	}
}

func (c ConcCase) engine(dir, tok string) (*ms.Engine, *core.Fail) {
	return tokenEngine(dir, c.Rules, c.mem(), tok)
}

func (c ConcCase) mem() (mem int64) {
	for _, i := range c.Reqs {
		if sharedReq(i).Mem != 0 {
			mem = sharedReq(i).Mem
		}
	}
	return
}

func init() {
	core.RegisterPristine("solo", func(dir string, arg json.RawMessage) []string {
		var c SoloCase
		if err := json.Unmarshal(arg, &c); err != nil {
			return []string{err.Error()}
		}
		if c.Load != "" {
			return loading(string(c.Load), dir)
		}
		e, f := sharedEngine(dir, c.Rules, c.Mem)
		if f != nil {
			return []string{f.Msg}
		}
		return (&txn{e: e, r: sharedReq(c.Req), mid: c.Mid}).all()
	})
}

// solo is what each thread does alone, in a process that has done nothing else.
func (c ConcCase) solo(ctx *core.Ctx) (res [][]string, f *core.Fail) {
	for _, i := range c.Reqs {
		r, err := ctx.Pristine("solo", SoloCase{Rules: c.Rules, Req: i, Mid: c.Mid, Mem: c.mem()})
		if err != nil {
			return nil, core.Failf("transaction %d alone: %v", i, err)
		}
		res = append(res, r)
	}
	for _, l := range c.Loads {
		r, err := ctx.Pristine("solo", SoloCase{Load: l})
		if err != nil {
			return nil, core.Failf("load alone: %v", err)
		}
		res = append(res, r)
	}
	return res, nil
}

func raceReport() string {
	l, _ := filepath.Glob(os.Getenv("VERIF_RACELOG") + fmt.Sprintf(".%d", os.Getpid()))
	if len(l) == 0 {
		return ""
	}
	d, _ := os.ReadFile(l[0])
	s := string(d)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}

func firstDiff(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("stops after %d of %d observations, before %.300s", i, len(want), want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("observation %d is %.500s, alone it is %.500s", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return "further observation " + got[len(want)]
	}
	return ""
}

func runConc(ctx *core.Ctx, c ConcCase) *core.Fail {
	solo, f := c.solo(ctx)
	if f != nil {
		return f
	}
	n := len(c.Reqs) + len(c.Loads)
	exec := func(plan []mcsched.Switch) (*mcsched.Sched, *core.Fail) {
		tok := ""
		if c.Rules == "fresh" {
			tok = freshToken()
		}
		e, f := c.engine(ctx.Dir, tok)
		if f != nil {
			return nil, f
		}
		refined := c
		refined.Plan, refined.Only = append([]mcsched.Switch{}, plan...), true
		obs := make([][]string, n)
		var bodies []func()
		for k, i := range c.Reqs {
			k, i := k, i
			bodies = append(bodies, func() {
				x := &txn{e: e, r: sharedReq(i).renew(tok), mid: c.Mid}
				for _, f := range x.calls() {
					f()
				}
				obs[k] = aged(x.obs, tok)
			})
		}
		for k, l := range c.Loads {
			k, l := k+len(c.Reqs), string(l)
			if tok != "" {
				l = strings.ReplaceAll(l, freshMark, tok)
			}
			bodies = append(bodies, func() { obs[k] = aged(loading(l, ctx.Dir), tok) })
		}
		mcsched.Begin(2000000)
		races := mcsched.Races()
		s := mcsched.Run(plan, bodies...)
		ctx.Traces(1)
		ctx.Trans(s.Steps())
		ctx.Count("schedules", 1)
		fail := func(f string, a ...interface{}) *core.Fail {
			return &core.Fail{Msg: fmt.Sprintf("schedule %v of %d threads (%v): ", plan, n, c.Reqs) + fmt.Sprintf(f, a...), Refined: refined}
		}
		if s.Stuck {
			ctx.Abandon(stuckWhy)
			return s, nil
		}
		if s.Diverged != "" {
			ctx.Count("diverged", 1)
			return s, nil
		}
		if mcsched.Races() > races {
			return s, fail("two threads access the same memory without ordering, at least one writes\n%s", raceReport())
		}
		if s.Deadlock {
			return s, fail("deadlock")
		}
		for k, p := range s.Panics() {
			if p != nil {
				return s, fail("thread %d panics: %v", k, p)
			}
		}
		for k := range solo {
			if d := firstDiff(obs[k], solo[k]); d != "" {
				return s, fail("thread %d: %s", k, d)
			}
		}
		if h := core.Hash(fmt.Sprint(s.Who[:s.Steps()])); true {
			ctx.State(h)
		}
		ctx.Outcome(fmt.Sprint(core.Hash(fmt.Sprint(obs))))
		return s, nil
	}
	if c.Only {
		for i := 0; ; i++ { // a race is not always noticed
			_, f := exec(c.Plan)
			if f != nil || !mcsched.Race || i == 40 {
				return f
			}
		}
	}
	executions := 0
	var rec func(plan []mcsched.Switch, from, used int) *core.Fail
	rec = func(plan []mcsched.Switch, from, used int) *core.Fail {
		s, f := exec(plan)
		if executions++; executions%64 == 0 {
			cleanDir(ctx.Dir)
		}
		if f != nil || s.Stuck || s.Diverged != "" || ctx.Cut() {
			return f
		}
		seen := map[[2]int32]int{}
		for i := 0; i < len(s.Masks); i++ {
			k := [2]int32{int32(s.Who[i]), s.At[i]}
			seen[k]++
			if i < from || s.Masks[i] == 0 {
				continue
			}
			if len(plan) == 0 && i%c.Of != c.Chunk {
				continue
			}
			cost := 1
			if s.Forced[i] {
				cost = 0
			} else if c.Occ > 0 && seen[k] > c.Occ {
				continue
			}
			if used+cost > c.Bound {
				continue
			}
			first := true
			for t := 0; t < n; t++ {
				if !s.Thread(i, t) {
					continue
				}
				if s.Forced[i] && first { // taken already
					first = false
					continue
				}
				if f := rec(append(append([]mcsched.Switch{}, plan...), mcsched.Switch{Step: i, Thread: t}), i+1, used+cost); f != nil {
					return f
				}
			}
		}
		return nil
	}
	f = rec(nil, 0, 0)
	cleanDir(ctx.Dir)
	return f
}

const stuckWhy = "a thread waits for something the scheduler does not control"

// ColdCase is the first thing a process does.
type ColdCase struct {
	Rules string   `json:"rules"`
	Reqs  []int    `json:"reqs"`
	Loads []core.B `json:"loads,omitempty"`
	Own   bool     `json:"own,omitempty"` // each transaction makes and loads an engine
	First int      `json:"first"`         // the thread that runs first
}

func init() {
	core.RegisterPristine("cold", func(dir string, arg json.RawMessage) []string {
		var c ColdCase
		if err := json.Unmarshal(arg, &c); err != nil {
			return []string{err.Error()}
		}
		cc := ConcCase{Rules: c.Rules, Reqs: c.Reqs, Loads: c.Loads}
		var e *ms.Engine
		if !c.Own && len(c.Reqs) > 0 {
			var f *core.Fail
			if e, f = cc.engine(dir, ""); f != nil {
				return []string{f.Msg}
			}
		}
		obs := make([][]string, len(c.Reqs)+len(c.Loads))
		var bodies []func()
		for k, i := range c.Reqs {
			k, i := k, i
			bodies = append(bodies, func() {
				e := e
				if c.Own {
					var f *core.Fail
					if e, f = cc.engine(dir, ""); f != nil {
						obs[k] = []string{f.Msg}
						return
					}
				}
				obs[k] = (&txn{e: e, r: sharedReq(i)}).all()
			})
		}
		for k, l := range c.Loads {
			k, l := k+len(c.Reqs), string(l)
			bodies = append(bodies, func() { obs[k] = loading(l, dir) })
		}
		var plan []mcsched.Switch
		if c.First > 0 {
			bodies[0], bodies[c.First] = bodies[c.First], bodies[0]
		}
		mcsched.Begin(5000000)
		s := mcsched.Run(plan, bodies...)
		if s.Stuck {
			return []string{stuckWhy}
		}
		var res []string
		if mcsched.Races() > 0 {
			res = append(res, "two threads access the same memory without ordering, at least one writes\n"+raceReport())
		} else {
			res = append(res, "")
		}
		for k, p := range s.Panics() {
			if p != nil {
				res[0] += fmt.Sprintf("thread %d panics: %v", k, p)
			}
		}
		if s.Deadlock {
			res[0] += "deadlock"
		}
		for _, o := range obs {
			d, _ := json.Marshal(o)
			res = append(res, string(d))
		}
		return res
	})
}

func runCold(ctx *core.Ctx, c ColdCase) *core.Fail {
	solo, f := ConcCase{Rules: c.Rules, Reqs: c.Reqs, Loads: c.Loads}.solo(ctx)
	if f != nil {
		return f
	}
	for first := range solo {
		q := c
		q.First = first
		res, err := ctx.Pristine("cold", q)
		if err != nil {
			return core.Failf("threads %v %q in a process of their own: %v", c.Reqs, c.Loads, err)
		}
		ctx.Trans(1)
		ctx.Count("schedules", 1)
		if len(res) == 1 && res[0] == stuckWhy {
			ctx.Abandon(stuckWhy)
			return nil
		}
		if len(res) != len(solo)+1 {
			return core.Failf("threads %v in a process of their own: %q", c.Reqs, res)
		}
		if res[0] != "" {
			return core.Failf("threads %v %q, first thing in a process, number %d first: %s", c.Reqs, c.Loads, first, res[0])
		}
		for k := range solo {
			var obs []string
			json.Unmarshal([]byte(res[k+1]), &obs)
			if d := firstDiff(obs, solo[k]); d != "" {
				return core.Failf("threads %v %q, first thing in a process, number %d first: thread %d: %s", c.Reqs, c.Loads, first, k, d)
			}
			ctx.State(c.Rules, k, fmt.Sprint(obs))
		}
		ctx.Outcome(fmt.Sprint(core.Hash(fmt.Sprint(res))))
	}
	return nil
}

// CallCase interleaves transactions at the calls of the host.
type CallCase struct {
	Rules string `json:"rules"`
	Reqs  []int  `json:"reqs"`
	Short bool   `json:"short,omitempty"`
	Head  []int  `json:"head"` // the first threads to run
	Only  bool   `json:"only,omitempty"`
}

func runCalls(ctx *core.Ctx, c CallCase) *core.Fail {
	cc := ConcCase{Rules: c.Rules, Reqs: c.Reqs}
	solo, f := cc.solo(ctx)
	if f != nil {
		return f
	}
	total := 0
	e, f := cc.engine(ctx.Dir, "")
	if f != nil {
		return f
	}
	n := len(c.Reqs)
	var lens []int
	group := func(l []func()) []func() {
		if !c.Short {
			return l
		}
		var res []func() // three calls at a time
		for len(l) > 0 {
			k := 3
			if k > len(l) {
				k = len(l)
			}
			part := l[:k]
			l = l[k:]
			res = append(res, func() {
				for _, f := range part {
					f()
				}
			})
		}
		return res
	}
	for _, i := range c.Reqs {
		l := len(group((&txn{e: e, r: sharedReq(i)}).calls()))
		lens = append(lens, l)
		total += l
	}
	runs := 0
	one := func(order []int) *core.Fail {
		mcsched.Begin(2000000)
		if runs++; runs%64 == 0 {
			cleanDir(ctx.Dir)
			e, _ = cc.engine(ctx.Dir, "")
		}
		var xs []*txn
		var cs [][]func()
		for _, i := range c.Reqs {
			x := &txn{e: e, r: sharedReq(i)}
			xs = append(xs, x)
			cs = append(cs, group(x.calls()))
		}
		for _, k := range order {
			cs[k][0]()
			cs[k] = cs[k][1:]
		}
		ctx.Trans(len(order))
		ctx.Traces(1)
		for k, x := range xs {
			if d := firstDiff(x.obs, solo[k]); d != "" {
				r := c
				r.Head, r.Only = append([]int{}, order...), true
				return &core.Fail{Msg: fmt.Sprintf("calls of transactions %v in the order %v: transaction %d: %s", c.Reqs, order, k, d), Refined: r}
			}
		}
		ctx.State(fmt.Sprint(order))
		return nil
	}
	if c.Only {
		return one(c.Head)
	}
	left := append([]int{}, lens...)
	for _, k := range c.Head {
		left[k]--
	}
	order := append([]int{}, c.Head...)
	var rec func() *core.Fail
	rec = func() *core.Fail {
		if len(order) == total {
			return one(order)
		}
		if ctx.Cut() {
			return nil
		}
		for k := 0; k < n; k++ {
			if left[k] == 0 {
				continue
			}
			left[k]--
			order = append(order, k)
			f := rec()
			order = order[:len(order)-1]
			left[k]++
			if f != nil {
				return f
			}
		}
		return nil
	}
	f = rec()
	cleanDir(ctx.Dir)
	return f
}

func init() {
	var names []string
	for n := range sharedRules {
		if n != "fresh" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	freshPairs := [][]int{{1000, 1000}, {1000, 1001}, {1001, 1001}, {1002, 1000}, {1001, 1002}}
	freshLoads := []core.B{
		core.B(sharedRules["fresh"]),
		"SecRule ARGS:k70000|!ARGS:/70000/ \"@eq 70000\" \"id:70000,t:urlDecodeUni,msg:'m70000'\"\nSecRule ARGS bogus\"",
	}
	pairs := [][]int{{0, 1}, {1, 2}, {1, 0}, {3, 1}, {0, 0}, {2, 0}}
	loads := []core.B{
		"SecRuleEngine On\nSecRule ARGS:/^a/|!ARGS:b \"@gt 3\" \"id:7,phase:2,t:lowercase,t:none,msg:'x, y',skip:2,status:401,deny\"\n",
		"SecRequestBodyAccess On\nSecRule &REQUEST_HEADERS:a \"!@eq 1\" 'id:8,chain,tag:u'\nSecRule REQUEST_URI z \"id:9,t:urlDecodeUni\"\n",
		"SecRule ARGS x \"id:1,log\"\nSecRule BOGUS x log\n",
	}
	chunks := func(c ConcCase, of int, y func(ConcCase)) {
		for k := 0; k < of; k++ {
			c.Chunk, c.Of = k, of
			y(c)
		}
	}
	core.Register("C15", "races", "two transactions, or a transaction and a load, or two loads: every schedule with one preemption, at the first visits of every statement, each one watched by a happens-before race detector",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for _, r := range names {
				for i, p := range pairs {
					if i < ctx.Pick(2, 6) {
						chunks(ConcCase{Rules: r, Reqs: p, Bound: 1, Occ: ctx.Pick(1, 0)}, 8, y)
					}
				}
			}
			for i, l := range loads {
				for _, m := range loads[:i+1] {
					chunks(ConcCase{Rules: "args", Loads: []core.B{l, m}, Bound: 1, Occ: ctx.Pick(1, 4)}, 8, y)
				}
				chunks(ConcCase{Rules: "args", Reqs: []int{1}, Loads: []core.B{l}, Bound: 1, Occ: ctx.Pick(1, 4)}, 8, y)
			}
		}, runConc).WithBudget(1 << 40).UnderRace()
	core.Register("C15", "fresh races", "two transactions, a transaction and a load, or two loads that share numbers no earlier execution of the process has used, in names, values, types, boundaries and rule texts, with %u escapes and bodies: every schedule with one preemption, at the first visits of every statement, watched by the race detector",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for i, p := range freshPairs {
				if i < ctx.Pick(3, 5) {
					chunks(ConcCase{Rules: "fresh", Reqs: p, Bound: 1, Occ: ctx.Pick(1, 0)}, 16, y)
				}
			}
			for i, l := range freshLoads {
				chunks(ConcCase{Rules: "fresh", Loads: []core.B{l, l}, Bound: 1, Occ: ctx.Pick(1, 4)}, 8, y)
				chunks(ConcCase{Rules: "fresh", Reqs: []int{1000 + i}, Loads: []core.B{l}, Bound: 1, Occ: ctx.Pick(1, 4)}, 8, y)
			}
		}, runConc).WithBudget(1 << 40).UnderRace()
	core.Register("C15", "fresh switch", "the same transactions and loads without the race detector, with one preemption at every statement",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for i, p := range freshPairs {
				chunks(ConcCase{Rules: "fresh", Reqs: p, Bound: 1, Occ: ctx.Pick(4, 0), Mid: i == 4}, 16, y)
			}
			for _, l := range freshLoads {
				chunks(ConcCase{Rules: "fresh", Reqs: []int{1001}, Loads: []core.B{l}, Bound: 1, Occ: ctx.Pick(2, 0)}, 8, y)
			}
		}, runConc).WithBudget(1 << 40)
	core.Register("C15", "cold processes", "two transactions, a transaction and a load, or two loads as the first thing a process does, with one engine they share (where all rules are loaded already) or one that each of them makes: both orders, in a process of its own, watched by the race detector, for every pair of requests and every rule set",
		func(ctx *core.Ctx, y func(ColdCase)) {
			all := append(append([][]int{}, pairs...), []int{0, 2}, []int{1, 1}, []int{2, 2}, []int{3, 3}, []int{2, 3})
			for _, r := range names {
				for i, p := range all {
					if i >= ctx.Pick(5, len(all)) && r != "args" && r != "trans" && r != "bodies" {
						continue
					}
					y(ColdCase{Rules: r, Reqs: p})
					if i < 2 {
						y(ColdCase{Rules: r, Reqs: p, Own: true})
					}
				}
			}
			for _, p := range freshPairs {
				y(ColdCase{Rules: "fresh", Reqs: p})
				y(ColdCase{Rules: "fresh", Reqs: p, Own: true})
			}
			for _, l := range append(append([]core.B{}, loads...), freshLoads...) {
				for _, m := range append(append([]core.B{}, loads...), freshLoads...) {
					y(ColdCase{Rules: "args", Loads: []core.B{l, m}})
				}
				y(ColdCase{Rules: "args", Reqs: []int{1}, Loads: []core.B{l}, Own: true})
				y(ColdCase{Rules: "fresh", Reqs: []int{1000}, Loads: []core.B{l}})
			}
		}, runCold).WithBudget(1 << 40).UnderRace()
	core.Register("C15", "one switch", "two transactions, every schedule with one preemption, at every statement",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for _, r := range names {
				for _, p := range pairs {
					chunks(ConcCase{Rules: r, Reqs: p, Bound: 1, Mid: ctx.Thorough}, 8, y)
				}
			}
		}, runConc).WithBudget(1 << 40)
	core.Register("C15", "loads", "a transaction beside a load of other rules, two loads beside each other, every schedule with one preemption",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for _, l := range loads {
				for _, m := range loads {
					chunks(ConcCase{Rules: "args", Loads: []core.B{l, m}, Bound: 1, Occ: ctx.Pick(3, 0)}, 8, y)
				}
				for _, r := range []string{"args", "chain", "trans"} {
					chunks(ConcCase{Rules: r, Reqs: []int{1}, Loads: []core.B{l}, Bound: 1, Occ: ctx.Pick(3, 0)}, 8, y)
				}
			}
		}, runConc).WithBudget(1 << 40)
	core.Register("C15", "three threads", "three transactions, or two and a load, every schedule with one preemption",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for _, r := range names {
				chunks(ConcCase{Rules: r, Reqs: []int{0, 1, 2}, Bound: 1, Occ: ctx.Pick(2, 0)}, 16, y)
				chunks(ConcCase{Rules: r, Reqs: []int{1, 3}, Loads: loads[:1], Bound: 1, Occ: ctx.Pick(1, 3)}, 16, y)
			}
		}, runConc).WithBudget(1 << 40)
	core.Register("C15", "calls", "two (and three) transactions, every interleaving of the host's calls (for three: of groups of three calls)",
		func(ctx *core.Ctx, y func(CallCase)) {
			for _, r := range names {
				for i, p := range pairs {
					if i >= ctx.Pick(3, 6) {
						break
					}
					short := !ctx.Thorough && i > 0
					seqs(2, 3, 3, func(h []int) {
						y(CallCase{Rules: r, Reqs: p, Head: append([]int{}, h...), Short: short})
					})
				}
				seqs(3, 2, 2, func(h []int) {
					y(CallCase{Rules: r, Reqs: []int{0, 1, 2}, Head: append([]int{}, h...), Short: true})
				})
			}
		}, runCalls).WithBudget(1 << 40)
	core.Register("C15", "similar rules", "all pairs of transactions that reach two of the forty similar rules of C16, every interleaving of groups of three calls",
		func(ctx *core.Ctx, y func(CallCase)) {
			for i := range similar {
				for j := range similar {
					y(CallCase{Rules: "similar", Reqs: []int{100 + i, 100 + j}, Short: true})
				}
			}
		}, runCalls).WithBudget(1 << 40)
	core.Register("C15", "two switches", "two transactions, every schedule with two preemptions, at the first visits of every statement by every thread",
		func(ctx *core.Ctx, y func(ConcCase)) {
			for _, r := range names {
				for i, p := range pairs {
					if i < ctx.Pick(1, 6) {
						chunks(ConcCase{Rules: r, Reqs: p, Bound: 2, Occ: ctx.Pick(1, 2)}, 64, y)
					}
				}
			}
		}, runConc).WithBudget(1 << 40)
}
