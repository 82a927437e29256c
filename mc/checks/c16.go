package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
	"verifmc/mcsched"
)

// ---------------------------------------------------------------------
// histories

// HistCase is a sequence of events on one engine and its rules.
type HistCase struct {
	Rules  string   `json:"rules"`
	Events []string `json:"events"`
	Times  int      `json:"times,omitempty"` // the events that many times in a row
}

// histEvents: the number is the request. "n!" is abandoned after its body,
// "n?" reads all values in every phase, "n-" never asks for the result, "n+"
// asks twice, "load" and "bad" load other texts, "ask" another transaction
// that is created and only read.
var histEvents = []string{"0", "1", "2", "3", "4", "1!", "2?", "3-", "0+", "bad", "load", "ask"}

var histRules = map[string]string{
	"wide": `SecRuleEngine On
SecRule ARGS|REQUEST_HEADERS|REQUEST_COOKIES|!ARGS:/b/|!REQUEST_HEADERS:a "x1" "id:1,phase:2,log,t:lowercase"
SecRule ARGS:a|ARGS:/^n/|!ARGS:n2 "!@rx ^x" "id:2,phase:3,log,chain,status:405"
SecRule &ARGS_POST|ARGS_NAMES "@ge 2" "id:3,deny"
SecRule REQUEST_URI "z" "id:4,phase:3,skip:1,log"
SecRule REQUEST_METHOD "P" "id:5,phase:3,block,log"
SecRule RESPONSE_STATUS "@ge 300" "id:6,phase:4,allow:phase,log"
SecRule RESPONSE_BODY "q" "id:7,phase:5,log,status:503,deny"
`,
}

// similar are links of chains that resemble each other; request k (of "/k")
// gets to the k'th only.
var similar = []string{
	`SecRule ARGS:a "abc" "id:2,log"`, `SecRule ARGS:a "ABC" "id:2,log"`, `SecRule ARGS:a "!abc" "id:2,log"`, `SecRule ARGS:a "(?i)abc" "id:2,log"`, `SecRule ARGS:a "abc " "id:2,log"`, `SecRule ARGS:a "^abc" "id:2,log"`,
	`SecRule ARGS:A "abc" "id:2,log"`, `SecRule ARGS:/A/ "abc" "id:2,log"`, `SecRule ARGS:/a/ "abc" "id:2,log"`, `SecRule ARGS|!ARGS:a "abc" "id:2,log"`, `SecRule ARGS|!ARGS:/a/ "ABC" "id:2,log"`, `SecRule ARGS "abc" "id:2,log"`,
	`SecRule ARGS:n "@eq 1" "id:2,log"`, `SecRule ARGS:n "@eq 10" "id:2,log"`, `SecRule ARGS:n "@ge 1" "id:2,log"`, `SecRule ARGS:n "@gt 10" "id:2,log"`, `SecRule ARGS:n "!@lt 10" "id:2,log"`, `SecRule ARGS:n "@le 10" "id:2,log"`,
	`SecRule ARGS:a "@rx abc" "id:2,log,t:lowercase"`, `SecRule ARGS:u "@rx ^c d$" "id:2,log,t:urlDecode"`, `SecRule ARGS:u "@rx ^c d$" "id:2,log"`, `SecRule ARGS:u "@rx ^cd$" "id:2,log,t:urlDecodeUni,t:removeWhitespace"`, `SecRule ARGS:u "@rx ^cd$" "id:2,log,t:removeWhitespace"`,
	`SecRule &ARGS:a "@eq 1" "id:2,log"`, `SecRule &ARGS:A "@eq 1" "id:2,log"`, `SecRule &ARGS:/n/ "@eq 1" "id:2,log"`, `SecRule &ARGS_GET "@eq 1" "id:2,log"`, `SecRule &ARGS_GET "@eq 5" "id:2,log"`,
	`SecRule REQUEST_HEADERS:a "abc" "id:2,log"`, `SecRule REQUEST_COOKIES:a "abc" "id:2,log"`, `SecRule ARGS_NAMES:a "a" "id:2,log"`, `SecRule ARGS_NAMES "A" "id:2,log"`,
	`SecRule ARGS:a "ABC" "id:2,status:401,deny"`, `SecRule ARGS:a "ABC" "id:2,status:402,deny"`, `SecRule ARGS:a "ABC" "id:2,deny"`, `SecRule ARGS:a "ABC" "id:2,block"`, `SecRule ARGS:a "ABC" "id:2,allow"`, `SecRule ARGS:a "ABC" "id:2,allow:request"`,
	`SecRule ARGS:a "ABC" "id:2,skip"`, `SecRule ARGS:a "ABC" "id:2,skip:2"`,
}

func init() {
	text := ""
	for i, l := range similar {
		text += fmt.Sprintf("SecRule REQUEST_FILENAME \"@rx ^/%d$\" \"id:%d,phase:2,chain\"\n%s\n", i, i+10, l)
		text += fmt.Sprintf("SecRule REQUEST_FILENAME \"@rx ^/%d$\" \"id:%d,phase:2,log\"\n", i, i+500)
		text += fmt.Sprintf("SecRule REQUEST_FILENAME \"@rx ^/%d$\" \"id:%d,phase:3,log\"\n", i, i+700)
	}
	histRules["similar"] = text
}

func similarReq(k int) Req {
	return Req{Method: "GET", URL: core.B(fmt.Sprintf("/%d?a=ABC&A=abc&n=010&n2=1&u=c%%2520d", k)), Proto: "HTTP/1.1", Hdr: [][2]core.B{{"a", "ABC"}, {"A", "abc"}, {"Cookie", "a=ABC; A=abc"}}, Code: 200}
}

func histText(name string) string {
	if s, ok := histRules[name]; ok {
		return s
	}
	return sharedRules[name]
}

var histReqs = append(append([]Req{}, sharedReqs...),
	// the body does not fit: reading the arguments aborts
	Req{Method: "POST", URL: "/?a1=x1&a2=y&n=1&n2=x", IP: "10.9.9.9", CT: "application/x-www-form-urlencoded", Body: "a=x1&b=y&c=q&d=e",
		Hdr: [][2]core.B{{"a", "v1"}, {"b", "v1"}, {"c", "x1"}, {"Cookie", "s=v1; ss=x1;t"}}, Code: 301, RHdr: [][2]core.B{{"a", "w2"}, {"b", "w2"}}, RBody: "qq", Mem: 8})

func histMem(rules string) int64 {
	if rules == "near" {
		return 0
	}
	return 12
}

func histEngine(dir, rules string, mem int64) (*ms.Engine, *core.Fail) {
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	if mem != 0 {
		e.RequestBodyInMem = mem
	}
	shareDefaults(e, rules)
	return e, loadRules(e, histText(rules))
}

func histEvent(e *ms.Engine, ev, dir string) []string {
	switch ev {
	case "bad":
		return loading("SecRule ARGS:/x/ x1 \"id:1,phase:2,deny\"\nSecRule ARGS x bogus", dir)
	case "load":
		return loading("SecRuleEngine Off\nSecRule ARGS:/x/|!ARGS:y \"@eq 1\" \"id:1,phase:2,t:lowercase,skip:3,status:404\"", dir)
	case "ask":
		x := &txn{e: e}
		t, err := e.NewTransaction()
		if err != nil {
			return []string{err.Error()}
		}
		x.t = t
		x.values()
		x.result()
		return x.obs
	}
	var r Req
	if strings.IndexByte("~*^_", ev[0]) >= 0 {
		k, _ := strconv.Atoi(ev[1:])
		r = nearReqs[k]
		if ev[0] != '~' { // on another engine
			var f *core.Fail
			if e, f = histEngine(dir, "near", 0); f != nil {
				return []string{f.Msg}
			}
			switch ev[0] {
			case '*':
				e.Enable(ms.StatusDect)
				e.RequestBodyAccess, e.ResponseBodyAccess = false, false
			case '^':
				e.RequestBodyInMem, e.RequestBody, e.ResponseBody = 3, 1000, 1000
			case '_':
				e.RuleSet.Phases[5] = e.RuleSet.Phases[5][3:5]
			}
		}
		ev = ev[:1]
	} else if ev[0] == '/' {
		k, _ := strconv.Atoi(ev[1:])
		r = similarReq(k)
		ev = ev[:1] // no suffix
	} else {
		r = histReqs[ev[0]-'0']
	}
	x := &txn{e: e, r: r, mid: strings.HasSuffix(ev, "?")}
	l := x.calls()
	switch ev[1:] {
	case "!":
		l = l[:5]
	case "+":
		l = append(l, x.result, x.result)
	case "-":
		x.e = &ms.Engine{RuleSet: ms.NewSecRuleSet()}
		t, err := e.NewTransaction()
		if err != nil {
			return []string{err.Error()}
		}
		if err := x.r.play(t); err != nil {
			return []string{err.Error()}
		}
		x.t, x.e = t, e
		l = []func(){x.values}
	}
	for _, f := range l {
		f()
	}
	return x.obs
}

func init() {
	core.RegisterPristine("event", func(dir string, arg json.RawMessage) []string {
		var a [2]string
		if err := json.Unmarshal(arg, &a); err != nil {
			return []string{err.Error()}
		}
		e, f := histEngine(dir, a[0], histMem(a[0]))
		if f != nil {
			return []string{f.Msg}
		}
		return histEvent(e, a[1], dir)
	})
}

func (c HistCase) all() []string {
	if c.Times == 0 {
		return c.Events
	}
	res := make([]string, 0, len(c.Events)*c.Times)
	for i := 0; i < c.Times; i++ {
		res = append(res, c.Events...)
	}
	return res
}

func runHist(ctx *core.Ctx, c HistCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	e, f := histEngine(ctx.Dir, c.Rules, histMem(c.Rules))
	if f != nil {
		return f
	}
	for i, ev := range c.all() {
		want, err := ctx.Pristine("event", [2]string{c.Rules, ev})
		if err != nil {
			return core.Failf("%s alone: %v", ev, err)
		}
		got := histEvent(e, ev, ctx.Dir)
		ctx.Trans(len(want))
		if d := firstDiff(got, want); d != "" {
			if c.Times > 0 {
				return core.Failf("after %d events (%v repeated) on the same engine, %s: %s", i, c.Events, ev, d)
			}
			return core.Failf("after %v on the same engine, %s: %s", c.Events[:i], ev, d)
		}
		if c.Times > 0 {
			if i%64 == 0 {
				cleanDir(ctx.Dir)
			}
			ctx.State(c.Rules, fmt.Sprint(got), i)
			continue
		}
		ctx.State(c.Rules, fmt.Sprint(got), fmt.Sprint(c.Events[:i+1]))
		ctx.Outcome(fmt.Sprint(got))
	}
	return nil
}

// ---------------------------------------------------------------------
// visiting orders of maps

// OrderCase explores the visiting orders of the maps of one transaction.
type OrderCase struct {
	Rules string      `json:"rules"`
	Req   int         `json:"req"`
	Wide  int         `json:"wide,omitempty"` // a request with that many entries in every collection
	Dev   int         `json:"dev"`            // visits that deviate from the sorted order
	Load  bool        `json:"load,omitempty"`
	Fix   map[int]int `json:"fix,omitempty"` // visit -> order
	Every string      `json:"every,omitempty"`
	Only  bool        `json:"only,omitempty"`
}

// permNo gives the k'th order of n keys but the sorted one; nil when there are
// no more. Up to 4 keys these are all, beyond all rotations, the reversal and
// all exchanges.
func permNo(n, k int) []int {
	var res []int
	if n <= 4 {
		i := -1
		perms(n, func(p []int) {
			same := true
			for j, x := range p {
				same = same && j == x
			}
			if same {
				return
			}
			if i++; i == k {
				res = append([]int{}, p...)
			}
		})
		return res
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if k < n-1 {
		return append(append([]int{}, id[k+1:]...), id[:k+1]...)
	}
	k -= n - 1
	if k == 0 {
		for i := range id {
			id[i] = n - 1 - i
		}
		return id
	}
	k--
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			if k == 0 {
				id[a], id[b] = b, a
				return id
			}
			k--
		}
	}
	return nil
}

var every = map[string]func(int) []int{
	"reverse": func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = n - 1 - i
		}
		return p
	},
	"left": func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + 1) % n
		}
		return p
	},
	"right": func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + n - 1) % n
		}
		return p
	},
	"odd": func(n int) []int {
		var p []int
		for i := 1; i < n; i += 2 {
			p = append(p, i)
		}
		for i := 0; i < n; i += 2 {
			p = append(p, i)
		}
		return p
	},
}

var orderReqs = append(append([]Req{}, histReqs...),
	Req{Method: "POST", URL: "/z?a=x1&b=x&c=1&d=2", IP: "10.0.0.1", CT: "application/x-www-form-urlencoded", Body: "a=y&n=x1&bb=3&ab=4",
		Hdr: [][2]core.B{{"a", "v1"}, {"b", "x1"}, {"c", "v1 w"}}, Code: 200, RHdr: [][2]core.B{{"a", "1"}, {"b", "w2"}, {"c", "w2"}}},
	Req{Method: "PUT", URL: "/?a=%zz&b=x1&c=y", IP: "10.0.0.1", CT: "multipart/form-data; boundary=B", Body: core.B(mpBody + "junk"),
		Hdr: [][2]core.B{{"Cookie", "c=1;b=2;s=v1;a=v1"}}, Code: 200})

// wideReq has n entries in every collection.
func wideReq(n int) Req {
	var q, b, c []string
	r := Req{Method: "POST", IP: "10.0.0.1", CT: "application/x-www-form-urlencoded", Code: 200}
	for i := 0; i < n; i++ {
		q = append(q, fmt.Sprintf("a%d=x%d", i, i))
		b = append(b, fmt.Sprintf("n%d=y%d", i, i))
		c = append(c, fmt.Sprintf("s%d=v%d", i, i))
		r.Hdr = append(r.Hdr, [2]core.B{core.B(fmt.Sprintf("h%d", i)), core.B(fmt.Sprintf("v%d", i))})
		r.RHdr = append(r.RHdr, [2]core.B{core.B(fmt.Sprintf("r%d", i)), core.B(fmt.Sprintf("w%d", i))})
	}
	r.URL, r.Body = core.B("/p?"+strings.Join(q, "&")), core.B(strings.Join(b, "&"))
	r.Hdr = append(r.Hdr, [2]core.B{"Cookie", core.B(strings.Join(c, ";"))})
	return r
}

func init() {
	histRules["all"] = "SecRule " + strings.Join(collections, "|") + "|&ARGS|&ARGS_POST|&REQUEST_HEADERS \"@rx [13579]$\" \"id:1,phase:2,log\"\n" +
		"SecRule ARGS:/[0-4]$/|REQUEST_HEADERS:/[0-4]$/|REQUEST_COOKIES|!REQUEST_COOKIES:s7 \"@gt 9\" \"id:2,phase:3,log\"\n" +
		"SecRule ARGS_POST \"@rx ^y7$\" \"id:3,phase:3,deny,status:407\"\n"
}

func runOrder(ctx *core.Ctx, c OrderCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	defer func() { mcsched.Order = nil }()
	runs := 0
	// one executes with the given orders and returns what is seen, and the
	// number of keys of every visit
	one := func(fix map[int]int, all func(int) []int) (obs []string, ns []int, f *core.Fail) {
		if runs++; runs%64 == 0 {
			cleanDir(ctx.Dir)
		}
		mcsched.Begin(2000000)
		order := func(n int) []int {
			i := len(ns)
			ns = append(ns, n)
			if all != nil {
				return all(n)
			}
			if k, ok := fix[i]; ok {
				return permNo(n, k)
			}
			return nil
		}
		if c.Load {
			mcsched.Order = order
		}
		e, f := histEngine(ctx.Dir, c.Rules, 0)
		mcsched.Order = order
		if f != nil {
			return nil, nil, f
		}
		var r Req
		if c.Wide > 0 {
			r = wideReq(c.Wide)
		} else {
			r = orderReqs[c.Req]
		}
		if r.Mem != 0 {
			e.RequestBodyInMem = 20
		}
		obs = (&txn{e: e, r: r, mid: false}).all()
		mcsched.Order = nil
		ctx.Trans(len(ns))
		ctx.Traces(1)
		return
	}
	want, ns0, f := one(nil, nil)
	if f != nil {
		return f
	}
	check := func(fix map[int]int, every string, obs []string) *core.Fail {
		ctx.State(every, fmt.Sprint(fix))
		ctx.Outcome(fmt.Sprint(obs))
		if d := firstDiff(obs, want); d != "" {
			r := c
			r.Only, r.Every, r.Fix = true, every, map[int]int{}
			for k, v := range fix {
				r.Fix[k] = v
			}
			return &core.Fail{Msg: fmt.Sprintf("visiting maps in another order (%s %v of %d visits): %s\n(there \"alone\" means: in sorted order)", every, fix, len(ns0), d), Refined: r}
		}
		return nil
	}
	if c.Only {
		obs, _, f := one(c.Fix, every[c.Every])
		if f != nil {
			return f
		}
		return check(c.Fix, c.Every, obs)
	}
	for _, n := range []string{"reverse", "left", "right", "odd"} {
		obs, _, f := one(nil, every[n])
		if f == nil {
			f = check(nil, n, obs)
		}
		if f != nil {
			return f
		}
	}
	if c.Dev == 0 {
		return nil
	}
	fix := map[int]int{}
	var rec func(ns []int, from, dev int) *core.Fail
	rec = func(ns []int, from, dev int) *core.Fail {
		for i := from; i < len(ns); i++ {
			for k := 0; permNo(ns[i], k) != nil; k++ {
				if ctx.Cut() {
					return nil
				}
				fix[i] = k
				obs, ns2, f := one(fix, nil)
				if f == nil {
					f = check(fix, "", obs)
				}
				if f == nil && dev > 1 {
					f = rec(ns2, i+1, dev-1)
				}
				delete(fix, i)
				if f != nil {
					return f
				}
			}
		}
		return nil
	}
	return rec(ns0, 0, c.Dev)
}

// ---------------------------------------------------------------------
// reading orders

// ReadCase reads variables at the moments of a transaction.
type ReadCase struct {
	Req   int      `json:"req"`
	At    int      `json:"at"` // after this many calls
	Reads []string `json:"reads"`
}

var readVars = func() []string {
	var res []string
	res = append(res, collections...)
	res = append(res, scalars...)
	return append(res, "&ARGS", "&ARGS_POST:a", "ARGS:a", "ARGS:/^a/", "!ARGS:a", "REQUEST_HEADERS:a", "REQUEST_COOKIES:s", "ARGS_POST:/a/", "&REQUEST_HEADERS", "ARGS|ARGS_POST|REQUEST_BODY", "REQUEST_BODY|ARGS_POST")
}()

var readRule = map[string]*ms.SecRule{}

func runRead(ctx *core.Ctx, c ReadCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	if len(readRule) == 0 {
		for i, v := range readVars {
			ds, err := seclang.NewDireSetFromSecLangString(fmt.Sprintf("SecRule %s \"@rx no such value\" \"id:%d,phase:5,log\"", v, i+1))
			if err == nil {
				e := ms.NewEngine()
				if err = ds.Execute(e); err == nil {
					readRule[v] = e.RuleSet.Phases[5][0]
				}
			}
			if err != nil {
				return core.Failf("a valid target was refused: %v", err)
			}
		}
	}
	r := orderReqs[c.Req]
	// play with reads, and read everything in the end
	play := func(reads, final []string) (obs []string, vals [][]string, f *core.Fail) {
		e, f := histEngine(ctx.Dir, "wide", r.Mem)
		if f != nil {
			return nil, nil, f
		}
		x := &txn{e: e, r: r}
		l := x.calls()
		for i, call := range l[:len(l)-1] {
			if i == c.At {
				for _, v := range reads {
					vals = append(vals, sorted(readRule[v].FetchAllTransformedVariables(x.t)))
				}
			}
			call()
		}
		for _, v := range final {
			x.note("%s: %q", v, sorted(readRule[v].FetchAllTransformedVariables(x.t)))
		}
		i := x.t.Result()
		x.note("%d %v %v %q", i.Status, i.Disruptive, i.Url, i.Log)
		ctx.Trans(len(reads) + len(final))
		return x.obs, vals, nil
	}
	_, vals, f := play(c.Reads, nil)
	if f != nil {
		return f
	}
	ctx.Traces(1)
	for i, v := range c.Reads {
		_, alone, f := play([]string{v}, nil)
		if f != nil {
			return f
		}
		if !sameMultiset(vals[i], alone[0]) {
			return core.Failf("reading %v after %d calls of %d: %s yields %s, read first it yields %s", c.Reads, c.At, c.Req, v, quoteAll(vals[i]), quoteAll(alone[0]))
		}
	}
	// the values in the end, and the verdict, do not depend on the reads
	seen := map[string]bool{}
	for _, v := range c.Reads {
		seen[v] = true
	}
	var last []string
	for _, v := range readVars {
		last = append(last, v)
	}
	sort.SliceStable(last, func(i, j int) bool { return seen[last[i]] && !seen[last[j]] })
	with, _, f := play(c.Reads, last)
	if f != nil {
		return f
	}
	without, _, f := play(nil, last)
	if f != nil {
		return f
	}
	if d := firstDiff(with, without); d != "" {
		return core.Failf("reading %v after %d calls changes what follows: %s", c.Reads, c.At, d)
	}
	ctx.State(fmt.Sprint(with), c.Req, c.At, fmt.Sprint(c.Reads))
	ctx.Outcome(fmt.Sprint(vals))
	return nil
}

func init() {
	var names []string
	for n := range sharedRules {
		names = append(names, n)
	}
	sort.Strings(names)
	names = append(names, "wide")
	core.Register("C16", "histories", "every sequence of up to three (thorough: four) of twelve events (transactions, abandoned ones, ones nobody asked the result of, loads) on one engine, each compared with the event on a fresh engine in a process of its own",
		func(ctx *core.Ctx, y func(HistCase)) {
			for _, r := range names {
				seqs(len(histEvents), 2, ctx.Pick(3, 4), func(s []int) {
					y(HistCase{Rules: r, Events: pickS(histEvents, s)})
				})
			}
		}, runHist).WithBudget(1 << 40)
	core.Register("C16", "long histories", "each event 2100 (thorough: 70000) times in a row on one engine, and all events 300 (thorough: 6000) times in turn, each compared with the event on a fresh engine in a process of its own",
		func(ctx *core.Ctx, y func(HistCase)) {
			for _, r := range names {
				for _, ev := range histEvents {
					y(HistCase{Rules: r, Events: []string{ev}, Times: ctx.Pick(2100, 70000)})
				}
				y(HistCase{Rules: r, Events: histEvents, Times: ctx.Pick(300, 6000)})
			}
		}, runHist).WithBudget(1 << 40)
	core.Register("C16", "orders", "every visiting order of every single map visit (thorough: every two) of a transaction and, for up to four keys, all permutations; and four orders applied to all visits",
		func(ctx *core.Ctx, y func(OrderCase)) {
			for _, r := range names {
				for q := range orderReqs {
					y(OrderCase{Rules: r, Req: q, Dev: ctx.Pick(1, 2)})
					y(OrderCase{Rules: r, Req: q, Dev: 1, Load: true})
				}
			}
		}, runOrder).WithBudget(1 << 40)
	core.Register("C16", "wide orders", "requests with 0..40 and more (up to 1025) entries in every collection, all map visits in four other orders",
		func(ctx *core.Ctx, y func(OrderCase)) {
			for _, n := range append(counts(ctx), 1023, 1024, 1025) {
				if n == 0 {
					continue
				}
				y(OrderCase{Rules: "all", Wide: n})
				y(OrderCase{Rules: "wide", Wide: n})
			}
		}, runOrder).WithBudget(1 << 40)
	core.Register("C16", "similar rules", "forty chained rules that differ in one thing (letter case of a pattern, number, target, transformation, status, ...), each reached by its own request only, the values being the same: all pairs (thorough: triples) of such requests in a row on one engine, each compared with the request alone in a process of its own",
		func(ctx *core.Ctx, y func(HistCase)) {
			seqs(len(similar), 2, ctx.Pick(2, 3), func(s []int) {
				var evs []string
				for _, k := range s {
					evs = append(evs, fmt.Sprintf("/%d", k))
				}
				y(HistCase{Rules: "similar", Events: evs})
			})
			// in a row, in both directions
			var up, down []string
			for k := range similar {
				up = append(up, fmt.Sprintf("/%d", k))
				down = append(down, fmt.Sprintf("/%d", len(similar)-1-k))
			}
			y(HistCase{Rules: "similar", Events: append(append(append([]string{}, up...), up...), down...)})
			y(HistCase{Rules: "similar", Events: append(append([]string{}, down...), up...)})
		}, runHist).WithBudget(1 << 40)
	core.Register("C16", "reads", "every two (thorough: three) of the variables read after every call of a transaction, in both orders, and the first one again: the values are those of a first reading, and neither later values nor the verdict change",
		func(ctx *core.Ctx, y func(ReadCase)) {
			for q, r := range orderReqs {
				if r.Mem != 0 && r.Method == "POST" {
					continue // reading arguments that do not fit aborts, by design
				}
				for at := 1; at <= 8; at++ {
					seqs(len(readVars), 2, 2, func(s []int) {
						l := pickS(readVars, s)
						y(ReadCase{Req: q, At: at, Reads: append(l, l[0])})
					})
				}
				if ctx.Thorough {
					for _, at := range []int{6, 8} {
						seqs(len(readVars), 3, 3, func(s []int) { y(ReadCase{Req: q, At: at, Reads: pickS(readVars, s)}) })
					}
				}
			}
		}, runRead).WithBudget(1 << 40)
}
