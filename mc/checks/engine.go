package checks

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// the case: rules and host calls

// Rule is a rule made of probes. V holds one entry per target: its values,
// separated by commas; "-" is a target without values, "A" one that aborts the
// transaction with 413 while it is read.
type Rule struct {
	Ph   int      `json:"ph,omitempty"`
	Id   int      `json:"id,omitempty"`
	V    []string `json:"v"`
	Not  bool     `json:"not,omitempty"`
	T    []string `json:"t,omitempty"`
	Want string   `json:"want,omitempty"` // values the operator matches, default "1"
	Acts []string `json:"acts,omitempty"`
	Subs []Rule   `json:"subs,omitempty"`

	Times int `json:"times,omitempty"` // so many of it in a row
}

var timesForm = regexp.MustCompile(`^[0-9]+\*`)

// spelled writes out the entries of the form "n*text".
func spelled(l []string) []string {
	var res []string
	for i, s := range l {
		m := timesForm.FindString(s)
		if m == "" {
			if res != nil {
				res = append(res, s)
			}
			continue
		}
		if res == nil {
			res = append(make([]string, 0, 2*len(l)), l[:i]...)
		}
		n, _ := strconv.Atoi(m[:len(m)-1])
		for ; n > 0; n-- {
			res = append(res, s[len(m):])
		}
	}
	if res == nil {
		return l
	}
	return res
}

// writtenOut gives the rules with everything that is written as repeated.
func writtenOut(rules []Rule) []Rule {
	var res []Rule
	for _, r := range rules {
		r.V, r.T, r.Acts, r.Subs = spelled(r.V), spelled(r.T), spelled(r.Acts), writtenOut(r.Subs)
		n := r.Times
		r.Times = 0
		res = append(res, r)
		for ; n > 1; n-- {
			res = append(res, r)
		}
	}
	return res
}

// EngineCase is a rule set, and the calls a host makes on one transaction.
type EngineCase struct {
	Mode    string   `json:"mode,omitempty"`
	Rules   []Rule   `json:"rules"`
	Default []string `json:"default,omitempty"`
	Ops     []string `json:"ops"`
	Sec     bool     `json:"seclang,omitempty"` // load the rules from SecLang text
	Group   int      `json:"group,omitempty"`   // how many rules one AddSecRule call adds
	Access  int      `json:"access,omitempty"`  // bits: request bodies, response bodies, small limits

	Foreign bool `json:"foreign,omitempty"` // over a rule set that is not the engine's

	prepare func(*engineT) *core.Fail // done to the engine before the transaction
	final   string                    // the mode then in force
	own     *ms.SecRuleSet
}

type engineT = ms.Engine

var stepPhase = map[string]int{"conn": 1, "conn2": 1, "conn3": 1, "reqh": 2, "reqb": 3, "resph": 4, "respb": 5, "log": 6}
var steps6 = []string{"conn", "reqh", "reqb", "resph", "respb", "log"}

var addrs = map[string][2]string{"conn": {"10.0.0.1", "4242"}, "conn2": {"2001:db8::7", "80"}, "conn3": {"%s%d%", "%v"}}

// ---------------------------------------------------------------------
// probes

type recorder struct{ ev []string }

func (r *recorder) add(f string, a ...interface{}) { r.ev = append(r.ev, fmt.Sprintf(f, a...)) }

type probeVar struct {
	r    *recorder
	tag  string
	vals []string
	abrt bool
}

func (p *probeVar) Name() string         { return "PROBE" }
func (p *probeVar) Include(string) error { return nil }
func (p *probeVar) Exclude(string) error { return nil }
func (p *probeVar) Fetch(t *ms.Transaction) []string {
	if p.tag != "" {
		p.r.add("eval %s", p.tag)
	}
	if p.abrt {
		t.AbortWithError(413, errors.New("probe abort"))
	}
	return p.vals
}

type probeTrans struct{ k string }

func (p probeTrans) Name() string { return p.k }
func (p probeTrans) Trans(_ *ms.Transaction, s string) string {
	return transProbe(p.k, s)
}

func transProbe(k, s string) string {
	switch k {
	case "a":
		return s + "a"
	case "d":
		return s + s
	case "r":
		b := []byte(s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case "x": // drop the first
		if s == "" {
			return s
		}
		return s[1:]
	}
	panic(k)
}

type probeOp struct{ want []string }

func (p *probeOp) Name() string { return "probe" }
func (p *probeOp) Args() string { return strings.Join(p.want, ",") }
func (p *probeOp) Match(_ *ms.Transaction, s string) bool {
	for _, w := range p.want {
		if w == s {
			return true
		}
	}
	return false
}

const redirectTo = "http://h/away?x=1"

type probeAct struct {
	r     *recorder
	group int
	label string
}

func (p *probeAct) Name() string     { return "probe" }
func (p *probeAct) Value() string    { return p.label }
func (p *probeAct) ActionGroup() int { return p.group }
func (p *probeAct) Do(t *ms.Transaction) {
	i := t.Intervention()
	p.r.add("act %s status=%d disruptive=%v", p.label, i.Status, i.Disruptive)
	if p.label == "x3:redirect" { // what an action of the host may do
		i.Status, i.Disruptive, i.Pause = 302, true, time.Second
		i.Url, _ = url.Parse(redirectTo)
	}
}

func wants(r Rule) []string {
	if r.Want == "" {
		return []string{"1"}
	}
	return expand(strings.Split(r.Want, ","))
}

func vals(v string) []string {
	if v == "-" {
		return nil
	}
	return expand(strings.Split(v, ","))
}

// expand replaces "*nx" by n times x, and "#n" by n values "0".
func expand(l []string) []string {
	var res []string
	for _, s := range l {
		if s != "" && (s[0] == '*' || s[0] == '#') {
			n, i := 0, 1
			for ; i < len(s) && '0' <= s[i] && s[i] <= '9'; i++ {
				n = n*10 + int(s[i]-'0')
			}
			if s[0] == '*' {
				res = append(res, strings.Repeat(s[i:], n))
				continue
			}
			for ; n > 0; n-- {
				res = append(res, "0")
			}
			continue
		}
		res = append(res, s)
	}
	return res
}

func realAct(r *recorder, a string) ms.Action {
	name, arg := a, ""
	if i := strings.Index(a, ":"); i >= 0 {
		name, arg = a[:i], a[i+1:]
	}
	switch name {
	case "log":
		return actions.NewActionLog()
	case "deny":
		return actions.NewActionDeny()
	case "block":
		return actions.NewActionBlock()
	case "pass":
		return actions.NewActionPass()
	case "allow":
		return actions.NewActionAllow(arg)
	case "status":
		n, _ := strconv.Atoi(arg)
		return actions.NewActionStatus(n)
	case "skip":
		if arg == "" {
			return actions.NewActionSkip()
		}
		return loadedSkip(arg)
	case "x0", "x1", "x2", "x3", "x4":
		return &probeAct{r, int(name[1] - '0'), a}
	}
	panic("unknown action " + a)
}

// loadedSkip takes the action from loaded text.
func loadedSkip(arg string) ms.Action {
	e := ms.NewEngine()
	ds, err := seclang.NewDireSetFromSecLangString("SecRule ARGS x \"phase:1,skip:" + arg + "\"")
	if err == nil {
		err = ds.Execute(e)
	}
	if err != nil {
		panic(err)
	}
	return e.RuleSet.Phases[1][0].Actions[0]
}

func realRule(r *recorder, s Rule, tag string) *ms.SecRule {
	res := ms.NewSecRule()
	res.Phase = s.Ph
	res.Id = s.Id
	res.Not = s.Not
	for i, v := range s.V {
		p := &probeVar{r: r, vals: vals(v), abrt: v == "A"}
		if p.abrt {
			p.vals = []string{"1"}
		}
		if i == 0 {
			p.tag = tag
		}
		res.AppendVariables(p)
	}
	for _, t := range s.T {
		res.AppendTrans(probeTrans{t})
	}
	res.SetOperator(&probeOp{wants(s)})
	for _, a := range s.Acts {
		res.AppendActions(realAct(r, a))
	}
	for _, sub := range s.Subs {
		res.AppendSubRules(realRule(r, sub, ""))
	}
	return res
}

// secRule renders a rule as SecLang text: only matching or not matching
// targets, and actions of the language.
func secRule(s Rule, chain bool, sub bool) string {
	re := "^never$"
	if ruleMatch(s) == matched {
		re = ".*"
	}
	acts := []string{"id:7"}
	if s.Id > 0 {
		acts[0] = fmt.Sprintf("id:%d", s.Id)
	}
	if !sub {
		acts = append(acts, fmt.Sprintf("phase:%d", s.Ph))
	}
	acts = append(acts, s.Acts...)
	if chain {
		acts = append(acts, "chain")
	}
	return fmt.Sprintf("SecRule REMOTE_ADDR \"@rx %s\" \"%s\"\n", re, strings.Join(acts, ","))
}

func secText(rules []Rule) string {
	var res strings.Builder
	for _, r := range rules {
		res.WriteString(secRule(r, len(r.Subs) > 0, false))
		for i, s := range r.Subs {
			res.WriteString(secRule(s, i < len(r.Subs)-1, true))
		}
	}
	return res.String()
}

// ---------------------------------------------------------------------
// the reference model

const (
	unmatched = iota
	matched
	aborts // a target aborts, unless detection only
)

func ruleMatch(r Rule) int {
	res := unmatched
	for _, v := range r.V {
		if v == "A" {
			return aborts
		}
		for _, s := range vals(v) {
			for _, t := range r.T {
				s = transProbe(t, s)
			}
			hit := false
			for _, w := range wants(r) {
				hit = hit || w == s
			}
			if hit != r.Not {
				res = matched
			}
		}
	}
	return res
}

type logExp struct {
	ip, port string
	phase    int // -1 for a record of the host after an allow
	contains []string
}

type refEngine struct {
	c          EngineCase
	rules      map[int][]int
	mode       string
	last       int // highest phase whose step was taken
	floor      int // phases below are bypassed
	status     int
	disruptive bool
	redirect   bool
	abort      bool
	logs       []logExp
	ip, port   string
	ruleStatus int // status given in the current rule, -1 for none
	phase      int
	moved      bool
	inside     bool // evaluating rules
	skip       int
	ended      bool
	ev         []string
}

func newRef(c EngineCase) *refEngine {
	r := &refEngine{c: c, mode: c.Mode, status: 200, rules: map[int][]int{}}
	for i, s := range c.Rules {
		if s.Ph >= 1 && s.Ph <= 6 {
			r.rules[s.Ph] = append(r.rules[s.Ph], i)
		}
	}
	return r
}

func (r *refEngine) record(contains ...string) {
	ph := r.phase
	if r.moved && !r.inside {
		ph = -1
	}
	r.logs = append(r.logs, logExp{r.ip, r.port, ph, contains})
}

func groupOf(a string) int {
	switch strings.SplitN(a, ":", 2)[0] {
	case "x0":
		return 0
	case "x1", "status":
		return 1
	case "x2", "log":
		return 2
	case "x3", "deny", "block", "pass", "allow":
		return 3
	case "x4", "skip":
		return 4
	}
	panic(a)
}

func (r *refEngine) doActs(acts []string) {
	acts = append([]string{}, acts...)
	sort.SliceStable(acts, func(i, j int) bool { return groupOf(acts[i]) < groupOf(acts[j]) })
	for _, a := range acts {
		name, arg := a, ""
		if i := strings.Index(a, ":"); i >= 0 {
			name, arg = a[:i], a[i+1:]
		}
		switch name {
		case "log":
			r.record()
		case "status":
			r.ruleStatus, _ = strconv.Atoi(arg)
		case "deny":
			if r.mode == "detect" {
				r.record()
				continue
			}
			if !r.disruptive {
				r.status = 403
				if r.ruleStatus >= 100 && r.ruleStatus <= 599 {
					r.status = r.ruleStatus
				}
			}
			r.disruptive = true
			r.record(strconv.Itoa(r.status))
		case "block":
			r.doActs(r.c.Default)
		case "pass":
			r.status, r.disruptive = 200, false
		case "allow":
			if r.mode == "detect" {
				continue
			}
			to := r.phase + 1
			if arg == "" && to < 6 {
				to = 6
			}
			if arg == "request" && to < 4 {
				to = 4
			}
			if to > r.floor {
				r.floor = to
			}
			r.ended, r.moved = true, true
		case "skip":
			r.skip = 1
			if arg != "" {
				r.skip, _ = strconv.Atoi(arg)
			}
		default:
			r.ev = append(r.ev, fmt.Sprintf("act %s status=%d disruptive=%v", a, r.status, r.disruptive))
			if a == "x3:redirect" {
				r.status, r.disruptive, r.redirect = 302, true, true
			}
		}
	}
}

func (r *refEngine) abortErr(code int, msg string) {
	r.record(msg)
	if r.mode == "detect" {
		return
	}
	r.abort, r.disruptive, r.status = true, true, code
}

// link evaluates one rule of a chain.
func (r *refEngine) link(s Rule) bool {
	m := ruleMatch(s)
	if m == aborts {
		for _, v := range s.V {
			if v == "A" {
				r.abortErr(413, "probe abort")
			}
		}
		if r.abort {
			return false
		}
		// detection only: the probe's value is 1
		t := s
		t.V = append([]string{}, s.V...)
		for i, v := range t.V {
			if v == "A" {
				t.V[i] = "1"
			}
		}
		m = ruleMatch(t)
	}
	return m == matched
}

func (r *refEngine) process(p int) {
	if p <= r.last || p < r.floor {
		return
	}
	r.last, r.phase, r.moved = p, p, false
	if r.abort || r.mode == "off" || r.disruptive {
		return
	}
	r.inside = true
	defer func() { r.inside = false }()
	list := r.rules[p]
	for i := 0; i < len(list); {
		s := r.c.Rules[list[i]]
		r.skip, r.ended = 0, false
		if len(s.V) > 0 {
			r.ev = append(r.ev, fmt.Sprintf("eval r%d", list[i]))
		}
		ok := r.link(s)
		for _, sub := range s.Subs {
			ok = ok && r.link(sub)
		}
		if ok {
			r.ruleStatus = -1
			r.doActs(s.Acts)
			for _, sub := range s.Subs {
				r.doActs(sub.Acts)
			}
		}
		if r.disruptive || r.ended {
			return
		}
		if i++; r.skip > len(list) { // no overflow
			return
		}
		i += r.skip
	}
}

// ---------------------------------------------------------------------
// lockstep execution

func checkLogs(got []string, want []logExp) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d log records, want %d: %q", len(got), len(want), got)
	}
	for i, w := range want {
		pre := fmt.Sprintf("[client %s:%s] (phase ", w.ip, w.port)
		if !strings.HasPrefix(got[i], pre) {
			return fmt.Sprintf("record %d is %q, want it to begin with %q", i, got[i], pre)
		}
		rest := got[i][len(pre):]
		j := strings.Index(rest, ")")
		if j < 0 {
			return fmt.Sprintf("record %d is %q, without phase", i, got[i])
		}
		if w.phase >= 0 && rest[:j] != strconv.Itoa(w.phase) {
			return fmt.Sprintf("record %d is %q, want phase %d", i, got[i], w.phase)
		}
		for _, c := range w.contains {
			if !strings.Contains(rest[j:], c) {
				return fmt.Sprintf("record %d is %q, want it to name %q", i, got[i], c)
			}
		}
	}
	return ""
}

func setMode(e *ms.Engine, m string) {
	switch m {
	case "on":
		e.Enable(ms.StatusOn)
	case "off":
		e.Enable(ms.StatusOff)
	case "detect":
		e.Enable(ms.StatusDect)
	case "":
	default:
		panic(m)
	}
}

// callHeader gives the headers of a call: nil, an empty one, or one with
// entries.
func callHeader(kind string) http.Header {
	switch kind {
	case "nil":
		return nil
	case "empty", "":
		return http.Header{}
	case "form":
		return http.Header{"Content-Type": {"application/x-www-form-urlencoded"}, "Content-Length": {"3"}, "Host": {"h"}}
	case "multi":
		return http.Header{"Content-Type": {"multipart/form-data; boundary=B"}, "Expect": {"100-continue"}, "Upgrade": {"websocket"}, "Connection": {"Upgrade"}}
	case "plain":
		return http.Header{"Content-Type": {"text/plain"}, "Content-Length": {"0"}, "Cookie": {"a=1"}}
	case "gzip":
		return http.Header{"Content-Type": {"text/html"}, "Content-Encoding": {"gzip"}, "Transfer-Encoding": {"chunked"}}
	case "empties":
		return http.Header{"Content-Type": {}, "": {""}, "X": {"", ""}}
	}
	panic(kind)
}

// decoySet is a rule set that the transaction was not made over.
func decoySet(rec *recorder) *ms.SecRuleSet {
	rs := ms.NewSecRuleSet()
	for p := 1; p <= 6; p++ {
		rs.AddRules(realRule(rec, hit(p, "x2:decoy", "deny"), "decoy"))
	}
	rs.AddDefaultActions(realAct(rec, "x2:default of the decoy"), realAct(rec, "log"))
	return rs
}

// kept is a result the host keeps.
type kept struct {
	at   int
	got  *ms.Intervention
	copy ms.Intervention
}

var errAbort = errors.New("host abort 100%d")

// runEngine executes the case on the real engine and on the model, and
// compares every evaluation, probe, verdict and log record after each call.
func runEngine(ctx *core.Ctx, c EngineCase) *core.Fail {
	cid := core.Hash(c.Mode, fmt.Sprint(c.Rules), len(c.Default))
	c.Rules, c.Ops, c.Default = writtenOut(c.Rules), spelled(c.Ops), spelled(c.Default)
	eng := ms.NewEngine()
	eng.TmpPath = ctx.Dir
	rec := &recorder{}
	if c.Sec {
		ds, err := seclang.NewDireSetFromSecLangString(secText(c.Rules))
		if err != nil {
			return core.Failf("valid rules were refused: %v\n%s", err, secText(c.Rules))
		}
		if err := ds.Execute(eng); err != nil {
			return core.Failf("valid rules were refused: %v", err)
		}
	} else {
		group := c.Group
		if group < 1 {
			group = 1
		}
		var batch []*ms.SecRule
		for i, s := range c.Rules {
			batch = append(batch, realRule(rec, s, fmt.Sprintf("r%d", i)))
			if len(batch) == group || i == len(c.Rules)-1 {
				eng.AddSecRule(batch...)
				batch = nil
			}
		}
	}
	for _, a := range c.Default {
		eng.RuleSet.AddDefaultActions(realAct(rec, a))
	}
	setMode(eng, c.Mode)
	if c.prepare != nil {
		if f := c.prepare(eng); f != nil {
			return f
		}
	}
	eng.RequestBodyAccess, eng.ResponseBodyAccess = c.Access&1 != 0, c.Access&2 != 0
	if c.Access&4 != 0 {
		eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = 4, 8, 8
	}
	if c.Foreign {
		own := eng.RuleSet
		eng.RuleSet = decoySet(rec)
		c.own = own
	}
	t, err := eng.NewTransaction()
	if c.Foreign {
		t, err = ms.NewTransaction(eng, c.own)
	}
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	if c.Access&4 != 0 {
		defer func() {
			t.Request.Body.Close()
			t.Response.Body.Close()
			cleanDir(ctx.Dir)
		}()
	}
	ref := newRef(c)
	if c.prepare != nil {
		ref.mode = c.final
	}
	var keep []kept
	for n, op := range c.Ops {
		rec.ev, ref.ev = nil, nil
		ctx.Trans(1)
		var res *ms.Intervention
		call, arg := op, ""
		if i := strings.IndexByte(op, '='); i >= 0 {
			call, arg = op[:i], op[i+1:]
		}
		switch {
		case arg == "":
		case call == "url":
			u, _ := url.Parse("/p?a=b")
			if arg == "nil" {
				u = nil
			}
			t.ProcessRequestURL(u, arg, "HTTP/1.0")
		case call == "conn":
			ip, port := arg, ""
			if i := strings.IndexByte(arg, 0); i >= 0 {
				ip, port = arg[:i], arg[i+1:]
			}
			t.ProcessConnection(ip, port, "", "")
			ref.ip, ref.port = ip, port
			ref.process(1)
		case call == "reqh":
			t.ProcessRequestHeader(callHeader(arg))
			ref.process(2)
		case call == "resph":
			i := strings.IndexByte(arg, ',')
			code, _ := strconv.Atoi(arg[:i])
			t.ProcessResponseHeaders(code, "HTTP/1.1", callHeader(arg[i+1:]))
			ref.process(4)
		case call == "+req":
			k, _ := strconv.Atoi(arg)
			t.AppendRequestBody(pattern(0, k))
		case call == "+res":
			k, _ := strconv.Atoi(arg)
			t.AppendResponseBody(pattern(0, k))
		}
		switch {
		case arg != "":
		case strings.HasPrefix(op, "conn"):
			a := addrs[op]
			t.ProcessConnection(a[0], a[1], "192.0.2.1", "443")
			ref.ip, ref.port = a[0], a[1]
			if t.SrcIp != a[0] || t.SrcPort != a[1] || t.DstIp != "192.0.2.1" || t.DstPort != "443" {
				return core.Failf("call %d (%s): the connection is kept as %s %s %s %s", n, op, t.SrcIp, t.SrcPort, t.DstIp, t.DstPort)
			}
			ref.process(1)
		case op == "url":
			u, _ := url.Parse("/p?a=b")
			t.ProcessRequestURL(u, "GET", "HTTP/1.1")
		case op == "reqh":
			t.ProcessRequestHeader(nil)
			ref.process(2)
		case op == "reqb":
			t.ProcessRequestBody()
			ref.process(3)
		case op == "resph":
			t.ProcessResponseHeaders(200, "HTTP/1.1", http.Header{})
			ref.process(4)
		case op == "respb":
			t.ProcessResponseBody()
			ref.process(5)
		case op == "log":
			t.ProcessLogging()
			ref.process(6)
		case op == "result":
			res = t.Result()
		case strings.HasPrefix(op, "abort:"):
			code, _ := strconv.Atoi(op[6:])
			t.AbortWithStatus(code)
			ref.abort, ref.disruptive, ref.status = true, true, code
		case strings.HasPrefix(op, "err:"):
			code, _ := strconv.Atoi(op[4:])
			t.AbortWithError(code, errAbort)
			ref.abortErr(code, errAbort.Error())
		case strings.HasPrefix(op, "mode:"):
			setMode(eng, op[5:])
			ref.mode = op[5:]
		case op == "reset":
			t.ResetIntervention()
			ref.redirect = false
			if ref.status, ref.disruptive, ref.logs = 200, false, nil; ref.abort {
				return core.Failf("harness: reset after an abort")
			}
		case strings.HasPrefix(op, "phase:"):
			k, _ := strconv.Atoi(op[6:])
			t.ProcessPhase(k)
			ref.process(k)
		case op == "swap":
			eng.RuleSet = decoySet(rec)
		case op == "unset":
			eng.RuleSet = nil
		default:
			panic(op)
		}
		if !c.Sec {
			if g, w := strings.Join(rec.ev, "; "), strings.Join(ref.ev, "; "); g != w {
				return core.Failf("call %d (%s):\n got  %s\n want %s", n, op, g, w)
			}
		}
		if res != nil {
			if res.Status != ref.status || res.Disruptive != ref.disruptive {
				return core.Failf("call %d (%s): result status=%d disruptive=%v, want status=%d disruptive=%v", n, op, res.Status, res.Disruptive, ref.status, ref.disruptive)
			}
			if ref.redirect {
				if res.Url == nil || res.Url.String() != redirectTo || res.Pause != time.Second {
					return core.Failf("call %d (%s): result with a redirection to %v and a pause of %v, want %s and 1s", n, op, res.Url, res.Pause, redirectTo)
				}
			} else if res.Url != nil || res.Pause != 0 {
				return core.Failf("call %d (%s): result with a redirection to %v or a pause of %v, which nothing asks for", n, op, res.Url, res.Pause)
			}
			k := kept{at: n, got: res, copy: *res}
			k.copy.Log = append([]string{}, res.Log...)
			if res.Url != nil {
				u := *res.Url
				k.copy.Url = &u
			}
			keep = append(keep, k)
			if m := checkLogs(res.Log, ref.logs); m != "" {
				return core.Failf("call %d (%s): %s", n, op, m)
			}
			if !ref.abort {
				ref.status, ref.disruptive, ref.redirect, ref.logs = 200, false, false, nil
			}
			ctx.Outcome(fmt.Sprint(res.Status, res.Disruptive, len(res.Log)))
		} else if len(rec.ev) > 0 {
			ctx.Outcome(strings.Join(rec.ev, ";"))
		}
		ctx.State(cid, ref.mode, ref.last, ref.floor, ref.status, ref.disruptive, ref.abort, len(ref.logs), strings.Join(rec.ev, ";"))
	}
	for _, k := range keep {
		if fmt.Sprint(k.got.Url, k.got.Pause) != fmt.Sprint(k.copy.Url, k.copy.Pause) {
			return core.Failf("the result of call %d had redirection %v and pause %v, and has become %v and %v by later calls", k.at, k.copy.Url, k.copy.Pause, k.got.Url, k.got.Pause)
		}
		if k.got.Status != k.copy.Status || k.got.Disruptive != k.copy.Disruptive || fmt.Sprintf("%q", k.got.Log) != fmt.Sprintf("%q", k.copy.Log) {
			return core.Failf("the result of call %d was status=%d disruptive=%v %q, and has become status=%d disruptive=%v %q by later calls", k.at,
				k.copy.Status, k.copy.Disruptive, k.copy.Log, k.got.Status, k.got.Disruptive, k.got.Log)
		}
	}
	return nil
}

// ---------------------------------------------------------------------
// enumeration helpers

// seqs calls f with every sequence of length lo..hi over n symbols, shortest first.
func seqs(n, lo, hi int, f func([]int)) {
	for l := lo; l <= hi; l++ {
		s := make([]int, l)
		for {
			f(s)
			i := l - 1
			for ; i >= 0; i-- {
				if s[i]++; s[i] < n {
					break
				}
				s[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

func pickS(alpha []string, idx []int) []string {
	res := make([]string, len(idx))
	for i, j := range idx {
		res[i] = alpha[j]
	}
	return res
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func hit(ph int, acts ...string) Rule  { return Rule{Ph: ph, V: []string{"1"}, Acts: acts} }
func miss(ph int, acts ...string) Rule { return Rule{Ph: ph, V: []string{"0"}, Acts: acts} }

// probesIn has one plain probe rule in each given phase.
func probesIn(phases ...int) []Rule {
	var res []Rule
	for _, p := range phases {
		res = append(res, hit(p, "x2:p"))
	}
	return res
}
