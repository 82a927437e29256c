package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C19: engines, rule sets and directive sets are independent

// IndepCase is a sequence of operations on two engines and two directive
// sets. The first digit is the engine or set, the second says what:
//
//	t a text is loaded into a set      x a set is executed on an engine
//	m the mode of an engine is set     d an engine gets a default action (its own)
//	r an engine gets a rule            l its total body limit is set to 2
//	a its response body access is set  q a transaction runs on it
//	n it is replaced by a new one      o a transaction is begun on it
//	s a set is replaced by a new one   b an engine gets k default actions at once
//	w an engine gets k rules at once
type IndepCase struct {
	Ops []string `json:"ops"`
}

type mRule struct {
	phase int
	id    int
	links int
}

type mItem struct {
	rule mRule // phase 0: a setting
	set  func(*mEngine)
}

type mEngine struct {
	mode    string
	ra, rb  bool
	total   int64
	mem     int64
	dir     string
	defs    []string
	rules   []mRule
	changes int
}

func newMEngine(dir string) *mEngine {
	return &mEngine{mode: "new", total: 134217728, mem: 131072, dir: dir}
}

type mText struct {
	text  string
	ok    bool
	items []mItem
}

var indepTexts = []mText{
	{"SecRule ARGS:a \"x\" \"id:1,phase:2,log\"\n", true, []mItem{{rule: mRule{2, 1, 0}}}},
	{"SecRule REMOTE_ADDR \".\" \"id:2,phase:3,log,chain\"\nSecRule ARGS_POST:b \"y\" \"id:3,log\"\n", true, []mItem{{rule: mRule{3, 2, 1}}}},
	{"SecRuleEngine Off\nSecRule ARGS:a \"x\" \"id:4,phase:2,log\"\nSecRule ARGS \"@eq z\" \"id:5\"\n", false, nil},
	{"SecRuleEngine DetectionOnly\n", true, []mItem{{set: func(e *mEngine) { e.mode = "detect" }}}},
	{"SecRuleEngine On\nSecRequestBodyAccess On\n", true, []mItem{{set: func(e *mEngine) { e.mode = "on" }}, {set: func(e *mEngine) { e.ra = true }}}},
	{"SecRule ARGS:a \"x\" \"id:6,phase:3,log,chain\"\n", true, []mItem{{rule: mRule{3, 6, 0}}}},
	{"SecRule ARGS:a \"x\" \"id:7,phase:2,block\"\n", true, []mItem{{rule: mRule{2, 7, 0}}}},
	{"SecRule ARGS:a \"x\" \"phase:2,log,chain\"\nSecRule ARGS:a \"x\" \"t:lowercase\"\n", true, []mItem{{rule: mRule{2, 0, 1}}}},
}

// outcome predicts the status and the number of records of the transaction of
// playIndep from the phases up to last.
func (m *mEngine) outcome(from, last int, status *int, logs *int) {
	if m.mode == "off" {
		return
	}
	for ph := from; ph <= last; ph++ {
		for _, r := range m.rules {
			if r.phase != ph || *status != 200 {
				continue
			}
			switch r.id {
			case 0, 1, 6, 90:
				*logs++
			case 2:
				if m.ra && m.total >= 3 {
					*logs += 2
				}
			case 7:
				code, deny := 403, false
				for _, d := range m.defs {
					switch {
					case d == "deny":
						deny = true
						*logs++
					case d == "log":
						*logs++
					default:
						fmt.Sscanf(d, "status:%d", &code)
					}
				}
				if deny && m.mode != "detect" {
					*status = code
				}
			}
		}
	}
}

func (m *mEngine) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "mode %s, body access %v %v, limits %d %d 524228, directory %s, default actions %v, rules", map[string]string{"new": "false false", "on": "true false", "off": "false false", "detect": "false true"}[m.mode], m.ra, m.rb, m.total, m.mem, m.dir, m.defs)
	describeRules(&b, m.rules)
	return b.String()
}

func describeRules(b *strings.Builder, rules []mRule) {
	rules = append([]mRule{}, rules...)
	sort.SliceStable(rules, func(i, j int) bool { return rules[i].phase < rules[j].phase })
	for _, r := range rules {
		fmt.Fprintf(b, " %d/%d+%d", r.phase, r.id, r.links)
	}
}

func describeEngine(e *ms.Engine) string {
	var b strings.Builder
	var defs []string
	for _, a := range e.RuleSet.DefaultActions {
		d := a.Name()
		if d == "status" {
			d += ":" + a.Value()
		}
		defs = append(defs, d)
	}
	fmt.Fprintf(&b, "mode %v %v, body access %v %v, limits %d %d %d, directory %s, default actions %v, rules", e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess, e.RequestBody, e.RequestBodyInMem, e.ResponseBody, e.TmpPath, defs)
	var rules []mRule
	for ph := -1; ph <= 10; ph++ {
		for _, r := range e.RuleSet.Phases[ph] {
			rules = append(rules, mRule{ph, r.Id, len(r.SubRules)})
		}
	}
	describeRules(&b, rules)
	return b.String()
}

var indepReq = Req{Method: "POST", URL: "/?a=x", Proto: "HTTP/1.1", CT: urlenc, Body: "b=y", Code: 200, RProto: "HTTP/1.1"}

// playIndep plays the parts before or after the response headers.
func playIndep(t *ms.Transaction, second bool) {
	r := indepReq
	if second {
		r.Skip = skipConn | skipURL | skipReqH | skipBody
		r.play(t)
		t.ProcessLogging()
		return
	}
	r.Body, r.Skip = "", skipRespH|skipRBody|skipBody
	r.play(t)
	t.AppendRequestBody([]byte(indepReq.Body)) // refused beyond the total limit
	t.ProcessRequestBody()
}

type indepTxn struct {
	t            *ms.Transaction
	m            *mEngine
	at           int
	status, logs int
}

func runIndep(ctx *core.Ctx, c IndepCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	dirs := [2]string{ctx.Dir, filepath.Join(ctx.Dir, "other")}
	os.Mkdir(dirs[1], 0700)
	var eng [2]*ms.Engine
	var mod [2]*mEngine
	fresh := func(i int) {
		eng[i], mod[i] = ms.NewEngine(), newMEngine("/tmp")
		if g, w := describeEngine(eng[i]), mod[i].describe(); g != w {
			return // reported by the caller, by the same comparison
		}
		eng[i].TmpPath, mod[i].dir = dirs[i], dirs[i]
	}
	var sets [2]*seclang.DireSet
	var mset [2][]mItem
	for i := range eng {
		fresh(i)
		sets[i] = seclang.NewDireSet()
	}
	var open []*indepTxn
	defer func() {
		for _, o := range open {
			o.t.Request.Body.Close()
		}
	}()
	check := func(op string) *core.Fail {
		for i := range eng {
			if g, w := describeEngine(eng[i]), mod[i].describe(); g != w {
				return core.Failf("after %s engine %d is: %s; want: %s", op, i, g, w)
			}
		}
		return nil
	}
	if f := check("making them"); f != nil {
		return f
	}
	whole := func(i int, op string) *core.Fail {
		t, err := eng[i].NewTransaction()
		if err != nil {
			return core.Failf("NewTransaction: %v", err)
		}
		playIndep(t, false)
		playIndep(t, true)
		res := t.Result()
		status, logs := 200, 0
		mod[i].outcome(1, 6, &status, &logs)
		ctx.Trans(1)
		if res.Status != status || res.Disruptive != (status != 200) || len(res.Log) != logs {
			return core.Failf("%s: a transaction on engine %d ends with status %d, disruptive %v and %d records, want status %d and %d records (the engine: %s): %q", op, i, res.Status, res.Disruptive, len(res.Log), status, logs, mod[i].describe(), res.Log)
		}
		ctx.Outcome(fmt.Sprint(status, logs))
		return nil
	}
	for _, op := range c.Ops {
		ctx.Trans(1)
		i := int(op[1] - '0')
		k := 0
		if len(op) > 2 {
			k = int(op[2] - '0')
		}
		switch op[0] {
		case 't':
			err := sets[i].AddSecLangString(indepTexts[k].text)
			if (err == nil) != indepTexts[k].ok {
				return core.Failf("%s: loading %q gives the error %v", op, indepTexts[k].text, err)
			}
			mset[i] = append(mset[i], indepTexts[k].items...)
		case 's':
			sets[i], mset[i] = seclang.NewDireSet(), nil
		case 'x':
			if err := sets[i].Execute(eng[k]); err != nil {
				return core.Failf("%s: %v", op, err)
			}
			for _, it := range mset[i] {
				if it.set != nil {
					it.set(mod[k])
				} else {
					mod[k].rules = append(mod[k].rules, it.rule)
				}
			}
			mod[k].changes++
		case 'm':
			setMode(eng[i], []string{"on", "off", "detect"}[k])
			mod[i].mode = []string{"on", "off", "detect"}[k]
			mod[i].changes++
		case 'd':
			// other ones for either engine
			d := [2][4]string{{"deny", "log", "status:501", "log"}, {"log", "status:502", "deny", "deny"}}[i][len(mod[i].defs)%4]
			eng[i].RuleSet.AddDefaultActions(realAct(nil, d))
			mod[i].defs = append(mod[i].defs, d)
			mod[i].changes++
		case 'b':
			var as []ms.Action
			for j := 0; j < k; j++ {
				d := [2][4]string{{"deny", "log", "status:501", "log"}, {"log", "status:502", "deny", "deny"}}[i][len(mod[i].defs)%4]
				as = append(as, realAct(nil, d))
				mod[i].defs = append(mod[i].defs, d)
			}
			eng[i].RuleSet.AddDefaultActions(as...)
			mod[i].changes++
		case 'w':
			var rs []*ms.SecRule
			for j := 0; j < k; j++ {
				r := probeRule(&recorder{}, 4-j%2, "api")
				r.Id = 90
				r.AppendActions(realAct(nil, "log"))
				rs = append(rs, r)
				mod[i].rules = append(mod[i].rules, mRule{4 - j%2, 90, 0})
			}
			eng[i].AddSecRule(rs...)
			mod[i].changes++
		case 'r':
			r := probeRule(&recorder{}, 4, "api")
			r.Id = 90
			r.AppendActions(realAct(nil, "log"))
			eng[i].AddSecRule(r)
			mod[i].rules = append(mod[i].rules, mRule{4, 90, 0})
			mod[i].changes++
		case 'l':
			eng[i].RequestBody, eng[i].RequestBodyInMem = 2, 1
			mod[i].total, mod[i].mem = 2, 1
			mod[i].changes++
		case 'a':
			eng[i].ResponseBodyAccess = true
			mod[i].rb = true
			mod[i].changes++
		case 'q':
			if f := whole(i, op); f != nil {
				return f
			}
		case 'n':
			fresh(i)
		case 'o':
			t, err := eng[i].NewTransaction()
			if err != nil {
				return core.Failf("NewTransaction: %v", err)
			}
			o := &indepTxn{t: t, m: mod[i], at: mod[i].changes, status: 200}
			playIndep(t, false)
			mod[i].outcome(1, 3, &o.status, &o.logs)
			open = append(open, o)
		}
		if f := check(op); f != nil {
			return f
		}
	}
	for n, o := range open {
		if o.at != o.m.changes {
			continue // its own engine has changed meanwhile
		}
		playIndep(o.t, true)
		o.m.outcome(4, 6, &o.status, &o.logs)
		ctx.Trans(1)
		if res := o.t.Result(); res.Status != o.status || len(res.Log) != o.logs {
			return core.Failf("the transaction begun as number %d ends with status %d and %d records, want %d and %d: %q", n, res.Status, len(res.Log), o.status, o.logs, res.Log)
		}
	}
	for i := range eng {
		if f := whole(i, "at the end"); f != nil {
			return f
		}
	}
	for i := range sets {
		e, m := ms.NewEngine(), newMEngine("/tmp")
		if err := sets[i].Execute(e); err != nil {
			return core.Failf("executing set %d at the end: %v", i, err)
		}
		for _, it := range mset[i] {
			if it.set != nil {
				it.set(m)
			} else {
				m.rules = append(m.rules, it.rule)
			}
		}
		if g, w := describeEngine(e), m.describe(); g != w {
			return core.Failf("set %d, executed on a new engine, makes it: %s; want: %s", i, g, w)
		}
	}
	if f := check("all operations"); f != nil {
		return f
	}
	ctx.State(mod[0].describe(), mod[1].describe(), len(mset[0]), len(mset[1]))
	return nil
}

func init() {
	var ops []string
	for i := 0; i < 2; i++ {
		for k := range indepTexts {
			ops = append(ops, fmt.Sprintf("t%d%d", i, k))
		}
		for k := 0; k < 2; k++ {
			ops = append(ops, fmt.Sprintf("x%d%d", i, k))
		}
		for k := 0; k < 3; k++ {
			ops = append(ops, fmt.Sprintf("m%d%d", i, k))
		}
		for _, o := range "drlaqnos" {
			ops = append(ops, fmt.Sprintf("%c%d", o, i))
		}
	}
	// either numbering of engines and sets is the same: begin with the first
	canonical := func(s []string) bool {
		e, t := -1, -1
		for _, o := range s {
			n := int(o[1] - '0')
			switch o[0] {
			case 't', 's', 'x':
				if t < 0 {
					if t = n; t != 0 {
						return false
					}
				}
				if o[0] == 'x' && e < 0 {
					if e = int(o[2] - '0'); e != 0 {
						return false
					}
				}
			default:
				if e < 0 {
					if e = n; e != 0 {
						return false
					}
				}
			}
		}
		return true
	}
	core.Register("C19", "operations", "every sequence of up to 4 (thorough 5) operations on two engines and two directive sets: good, bad and dangling texts loaded, sets executed, modes, limits, access, default actions and rules set, transactions run and left open, engines and sets replaced; everything compared with a model after each",
		func(ctx *core.Ctx, yield func(IndepCase)) {
			seqs(len(ops), 1, ctx.Pick(4, 5), func(idx []int) {
				s := pickS(ops, idx)
				if !canonical(s) {
					return
				}
				yield(IndepCase{Ops: s})
			})
		}, runIndep)
	core.Register("C19", "rules executed twice", "every sequence of up to 5 (thorough 6) executions, loads, transactions and default actions, over sets that already hold rules",
		func(ctx *core.Ctx, yield func(IndepCase)) {
			pre := [][]string{{"t00", "t01", "t16"}, {"t05", "t04", "t11", "t15"}, {"t06", "t03", "t10", "t12", "t14"}}
			al := []string{"x00", "x01", "x10", "x11", "q0", "q1", "o0", "d0", "d1", "t00", "t12"}
			for _, p := range pre {
				seqs(len(al), 2, ctx.Pick(5, 6), func(idx []int) {
					yield(IndepCase{Ops: append(append([]string{}, p...), pickS(al, idx)...)})
				})
			}
		}, runIndep)
	core.Register("C19", "batches", "every sequence of up to 4 (thorough 5) operations that add two to nine default actions or rules at once to either engine, replace an engine, execute a set on it or run a transaction",
		func(ctx *core.Ctx, yield func(IndepCase)) {
			al := []string{"b02", "b12", "b03", "b13", "b05", "b19", "w02", "w13", "w05", "n0", "n1", "q0", "x00", "x01"}
			seqs(len(al), 1, ctx.Pick(4, 5), func(idx []int) {
				yield(IndepCase{Ops: append([]string{"t06", "t00"}, pickS(al, idx)...)})
			})
			for k := 1; k <= 9; k++ {
				for j := 1; j <= 9; j++ {
					for _, o := range []string{"b", "w"} {
						for _, p := range []string{"b", "w"} {
							a, b := fmt.Sprintf("%s0%d", o, k), fmt.Sprintf("%s1%d", p, j)
							yield(IndepCase{Ops: []string{"t06", "x00", "x01", a, b, "q0", "q1", a, "q0", "q1", b, "d0", "d1", "r0", "r1", "q0", "q1"}})
							yield(IndepCase{Ops: []string{"t06", a, b, "n0", a, "x00", "x01", "q0", b, "n1", b, a, "q1", "q0"}})
						}
					}
				}
			}
		}, runIndep)
}
