package checks

import (
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C13: documents of the supported language

// Act is an action as written.
type Act struct {
	N string `json:"n"`
	A core.B `json:"a,omitempty"`
	V bool   `json:"v,omitempty"` // has an argument
}

// DRule is one SecRule directive.
type DRule struct {
	Targets []string `json:"targets"`
	Not     bool     `json:"not,omitempty"`
	Op      string   `json:"op,omitempty"` // "" is a bare regular expression
	Arg     core.B   `json:"arg"`
	Acts    []Act    `json:"acts"`
}

// Item is a directive: a setting, or a rule with its chained rules.
type Item struct {
	Dir   string  `json:"dir,omitempty"`
	Val   string  `json:"val,omitempty"`
	Rules []DRule `json:"rules,omitempty"`
}

// Layout says how the document is written down.
type Layout struct {
	Case int    `json:"case,omitempty"`
	Gap  int    `json:"gap,omitempty"`
	TQ   int    `json:"tq,omitempty"`
	OQ   int    `json:"oq,omitempty"`
	AQ   int    `json:"aq,omitempty"`
	Sep  int    `json:"sep,omitempty"`
	ArgQ int    `json:"argq,omitempty"`
	Col  int    `json:"col,omitempty"`
	End  int    `json:"end,omitempty"`
	TSep int    `json:"tsep,omitempty"`
	Dot  bool   `json:"dot,omitempty"`
	Dots bool   `json:"dots,omitempty"` // a dot instead of the first colon of each target
	Esc  bool   `json:"esc,omitempty"`  // write letters as escapes where that is possible
	Pad  string `json:"pad,omitempty"`
	PadN int    `json:"padn,omitempty"`
}

var (
	layCase = []func(string) string{func(s string) string { return s }, strings.ToLower, strings.ToUpper, func(s string) string {
		b := []byte(s)
		for i := range b {
			if i%2 == 0 {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}}
	layGap  = []string{" ", "\t", "   ", " \\\n ", "\\\n", " \\\r\n\t", "\\\r\n", " \\\n \\\n  ", "\v\f", "\\\r "}
	layQ    = []byte{'"', '\'', 0}
	laySep  = []string{",", ", ", " ,", ",\t", ",\\\n    ", " , \\\r\n\t", "\\\n,\\\n"}
	layEnd  = []string{"\n", "\r\n", "\r", " \n\n", "\n \t\n", "\t\r\n\r\n", "", "\n\x00\n"}
	layCol  = []string{":", ": ", " :", " : "}
	layTSep = []string{"|", ","}
)

// encode writes a string behind the quote q (0 for none).
func encode(s string, q byte, esc bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' || c == q:
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n' && i+1 < len(s) && s[i+1] == 1: // a continuation, put here by the layout
			b.WriteString("\\\n")
			i++
		case c == '\n' && i+1 < len(s) && s[i+1] == 2:
			b.WriteString("\\\r\n")
			i++
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case q == 0 && (c == ' ' || c == '\t' || c == '\v' || c == '\f'):
			if c == ' ' {
				b.WriteString(`\ `)
			} else {
				b.WriteString(map[byte]string{'\t': `\t`, '\v': `\v`, '\f': `\f`}[c])
			}
		case q == 0 && i == 0 && (c == '"' || c == '\''):
			b.WriteByte('\\')
			b.WriteByte(c)
		case esc && c == '\t':
			b.WriteString(`\t`)
		case esc && (c == '"' || c == '\''):
			b.WriteByte('\\')
			b.WriteByte(c)
		case esc && strings.IndexByte("abfnrtv", c) < 0 && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '@' || c == '!' || c == ':' || c == '.'):
			b.WriteByte('\\') // an unknown escape is the character itself
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	if q == 0 {
		return b.String()
	}
	return string(q) + b.String() + string(q)
}

// argText writes an action argument; false when this style cannot carry it.
func argText(a string, style int) (string, bool) {
	for _, k := range []int{style, 1, 2, 0} {
		switch k {
		case 0:
			if a == "" || strings.ContainsAny(a, ",") || strings.TrimSpace(a) != a || a[0] == '\'' || a[0] == '"' {
				continue
			}
			return a, k == style
		default:
			q := []string{"", "'", `"`}[k]
			if i := strings.Index(a, q); i >= 0 {
				bad := false
				for j := range a {
					if a[j] == q[0] {
						rest := strings.TrimSpace(a[j+1:])
						bad = bad || rest == "" || rest[0] == ','
					}
				}
				if bad {
					continue
				}
			}
			return q + a + q, k == style
		}
	}
	return "", false
}

// render writes the document; false when the layout cannot carry it.
func render(items []Item, l Layout) (string, bool) {
	var b strings.Builder
	b.WriteString(strings.Repeat(l.Pad, l.PadN))
	gap := layGap[l.Gap]
	if gap[0] == '\\' && (layQ[l.TQ] == 0 || layQ[l.OQ] == 0) {
		return "", false // a continuation right behind a bare word is part of it
	}
	for n, it := range items {
		end := func(last bool) string {
			if layEnd[l.End] == "" && !(last && n == len(items)-1) {
				return "\n" // only the last directive can do without
			}
			return layEnd[l.End]
		}
		if it.Dir != "" {
			b.WriteString(layCase[l.Case](it.Dir) + gap + encode(layCase[l.Case](it.Val), layQ[l.OQ], l.Esc) + end(true))
			continue
		}
		for i, r := range it.Rules {
			b.WriteString(layCase[l.Case]("SecRule") + gap)
			ts := strings.Join(r.Targets, layTSep[l.TSep])
			if l.Dots {
				var w []string
				for _, t := range r.Targets {
					w = append(w, strings.Replace(t, ":", ".", 1))
				}
				ts = strings.Join(w, layTSep[l.TSep])
			} else if l.Dot {
				ts = strings.ReplaceAll(ts, ":", ".")
			}
			b.WriteString(encode(ts, layQ[l.TQ], l.Esc) + gap)
			op := ""
			if r.Not {
				op = "!"
			}
			if r.Op != "" {
				op += "@" + r.Op + " "
			}
			op += string(r.Arg)
			b.WriteString(encode(op, layQ[l.OQ], l.Esc) + gap)
			var as []string
			for _, a := range r.Acts {
				s := a.N
				if a.V {
					t, ok := argText(string(a.A), l.ArgQ)
					if !ok && t == "" {
						return "", false
					}
					s += layCol[l.Col] + t
				}
				as = append(as, s)
			}
			if i < len(it.Rules)-1 {
				at := i % (len(as) + 1)
				as = append(as[:at], append([]string{"chain"}, as[at:]...)...)
			}
			sep := strings.NewReplacer("\\\n", "\n\x01", "\\\r\n", "\n\x02").Replace(laySep[l.Sep])
			str := strings.Join(as, sep)
			if layQ[l.AQ] == 0 && (len(as) == 0 || strings.ContainsAny(str, "\n")) {
				return "", false
			}
			b.WriteString(encode(str, layQ[l.AQ], l.Esc) + end(i == len(it.Rules)-1))
		}
	}
	return b.String(), true
}

func find(acts []Act, n string) (string, bool) {
	res, ok := "", false
	for _, a := range acts {
		if a.N == n {
			res, ok = string(a.A), true
		}
	}
	return res, ok
}

// ruleDesc is what a rule must look like once loaded.
func ruleDesc(r DRule, sub bool) string {
	var b strings.Builder
	id, _ := find(r.Acts, "id")
	n, _ := strconv.Atoi(id)
	ph, ok := find(r.Acts, "phase")
	if !ok {
		ph = "2"
	}
	ph = map[string]string{"request": "2", "response": "4", "logging": "5"}[ph] + strings.Trim(ph, "requstponlgi")
	if sub && !ok {
		ph = "-"
	}
	op, arg := r.Op, string(r.Arg)
	if op == "" {
		op = "rx"
	}
	if op != "rx" {
		arg = strings.TrimSpace(arg)
	}
	fmt.Fprintf(&b, "id=%d phase=%s op=%s not=%v arg=%q", n, ph, op, r.Not, arg)
	for _, a := range r.Acts {
		if a.N == "t" {
			fmt.Fprintf(&b, " t:%s", string(a.A))
		}
	}
	meta := map[string][]string{}
	for _, a := range r.Acts {
		switch a.N {
		case "id", "phase", "t", "chain":
		case "tag", "msg", "rev", "ver":
			meta[a.N] = append(meta[a.N], string(a.A))
		case "status":
			v, _ := strconv.Atoi(string(a.A))
			fmt.Fprintf(&b, " %s(%d)", a.N, v)
		case "skip":
			fmt.Fprintf(&b, " skip")
		default:
			fmt.Fprintf(&b, " %s(%s)", a.N, string(a.A))
		}
	}
	describeMeta(&b, meta)
	return b.String()
}

func describeMeta(b *strings.Builder, meta map[string][]string) {
	var keys []string
	for k := range meta {
		if len(meta[k]) > 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(b, " %s=%q", k, meta[k])
	}
}

func gotDesc(r *ms.SecRule, sub, wantPhase bool) string {
	var b strings.Builder
	ph := strconv.Itoa(r.Phase)
	if sub && !wantPhase {
		ph = "-"
	}
	if r.Operator == nil {
		return "no operator"
	}
	fmt.Fprintf(&b, "id=%d phase=%s op=%s not=%v arg=%q", r.Id, ph, r.Operator.Name(), r.Not, r.Operator.Args())
	for _, t := range r.Trans {
		fmt.Fprintf(&b, " t:%s", t.Name())
	}
	for _, a := range r.Actions {
		switch a.Name() {
		case "skip":
			fmt.Fprintf(&b, " skip")
		default:
			fmt.Fprintf(&b, " %s(%s)", a.Name(), a.Value())
		}
	}
	describeMeta(&b, r.MetaData)
	return b.String()
}

// checkLoaded compares an engine with the document it was loaded from.
func checkLoaded(ctx *core.Ctx, e *ms.Engine, items []Item, fetch bool) string {
	want := map[int][][]DRule{}
	mode, req, res := "", false, false
	total := 0
	for _, it := range items {
		switch it.Dir {
		case "":
			ph, ok := find(it.Rules[0].Acts, "phase")
			if !ok {
				ph = "2"
			}
			p := map[string]int{"request": 2, "response": 4, "logging": 5}[ph]
			if p == 0 {
				p, _ = strconv.Atoi(ph)
			}
			want[p] = append(want[p], it.Rules)
			total++
		case "SecRuleEngine":
			mode = strings.ToLower(it.Val)
		case "SecRequestBodyAccess":
			req = strings.EqualFold(it.Val, "on")
		case "SecResponseBodyAccess":
			res = strings.EqualFold(it.Val, "on")
		}
	}
	if e.RequestBodyAccess != req || e.ResponseBodyAccess != res {
		return fmt.Sprintf("body access is %v %v, want %v %v", e.RequestBodyAccess, e.ResponseBodyAccess, req, res)
	}
	if mode != "" && (e.Enabled != (mode == "on") || e.DetectionOnly != (mode == "detectiononly")) {
		return fmt.Sprintf("engine is Enabled=%v DetectionOnly=%v, want %s", e.Enabled, e.DetectionOnly, mode)
	}
	n := 0
	for _, l := range e.RuleSet.Phases {
		n += len(l)
	}
	if n != total {
		return fmt.Sprintf("%d rules, want %d", n, total)
	}
	var tx *ms.Transaction
	var req0 Req
	if fetch {
		req0 = selReqs[4]
		var err error
		if tx, err = req0.engine(ctx.Dir).NewTransaction(); err != nil {
			return err.Error()
		}
		if err := req0.play(tx); err != nil {
			return err.Error()
		}
	}
	one := func(got *ms.SecRule, w DRule, sub bool) string {
		_, hasPhase := find(w.Acts, "phase")
		if g, w := gotDesc(got, sub, hasPhase), ruleDesc(w, sub); g != w {
			return fmt.Sprintf("\n got  %s\n want %s", g, w)
		}
		colls := map[string]bool{}
		for _, t := range w.Targets {
			_, count, coll, _ := parseSel(t)
			colls[fmt.Sprint(count, coll)] = true
		}
		if len(got.Variables) != len(colls) {
			return fmt.Sprintf("%d target collections, want %d (%v)", len(got.Variables), len(colls), w.Targets)
		}
		for _, v := range got.Variables {
			if !colls["true"+v.Name()] && !colls["false"+v.Name()] {
				return fmt.Sprintf("target %s is not in the text (%v)", v.Name(), w.Targets)
			}
		}
		if fetch {
			plain := *got
			plain.Trans = nil
			if g, x := fetchAll(&plain, tx), expectSel(req0, w.Targets); !sameMultiset(g, x) {
				return fmt.Sprintf("targets %v yield %s, want %s", w.Targets, quoteAll(g), quoteAll(x))
			}
		}
		return ""
	}
	for p, l := range want {
		for i, chain := range l {
			got := e.RuleSet.Phases[p]
			if len(got) != len(l) {
				return fmt.Sprintf("%d rules in phase %d, want %d", len(got), p, len(l))
			}
			if m := one(got[i], chain[0], false); m != "" {
				return m
			}
			if len(got[i].SubRules) != len(chain)-1 {
				return fmt.Sprintf("rule %d of phase %d has %d chained rules, want %d", i, p, len(got[i].SubRules), len(chain)-1)
			}
			for j, s := range chain[1:] {
				if m := one(got[i].SubRules[j], s, true); m != "" {
					return m
				}
				if len(got[i].SubRules[j].SubRules) != 0 {
					return "a chained rule has chained rules of its own"
				}
			}
		}
	}
	return ""
}

// DocCase is a document in a layout.
type DocCase struct {
	Items  []Item `json:"items"`
	L      Layout `json:"layout"`
	Pieces int    `json:"pieces,omitempty"` // also parse it from a reader that delivers so many bytes at a time
	Adds   bool   `json:"adds,omitempty"`   // load each item by its own call
	Fetch  bool   `json:"fetch,omitempty"`
}

type pieces struct {
	s string
	n int
	k int
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	p.k++
	if p.k%3 == 0 {
		return 0, nil // a reader may deliver nothing for once
	}
	n := p.n
	if n > len(p.s) {
		n = len(p.s)
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	if p.s == "" && p.k%2 == 0 {
		return n, io.EOF // or the end together with the last bytes
	}
	return n, nil
}

func parsedDesc(ds []parser.Directive) string {
	var b strings.Builder
	for _, d := range ds {
		switch d := d.(type) {
		case *parser.RuleDirective:
			b.WriteString("rule")
			for _, v := range d.Variable {
				fmt.Fprintf(&b, " %v", *v)
			}
			fmt.Fprintf(&b, " op %v %q id %d phase %d chain %v", d.Operator.Tk, d.Operator.Argument, d.Actions.Id, d.Actions.Phase, d.Actions.Chain)
			fmt.Fprintf(&b, " %v", d.Operator.Not)
			for _, v := range d.Actions.Trans {
				fmt.Fprintf(&b, " t%d", v.Tk)
			}
			for _, v := range d.Actions.Action {
				fmt.Fprintf(&b, " a%d %q", v.Tk, v.Argument)
			}
		default:
			fmt.Fprintf(&b, "%T %+v", d, d)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func runDoc(ctx *core.Ctx, c DocCase) *core.Fail {
	e := ms.NewEngine()
	e.TmpPath = ctx.Dir
	var texts []string
	if c.Adds {
		for i := range c.Items {
			t, ok := render(c.Items[i:i+1], c.L)
			if !ok {
				return nil
			}
			texts = append(texts, t)
		}
	} else {
		t, ok := render(c.Items, c.L)
		if !ok {
			return nil
		}
		texts = []string{t}
	}
	ds := seclang.NewDireSet()
	for _, t := range texts {
		ctx.Trans(1)
		if err := ds.AddSecLangString(t); err != nil {
			return core.Failf("a valid text was refused: %v\n%.2000q", err, strings.TrimLeft(t, " \n"))
		}
	}
	if err := ds.Execute(e); err != nil {
		return core.Failf("a valid text was refused: %v\n%q", err, texts)
	}
	if m := checkLoaded(ctx, e, c.Items, c.Fetch); m != "" {
		return core.Failf("%.2000q is loaded as: %s", strings.TrimLeft(texts[0], " \n"), m)
	}
	if c.Pieces > 0 {
		whole, err := parser.NewSecLangScannerFromString(texts[0]).AllDirective()
		if err != nil {
			return core.Failf("a valid text was refused: %v\n%q", err, texts[0])
		}
		for n := 1; n <= c.Pieces; n++ {
			ctx.Trans(1)
			part, err := parser.NewSecLangScanner(&pieces{s: texts[0], n: n}).AllDirective()
			if err != nil {
				return core.Failf("a valid text was refused when read %d bytes at a time: %v\n%q", n, err, texts[0])
			}
			if g, w := parsedDesc(part), parsedDesc(whole); g != w {
				return core.Failf("read %d bytes at a time %q gives\n%s want\n%s", n, texts[0], g, w)
			}
		}
	}
	d := ""
	for _, it := range c.Items {
		d += it.Dir + it.Val
		for _, r := range it.Rules {
			d += ruleDesc(r, false)
		}
	}
	ctx.State(texts[0])
	ctx.Outcome(d)
	return nil
}

// PhaseCase is the way a phase is written.
type PhaseCase struct {
	Text string `json:"text"`
	Step string `json:"step"`
}

func runPhaseStep(ctx *core.Ctx, c PhaseCase) *core.Fail {
	e := ms.NewEngine()
	e.TmpPath = ctx.Dir
	if f := loadRules(e, fmt.Sprintf("SecRule REMOTE_ADDR \"@rx .*\" \"id:1%s,log\"\n", c.Text)); f != nil {
		return f
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("%v", err)
	}
	ran := ""
	for _, st := range steps6 {
		switch st {
		case "conn":
			t.ProcessConnection("10.0.0.1", "1", "10.0.0.2", "80")
		case "reqh":
			t.ProcessRequestHeader(nil)
		case "reqb":
			t.ProcessRequestBody()
		case "resph":
			t.ProcessResponseHeaders(200, "HTTP/1.1", nil)
		case "respb":
			t.ProcessResponseBody()
		case "log":
			t.ProcessLogging()
		}
		ctx.Trans(1)
		if len(t.Result().Log) > 0 {
			ran += st
		}
		ctx.State(c.Text, st, ran)
	}
	ctx.Outcome(ran)
	if ran != c.Step {
		text := strings.TrimPrefix(c.Text, ",")
		if text == "" {
			text = "none"
		}
		return &core.Fail{Key: fmt.Sprintf("%s-runs-in-%s", text, ran), Msg: fmt.Sprintf("a rule with %s is evaluated in the step %q, want %q", text, ran, c.Step)}
	}
	return nil
}

// EscCase is a quoted argument that holds an escaped quote and a comma.
type EscCase struct {
	Text core.B `json:"text"`
	Msg  core.B `json:"msg"`
	Key  string `json:"key"`
}

func runEsc(ctx *core.Ctx, c EscCase) *core.Fail {
	e := ms.NewEngine()
	text := fmt.Sprintf("SecRule ARGS \"x\" %s\n", string(c.Text))
	ctx.Trans(1)
	ctx.State(c.Text)
	r, f := loadOne(e, text)
	if f != nil {
		f.Key = c.Key
		return f
	}
	var acts []string
	for _, a := range r.Actions {
		acts = append(acts, a.Name())
	}
	ctx.Outcome(fmt.Sprint(acts))
	if got := fmt.Sprint(r.MetaData["msg"]); got != fmt.Sprint([]string{string(c.Msg)}) || len(acts) != 1 || acts[0] != "log" {
		return &core.Fail{Key: c.Key, Msg: fmt.Sprintf("%s is loaded with the message %s and the actions %v", text, got, acts)}
	}
	return nil
}

func acts(s ...string) []Act {
	var res []Act
	for _, a := range s {
		if i := strings.IndexByte(a, ':'); i >= 0 {
			res = append(res, Act{N: a[:i], A: core.B(a[i+1:]), V: true})
		} else {
			res = append(res, Act{N: a})
		}
	}
	return res
}

func init() {
	base := []Item{
		{Rules: []DRule{{Targets: []string{"REQUEST_URI"}, Op: "rx", Arg: "cmd", Acts: acts("id:123", "phase:2", "t:lowercase", "deny")}}},
		{Rules: []DRule{{Targets: []string{"ARGS:a", "!ARGS:/^b/", "&REQUEST_HEADERS", "REQUEST_COOKIES"}, Not: true, Op: "ge", Arg: "10", Acts: acts("phase:request", "msg:Don't, deny: status:200", "log", "id:7", "t:urlDecode", "t:none", "tag:a b", "tag:c", "status:404")}}},
		{Rules: []DRule{
			{Targets: []string{"ARGS_GET"}, Arg: "it's \"a, b\"|c\\d", Acts: acts("id:9", "phase:4", "block", "rev:1", "ver:x/1")},
			{Targets: []string{"RESPONSE_HEADERS:A", "RESPONSE_HEADERS:/^a/"}, Not: true, Arg: "x  y", Acts: acts("t:removeNulls", "skip:2")},
			{Targets: []string{"&ARGS_NAMES"}, Op: "eq", Arg: "0", Acts: acts("allow:phase")},
		}},
		{Dir: "SecRuleEngine", Val: "DetectionOnly"},
		{Dir: "SecRequestBodyAccess", Val: "On"},
	}
	dims := []int{len(layCase), len(layGap), len(layQ), len(layQ), len(layQ), len(laySep), 3, len(layCol), len(layEnd), len(layTSep), 2, 2}
	lay := func(v []int) Layout {
		return Layout{Case: v[0], Gap: v[1], TQ: v[2], OQ: v[3], AQ: v[4], Sep: v[5], ArgQ: v[6], Col: v[7], End: v[8], TSep: v[9], Dot: v[10] == 1, Esc: v[11] == 1}
	}
	// layouts that differ from the plain one in at most k dimensions
	layouts := func(k int, f func(Layout)) {
		v := make([]int, len(dims))
		var rec func(d, left int)
		rec = func(d, left int) {
			if d == len(dims) {
				f(lay(v))
				return
			}
			v[d] = 0
			rec(d+1, left)
			if left > 0 {
				for i := 1; i < dims[d]; i++ {
					v[d] = i
					rec(d+1, left-1)
				}
				v[d] = 0
			}
		}
		rec(0, k)
	}
	core.Register("C13", "layouts", "a document with rules, a chain and settings, and each of its directives alone, in every layout that differs from the plain one in up to four (thorough: six) of twelve ways of writing",
		func(ctx *core.Ctx, yield func(DocCase)) {
			layouts(ctx.Pick(4, 5), func(l Layout) { yield(DocCase{Items: base, L: l, Fetch: true}) })
			for i := range base {
				layouts(ctx.Pick(3, 4), func(l Layout) { yield(DocCase{Items: base[i : i+1], L: l, Fetch: true}) })
			}
		}, runDoc)
	core.Register("C13", "delivery", "documents in every layout that differs in up to two ways, delivered by readers in pieces of 1 to 7 bytes",
		func(ctx *core.Ctx, yield func(DocCase)) {
			layouts(ctx.Pick(2, 3), func(l Layout) { yield(DocCase{Items: base, L: l, Pieces: 7}) })
		}, runDoc)
	core.Register("C13", "read buffers", "documents placed so that every byte of them in turn begins a read buffer, in several layouts",
		func(ctx *core.Ctx, yield func(DocCase)) {
			for _, l := range []Layout{{}, {Gap: 3, Sep: 4, End: 1}, {Gap: 5, Sep: 5, End: 1, OQ: 1}, {Gap: 6, AQ: 1, Sep: 4, End: 2, ArgQ: 2}} {
				t, ok := render(base, l)
				if !ok {
					panic("layout")
				}
				for i := 0; i <= len(t)+2; i++ {
					for _, pad := range []string{" ", "\n"} {
						q := l
						q.Pad, q.PadN = pad, 4096-i
						yield(DocCase{Items: base, L: q, Fetch: true})
					}
				}
			}
		}, runDoc)
	args := []string{"x", "a b", "a  b", " lead", "trail ", "a,b", "a|b", "it's", `say "x"`, `\d+\\`, "^/$", "@x", "tab\there", "nl\nx", "cr\rx", "é", "x:y", "#", "%{A}", ".*", "(?i)abc", "id:1,deny", `"`, `'`, `\\n`, " ", "!x", "a\vb\fc", "SecRule ARGS x y", "//", "0", "12"}
	core.Register("C13", "operators", "every operator form, negated and plain, with every argument of a list that stresses quoting, in every layout that differs in up to two ways",
		func(ctx *core.Ctx, yield func(DocCase)) {
			for _, not := range []bool{false, true} {
				for _, op := range []string{"", "rx", "eq", "ge", "gt", "le", "lt"} {
					as := args
					if op != "" && op != "rx" {
						as = []string{"0", "1", "-1", "42", "9223372036854775807", " 7", "+7"}
					}
					for _, a := range as {
						if op == "" && (a[0] == '@' || a[0] == '!') {
							continue
						}
						r := DRule{Targets: []string{"ARGS"}, Not: not, Op: op, Arg: core.B(a), Acts: acts("id:1", "phase:2", "log")}
						layouts(ctx.Pick(2, 3), func(l Layout) { yield(DocCase{Items: []Item{{Rules: []DRule{r}}}, L: l}) })
					}
				}
			}
		}, runDoc)
	alph := []string{"id:5", "id:0017", "phase:1", "phase:3", "phase:request", "phase:response", "phase:logging", "phase:5", "t:lowercase", "t:urlDecodeUni", "t:none", "t:compressWhitespace", "t:removeWhitespace", "t:replaceNulls",
		"deny", "log", "block", "allow", "allow:phase", "allow:request", "skip", "skip:3", "status:403", "status:599", "tag:a", "tag:x, deny,y", "msg:It's \"so\": a b", "msg:", "rev:'1'", "ver:OWASP/3.1", "tag: padded ", "msg:t:lowercase,id:9", "tag:it's, log"}
	core.Register("C13", "actions", "every list of up to three of 33 actions, in four layouts, and every such action alone in every layout that differs in up to four ways",
		func(ctx *core.Ctx, yield func(DocCase)) {
			rule := func(as []string) []Item {
				return []Item{{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "x", Acts: acts(as...)}}}}
			}
			seqs(len(alph), 1, 3, func(idx []int) {
				as := pickS(alph, idx)
				for _, l := range []Layout{{}, {AQ: 1, ArgQ: 2, Sep: 1}, {AQ: 1, ArgQ: 1, Sep: 4, Col: 3}, {AQ: 0, ArgQ: 2, Sep: 2, Esc: true}} {
					yield(DocCase{Items: rule(as), L: l})
				}
			})
			for _, a := range alph {
				layouts(ctx.Pick(4, 5), func(l Layout) {
					if l.Dot || l.TSep > 0 || l.TQ > 0 {
						return
					}
					yield(DocCase{Items: rule([]string{a, "log"}), L: l})
				})
			}
		}, runDoc)
	core.Register("C13", "numbers", "ids, statuses, phases and skips of every size the language has (around powers of two up to 2^63-1, leading zeros, plus signs), written bare and in both quotes, alone and in a chain",
		func(ctx *core.Ctx, yield func(DocCase)) {
			var ns []string
			for k := uint(0); k < 63; k++ {
				for d := int64(-1); d <= 1; d++ {
					if v := int64(1)<<k + d; v >= 0 {
						ns = append(ns, strconv.FormatInt(v, 10))
					}
				}
			}
			for k, p := 1, "1"; k <= 18; k++ {
				p += "0"
				ns = append(ns, p, strings.Repeat("9", k), "0"+p)
			}
			ns = append(ns, "9223372036854775807", "3000000000", "0000000000000000000000017", "+5")
			for _, n := range ns {
				for argQ := 0; argQ < 3; argQ++ {
					for aq := 0; aq < 2; aq++ {
						l := Layout{AQ: aq, ArgQ: argQ}
						rule := func(as ...string) []Item {
							return []Item{{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "x", Acts: acts(as...)}}}}
						}
						yield(DocCase{Items: rule("id:"+n, "phase:1", "log"), L: l})
						yield(DocCase{Items: rule("log", "status:"+n, "deny", "id:"+n), L: l})
						if v, _ := strconv.ParseInt(n, 10, 64); v > 0 { // skip:0 is refused
							yield(DocCase{Items: rule("id:7", "skip:"+n, "log"), L: l})
						}
						yield(DocCase{Items: []Item{{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "eq", Arg: core.B(n), Acts: acts("id:" + n)}, {Targets: []string{"ARGS"}, Op: "ge", Arg: core.B(n), Acts: acts("log", "id:"+n)}}}}, L: l})
					}
				}
			}
		}, runDoc)
	targ := []string{"ARGS", "ARGS:a", "!ARGS:a.b", "&ARGS", "&ARGS:/a/", "ARGS_GET:/^a:/", "!ARGS_GET:b", "ARGS_POST_NAMES", "REQUEST_HEADERS:a.b", "!REQUEST_HEADERS:/A/", "&REQUEST_COOKIES:a", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "REQUEST_URI", "&REQUEST_URI", "REQUEST_BODY", "RESPONSE_STATUS"}
	index := []string{"a", "A", "aa", " y", "y ", "y", "'x'", "x", "x\"y", `"y"`, "a b", "a  b", "a\tb", "\xc3\xa9", `a\b`, `a\nb`, "*", "[a]", "/a/", "/A/", "/^y/", "/y$/", "/ /", "/[']/", `/\s/`, "/x/i", "/x", "x/", "/", "//", "0", "-1", "&a", "!a", "@a", "#", "%20y", "a=b", "ARGS", "id", "", "a:b", "a.b", ":", ".", "::", "a::b", "\v", "y\f"}
	core.Register("C13", "targets", "every list of up to three of 17 targets with both separators in every quoting, every variable of the language, and 49 index texts (letter case, blanks, quotes, escapes, regexes, odd characters) on every collection, included, excluded and counted, and in pairs",
		func(ctx *core.Ctx, yield func(DocCase)) {
			rule := func(ts []string) []Item {
				return []Item{{Rules: []DRule{{Targets: ts, Op: "rx", Arg: "x", Acts: acts("id:1", "phase:5", "log")}}}}
			}
			for _, v := range append(append([]string{}, collections...), scalars...) {
				for _, f := range []string{v, "&" + v, "!" + v + ":zz"} {
					for q := 0; q < 3; q++ {
						yield(DocCase{Items: rule([]string{f}), L: Layout{TQ: q}, Fetch: !strings.HasPrefix(f, "!") || strings.Contains(strings.Join(collections, " ")+" ", v+" ")})
					}
				}
			}
			for _, coll := range collections {
				for _, i := range index {
					for _, f := range []string{"", "!", "&"} {
						for q := 0; q < 3; q++ {
							for s := 0; s < 2; s++ {
								for _, esc := range []bool{false, true} {
									yield(DocCase{Items: rule([]string{f + coll + ":" + i}), L: Layout{TQ: q, TSep: s, Esc: esc, Gap: 2 * s}, Fetch: true})
									if f == "!" {
										yield(DocCase{Items: rule([]string{coll, f + coll + ":" + i}), L: Layout{TQ: q, TSep: s, Esc: esc}, Fetch: true})
									} else if f == "" && coll < "B" {
										for _, j := range index {
											yield(DocCase{Items: rule([]string{coll + ":" + i, coll + ":" + j}), L: Layout{TQ: q, TSep: s, Esc: esc}, Fetch: true})
										}
									}
								}
							}
						}
					}
				}
			}
			seqs(len(targ), 1, 3, func(idx []int) {
				ts := pickS(targ, idx)
				// a repeated counted target is taken together with its namesakes
				for q := 0; q < 3; q++ {
					for s := 0; s < 2; s++ {
						yield(DocCase{Items: rule(ts), L: Layout{TQ: q, TSep: s, Esc: q == s}, Fetch: true})
					}
				}
			})
		}, runDoc)
	docs := []Item{
		{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "a", Acts: acts("id:1", "phase:2", "deny")}}},
		{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "b", Acts: acts("id:2", "log")}, {Targets: []string{"REQUEST_URI"}, Op: "rx", Arg: "c", Acts: acts("t:lowercase")}}},
		{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "rx", Arg: "d", Acts: acts("id:3", "phase:1")}, {Targets: []string{"REQUEST_URI"}, Op: "eq", Arg: "1", Acts: acts("deny")}, {Targets: []string{"REQUEST_BODY"}, Op: "eq", Arg: "2", Acts: acts("status:404", "id:4")}, {Targets: []string{"REQUEST_METHOD"}, Not: true, Arg: "5", Acts: acts("log")}}},
		{Rules: []DRule{{Targets: []string{"ARGS"}, Op: "lt", Arg: "6", Acts: acts("id:4", "phase:logging", "allow")}}},
		{Dir: "SecRuleEngine", Val: "On"}, {Dir: "SecRuleEngine", Val: "Off"}, {Dir: "SecRuleEngine", Val: "DetectionOnly"},
		{Dir: "SecRequestBodyAccess", Val: "On"}, {Dir: "SecRequestBodyAccess", Val: "Off"}, {Dir: "SecResponseBodyAccess", Val: "On"}, {Dir: "SecResponseBodyAccess", Val: "Off"},
	}
	core.Register("C13", "documents", "every sequence of up to four (thorough: five) of 11 directives and chains, loaded at once and one by one, in four layouts",
		func(ctx *core.Ctx, yield func(DocCase)) {
			seqs(len(docs), 1, ctx.Pick(4, 5), func(idx []int) {
				var items []Item
				for _, i := range idx {
					items = append(items, docs[i])
				}
				for i, l := range []Layout{{}, {Case: 3, Gap: 5, End: 1, OQ: 1}, {Case: 2, Gap: 3, End: 5, AQ: 1, Sep: 4, OQ: 0}, {Case: 1, Gap: 4, End: 7, OQ: 0, TQ: 2}} {
					if len(idx) == 4 && i > 1 && !ctx.Thorough {
						continue
					}
					yield(DocCase{Items: items, L: l})
					if len(idx) <= 3 {
						yield(DocCase{Items: items, L: l, Adds: true})
					}
				}
			})
		}, runDoc)
	core.Register("C13", "phase steps", "a rule of every phase, written every way, over a complete transaction: the step it is evaluated in",
		func(ctx *core.Ctx, yield func(PhaseCase)) {
			for _, c := range []PhaseCase{{",phase:1", "reqh"}, {",phase:2", "reqb"}, {"", "reqb"}, {",phase:3", "resph"}, {",phase:4", "respb"}, {",phase:5", "log"}, {",phase:request", "reqb"}, {",phase:response", "respb"}, {",phase:logging", "log"}} {
				yield(c)
			}
		}, runPhaseStep)
	core.Register("C13", "escaped quotes", "escaped quotes before a comma inside quoted arguments",
		func(ctx *core.Ctx, yield func(EscCase)) {
			yield(EscCase{`"id:1,log,msg:'a\', b'"`, "a', b", "escaped-quote-before-comma"})
			yield(EscCase{`"id:1,log,msg:'a\',deny'"`, "a',deny", "escaped-quote-before-comma"})
			yield(EscCase{`"id:1,log,msg:'a\'b'"`, "a'b", "escaped-quote-in-argument"})
			yield(EscCase{`"id:1,log,msg:\"a,b\""`, "a,b", "escaped-quote-around-argument"})
			yield(EscCase{`'id:1,log,msg:\'a,b\''`, "a,b", "escaped-quote-around-argument"})
			yield(EscCase{`'id:1,log,msg:"a,b"'`, "a,b", "quotes-around-argument"})
			yield(EscCase{`"id:1,log,msg:'a\" , b'"`, `a" , b`, "other-quote-in-argument"})
		}, runEsc)
}
