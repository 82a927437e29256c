package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C14: an independent recogniser of the supported language

const (
	refuse = iota
	accept
	either // the property takes no side
)

type recog struct {
	s     string
	i     int
	bad   bool
	open  bool // something the property takes no side on
	rules int
}

func (r *recog) peek() int {
	if r.i >= len(r.s) {
		return -1
	}
	return int(r.s[r.i])
}

func (r *recog) newline() { // CR LF and LF CR are one
	c := r.s[r.i]
	r.i++
	if d := r.peek(); (d == '\n' || d == '\r') && byte(d) != c {
		r.i++
	}
}

func isNL(c int) bool { return c == '\n' || c == '\r' }
func isBl(c int) bool { return c == ' ' || c == '\t' || c == '\v' || c == '\f' }

// str reads one argument; ok is false when there is none or it is malformed.
func (r *recog) str() (string, bool) {
	for {
		if isBl(r.peek()) {
			r.i++
		} else if r.peek() == '\\' && r.i+1 < len(r.s) && isNL(int(r.s[r.i+1])) {
			r.i++
			r.newline()
		} else {
			break
		}
	}
	c := r.peek()
	if c < 0 || isNL(c) {
		return "", false
	}
	q := 0
	if c == '"' || c == '\'' {
		q = c
		r.i++
	}
	var out []byte
	for {
		c := r.peek()
		if q != 0 && c == q {
			r.i++
			return string(out), true
		}
		if q == 0 && (c < 0 || isBl(c) || isNL(c)) {
			if c >= 0 {
				r.i++
			}
			return string(out), true
		}
		if c < 0 || isNL(c) {
			return "", false
		}
		if c != '\\' {
			out = append(out, byte(c))
			r.i++
			continue
		}
		r.i++
		e := r.peek()
		switch {
		case e < 0:
			return "", false
		case isNL(e):
			r.newline()
			out = append(out, '\n')
		default:
			r.i++
			if k := strings.IndexByte("abfnrtv", byte(e)); k >= 0 {
				e = int("\a\b\f\n\r\t\v"[k])
			}
			out = append(out, byte(e))
		}
	}
}

var knownVars = func() map[string]bool {
	res := map[string]bool{}
	for _, v := range append(append([]string{}, collections...), scalars...) {
		res[v] = true
	}
	return res
}()

var isColl = func() map[string]bool {
	res := map[string]bool{}
	for _, v := range collections {
		res[v] = true
	}
	return res
}()

func reOK(s string) bool { _, err := regexp.Compile(s); return err == nil }

func (r *recog) targets(s string) bool {
	for _, t := range strings.Split(strings.ReplaceAll(s, ",", "|"), "|") {
		if t == "" {
			return false
		}
		if t[0] == '!' || t[0] == '&' {
			t = t[1:]
		}
		idx := ""
		if i := strings.IndexAny(t, ".:"); i > 0 {
			t, idx = t[:i], t[i+1:]
		}
		if !knownVars[t] {
			return false
		}
		if idx != "" && !isColl[t] {
			r.open = true // an index on a scalar
			continue
		}
		if len(idx) >= 2 && idx[0] == '/' && idx[len(idx)-1] == '/' && !reOK(idx[1:len(idx)-1]) {
			return false
		}
	}
	return true
}

func fits64(s string) bool {
	v, ok := refInt(s)
	return ok && v.Cmp(clamp(v)) == 0
}

func (r *recog) operator(s string) bool {
	if s == "" {
		return false
	}
	if s[0] == '!' {
		s = s[1:]
	}
	if s == "" {
		return false
	}
	if s[0] != '@' {
		return reOK(s)
	}
	name, arg := s[1:], ""
	has := false
	if i := strings.IndexByte(name, ' '); i >= 0 {
		name, arg, has = name[:i], name[i+1:], true
	}
	switch name {
	case "rx":
		if !has {
			r.open = true
		}
		return reOK(arg)
	case "eq", "ge", "gt", "le", "lt":
		return fits64(arg)
	}
	return false
}

// unq takes the quotes off an argument.
func (r *recog) unq(s string) string {
	q := func(c byte) bool { return c == '"' || c == '\'' }
	if len(s) >= 2 && q(s[0]) && q(s[len(s)-1]) {
		if s[0] != s[len(s)-1] {
			r.open = true
		}
		return s[1 : len(s)-1]
	}
	return s
}

// splitActs splits at commas outside of quoted arguments: a quoted argument
// begins with a quote right behind the colon, and ends with the first such
// quote that is followed by a comma or the end.
func splitActs(s string) []string {
	var res []string
	for {
		end := -1
		comma := strings.IndexByte(s, ',')
		colon := strings.IndexByte(s, ':')
		if colon >= 0 && (comma < 0 || colon < comma) {
			j := colon + 1
			for j < len(s) && strings.IndexByte(" \t\n\v\f\r", s[j]) >= 0 {
				j++
			}
			if j < len(s) && (s[j] == '"' || s[j] == '\'') {
				for k := j + 1; k < len(s); k++ {
					if s[k] != s[j] {
						continue
					}
					m := k + 1
					for m < len(s) && strings.IndexByte(" \t\n\v\f\r", s[m]) >= 0 {
						m++
					}
					if m == len(s) || s[m] == ',' {
						end = m
						break
					}
				}
			}
		}
		if end < 0 {
			end = comma
		}
		if end < 0 || end >= len(s) {
			return append(res, s)
		}
		res = append(res, s[:end])
		s = s[end+1:]
	}
}

func atoi(s string) (int, bool) {
	if strings.Trim(s, "+-0123456789") != "" || !fits64(s) {
		return 0, false
	}
	n, err := strconv.Atoi(s)
	return n, err == nil
}

var transKnown = func() map[string]bool {
	res := map[string]bool{}
	for _, n := range transNames {
		res[n] = true
	}
	return res
}()

func (r *recog) actions(s string) bool {
	s = strings.TrimSpace(s)
	if s == "" {
		return false
	}
	ok := true
	for _, a := range splitActs(s) {
		name, arg, has := a, "", false
		if i := strings.IndexByte(a, ':'); i >= 0 {
			name, arg, has = a[:i], strings.TrimSpace(a[i+1:]), true
		}
		val := r.unq(arg)
		switch strings.TrimSpace(name) {
		case "deny", "log", "block", "chain":
			r.open = r.open || has
		case "tag", "msg", "rev", "ver":
			r.open = r.open || !has
		case "id":
			n, good := atoi(val)
			ok = ok && good
			r.open = r.open || n < 0
		case "status":
			_, good := atoi(val)
			ok = ok && good
		case "skip":
			if arg == "" {
				r.open = r.open || has
				continue
			}
			n, good := atoi(val)
			ok = ok && good && n >= 1
		case "allow":
			ok = ok && (val == "" || val == "phase" || val == "request")
			r.open = r.open || has && val == ""
		case "phase":
			n, good := atoi(val)
			ok = ok && (val == "request" || val == "response" || val == "logging" || good && n >= 1 && n <= 5)
		case "t":
			ok = ok && transKnown[val]
		default: // unknown, or known and not supported
			ok = false
		}
	}
	return ok
}

// refLoad decides whether a text consists of complete, known directives.
func refLoad(s string) int {
	r := &recog{s: s}
	for {
		c := r.peek()
		if c < 0 {
			break
		}
		if isNL(c) || isBl(c) || c == 0 {
			r.i++
			continue
		}
		b := r.i
		for c := r.peek(); c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'; c = r.peek() {
			r.i++
		}
		word := strings.ToLower(s[b:r.i])
		switch word {
		case "secrule":
			var p [3]string
			for k := range p {
				var ok bool
				if p[k], ok = r.str(); !ok {
					return refuse
				}
			}
			if !r.targets(p[0]) || !r.operator(p[1]) || !r.actions(p[2]) {
				return refuse
			}
			r.rules++
		case "secruleengine", "secrequestbodyaccess", "secresponsebodyaccess":
			v, ok := r.str()
			v = strings.ToLower(v)
			if !ok || v != "on" && v != "off" && !(v == "detectiononly" && word == "secruleengine") {
				return refuse
			}
		default:
			return refuse
		}
	}
	if r.open {
		return either
	}
	return accept
}

// ---------------------------------------------------------------------

// LoadCase is a sequence of texts loaded into one set, or one text.
type LoadCase struct {
	Text  core.B   `json:"text"`
	Texts []core.B `json:"texts,omitempty"`
}

const baseText = "SecRuleEngine DetectionOnly\nSecRequestBodyAccess On\nSecRule ARGS \"x\" \"id:77,phase:3,log,chain\"\nSecRule REMOTE_ADDR \"y\" \"id:78\"\n"

// shape describes what a set does to a fresh engine.
func shape(ds *seclang.DireSet, dir string) string {
	e := ms.NewEngine()
	e.TmpPath = dir
	if err := ds.Execute(e); err != nil {
		return "execute: " + err.Error()
	}
	var b strings.Builder
	fmt.Fprint(&b, e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess)
	var ps []int
	for p := range e.RuleSet.Phases {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		fmt.Fprintf(&b, " | %d:", p)
		for _, r := range e.RuleSet.Phases[p] {
			fmt.Fprintf(&b, " %s", gotDesc(r, false, true))
			for _, s := range r.SubRules {
				fmt.Fprintf(&b, " > %s", gotDesc(s, false, true))
			}
		}
	}
	return b.String()
}

func loadOutcome(err error) string {
	if err == nil {
		return "accepted"
	}
	s := err.Error()
	if len(s) > 24 {
		s = s[:24]
	}
	return s
}

func runLoad(ctx *core.Ctx, c LoadCase) *core.Fail {
	texts := c.Texts
	if texts == nil {
		texts = []core.B{c.Text}
	}
	ds := seclang.NewDireSet()
	if c.Texts == nil {
		if err := ds.AddSecLangString(baseText); err != nil {
			return core.Failf("a valid text was refused: %v", err)
		}
	}
	was := shape(ds, ctx.Dir)
	good := ""
	if c.Texts == nil {
		good = baseText
	}
	for n, text := range texts {
		want := refLoad(string(text))
		err := ds.AddSecLangString(string(text))
		ctx.Trans(1)
		if (err == nil) != (want == accept) && want != either {
			if err == nil {
				return core.Failf("text %d, %.400q, was loaded, but it does not consist of complete, known directives", n, string(text))
			}
			return core.Failf("valid text %d, %.400q, was refused: %v", n, string(text), err)
		}
		if err != nil && err.Error() == "" {
			return core.Failf("text %d, %.400q: an empty error", n, string(text))
		}
		now := shape(ds, ctx.Dir)
		if err != nil && now != was {
			return core.Failf("the failed load of %.400q (%v) changed the set\n from %s\n to   %s", string(text), err, was, now)
		}
		if strings.HasPrefix(now, "execute: ") {
			return core.Failf("%.400q was loaded, but %s", string(text), now)
		}
		if err == nil {
			good += string(text) + "\n"
		}
		was = now
		ctx.State(string(text), err == nil, len(now))
		ctx.Outcome(loadOutcome(err))
	}
	if len(texts) > 1 { // the good loads add up, as if loaded alone
		all := seclang.NewDireSet()
		for _, text := range texts {
			if refLoad(string(text)) == accept {
				if err := all.AddSecLangString(string(text)); err != nil {
					return core.Failf("valid text refused: %v", err)
				}
			}
		}
		if a := shape(all, ctx.Dir); a != was {
			return core.Failf("loading %q gives\n %s, the good texts alone give\n %s", texts, was, a)
		}
		return nil
	}
	// the other ways in
	ds2, err2 := seclang.NewDireSetFromSecLangString(string(texts[0]))
	w := refLoad(string(texts[0]))
	if w != either && (err2 == nil) != (w == accept) {
		return core.Failf("NewDireSetFromSecLangString(%.400q): error %v", string(texts[0]), err2)
	}
	if err2 != nil && ds2 != nil {
		return core.Failf("NewDireSetFromSecLangString(%.400q): a set together with the error %v", string(texts[0]), err2)
	}
	ctx.Trans(1)
	return nil
}

// runScan lets the scanner read the text by each of its entry points.
func runScan(ctx *core.Ctx, c LoadCase) *core.Fail {
	for k, f := range []func(s *parser.Scanner) error{
		func(s *parser.Scanner) error { _, err := s.ReadString(); return err },
		func(s *parser.Scanner) error { _, err := s.ReadVariables(); return err },
		func(s *parser.Scanner) error { _, err := s.ReadOperator(); return err },
		func(s *parser.Scanner) error { _, err := s.ReadActions(); return err },
		func(s *parser.Scanner) error { _, err := s.ReadDirective(); return err },
		func(s *parser.Scanner) error {
			_, _, err := s.ReadValue(parser.TkValueOn, parser.TkValueOff)
			return err
		},
		func(s *parser.Scanner) error { return s.SkipBlank() },
	} {
		s := parser.NewSecLangScannerFromString(string(c.Text))
		for i := 0; i < len(c.Text)+3; i++ {
			ctx.Trans(1)
			if f(s) != nil {
				break
			}
		}
		ctx.State(c.Text, k)
	}
	return nil
}

func init() {
	text := func(yield func(LoadCase), s string) { yield(LoadCase{Text: core.B(s)}) }
	strs := func(alpha []string, lo, hi int, f func(string)) {
		seqs(len(alpha), lo, hi, func(idx []int) { f(strings.Join(pickS(alpha, idx), "")) })
	}
	const budget = 1 << 22
	samples := []string{
		"SecRule ARGS \"@rx a\" \"id:1,phase:2,deny\"\n",
		"SecRuleEngine On\nSecRule REQUEST_URI '@rx cmd' \\\n  \"id:123,\\\n   phase:2,\\\n   t:lowercase,\\\n   deny\"\nSecRule &ARGS:/^a/|!ARGS.b \"!@ge 3\" 'log,status:\"404\",msg:\"x, y\",chain'\n SecRule REMOTE_ADDR z skip:2\n",
		"secruleengine DetectionOnly\r\nSECREQUESTBODYACCESS off\r\nSecResponseBodyAccess 'On'\r\nSecRule ARGS x allow:phase",
		"SecRule ARGS|REQUEST_HEADERS:User-Agent \"\\\\d+\\\"x\" \"id:1,msg:'it\\'s',tag:'a,b',ver:1,rev:2,block\"",
	}
	core.Register("C14", "tokens", "every string of up to five (thorough: six) tokens of the language and of control characters: accepted exactly when an independent recogniser accepts it",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			toks := []string{"SecRule ", "SecRuleEngine", " ", "\n", "\\", "\"", "'", "ARGS ", "@eq 1", "id:1", "On", ",", "SecRule ARGS \"x\" ", "deny", "\r\n", "\x00"}
			strs(toks, 0, ctx.Pick(5, 6), func(s string) { text(yield, s) })
		}, runLoad).WithBudget(budget)
	core.Register("C14", "bytes", "every byte string of up to two bytes, and up to five over the significant ones, alone and behind the beginnings of directives",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			pres := []string{"", "SecRule", "SecRule ", "SecRule ARGS", "SecRule ARGS ", "SecRule ARGS \"", "SecRule ARGS 'a' ", "SecRule ARGS 'a' \"", "SecRuleEngine ", "SecRule ARGS a log", "SecRule ARGS a 'log'"}
			for a := 0; a < 256; a++ {
				for _, p := range pres {
					text(yield, p+string([]byte{byte(a)}))
					text(yield, p+string([]byte{byte(a)})+"\nSecRuleEngine On")
				}
			}
			for a := 0; a < 65536; a++ {
				text(yield, string([]byte{byte(a >> 8), byte(a)}))
			}
			sig := []string{"\\", "\n", "\r", "\"", "'", " ", "x", ",", "\x00"}
			for _, p := range pres {
				strs(sig, 2, ctx.Pick(4, 5), func(s string) { text(yield, p+s) })
			}
		}, runLoad).WithBudget(budget)
	core.Register("C14", "damaged samples", "every truncation, every dropped, doubled, swapped, replaced and inserted byte of four sample texts",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			sig := "\\\n\r\"' ,:|&!@()[*x1\x00\xff-./"
			for _, s := range samples {
				for i := 0; i <= len(s); i++ {
					text(yield, s[:i])
					text(yield, s[i:])
					if i < len(s) {
						text(yield, s[:i]+s[i+1:])
						text(yield, s[:i]+s[i:i+1]+s[i:])
						if i+1 < len(s) {
							text(yield, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
						}
					}
					set := []byte(sig)
					if i < len(s) && len(s) < 400 {
						set = nil
						for b := 0; b < 256; b++ {
							set = append(set, byte(b))
						}
					}
					for _, b := range set {
						text(yield, s[:i]+string([]byte{b})+s[i:])
						if i < len(s) {
							text(yield, s[:i]+string([]byte{b})+s[i+1:])
						}
					}
				}
			}
			if ctx.Thorough { // two damages
				for _, s := range samples[:1] {
					for i := 0; i < len(s); i++ {
						for j := i + 1; j < len(s); j++ {
							for _, a := range sig {
								for _, b := range sig {
									text(yield, s[:i]+string(a)+s[i+1:j]+string(b)+s[j+1:])
								}
							}
						}
					}
				}
			}
		}, runLoad).WithBudget(budget)
	core.Register("C14", "targets", "every target list of up to five (thorough: six) tokens",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			strs([]string{"ARGS", "REMOTE_ADDR", "XML", "args", "&", "!", ":", ".", "/", "a", "|", ",", "(", " "}, 1, ctx.Pick(5, 6), func(s string) {
				text(yield, "SecRule \""+s+"\" x log")
			})
		}, runLoad).WithBudget(budget)
	core.Register("C14", "operators", "every operator text of up to five (thorough: six) tokens",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			strs([]string{"@", "!", "rx", "eq", "le", " ", "1", "-", "a", "(", ")", "[", "*", "\t", "Eq", "pm"}, 1, ctx.Pick(5, 6), func(s string) {
				text(yield, "SecRule ARGS \""+s+"\" log")
			})
		}, runLoad).WithBudget(budget)
	core.Register("C14", "actions", "every action list of up to five (thorough: six) tokens, and every name of the parser with every kind of argument",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			strs([]string{"id", ":", ",", "1", "deny", "status", "t", "none", "'", "allow", "phase", "msg", " ", "skip", "chain", "logging"}, 1, ctx.Pick(5, 6), func(s string) {
				text(yield, "SecRule ARGS x \""+s+"\"")
			})
			names := []string{"deny", "log", "block", "chain", "tag", "msg", "rev", "ver", "id", "status", "skip", "allow", "phase", "t", "severity", "logdata", "setvar", "capture", "pass", "nolog", "auditlog", "redirect", "Deny", "drop", "pause", "exec", "ctl", "expirevar", "", "skipAfter", "noauditlog", "initcol", "deny ", " log", "\\tlog"}
			vals := []string{"", "1", "0", "-1", "6", "5", "99999999999999999999", "9223372036854775807", "1.5", "x", "phase", "request", "response", "logging", "Request", "none", "lowercase", "Lowercase", "urlDecode", "base64Decode", "md5", "sha1", "'1'", "'none'", "'phase'", "' 1'", "''", "'", "1 ", " 1", "+1", "0x1", "1_0", "CRITICAL", "2", "'a,b'", "'deny", "a:b", "١", "both", "10", "0000000000000000000000001"}
			for _, n := range names {
				text(yield, "SecRule ARGS x \""+n+"\"")
				text(yield, "SecRule ARGS x \"id:1,"+n+",log\"")
				for _, v := range vals {
					for _, f := range []string{"%", "id:1,%", "%,log", "id:1 , % , log"} {
						text(yield, "SecRule ARGS x \""+strings.Replace(f, "%", n+":"+v, 1)+"\"")
					}
				}
			}
		}, runLoad).WithBudget(budget)
	core.Register("C14", "names", "every directive, variable, operator and transformation name with a letter dropped, doubled or changed in case, and names of ModSecurity that are not supported",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			vary := func(s string) []string {
				res := []string{s, strings.ToLower(s), strings.ToUpper(s), s + "s", s + "1", "_" + s}
				for i := range s {
					res = append(res, s[:i]+s[i+1:], s[:i]+s[i:i+1]+s[i:], s[:i]+string(s[i]^0x20)+s[i+1:])
				}
				return res
			}
			for _, d := range []string{"SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess", "SecRule"} {
				for _, w := range vary(d) {
					for _, v := range []string{" On", " DetectionOnly", " ARGS x log", "", "\n", " \\\n", " \"\"", "\tOff"} {
						text(yield, w+v)
					}
				}
			}
			for _, d := range []string{"SecAction", "SecMarker", "SecDefaultAction", "SecRuleRemoveById", "SecComponentSignature", "SecDebugLog", "SecRequestBodyLimit", "SecTmpDir", "Include", "#", "# comment", "<IfModule>"} {
				for _, v := range []string{"", " On", " \"id:1,deny\"", "\nSecRuleEngine On"} {
					text(yield, d+v)
					text(yield, "SecRuleEngine On\n"+d+v)
				}
			}
			for _, v := range []string{"On", "Off", "DetectionOnly"} {
				for _, w := range vary(v) {
					for _, d := range []string{"SecRuleEngine ", "SecRequestBodyAccess ", "SecResponseBodyAccess "} {
						for _, q := range []string{"%", "'%'", "\"%\"", "\"%\" On", "% %", "' %'", "'%\\\n'"} {
							text(yield, d+strings.ReplaceAll(q, "%", w))
						}
					}
				}
			}
			var all []string
			for v := range knownVars {
				all = append(all, v)
			}
			sort.Strings(all)
			all = append(all, "XML", "TX", "FILES", "GEO", "ARGS_COMBINED_SIZE", "MATCHED_VAR", "REQUEST_LINE", "REMOTE_HOST", "ENV", "TIME", "UNIQUE_ID", "RULE", "IP", "SESSION", "MULTIPART_STRICT_ERROR", "REQBODY_ERROR", "REMOTE_PORT", "SERVER_NAME")
			for _, v := range all {
				for _, w := range vary(v) {
					for _, f := range []string{"%", "&%", "!%:a", "ARGS|%", "%:/a/", "%:/(/"} {
						text(yield, "SecRule "+strings.Replace(f, "%", w, 1)+" x log")
					}
				}
			}
			for _, v := range append(append([]string{}, transNames...), "trim", "base64Decode", "htmlEntityDecode", "length", "md5", "hexDecode", "cmdLine", "normalisePath", "jsDecode", "cssDecode", "uppercase", "sha1", "replaceComments") {
				for _, w := range vary(v) {
					text(yield, "SecRule ARGS x t:"+w)
				}
			}
			for _, v := range []string{"rx", "eq", "ge", "gt", "le", "lt", "pm", "pmFromFile", "streq", "contains", "within", "beginsWith", "endsWith", "ipMatch", "detectSQLi", "detectXSS", "validateByteRange", "rbl", "geoLookup", "unconditionalMatch", "noMatch", "strmatch", "containsWord", "inspectFile", "verifyCC"} {
				for _, w := range vary(v) {
					for _, f := range []string{"@% 1", "!@% 1", "@% x", "@%", "@%1", "@ % 1"} {
						text(yield, "SecRule ARGS \""+strings.Replace(f, "%", w, 1)+"\" log")
					}
				}
			}
		}, runLoad).WithBudget(budget)
	core.Register("C14", "histories", "every sequence of up to four (thorough: five) loads of good and bad texts into one set",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			texts := []string{
				"SecRule ARGS x \"id:1,log\"\n",
				"SecRuleEngine On\nSecRule ARGS x \"id:2,chain\"\nSecRule ARGS y \"id:3\"",
				"SecRequestBodyAccess On",
				"",
				"SecRule ARGS x \"id:4,log\"\nSecRule",
				"SecRuleEngine Off\nSecRule ARGS x \"id:5,chain\"\nSecRule BOGUS y log",
				"SecRule ARGS x \"id:6,chain,log\"\nSecRule ARGS \"@eq x\" \"id:7\"\n",
				"SecRule ARGS x \"id:8,chain,log\"\nSecRule ARGS x \"id:9,t:none,severity:2\"\n",
				"SecResponseBodyAccess On\nSecRule ARGS x \"id:10,phase:1\"\nSecRule ARGS:/(/ x log",
				"SecRule ARGS x \"id:11,log\"\nSecRule ARGS \"(\" \"id:12,log\"",
			}
			seqs(len(texts), 2, ctx.Pick(4, 5), func(idx []int) {
				var l []core.B
				for _, i := range idx {
					l = append(l, core.B(texts[i]))
				}
				yield(LoadCase{Texts: l})
			})
		}, runLoad).WithBudget(budget)
	core.Register("C14", "long", "every token pair around a run that fills the read buffer, and long texts",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			toks := []string{"SecRule ", "SecRuleEngine On", " ", "\n", "\\", "\"", "'", "ARGS ", "x", "\r\n", "\\\n", "\x00", ","}
			for _, a := range toks {
				for _, m := range []string{" ", "\n", "\\\n", "x", "\\", "\x00", ",", "SecRuleEngine On\n"} {
					for _, n := range []int{1000, 4095, 4096, 4097, 9000} {
						for _, b := range toks {
							text(yield, a+strings.Repeat(m, n/len(m)+1)[:n]+b)
						}
					}
				}
			}
			for i := 0; i <= len(samples[1]); i++ {
				text(yield, strings.Repeat("\n", 4096-i)+samples[1])
				text(yield, strings.Repeat("\n", 4096-i)+samples[1][:i])
			}
		}, runLoad).WithBudget(1 << 24)
	core.Register("C14", "scanner", "every string of up to five tokens through each reading function of the scanner, repeatedly: it ends",
		func(ctx *core.Ctx, yield func(LoadCase)) {
			strs([]string{"SecRule", " ", "\n", "\\", "\"", "'", "ARGS", "\x00", "On", "@", ",", "\r"}, 0, ctx.Pick(4, 5), func(s string) { text(yield, s) })
		}, runScan).WithBudget(budget)
}
