package checks

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C11: transformations

var transNames = []string{"lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}

// loadOne loads one rule and returns it.
func loadOne(e *ms.Engine, text string) (*ms.SecRule, *core.Fail) {
	if f := loadRules(e, text); f != nil {
		return nil, f
	}
	var res *ms.SecRule
	for _, l := range e.RuleSet.Phases {
		for _, r := range l {
			if res != nil {
				return nil, core.Failf("more than one rule after loading %q", text)
			}
			res = r
		}
	}
	if res == nil {
		return nil, core.Failf("no rule after loading %q", text)
	}
	return res, nil
}

// transRules holds the loaded rules of each transformation list.
var transRules = map[string]*ms.SecRule{}

func transRule(names []string) (*ms.SecRule, *core.Fail) {
	key := strings.Join(names, ",t:")
	if r := transRules[key]; r != nil {
		return r, nil
	}
	r, f := loadOne(ms.NewEngine(), fmt.Sprintf("SecRule REMOTE_ADDR \"@rx x\" \"id:1,phase:2,t:%s\"\n", key))
	if f == nil {
		transRules[key] = r
	}
	return r, f
}

func hex1(c byte) (int, bool) {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0'), true
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10, true
	}
	return 0, false
}

// hexN reads exactly n hexadecimal digits.
func hexN(s string, n int) (int, bool) {
	if len(s) < n {
		return 0, false
	}
	v := 0
	for i := 0; i < n; i++ {
		d, ok := hex1(s[i])
		if !ok {
			return 0, false
		}
		v = v*16 + d
	}
	return v, true
}

// wsKind: 1 whitespace, 0 not.
func wsKind(r rune) int {
	switch r {
	case ' ', '\t', '\n', '\v', '\f', '\r', 0xa0:
		return 1
	}
	return 0
}

// refTrans is the definition of a transformation; false where the property
// does not define the outcome.
func refTrans(name, s string) (string, bool) {
	if !utf8.ValidString(s) {
		return s, name == "none"
	}
	var out []byte
	switch name {
	case "none":
		return s, true
	case "lowercase":
		for _, r := range s {
			if r >= 'A' && r <= 'Z' {
				r += 'a' - 'A'
			} else if r >= 0x80 {
				r = unicode.ToLower(r)
			}
			out = utf8.AppendRune(out, r)
		}
	case "removeNulls", "replaceNulls":
		for i := 0; i < len(s); i++ {
			if s[i] != 0 {
				out = append(out, s[i])
			} else if name == "replaceNulls" {
				out = append(out, ' ')
			}
		}
	case "removeWhitespace", "compressWhitespace":
		run := false
		for _, r := range s {
			k := wsKind(r)
			if k == 0 {
				out = utf8.AppendRune(out, r)
			} else if name[0] == 'c' && !run {
				out = append(out, ' ')
			}
			run = k == 1
		}
	case "urlDecode", "urlDecodeUni":
		for i := 0; i < len(s); {
			if s[i] == '+' {
				out = append(out, ' ')
				i++
				continue
			}
			if s[i] != '%' {
				out = append(out, s[i])
				i++
				continue
			}
			if v, ok := hexN(s[i+1:], 2); ok {
				out = append(out, byte(v))
				i += 3
				continue
			}
			if name == "urlDecodeUni" && i+1 < len(s) && (s[i+1] == 'u' || s[i+1] == 'U') {
				if v, ok := hexN(s[i+2:], 4); ok {
					switch {
					case v >= 0xd800 && v < 0xe000:
						return "", false
					case v >= 0xff01 && v <= 0xff5e:
						v -= 0xfee0
					}
					out = utf8.AppendRune(out, rune(v))
					i += 6
					continue
				}
			}
			out = append(out, '%')
			i++
		}
	}
	return string(out), true
}

// refRaw is refTrans of a string that is not UTF-8. Only the decoding
// transformations are asked to keep its other bytes; the others may write a
// replacement character for each.
func refRaw(name, s string) (string, bool) {
	var out strings.Builder
	if name[0] == 'u' { // decoding looks at ASCII bytes alone: Latin-1, byte by byte
		var mapped strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] < 0x80 {
				mapped.WriteByte(s[i])
			} else {
				mapped.WriteRune(0xf0000 + rune(s[i]))
			}
		}
		want, ok := refTrans(name, mapped.String())
		if !ok {
			return "", false
		}
		for i := 0; i < len(want); {
			r, n := utf8.DecodeRuneInString(want[i:])
			if r >= 0xf0000 && r < 0xf0100 {
				out.WriteByte(byte(r - 0xf0000))
			} else {
				out.WriteString(want[i : i+n])
			}
			i += n
		}
		return out.String(), true
	}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			if s[i] == 0xa0 || s[i] == 0x85 {
				return "", false // Latin-1 white space
			}
			out.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) {
			r, n := utf8.DecodeRuneInString(s[j:])
			if r == utf8.RuneError && n == 1 {
				break
			}
			j += n
		}
		part, ok := refTrans(name, s[i:j])
		if !ok {
			return "", false
		}
		out.WriteString(part)
		i = j
	}
	return out.String(), true
}

// replaceInvalid writes a replacement character for every byte that is not
// part of one.
func replaceInvalid(s string) string { return string([]rune(s)) }

func refChain(names []string, s string) (string, bool) {
	ok := true
	for _, n := range names {
		if s, ok = refTrans(n, s); !ok {
			return "", false
		}
	}
	return s, true
}

// TransCase is a string, or a range of code points, and a transformation list;
// no list means every single transformation.
type TransCase struct {
	In   core.B   `json:"in"`
	Rep  int      `json:"rep,omitempty"` // repeat In that often
	Lo   int      `json:"lo,omitempty"`  // or N code points or escapes from Lo
	N    int      `json:"n,omitempty"`
	Kind string   `json:"kind,omitempty"` // cp, hex2, hex4
	T    []string `json:"t,omitempty"`
}

func runTransOn(ctx *core.Ctx, in string, t []string) *core.Fail {
	lists := [][]string{t}
	if len(t) == 0 {
		lists = nil
		for _, n := range transNames {
			lists = append(lists, []string{n})
		}
	}
	for _, names := range lists {
		rule, f := transRule(names)
		if f != nil {
			return f
		}
		want, ok := refChain(names, in)
		got := rule.TransformString(someTx(ctx), in)
		ctx.Trans(1)
		if !ok && len(names) == 1 && !utf8.ValidString(in) {
			if want, ok = refRaw(names[0], in); ok && names[0][0] != 'u' && got != want {
				got, want = replaceInvalid(got), replaceInvalid(want)
			}
		}
		if ok && got != want {
			return core.Failf("t:%s of %.200q gives %.200q, want %.200q", strings.Join(names, ",t:"), in, got, want)
		}
		if ok {
			ctx.Outcome(names[0] + " " + fmt.Sprint(len(in)-len(got)))
		}
		ctx.State(strings.Join(names, ","), got)
	}
	return nil
}

func cpString(kind string, v int) []string {
	switch kind {
	case "cp":
		if v >= 0xd800 && v < 0xe000 {
			return nil
		}
		return []string{string(rune(v)), " " + string(rune(v)) + string(rune(v)) + "A"}
	case "hex2": // every pair of bytes that is valid UTF-8 behind a percent sign
		s := "%" + string([]byte{byte(v >> 8), byte(v)})
		if !utf8.ValidString(s) {
			return nil
		}
		return []string{s, s + "4", "%" + s, "%u" + s[1:] + "41"}
	case "hex4":
		s := fmt.Sprintf("%04x", v)
		u := strings.ToUpper(s)
		return []string{"%u" + s, "%u" + u + "0", "a%u" + s[:3] + "g", "%%u" + u, "%u" + s[:3], "+%u" + s + "%u" + u + "%", "%U" + u + "%U" + s[:3]}
	}
	panic(kind)
}

func runTrans(ctx *core.Ctx, c TransCase) *core.Fail {
	if c.N > 0 {
		for v := c.Lo; v < c.Lo+c.N; v++ {
			for _, s := range cpString(c.Kind, v) {
				if f := runTransOn(ctx, s, c.T); f != nil {
					f.Refined = TransCase{In: core.B(s), T: c.T}
					return f
				}
			}
		}
		return nil
	}
	s := string(c.In)
	if c.Rep > 1 {
		s = strings.Repeat(s, c.Rep)
	}
	return runTransOn(ctx, s, c.T)
}

func init() {
	strs := func(alpha []string, lo, hi int, f func(string)) {
		seqs(len(alpha), lo, hi, func(idx []int) { f(strings.Join(pickS(alpha, idx), "")) })
	}
	core.Register("C11", "escapes", "every string up to a length over the percent sign, u, U, digits, letters and plus, through every transformation",
		func(ctx *core.Ctx, yield func(TransCase)) {
			strs([]string{"%", "u", "U", "4", "f", "A", "+", "é"}, 0, ctx.Pick(6, 7), func(s string) { yield(TransCase{In: core.B(s)}) })
		}, runTrans).WithBudget(1 << 24)
	core.Register("C11", "blanks", "every string up to a length over all white space, null, a capital and a multi-byte letter, through every transformation",
		func(ctx *core.Ctx, yield func(TransCase)) {
			strs([]string{" ", "\t", "\n", "\v", "\f", "\r", "\u00a0", "\x00", "B", "é"}, 0, ctx.Pick(5, 6), func(s string) { yield(TransCase{In: core.B(s)}) })
		}, runTrans).WithBudget(1 << 24)
	core.Register("C11", "code points", "every Unicode code point, alone, doubled and between blanks, every pair of bytes behind a percent sign, and every %uXXXX, complete and cut short",
		func(ctx *core.Ctx, yield func(TransCase)) {
			for lo := 0; lo < 0x110000; lo += 256 {
				yield(TransCase{Lo: lo, N: 256, Kind: "cp"})
			}
			for lo := 0; lo < 0x10000; lo += 256 {
				yield(TransCase{Lo: lo, N: 256, Kind: "hex2"})
				yield(TransCase{Lo: lo, N: 256, Kind: "hex4"})
			}
		}, runTrans)
	core.Register("C11", "chains", "every list of two (thorough: three) transformations over every string up to a length over a mixed alphabet, each applied in order",
		func(ctx *core.Ctx, yield func(TransCase)) {
			seqs(len(transNames), 2, ctx.Pick(2, 3), func(tl []int) {
				names := pickS(transNames, tl)
				strs([]string{"%2", "5", "0", "B", "+", " ", "\x00", "%u0041"}, 0, ctx.Pick(4, 4), func(s string) { yield(TransCase{In: core.B(s), T: names}) })
			})
		}, runTrans).WithBudget(1 << 24)
	core.Register("C11", "long", "every string of up to three symbols repeated to thousands of bytes, through every transformation",
		func(ctx *core.Ctx, yield func(TransCase)) {
			for _, n := range []int{17, 64, 341, 1024, 1366, 4099} {
				strs([]string{"%", "41", " ", "\u00a0", "\x00", "B", "%u0042", "+", "é"}, 1, 3, func(s string) { yield(TransCase{In: core.B(s), Rep: n}) })
			}
		}, runTrans)
}

// ---------------------------------------------------------------------
// C12: operators

// OpCase gives a value to every numeric operator with the argument, or to a
// regular expression.
type OpCase struct {
	Val core.B `json:"val"`
	Arg core.B `json:"arg"`
	Sec bool   `json:"seclang,omitempty"`
}

var cmpOps = []string{"lt", "eq", "gt", "le", "ge"}

// refInt reads a decimal integer by hand.
func refInt(s string) (*big.Int, bool) {
	for len(s) > 0 && strings.IndexByte(" \t\n\v\f\r", s[0]) >= 0 {
		s = s[1:]
	}
	for len(s) > 0 && strings.IndexByte(" \t\n\v\f\r", s[len(s)-1]) >= 0 {
		s = s[:len(s)-1]
	}
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

var minInt, maxInt = big.NewInt(-1 << 63), big.NewInt(1<<63 - 1)

func clamp(v *big.Int) *big.Int {
	if v.Cmp(minInt) < 0 {
		return minInt
	}
	if v.Cmp(maxInt) > 0 {
		return maxInt
	}
	return v
}

var opCache = map[string]ms.Operator{}

func makeOp(name, arg string, sec bool) (ms.Operator, error) {
	key := fmt.Sprint(name, sec, arg)
	if o := opCache[key]; o != nil {
		return o, nil
	}
	var o ms.Operator
	var err error
	if sec {
		e := ms.NewEngine()
		r, f := loadOne(e, fmt.Sprintf("SecRule REMOTE_ADDR \"@%s %s\" \"id:1,phase:2,log\"\n", name, arg))
		if f != nil {
			return nil, fmt.Errorf("%s", f.Msg)
		}
		o = r.Operator
	} else {
		f := map[string]func(string) (ms.Operator, error){"lt": operators.NewOperatorLt, "eq": operators.NewOperatorEq, "gt": operators.NewOperatorGt,
			"le": operators.NewOperatorLe, "ge": operators.NewOperatorGe, "rx": operators.NewOperatorRx}[name]
		o, err = f(arg)
	}
	if err == nil {
		if len(opCache) > 5000 {
			opCache = map[string]ms.Operator{}
		}
		opCache[key] = o
	}
	return o, err
}

func runCompare(ctx *core.Ctx, c OpCase) *core.Fail {
	arg, isInt := refInt(string(c.Arg))
	v, ok := refInt(string(c.Val))
	if !ok {
		v = big.NewInt(0)
	}
	v = clamp(v)
	res := map[string]bool{}
	for _, name := range cmpOps {
		o, err := makeOp(name, string(c.Arg), c.Sec)
		ctx.Trans(1)
		if !isInt {
			if err == nil {
				return core.Failf("@%s accepts the argument %q, which is not an integer", name, string(c.Arg))
			}
			continue
		}
		if err != nil {
			if arg.Cmp(clamp(arg)) != 0 {
				continue // beyond 64 bits: may be refused
			}
			return core.Failf("@%s refuses the argument %q: %v", name, string(c.Arg), err)
		}
		got := o.Match(someTx(ctx), string(c.Val))
		if o.Match(someTx(ctx), string(c.Val)) != got {
			return core.Failf("@%s %q of %q changes from one evaluation to the next", name, string(c.Arg), string(c.Val))
		}
		k := v.Cmp(clamp(arg))
		want := map[string]bool{"lt": k < 0, "eq": k == 0, "gt": k > 0, "le": k <= 0, "ge": k >= 0}[name]
		if got != want {
			return core.Failf("@%s %q of the value %q is %v, want %v", name, string(c.Arg), string(c.Val), got, want)
		}
		res[name] = got
	}
	ctx.State(c.Arg, c.Val)
	ctx.Outcome(fmt.Sprint(res))
	return nil
}

var boundaryInts = []string{"0", "1", "-1", "+1", "-0", "7", "00", "007", "-007", "10", "9", "09", "99", "100", "-10", "-9", "2147483647", "2147483648", "-2147483649", "4294967296", "4294967297",
	"9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"}
var beyondInts = []string{"9223372036854775808", "9223372036854775809", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551616",
	"99999999999999999999999999", "-99999999999999999999999999", strings.Repeat("0", 40) + "5", "-" + strings.Repeat("9", 400)}
var notInts = []string{"", " ", "a", "1a", "a1", "-", "+", "--1", "+-1", "1-", "0x10", "0b1", "0o7", "1_000", "1e3", "1.0", ".5", "1,000", "1 2", "- 1", "１", "٣", "true", "NaN", "1\x00", "\x001", "0x", "1L", "∞"}

// regular expressions, as syntax trees

type re struct {
	op   byte // c literal, . any, [ class, ^ $ anchors, & concatenation, | alternation, * + ? {, ( group
	c    string
	a, b *re
}

func (r *re) String() string {
	switch r.op {
	case 'c', '[':
		return r.c
	case '.', '^', '$':
		return string(r.op)
	case 'e':
		return "(?:)"
	case '&':
		return r.a.String() + r.b.String()
	case '|':
		return "(?:" + r.a.String() + "|" + r.b.String() + ")"
	case '*', '+', '?':
		return "(?:" + r.a.String() + ")" + string(r.op)
	case '{':
		return "(?:" + r.a.String() + "){2}"
	case '(':
		return "(" + r.a.String() + ")"
	case 'i':
		return "(?i:" + r.a.String() + ")"
	}
	panic(r.op)
}

const notASCII = `[^\x00-\x7f]`

// ends gives, for the subject, the set of places a match that begins at one
// of the given places can end.
func (r *re) ends(s []rune, from map[int]bool, fold bool) map[int]bool {
	res := map[int]bool{}
	switch r.op {
	case 'c', '.', '[':
		for i := range from {
			if i >= len(s) {
				continue
			}
			ch := s[i]
			ok := false
			switch {
			case r.op == '.':
				ok = ch != '\n'
			case r.op == '[':
				in := func(ch rune) bool { return strings.ContainsRune(strings.Trim(r.c, "[]^"), ch) }
				if r.c == notASCII {
					in = func(ch rune) bool { return ch < 0x80 }
				}
				ok = in(ch) || fold && (in(unicode.ToLower(ch)) || in(unicode.ToUpper(ch)))
				if r.c[1] == '^' {
					ok = !ok
				}
			case fold:
				ok = unicode.ToLower(ch) == unicode.ToLower([]rune(r.c)[0])
			default:
				ok = ch == []rune(r.c)[0]
			}
			if ok {
				res[i+1] = true
			}
		}
	case '^':
		if from[0] {
			res[0] = true
		}
	case '$':
		if from[len(s)] {
			res[len(s)] = true
		}
	case 'e':
		return from
	case '&':
		return r.b.ends(s, r.a.ends(s, from, fold), fold)
	case '{':
		return r.a.ends(s, r.a.ends(s, from, fold), fold)
	case '|':
		for i := range r.a.ends(s, from, fold) {
			res[i] = true
		}
		for i := range r.b.ends(s, from, fold) {
			res[i] = true
		}
	case '(':
		return r.a.ends(s, from, fold)
	case 'i':
		return r.a.ends(s, from, true)
	case '?', '*', '+':
		cur := from
		if r.op != '+' {
			for i := range from {
				res[i] = true
			}
		}
		for n := 0; n <= len(s)+1; n++ {
			cur = r.a.ends(s, cur, fold)
			for i := range cur {
				res[i] = true
			}
			if r.op == '?' {
				break
			}
		}
	}
	return res
}

func (r *re) match(s string) bool {
	rs := []rune(s)
	from := map[int]bool{}
	for i := 0; i <= len(rs); i++ {
		from[i] = true
	}
	return len(r.ends(rs, from, false)) > 0
}

// reTrees gives every tree of exactly n nodes.
func reTrees(n int, memo map[int][]*re) []*re {
	if l, ok := memo[n]; ok {
		return l
	}
	var res []*re
	if n == 1 {
		for _, c := range []string{"a", "b", "é"} {
			res = append(res, &re{op: 'c', c: c})
		}
		for _, o := range ".^$e" {
			res = append(res, &re{op: byte(o)})
		}
		res = append(res, &re{op: '[', c: "[aé]"}, &re{op: '[', c: "[^a]"}, &re{op: '[', c: notASCII})
	} else {
		for _, a := range reTrees(n-1, memo) {
			for _, o := range "*+?{(i" {
				if strings.IndexByte("^$e", a.op) >= 0 && o != '(' {
					continue
				}
				res = append(res, &re{op: byte(o), a: a})
			}
		}
		for i := 1; i < n-1; i++ {
			for _, a := range reTrees(i, memo) {
				for _, b := range reTrees(n-1-i, memo) {
					res = append(res, &re{op: '&', a: a, b: b}, &re{op: '|', a: a, b: b})
				}
			}
		}
	}
	memo[n] = res
	return res
}

// RxCase is a tree, given by its size and place in the enumeration.
type RxCase struct {
	Nodes   int    `json:"nodes"`
	Idx     int    `json:"idx"`
	Pattern string `json:"pattern"`
	Len     int    `json:"len"`
}

var rxMemo = map[int][]*re{}
var rxSubjects = map[int][]string{}

func runRx(ctx *core.Ctx, c RxCase) *core.Fail {
	tree := reTrees(c.Nodes, rxMemo)[c.Idx]
	pat := tree.String()
	if rxSubjects[c.Len] == nil {
		seqs(5, 0, c.Len, func(idx []int) {
			rxSubjects[c.Len] = append(rxSubjects[c.Len], strings.Join(pickS([]string{"a", "b", "A", "\n", "é"}, idx), ""))
		})
		rxSubjects[c.Len] = append(rxSubjects[c.Len], strings.Repeat("b", 5000)+"a", strings.Repeat("b", 70000)+"A", " a ", "a\x00b", "É", "\xff", "\xe9\xe8", "a\xff", "\xffa", "\xc3", "\xa9")
	}
	ops := make([]ms.Operator, 0, 2)
	o, err := operators.NewOperatorRx(pat)
	if err != nil {
		return core.Failf("@rx refuses %q: %v", pat, err)
	}
	ops = append(ops, o)
	for _, form := range []string{"@rx " + pat, pat} {
		if form[0] == '!' || form[0] == '@' && form == pat {
			continue
		}
		r, f := loadOne(ms.NewEngine(), fmt.Sprintf("SecRule REMOTE_ADDR \"%s\" \"id:1,phase:2,log\"\n", strings.Replace(form, "\\", "\\\\", -1)))
		if f != nil {
			return f
		}
		ops = append(ops, r.Operator)
	}
	for _, s := range rxSubjects[c.Len] {
		if len(s) > 1000 && c.Nodes > 1 {
			continue // the tree takes too long
		}
		want := tree.match(s)
		for i, o := range ops {
			ctx.Trans(1)
			if got := o.Match(someTx(ctx), s); got != want {
				return core.Failf("@rx %q (form %d) of the value %.100q is %v, want %v", pat, i, s, got, want)
			}
		}
		ctx.State(pat, s)
	}
	return nil
}

func runBadRx(ctx *core.Ctx, c OpCase) *core.Fail {
	ctx.Trans(1)
	ctx.State(c.Arg)
	if _, err := operators.NewOperatorRx(string(c.Arg)); err == nil {
		return core.Failf("@rx accepts %q, which is not a regular expression", string(c.Arg))
	}
	return nil
}

func init() {
	core.Register("C12", "numbers", "all five comparisons of every short string over digits, signs, blanks and letters, and of every boundary, overflowing and malformed number, with every boundary argument",
		func(ctx *core.Ctx, yield func(OpCase)) {
			small := []string{"0", "1", "-1", "9", "10", "-9", "11", "119"}
			for _, v := range append(append(append([]string{}, boundaryInts...), beyondInts...), notInts...) {
				for _, pre := range []string{"", " ", "\t ", "\n", "\v", "\f\r"} {
					for _, post := range []string{"", " ", "\r\n", "\v\f"} {
						for _, a := range append(append([]string{}, boundaryInts...), beyondInts...) {
							if (pre+post != "") && len(a) > 60 {
								continue
							}
							yield(OpCase{Val: core.B(pre + v + post), Arg: core.B(a)})
						}
					}
				}
			}
			alpha := []string{"0", "1", "9", "-", "+", " ", "\v", "a", "."}
			seqs(len(alpha), 0, ctx.Pick(5, 6), func(idx []int) {
				s := strings.Join(pickS(alpha, idx), "")
				for _, a := range small {
					yield(OpCase{Val: core.B(s), Arg: core.B(a)})
				}
			})
		}, runCompare).WithBudget(1 << 20)
	core.Register("C12", "arguments", "every short string over digits, signs, blanks and letters, and every boundary and malformed number, as an argument: refused exactly when it is no integer",
		func(ctx *core.Ctx, yield func(OpCase)) {
			alpha := []string{"0", "1", "9", "-", "+", " ", "a", "_", "x"}
			seqs(len(alpha), 0, ctx.Pick(4, 5), func(idx []int) {
				for _, v := range []string{"1", "-9"} {
					yield(OpCase{Val: core.B(v), Arg: core.B(strings.Join(pickS(alpha, idx), ""))})
				}
			})
			for _, a := range append(append(append([]string{}, boundaryInts...), beyondInts...), notInts...) {
				for _, v := range []string{"0", "1", " 9223372036854775807", "-9223372036854775808", "x"} {
					yield(OpCase{Val: core.B(v), Arg: core.B(a)})
					if a != "" && a[0] != 0 && !strings.ContainsAny(a, "\"\\\n\r") {
						yield(OpCase{Val: core.B(v), Arg: core.B(a), Sec: true})
					}
				}
			}
		}, runCompare)
	core.Register("C12", "regular expressions", "every regular expression of up to 4 (thorough: 5) syntax nodes with every subject of up to three characters, against an independent matcher",
		func(ctx *core.Ctx, yield func(RxCase)) {
			for n := 1; n <= ctx.Pick(4, 5); n++ {
				for i, t := range reTrees(n, rxMemo) {
					yield(RxCase{Nodes: n, Idx: i, Pattern: t.String(), Len: 3})
				}
			}
		}, runRx)
	core.Register("C12", "malformed expressions", "arguments that are not regular expressions",
		func(ctx *core.Ctx, yield func(OpCase)) {
			for _, a := range []string{"(", ")", "a)", "(a", "[", "[a", "*", "+a", "?", "a**", "a{2,1}", "a{1001}", "\\", "a\\", "(?P<n", "(?<", "(?z)", "[b-a]", "\\8", "(?=a)", "(?!a)", "(?<=a)", "\\pX", "[[:x:]]", "x\xff", "\xff", "(((", "a(b", "|*", "(*"} {
				yield(OpCase{Arg: core.B(a)})
			}
		}, runBadRx)
}
