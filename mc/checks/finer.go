package checks

import (
	"fmt"
	"os"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// multipart bodies that are beyond what their reader takes

// HugeCase is a transaction with such a body, inspected by one rule between
// others.
type HugeCase struct {
	Kind   string `json:"kind"`
	Mode   string `json:"mode"`
	Target string `json:"target"`
	Pos    int    `json:"pos"`  // 0 plain, 1 first link, 2 last link
	Each   bool   `json:"each"` // results taken after every step
	Acts   string `json:"acts"`
	Mem    int64  `json:"mem"`
}

var hugeBodies = map[string]string{}

// hugeBody gives a multipart body, and whether it is within the limits.
func hugeBody(kind string) (string, bool) {
	b, ok := hugeBodies[kind]
	if !ok {
		field := func(name, hdr string, n int) string {
			return "--B\r\nContent-Disposition: form-data; name=\"" + name + "\"\r\n" + hdr + "\r\n" + strings.Repeat("v", n) + "\r\n"
		}
		switch kind {
		case "fields":
			b = field("a", "", 6<<20) + field("b", "", 6<<20)
		case "one field":
			b = field("a", "", 12<<20)
		case "parts":
			b = strings.Repeat(field("a", "", 1), 1100)
		case "headers":
			b = field("a", strings.Repeat("X: y\r\n", 12000), 1)
		case "small":
			b = field("a", "", 3) + field("b", "", 3)
		case "many":
			b = strings.Repeat(field("a", "", 2), 900)
		case "wide":
			b = field("a", "", 4<<20) + field("b", "", 4<<20)
		}
		b += "--B--\r\n"
		hugeBodies[kind] = b
	}
	return b, kind == "small" || kind == "many" || kind == "wide"
}

func runHuge(ctx *core.Ctx, c HugeCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	os.Setenv("TMPDIR", ctx.Dir)
	body, within := hugeBody(c.Kind)
	r := Req{Method: "POST", URL: "/?q=1", CT: "multipart/form-data; boundary=B", Mem: c.Mem}
	e := r.engine(ctx.Dir)
	setMode(e, c.Mode)
	insp, plain := "SecRule "+c.Target+" \"@rx .\"", "SecRule REMOTE_ADDR \"@rx .\""
	var text string
	switch c.Pos {
	case 0:
		text = fmt.Sprintf("%s \"id:1,phase:3,%s\"\n", insp, c.Acts)
	case 1:
		text = fmt.Sprintf("%s \"id:1,phase:3,%s,chain\"\n%s \"id:2\"\n", insp, c.Acts, plain)
	case 2:
		text = fmt.Sprintf("%s \"id:1,phase:3,%s,chain\"\n%s \"id:2\"\n", plain, c.Acts, insp)
	}
	rec := &recorder{}
	e.AddSecRule(probeRule(rec, 3, "before"))
	if f := loadRules(e, text); f != nil {
		return f
	}
	e.AddSecRule(probeRule(rec, 3, "after"), probeRule(rec, 4, "resph"), probeRule(rec, 5, "respb"), probeRule(rec, 6, "log"))
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer t.Request.Body.Close()
	want := ""
	status := 200
	add := func(tags ...string) {
		for _, s := range tags {
			if c.Mode != "off" && status == 200 {
				want += s + " "
			}
		}
	}
	step := func(name string, f func()) *core.Fail {
		f()
		ctx.Trans(1)
		got := ""
		for _, ev := range rec.ev {
			if strings.HasPrefix(ev, "act ") {
				got += strings.Fields(ev)[1] + " "
			}
		}
		if got != want {
			return core.Failf("after %s these rules have acted: %q, want %q (%s body, %s)", name, got, want, c.Kind, text)
		}
		if c.Each || name == "the end" {
			if i := t.Result(); i.Status != status || i.Disruptive != (status != 200) {
				return core.Failf("result after %s: status %d, disruptive %v, want %d (%s body, %s)", name, i.Status, i.Disruptive, status, c.Kind, text)
			}
			if within {
				status = 200 // reported
			}
		}
		ctx.State(c.Kind, c.Mode, c.Target, name, status, got)
		return nil
	}
	start := r
	start.Skip = skipBody | skipRespH | skipRBody
	if err := start.play(t); err != nil {
		return core.Failf("%v", err)
	}
	if f := step("the headers", func() {}); f != nil {
		return f
	}
	if err := t.AppendRequestBody([]byte(body)); err != nil {
		return core.Failf("append: %v", err)
	}
	add("before")
	if c.Mode == "on" {
		if !within {
			status = 413
		} else if strings.Contains(c.Acts, "deny") {
			status = 418
		}
	}
	add("after")
	for _, s := range []struct {
		name string
		tag  string
		f    func()
	}{
		{"ProcessRequestBody", "", func() { t.ProcessRequestBody() }},
		{"ProcessResponseHeaders", "resph", func() { t.ProcessResponseHeaders(200, "HTTP/1.1", nil) }},
		{"ProcessResponseBody", "respb", func() { t.ProcessResponseBody() }},
		{"ProcessLogging", "log", func() { t.ProcessLogging() }},
		{"the end", "", func() {}},
	} {
		if s.tag != "" {
			add(s.tag)
		}
		if f := step(s.name, s.f); f != nil {
			return f
		}
	}
	ctx.Outcome(fmt.Sprint(c.Kind, c.Mode, want, status))
	return nil
}

// ---------------------------------------------------------------------
// regular expressions as indexes

// NameCase applies selectors to names made of one byte (or one character) in
// several surroundings.
type NameCase struct {
	Sel   []string `json:"sel"` // with COLL for the collection
	Where string   `json:"where"`
	Lo    int      `json:"lo"`
	Hi    int      `json:"hi"`
}

func pctAll(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02X", s[i])
	}
	return b.String()
}

// nameReq is a request with an entry for each of the names.
func nameReq(where string, names []string) Req {
	r := Req{Method: "POST", URL: "/", Code: 200}
	switch where {
	case "ARGS_GET", "ARGS_POST":
		q := ""
		for i, n := range names {
			q += fmt.Sprintf("&%s=%d", pctAll(n), i)
		}
		if where == "ARGS_GET" {
			r.URL = core.B("/?" + q[1:])
		} else {
			r.CT, r.Body = urlenc, core.B(q[1:])
		}
	case "REQUEST_HEADERS":
		for i, n := range names {
			r.Hdr = append(r.Hdr, [2]core.B{core.B(n), core.B(fmt.Sprint(i))})
		}
	case "RESPONSE_HEADERS":
		for i, n := range names {
			r.RHdr = append(r.RHdr, [2]core.B{core.B(n), core.B(fmt.Sprint(i))})
		}
	case "REQUEST_COOKIES":
		l := ""
		for i, n := range names {
			l += fmt.Sprintf("; %s=%d", n, i)
		}
		r.Hdr = append(r.Hdr, [2]core.B{"Cookie", core.B(l[2:])})
	}
	return r
}

func runNames(ctx *core.Ctx, c NameCase) *core.Fail {
	var names []string
	for v := c.Lo; v < c.Hi; v++ {
		s := string([]byte{byte(v)})
		if v >= 256 {
			s = string(rune(v))
			if c.Where == "REQUEST_COOKIES" && strings.TrimSpace(s) == "" {
				continue
			}
		}
		if c.Where == "REQUEST_COOKIES" && (v < 0x21 || v == '"' || v == ';' || v == '=' || v == ',' || v == '\\' || v == 0x7f) {
			continue
		}
		names = append(names, s, "a"+s+"b", s+s, "a"+s, s+"b")
	}
	if len(names) == 0 {
		return nil
	}
	r := nameReq(c.Where, names)
	var sels []string
	for _, s := range c.Sel {
		sels = append(sels, strings.Replace(s, "COLL", c.Where, 1))
	}
	text := encode(strings.Join(sels, "|"), '"', false)
	e := r.engine(ctx.Dir)
	rule, f := targetRule(e, text)
	if f != nil {
		return f
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	if err := r.play(t); err != nil {
		return core.Failf("%v", err)
	}
	ctx.Trans(1)
	want := expectSel(r, sels)
	if got := fetchAll(rule, t); !sameMultiset(got, want) {
		only := func(a, b []string) (res []string) {
			n := map[string]int{}
			for _, s := range b {
				n[s]++
			}
			for _, s := range a {
				if n[s]--; n[s] < 0 {
					res = append(res, s)
				}
			}
			return
		}
		return core.Failf("targets %s of the names 5*i+0..4 yield too much: %s, too little: %s", text, quoteAll(only(got, want)), quoteAll(only(want, got)))
	}
	ctx.State(c.Where, c.Lo, strings.Join(sels, "|"), strings.Join(sorted(want), "\x00"))
	ctx.Outcome(fmt.Sprint(c.Where, len(want)))
	return nil
}

// ---------------------------------------------------------------------
// escapes beside each other

// EscapesCase is all strings of a kind that begin with one code.
type EscapesCase struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
}

var escUnits = []int{0, 1, 9, 0xa, 0xd, 0x1f, 0x20, 0x22, 0x25, 0x26, 0x27, 0x2b, 0x2e, 0x2f, 0x30, 0x3c, 0x3d, 0x3e, 0x41, 0x55, 0x5c, 0x61, 0x75, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xc0, 0xc1, 0xff,
	0x100, 0x2215, 0x7ff, 0x800, 0x2028, 0x2044, 0x202e, 0x200b, 0x3000, 0x4141, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xff00, 0xff01, 0xff0b, 0xff0f, 0xff05, 0xff15, 0xff21, 0xff55, 0xff5e, 0xff5f, 0xffe0, 0xfffd, 0xfffe, 0xffff}

func escStrings(kind string, a int) (res []string) {
	switch kind {
	case "two":
		for b := 0; b < 256; b++ {
			res = append(res, fmt.Sprintf("%%%02x%%%02X", a, b), fmt.Sprintf("x%%%02X%c%%%02x.", a, "+aZ/"[b%4], b))
		}
	case "three": // what looks like UTF-8, overlong and cut short, too
		for b := 0x78; b < 0xc8; b++ {
			for c := 0x78; c < 0xc8; c++ {
				res = append(res, fmt.Sprintf("%%%02x%%%02x%%%02X", a, b, c))
			}
		}
	case "four":
		for _, b := range []int{0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xbf, 0xc0} {
			for _, c := range []int{0x2f, 0x7f, 0x80, 0x81, 0x9f, 0xbc, 0xbf, 0xc0} {
				for _, d := range []int{0x2e, 0x7f, 0x80, 0x81, 0x8f, 0xa0, 0xaf, 0xbf, 0xc0} {
					res = append(res, fmt.Sprintf("%%%02X%%%02x%%%02x%%%02X", a, b, c, d))
				}
			}
		}
	case "units":
		u := escUnits[a]
		for _, v := range escUnits {
			res = append(res, fmt.Sprintf("%%u%04x%%u%04X", u, v), fmt.Sprintf("%%u%04X%%%02x%%u%04x", u, v&0xff, v), fmt.Sprintf("%%%02X%%u%04X%%%02x", u&0xff, v, u>>8))
		}
	case "unit and byte":
		for _, u := range escUnits {
			res = append(res, fmt.Sprintf("%%u%04x%%%02x", u, a), fmt.Sprintf("%%%02x%%u%04x", a, u), fmt.Sprintf("%%u%04x%s%%u%04X", u, string([]byte{byte(a)}), u))
		}
	case "digits": // what decodes to (parts of) an escape
		for _, d := range []string{"25", "2b", "75", "55", "34", "31"} {
			for b := 0; b < 256; b++ {
				res = append(res, fmt.Sprintf("%%%02x%%%s%02x", a, d, b), fmt.Sprintf("%%%s%02x%02x", d, a, b), fmt.Sprintf("%%25%%%02X%%%02X", a, b))
			}
		}
	}
	return
}

func runEscapes(ctx *core.Ctx, c EscapesCase) *core.Fail {
	for _, s := range escStrings(c.Kind, c.A) {
		for _, n := range []string{"urlDecode", "urlDecodeUni", "lowercase", "none"} {
			if f := runTransOn(ctx, s, []string{n}); f != nil {
				f.Refined = TransCase{In: core.B(s), T: []string{n}}
				return f
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------
// what stands around a number

// AroundCase compares one number with all kinds of neighbours.
type AroundCase struct {
	Kind string `json:"kind"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
}

func aroundStrings(kind string, v int) []string {
	b := string([]byte{byte(v)})
	switch kind {
	case "byte":
		return []string{b + "5", "5" + b, "5" + b + "5", b + "5" + b, "-" + b + "5", "5 " + b, b + " 5", b + "-5", "-5" + b, b + b + "5", "0" + b + "5", "5" + b + "0", "5" + b + "00", "5" + b + "000", b}
	case "bytes":
		var res []string
		for w := 0; w < 256; w++ {
			d := string([]byte{byte(w)})
			res = append(res, b+"5"+d, b+d+"5", "5"+b+d, b+"7"+d+"5", "1"+b+"0"+d)
		}
		return res
	case "rune":
		if v >= 0xd800 && v < 0xe000 {
			return nil
		}
		r := string(rune(v))
		return []string{r + "5", "5" + r, r, "-" + r, "5" + r + "5"}
	}
	panic(kind)
}

func runAround(ctx *core.Ctx, c AroundCase) *core.Fail {
	for v := c.Lo; v < c.Hi; v++ {
		if c.Kind == "rune" && v >= 0x80 && strings.TrimSpace(string(rune(v))) == "" {
			continue // white space of other scripts may count as blank or not
		}
		for _, s := range aroundStrings(c.Kind, v) {
			if c.Kind != "rune" && (strings.IndexByte(s, 0x85) >= 0 || strings.IndexByte(s, 0xa0) >= 0) {
				continue // may be white space, in Latin-1 or behind 0xc2
			}
			arg := "5"
			if _, ok := refInt(s); !ok {
				arg = "0" // equal to this and no other number
			}
			if f := runCompare(ctx, OpCase{Val: core.B(s), Arg: core.B(arg)}); f != nil {
				f.Refined = OpCase{Val: core.B(s), Arg: core.B(arg)}
				return f
			}
			if c.Kind == "byte" {
				for _, a := range []string{"0", "5", "-5", "50"} {
					if f := runCompare(ctx, OpCase{Val: core.B(s), Arg: core.B(a)}); f != nil {
						f.Refined = OpCase{Val: core.B(s), Arg: core.B(a)}
						return f
					}
				}
				if f := runCompare(ctx, OpCase{Val: "5", Arg: core.B(s)}); f != nil {
					f.Refined = OpCase{Val: "5", Arg: core.B(s)}
					return f
				}
			}
		}
	}
	return nil
}

func init() {
	hugeCases := func(modes []string) func(*core.Ctx, func(HugeCase)) {
		return func(ctx *core.Ctx, yield func(HugeCase)) {
			for _, kind := range []string{"small", "parts", "headers", "many", "fields", "one field", "wide"} {
				for _, mode := range modes {
					for _, tg := range []string{"ARGS", "ARGS_POST", "ARGS_POST_NAMES", "ARGS_NAMES", "&ARGS_POST", "ARGS:a", "REMOTE_ADDR|ARGS_POST"} {
						for pos := 0; pos < 3; pos++ {
							for ai, acts := range []string{"deny,status:418", "log"} {
								for each := 0; each < 2; each++ {
									for _, mem := range []int64{1, 0} {
										if len(kind) != 5 && kind != "parts" && kind != "many" && kind != "headers" || kind == "wide" {
											continue
										}
										yield(HugeCase{Kind: kind, Mode: mode, Target: tg, Pos: pos, Each: each == 1, Acts: acts, Mem: mem})
									}
									if (kind == "fields" || kind == "one field" || kind == "wide") && (each == pos%2 && ai == 0 || ctx.Thorough) {
										yield(HugeCase{Kind: kind, Mode: mode, Target: tg, Pos: pos, Each: each == 1, Acts: acts})
									}
								}
							}
						}
					}
				}
			}
		}
	}
	const hugeRule = "multipart bodies beyond what their reader takes (12 MB of fields, one field of 12 MB, 1100 parts, 12000 headers in one part) and large ones within, inspected by seven targets in any chain position, with and without spilling, results taken at the end or after every step, "
	core.Register("C05", "huge multipart", hugeRule+"in DetectionOnly and Off: all rules around run, nothing is disrupted", hugeCases([]string{"detect", "off"}), runHuge)
	core.Register("C07", "huge multipart", hugeRule+"in On: 413 and nothing evaluated behind, or the rule's own verdict", hugeCases([]string{"on"}), runHuge)

	core.Register("C09", "expressions", "48 regular expressions (any character, anchors, classes, negated classes, flags, escapes, quantifiers, boundaries) as index of an included, excluded or counted selector and beside another, on names with every byte and 2000 further characters alone, doubled, and behind, before and between letters",
		func(ctx *core.Ctx, yield func(NameCase)) {
			res := []string{".", "^.$", "^a.b$", ".$", "^.", "^a.", ".b$", "a.*b", "^a.+b$", "..", "^...$", "^....$", "(?s).", "(?s)^a.b$", "(?m)^b", "(?m)a$", "(?m)^a$", "(?i)^A", "(?i)^AAB$", "(?i)K", "(?i)^é$", "(?i)S", `\s`, `^\S+$`, `\w`, `^\W`, `\d`, `\D$`, "[^a]", "^[^b]$", "^a[^a]b$", "[a-z]", "[A-Z]", "[[:punct:]]", "[[:cntrl:]]", `\x00`, `\x0a`, `\n`, `\.`, "^$", "$", "^", `\bb`, `a\b`, `\Ba`, "é", "[é-ÿ]", `\pL`, `\p{Lu}`, "a{2}", "^a?.b?$", `\Aa`, `b\z`, "(?U)a.*", "()", `^[\x00-\x7f]*$`}
			ranges := [][2]int{}
			for lo := 0; lo < 256; lo += 64 {
				ranges = append(ranges, [2]int{lo, lo + 64})
			}
			for lo := 256; lo < 256+ctx.Pick(1024, 8192); lo += 256 {
				ranges = append(ranges, [2]int{lo, lo + 256})
			}
			ranges = append(ranges, [2]int{0x1f80, 0x2180}, [2]int{0x10400, 0x10450}, [2]int{0xff00, 0xff70})
			for _, x := range res {
				rx := ":/" + x + "/"
				for _, where := range []string{"ARGS_GET", "ARGS_POST", "REQUEST_HEADERS", "RESPONSE_HEADERS", "REQUEST_COOKIES"} {
					for i, rg := range ranges {
						for k, sel := range [][]string{{"COLL" + rx}, {"COLL", "!COLL" + rx}, {"&COLL" + rx}, {"COLL:/a/", "COLL" + rx}, {"COLL:/b$/", "!COLL" + rx}, {"COLL" + rx, "!COLL:/^a/"}} {
							if i > 4 && (i+k)%3 != 0 {
								continue
							}
							yield(NameCase{Sel: sel, Where: where, Lo: rg[0], Hi: rg[1]})
						}
					}
				}
			}
		}, runNames)

	core.Register("C11", "escapes beside each other", "every two percent escapes, what looks like three and four bytes of UTF-8 in escapes (overlong and cut short, too), every two of 60 %uXXXX, mixed with each byte and with escapes that decode to escapes",
		func(ctx *core.Ctx, yield func(EscapesCase)) {
			for a := 0; a < 256; a++ {
				yield(EscapesCase{"two", a})
				yield(EscapesCase{"unit and byte", a})
				yield(EscapesCase{"digits", a})
				if a >= 0xc0 {
					yield(EscapesCase{"three", a})
				}
				if a >= 0xee {
					yield(EscapesCase{"four", a})
				}
			}
			for a := range escUnits {
				yield(EscapesCase{"units", a})
			}
		}, runEscapes)

	core.Register("C12", "around a number", "a number behind, before, between and beside every byte, every two bytes and every character, as value and (bytes) as argument",
		func(ctx *core.Ctx, yield func(AroundCase)) {
			for lo := 0; lo < 256; lo += 4 {
				yield(AroundCase{"byte", lo, lo + 4})
				yield(AroundCase{"bytes", lo, lo + 4})
			}
			for lo := 0; lo < 0x110000; lo += 1024 {
				yield(AroundCase{"rune", lo, lo + 1024})
			}
		}, runAround)

	core.Register("C20", "every byte", "every escaped byte (and pairs of those that structure requests), alone, in front, behind and doubled, in path, query, body, cookies and headers, read by a rule for every variable with every transformation",
		func(ctx *core.Ctx, yield func(KeepCase)) {
			one := func(e, raw string, k int) {
				q := Req{Method: []string{"GET", "POST", "PUT"}[k%3], URL: core.B("/" + e + "a/" + e + "/b" + e + "?" + e + "=" + e + "&x" + e + "=y" + e), Body: core.B(e + "=" + e + "&a=" + e), CT: urlenc, Code: 200,
					Hdr: [][2]core.B{{"Cookie", core.B("a=" + raw + "; " + raw + "=b; c" + e + "=" + e)}, {"A", core.B(raw)}, {"B", core.B("x" + raw + raw)}}, RHdr: [][2]core.B{{"Content-Type", core.B("Text/Html" + raw)}, {"Content-Length", core.B(raw + "7")}, {"A", core.B(raw + "x")}}, RBody: core.B(raw)}
				for _, form := range []string{"", "raw", "force"} {
					yield(KeepCase{Req: q, Rules: "everything", Reads: true, Spoil: k%2 == 0, URL: form})
				}
			}
			for b := 0; b < 256; b++ {
				one(fmt.Sprintf("%%%02x", b), string([]byte{byte(b)}), b)
				one(fmt.Sprintf("%%%02X", b), " "+string([]byte{byte(b)}), b+1)
			}
			for _, a := range []int{0, 0x20, 0x25, 0x2b, 0x2e, 0x2f, 0x3b, 0x5c, 0xc0, 0xff} {
				for _, b := range []int{0, 0x20, 0x25, 0x2b, 0x2e, 0x2f, 0x3b, 0x5c, 0xaf, 0xbc} {
					one(fmt.Sprintf("%%%02x%%%02X", a, b), string([]byte{byte(a), byte(b)}), a+b)
				}
			}
			for _, p := range []string{"//", "/./", "/../", "/a//b", "/a/./b", "/a/../b", "/a/", "/.", "/..", "/a/..", "/%2e%2e/", "/%2E/a", "/%2f/a", "///", "/a%5c..%5cb", "/A/B", "/%41", "/a;b", "/a%00.php", "/%u0041", "/+", "/%2b", "/ "} {
				for k := 0; k < 4; k++ {
					q := Req{Method: "GET", URL: core.B([]string{"", "http://H", "HTTP://u@H:80", ""}[k] + p + "?A=b&c"), Code: 200}
					if k == 3 {
						q.Line = 2
					}
					yield(KeepCase{Req: q, Rules: "everything", Reads: true, Spoil: k%2 == 0})
				}
			}
		}, runKeep).WithBudget(1 << 30)
}
