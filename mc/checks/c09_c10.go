package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C09

// SelCase is a target list over a request.
type SelCase struct {
	Sel   []string `json:"sel"` // [!|&]COLLECTION[:index]
	Sep   string   `json:"sep"`
	Quote string   `json:"quote"`
	Req   int      `json:"req"`
	Dot   bool     `json:"dot,omitempty"` // COLLECTION.index
}

var selReqs = []Req{
	{Method: "POST", URL: "/p?a=1&b=2&ab=3&a=4&=5&ba=", Proto: "HTTP/1.1", CT: "application/x-www-form-urlencoded", Body: "a=11&c=12&b=&bb=14&a=11",
		Hdr:  [][2]core.B{{"Cookie", "a=1; b=2; ab=3"}, {"Cookie", "a=4;c; b=2"}, {"a", "x"}, {"b", "y"}, {"a", "z"}, {"ab", ""}},
		RHdr: [][2]core.B{{"a", "rx"}, {"ab", "ry"}, {"b", "rz"}, {"b", "rz"}, {"a", ""}, {"c", "d"}}, Code: 200},
	{Method: "PUT", URL: "/?ab=1", CT: "application/x-www-form-urlencoded", Body: "ab=1&ab=1",
		Hdr: [][2]core.B{{"Cookie", "ab=1"}, {"ab", "1"}}, RHdr: [][2]core.B{{"ab", "1"}}, Code: 204},
	{Method: "GET", URL: "/", Hdr: nil, Code: 404},
	{Method: "POST", URL: "/?a.b=1&a:b=2&a=3&.=4&b=5&A=6&aa=7", CT: "application/x-www-form-urlencoded", Body: "a.b=8&a:b=9&A=10&%61=11",
		Hdr: [][2]core.B{{"Cookie", "a.b=1;a:b=2;A=3;a=4=5;a"}, {"a.b", "1"}, {"A", "2"}, {"a", "3"}}, RHdr: [][2]core.B{{"a.b", "1"}, {"A", "2"}, {"a", "3"}}, Code: 200},
	{Method: "POST", URL: "/?a.b=1&a:b=2&a=3&A=6&aa=7&%20y=8&y%20=9&y=10&%27x%27=11&x=12&x%22y=13&a%20b=14&ab=15&%C3%A9=16&a%5Cb=17&%2Fa%2F=18&a%09b=19&*=20&[a]=21&%00=22", CT: "application/x-www-form-urlencoded",
		Body: "a.b=30&A=31&+y=32&y=33&'x'=34&x=35&a+b=36&%C3%A9=37&a%5cb=38&x%22y=39&*=40&y+=41",
		Hdr:  [][2]core.B{{"Cookie", "a.b=1;A=3;a=4=5;'x'=6;x=7;a b=8;ab=9;x\"y=10;\xc3\xa9=11;a\\b=12;y=13;*=14"}, {"a.b", "1"}, {"A", "2"}, {"a", "3"}, {" y", "4"}, {"y ", "5"}, {"y", "6"}, {"'x'", "7"}, {"x", "8"}, {"a b", "9"}, {"x\"y", "10"}, {"\xc3\xa9", "11"}, {"a\\b", "12"}},
		RHdr: [][2]core.B{{"a.b", "1"}, {"A", "2"}, {"a", "3"}, {" y", "4"}, {"y ", "5"}, {"y", "6"}, {"'x'", "7"}, {"x", "8"}, {"a b", "9"}, {"x\"y", "10"}, {"\xc3\xa9", "11"}, {"a\\b", "12"}}, Code: 200},
}

func parseSel(s string) (neg, count bool, coll, idx string) {
	if strings.HasPrefix(s, "!") {
		neg, s = true, s[1:]
	} else if strings.HasPrefix(s, "&") {
		count, s = true, s[1:]
	}
	if i := strings.Index(s, ":"); i >= 0 {
		return neg, count, s[:i], s[i+1:]
	}
	return neg, count, s, ""
}

func nameMatches(idx, name string) bool {
	if idx == "" {
		return true
	}
	if len(idx) >= 2 && idx[0] == '/' && idx[len(idx)-1] == '/' {
		return regexp.MustCompile(idx[1 : len(idx)-1]).MatchString(name)
	}
	return idx == name
}

func expectSel(r Req, sels []string) []string {
	type group struct{ inc, exc []string }
	groups := map[string]*group{}
	var order []string
	for _, s := range sels {
		neg, count, coll, idx := parseSel(s)
		key := coll
		if count {
			key = "&" + coll
		}
		g := groups[key]
		if g == nil {
			g = &group{}
			groups[key] = g
			order = append(order, key)
		}
		if neg {
			g.exc = append(g.exc, idx)
		} else {
			g.inc = append(g.inc, idx)
		}
	}
	var res []string
	for _, key := range order {
		g := groups[key]
		coll := strings.TrimPrefix(key, "&")
		keep := func(n string) bool {
			in := len(g.inc) == 0
			for _, i := range g.inc {
				in = in || nameMatches(i, n)
			}
			for _, i := range g.exc {
				in = in && !nameMatches(i, n)
			}
			return in
		}
		var vals []string
		if _, ok := r.collection(coll, nil); ok {
			vals = r.selected(coll, nil, keep)
		} else {
			vals, _ = r.scalar(coll)
		}
		if key[0] == '&' {
			vals = []string{strconv.Itoa(len(vals))}
		}
		res = append(res, vals...)
	}
	return res
}

func runSel(ctx *core.Ctx, c SelCase) *core.Fail {
	var r Req
	if c.Req >= 100 { // a wide one
		r = wideReq(c.Req - 100)
	} else {
		r = selReqs[c.Req]
	}
	sels := append([]string{}, c.Sel...)
	if c.Dot {
		for i, s := range sels {
			sels[i] = strings.Replace(s, ":", ".", 1)
		}
	}
	var q byte
	if c.Quote != "" {
		q = c.Quote[0]
	}
	text := encode(strings.Join(sels, c.Sep), q, false)
	e := r.engine(ctx.Dir)
	rule, f := targetRule(e, text)
	if f != nil {
		return f
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	if err := r.play(t); err != nil {
		return core.Failf("%v", err)
	}
	want := expectSel(r, c.Sel)
	ctx.Trans(2)
	for i := 0; i < 2; i++ {
		got := fetchAll(rule, t)
		if !sameMultiset(got, want) {
			return core.Failf("targets %s yield %s, want %s (reading %d)", text, quoteAll(got), quoteAll(want), i+1)
		}
	}
	ctx.State(c.Req, strings.Join(sorted(c.Sel), "|"), strings.Join(sorted(want), "\x00"))
	ctx.Outcome(strings.Join(sorted(want), "\x00"))
	return nil
}

var selLayouts = [][2]string{{"|", ""}, {",", ""}, {"|", `"`}, {"|", "'"}, {",", `"`}, {",", "'"}}

func init() {
	idx := []string{"", ":a", ":b", ":ab", ":zz", ":/^a/", ":/b$/", ":/./", ":/^$/"}
	core.Register("C09", "one-collection",
		"every list of up to 3 (thorough 4) selectors of one collection, each collection: the whole, four names, four regexes, each included or excluded; in 6 layouts, on 4 requests",
		func(c *core.Ctx, y func(SelCase)) {
			for _, coll := range collections {
				var alpha []string
				for _, i := range idx {
					alpha = append(alpha, coll+i)
				}
				for _, i := range []string{"", ":a", ":ab", ":/^a/", ":/b$/"} {
					alpha = append(alpha, "!"+coll+i)
				}
				n := 0
				seqs(len(alpha), 1, c.Pick(3, 4), func(s []int) {
					n++
					for ri := range selReqs {
						for li, l := range selLayouts {
							if len(s) == 3 && (li != (n+ri)%6) || len(s) == 4 && (li != n%6 || ri == 2) {
								continue
							}
							y(SelCase{Sel: pickS(alpha, s), Sep: l[0], Quote: l[1], Req: ri})
						}
					}
				})
			}
		}, runSel)
	core.Register("C09", "counts",
		"every list of up to 3 selectors mixing counted and plain ones of one collection (no exclusions beside counts); scalars counted",
		func(c *core.Ctx, y func(SelCase)) {
			for _, coll := range collections {
				var alpha []string
				for _, i := range []string{"", ":a", ":ab", ":zz", ":/^a/", ":/b/"} {
					alpha = append(alpha, coll+i, "&"+coll+i)
				}
				seqs(len(alpha), 1, 3, func(s []int) {
					for ri := range selReqs {
						l := selLayouts[(ri+len(s)+s[0])%6]
						y(SelCase{Sel: pickS(alpha, s), Sep: l[0], Quote: l[1], Req: ri})
					}
				})
			}
			for _, sc := range scalars {
				for _, other := range append(append([]string{}, collections...), scalars...) {
					for ri := range selReqs {
						y(SelCase{Sel: []string{"&" + sc, other}, Sep: "|", Quote: `"`, Req: ri})
						y(SelCase{Sel: []string{other, sc, "&" + sc}, Sep: "|", Quote: ``, Req: ri})
					}
				}
			}
		}, runSel)
	core.Register("C09", "several-collections",
		"every list of up to 4 (thorough 5) selectors of two or three collections, included and excluded, by name and regex",
		func(c *core.Ctx, y func(SelCase)) {
			groups := [][]string{
				{"ARGS", "ARGS:a", "!ARGS:a", "!ARGS:/b/", "ARGS_GET:/^a/", "!ARGS_GET:ab", "ARGS_POST", "REQUEST_METHOD"},
				{"REQUEST_COOKIES", "!REQUEST_COOKIES:/^a/", "REQUEST_COOKIES_NAMES", "!REQUEST_COOKIES_NAMES:a", "ARGS_NAMES:a", "!ARGS_NAMES:/b/", "REQUEST_COOKIES:b", "ARGS_NAMES"},
				{"REQUEST_HEADERS:a", "REQUEST_HEADERS:/b/", "!REQUEST_HEADERS:ab", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS:b", "!RESPONSE_HEADERS:/a/", "RESPONSE_HEADERS_NAMES:/^a/", "RESPONSE_HEADERS"},
			}
			for _, g := range groups {
				n := 0
				seqs(len(g), 2, c.Pick(4, 5), func(s []int) {
					n++
					l := selLayouts[n%6]
					y(SelCase{Sel: pickS(g, s), Sep: l[0], Quote: l[1], Req: (n / 6) % 4})
					y(SelCase{Sel: pickS(g, s), Sep: l[0], Quote: l[1], Req: 0})
				})
			}
		}, runSel)
	core.Register("C09", "index-texts",
		"indexes written with a dot, holding dots, colons, blanks, quotes, backslashes and letters beyond ASCII, differing in letter case, long names, regexes with classes, anchors, quantifiers and flags",
		func(c *core.Ctx, y func(SelCase)) {
			texts := []string{"a.b", "a:b", "A", "a", ".", "aa", "/a.b/", "/^a[.:]b$/", "/(?i)^A$/", "/^a{2}$/", "/[.]/", "/^[^a]/", "//", "/", "/a", "a/",
				" y", "y ", "y", "'x'", "x", "x\"y", "a b", "ab", "\xc3\xa9", "/\xc3\xa9/", `a\b`, "/ /", `/a\s+b/`, "/'/", "*", "/[*]/", "/^.$/", "/x/i", "[a]", "a\tb", "é", "AB", "/A/", "/^(a.b)$/"}
			for _, coll := range collections {
				for ri := range selReqs {
					for _, a := range texts {
						y(SelCase{Sel: []string{coll + ":" + a}, Sep: "|", Quote: `"`, Req: ri})
						y(SelCase{Sel: []string{coll, "!" + coll + ":" + a}, Sep: "|", Quote: `'`, Req: ri})
						y(SelCase{Sel: []string{"&" + coll + ":" + a}, Sep: "|", Quote: ``, Req: ri})
						if !strings.Contains(a, ":") {
							y(SelCase{Sel: []string{coll + ":" + a}, Sep: "|", Quote: `"`, Req: ri, Dot: true})
							y(SelCase{Sel: []string{coll, "!" + coll + ":" + a}, Sep: ",", Quote: `"`, Req: ri, Dot: true})
						}
						for _, b := range texts {
							y(SelCase{Sel: []string{coll + ":" + a, coll + ":" + b}, Sep: "|", Quote: `"`, Req: ri})
							y(SelCase{Sel: []string{coll + ":" + a, "!" + coll + ":" + b}, Sep: "|", Quote: `"`, Req: ri})
						}
					}
				}
			}
		}, runSel)
}

// ---------------------------------------------------------------------
// C10

// VarCase reads variables of a request.
type VarCase struct {
	Req  Req      `json:"req"`
	Vars []string `json:"vars"`
}

func runVars(ctx *core.Ctx, c VarCase) *core.Fail {
	e := c.Req.engine(ctx.Dir)
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer t.Request.Body.Close()
	if err := c.Req.play(t); err != nil {
		return nil // not an URL
	}
	all := func(string) bool { return true }
	for _, name := range c.Vars {
		rule, f := targetRule(e, name)
		if f != nil {
			return f
		}
		ctx.Trans(1)
		got := fetchAll(rule, t)
		if _, ok := c.Req.collection(name, nil); ok {
			want := c.Req.selected(name, nil, all)
			if !sameMultiset(got, want) {
				return core.Failf("%s yields %s, want %s", name, quoteAll(got), quoteAll(want))
			}
			ctx.Outcome(name + strings.Join(sorted(want), "\x00"))
			ctx.State(name, strings.Join(sorted(want), "\x00"))
			continue
		}
		want, supplied := c.Req.scalar(name)
		if !supplied {
			// nothing, or the value of an empty part
			for _, g := range got {
				if g != "" && g != "0" && g != "application/octet-stream" {
					return core.Failf("%s yields %s, but the host has not supplied it", name, quoteAll(got))
				}
			}
			if len(got) > 1 {
				return core.Failf("%s yields %s, but the host has not supplied it", name, quoteAll(got))
			}
			continue
		}
		if !sameMultiset(got, want) {
			return core.Failf("%s yields %s, want %s", name, quoteAll(got), quoteAll(want))
		}
		ctx.Outcome(name + strings.Join(want, "\x00"))
		ctx.State(name, strings.Join(want, "\x00"))
	}
	return nil
}

var allVars = append(append([]string{}, collections...), scalars...)

func init() {
	core.Register("C10", "url-paths",
		"every path of up to 5 (thorough 6) pieces out of / \\ . a B %2f %5c %41 %20 - : behind a slash; file name, base name, URI and query",
		func(c *core.Ctx, y func(VarCase)) {
			pc := []string{"/", `\`, ".", "a", "B", "%2f", "%5C", "%41", "%20", ":"}
			vs := []string{"REQUEST_FILENAME", "REQUEST_BASENAME", "REQUEST_URI", "QUERY_STRING"}
			seqs(len(pc), 0, c.Pick(5, 6), func(s []int) {
				p := "/" + strings.Join(pickS(pc, s), "")
				if strings.HasPrefix(p, "//") {
					return
				}
				v := vs
				if strings.Contains(p, `\`) {
					v = vs[:2] // written back in escaped form
				}
				y(VarCase{Req{Method: "GET", URL: core.B(p), Code: 200}, v})
			})
		}, runVars)
	core.Register("C10", "queries",
		"every query of up to 5 (thorough 6) pieces out of a b = & + %41 %26 %3d %2b %25 % %4 ; and other characters; all argument variables, with and without a body",
		func(c *core.Ctx, y func(VarCase)) {
			pc := []string{"a", "b", "=", "&", "+", "%41", "%26", "%3d", "%2B", "%", "4", "%2541", ";", "?"}
			vs := []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "QUERY_STRING", "REQUEST_URI", "REQUEST_FILENAME"}
			n := 0
			seqs(len(pc), 0, c.Pick(5, 6), func(s []int) {
				n++
				q := strings.Join(pickS(pc, s), "")
				r := Req{Method: "GET", URL: core.B("/p?" + q)}
				if n%5 == 0 {
					r.Method, r.CT, r.Body = "POST", "application/x-www-form-urlencoded", "a=z&q=%41"
				}
				y(VarCase{r, vs})
			})
			for i := 0; i < 256; i++ {
				for _, f := range []string{"%%%02x=v", "k=%%%02X", "k%%%02xk=v%%%02x"} {
					q := fmt.Sprintf(f, i)
					if strings.Count(f, "%02x") == 2 {
						q = fmt.Sprintf(f, i, 255-i)
					}
					y(VarCase{Req{Method: "GET", URL: core.B("/?" + q)}, vs})
				}
			}
			long := strings.Repeat("a", 300)
			for n := 1; n <= 40; n++ {
				var q []string
				for i := 0; i < n*n; i++ {
					q = append(q, fmt.Sprintf("n%d=%s%d", i%(n*n-n/2+1), long[:i%300], i))
				}
				y(VarCase{Req{Method: "GET", URL: core.B("/?" + strings.Join(q, "&"))}, vs})
			}
		}, runVars)
	core.Register("C10", "url-forms",
		"origin and absolute forms: scheme, user, host, port, path, empty and present query, fragment in all combinations",
		func(c *core.Ctx, y func(VarCase)) {
			vs := []string{"REQUEST_FILENAME", "REQUEST_BASENAME", "REQUEST_URI", "QUERY_STRING", "ARGS", "ARGS_GET_NAMES"}
			for _, pre := range []string{"", "http://h", "https://h:8080", "http://u:p@h", "http://[::1]:80", "ftp://h"} {
				for _, p := range []string{"", "/", "/a", "/a/b.php", "/a/", "/a%2Fb", "/a;p=1", "/%E4%BD%A0", "/a/../b", "/a//b"} {
					for _, q := range []string{"", "?", "?x=1", "?x=/y", "?a?b=c", "?x=%3F&y=http://h/z", "?x=1&&y"} {
						for _, fr := range []string{"", "#f", "#f?x=2"} {
							if pre == "" && p == "" {
								continue
							}
							for _, m := range []string{"GET", "POST", "weird METHOD", ""} {
								y(VarCase{Req{Method: m, URL: core.B(pre + p + q + fr), Proto: "HTTP/" + m}, append(vs, "REQUEST_METHOD", "REQUEST_PROTOCOL")})
							}
						}
					}
				}
			}
		}, runVars)
	core.Register("C10", "cookies",
		"every cookie line of up to 6 (thorough 7) characters out of a b = ; blank comma quote tab, as one line and as two and three lines",
		func(c *core.Ctx, y func(VarCase)) {
			pc := []string{"a", "b", "=", ";", " ", ",", `"`, "\t"}
			vs := []string{"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES"}
			prev := ""
			n := 0
			seqs(len(pc), 0, c.Pick(6, 7), func(s []int) {
				n++
				l := strings.Join(pickS(pc, s), "")
				y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(l)}}}, vs[:2]})
				if n%3 == 0 {
					y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(l)}, {"X", "1"}, {"Cookie", core.B(prev)}}}, vs})
				}
				if n%7 == 0 {
					y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(prev)}, {"Cookie", "a=b; c"}, {"Cookie", core.B(l)}}}, vs})
				}
				prev = l
			})
		}, runVars)
	core.Register("C10", "headers",
		"every list of up to 4 headers out of names X, Y, x, Content-Type, empty with values of five kinds, on the request and on the response; status 0..999; all scalar response variables",
		func(c *core.Ctx, y func(VarCase)) {
			kv := [][2]core.B{{"X", "1"}, {"X", ""}, {"Y", "1,2; 3"}, {"x", "low"}, {"Content-Length", "42"}, {"Content-Type", "Text/HTML; charset=x"}, {"", "empty name"}, {"Y", "\xff\x00"}}
			vs := []string{"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_STATUS", "RESPONSE_PROTOCOL", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE", "REQUEST_COOKIES"}
			n := 0
			seqs(len(kv), 0, c.Pick(4, 5), func(s []int) {
				var h [][2]core.B
				for _, i := range s {
					h = append(h, kv[i])
				}
				n++
				y(VarCase{Req{Method: "GET", URL: "/", Hdr: h, Code: 200, RProto: "HTTP/1.0"}, vs})
				y(VarCase{Req{Method: "GET", URL: "/", RHdr: h, Code: n % 1000, RProto: "HTTP/2"}, vs})
			})
			for i := 0; i < 1000; i++ {
				y(VarCase{Req{Method: "GET", URL: "/", Code: i}, []string{"RESPONSE_STATUS"}})
			}
			for _, ct := range []string{"text/html", "TEXT/html", "text/html;charset=utf-8", "text/html ; a=b", "application/json", " text/plain", "image/svg+xml", "multipart/form-data; boundary=\"x;y\""} {
				for _, cl := range []string{"", "0", "1", "007", "99999999999999999999", "-1", "abc"} {
					y(VarCase{Req{Method: "GET", URL: "/", Code: 200, RHdr: [][2]core.B{{"Content-Type", core.B(ct)}, {"Content-Length", core.B(cl)}}}, vs})
				}
			}
		}, runVars)
	core.Register("C10", "missing-parts",
		"every subset of {connection, URL, request headers, request body, response headers, response body} not supplied; every variable; five kinds of requests; body access on and off",
		func(c *core.Ctx, y func(VarCase)) {
			reqs := append([]Req{}, selReqs...)
			reqs = append(reqs, Req{Method: "POST", URL: "/x/y?q=1", Proto: "HTTP/1.1", CT: "multipart/form-data", Body: "no boundary", Code: 500, RBody: "resp", RProto: "HTTP/1.1"},
				Req{Method: "PATCH", URL: "/x/y?q=1", Proto: "HTTP/1.1", CT: "text/plain", Body: "a=b", Code: 500, RBody: "resp\x00\xff", RProto: "HTTP/1.1", IP: "::1"})
			for _, r := range reqs {
				if r.RBody == "" {
					r.RBody = "body of the response"
				}
				for skip := 0; skip < 64; skip++ {
					for acc := 0; acc < 4; acc++ {
						r.Skip, r.NoReqB, r.NoResB = skip, acc&1 == 1, acc&2 == 2
						y(VarCase{r, allVars})
						if skip == 0 {
							for _, v := range allVars {
								for _, w := range allVars {
									y(VarCase{r, []string{v, w, v}})
								}
							}
						}
					}
				}
			}
		}, runVars)
}
