package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Steps that are taken again with other arguments, transformations and target
// lists of chained rules, and everything a request can have around the part
// that is read.

// vary gives every repeated step arguments that differ from the ones before.
func vary(ops []string) []string {
	forms := map[string][]string{
		"conn":  {"conn", "conn2", "conn=10.0.0.1\x004243", "conn3", "conn=10.0.0.1\x004242"},
		"url":   {"url", "url=POST", "url=HEAD", "url=nil"},
		"reqh":  {"reqh", "reqh=form", "reqh=plain", "reqh=multi"},
		"resph": {"resph", "resph=404,plain", "resph=200,gzip", "resph=100,nil"},
	}
	n := map[string]int{}
	res := make([]string, len(ops))
	for i, o := range ops {
		res[i] = o
		if f := forms[o]; f != nil {
			res[i] = f[n[o]%len(f)]
			n[o]++
		}
	}
	return res
}

func repeated(ops []string) bool {
	seen := map[string]bool{}
	for _, o := range ops {
		if seen[o] && o != "result" {
			return true
		}
		seen[o] = true
	}
	return false
}

func init() {
	one := []string{"1"}
	full := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}
	core.Register("C01", "varied-repeats",
		"all sequences of up to 5 (thorough 6) host calls that repeat a step, each time with another address, port, method, header map or status; a complete run of steps behind a complete run with other arguments; with none or one of allow, allow:phase, allow:request, deny in any one phase",
		func(c *core.Ctx, y func(EngineCase)) {
			steps := []string{"conn", "url", "reqh", "reqb", "resph", "respb", "log", "result"}
			acts := []string{"allow", "allow:phase", "allow:request", "deny"}
			n := 0
			seqs(len(steps), 2, c.Pick(5, 6), func(s []int) {
				ops := pickS(steps, s)
				if !repeated(ops) {
					return
				}
				v := vary(ops)
				phaseConfigs(acts, func(r []Rule) {
					if n++; len(s) >= 5 && n%3 != 0 && !c.Thorough {
						return
					}
					y(EngineCase{Rules: r, Ops: v})
				})
			})
			for cut := 0; cut <= len(each); cut++ {
				for from := 0; from <= len(each); from++ {
					for again := 1; again <= 4; again++ {
						ops := append([]string{}, each[:cut]...)
						for k := 0; k < again; k++ {
							ops = append(ops, each[from:]...)
						}
						phaseConfigs(acts, func(r []Rule) { y(EngineCase{Rules: r, Ops: vary(ops)}) })
					}
				}
			}
		}, runEngine)

	// ---------------- C03
	core.Register("C03", "chained-transformations",
		"chains of up to 3 (thorough 4) links each with one of four transformation lists, the operator of each accepting one string out of those that any list of the chain, or two of them in any order, give; negated or not; links without targets",
		func(c *core.Ctx, y func(EngineCase)) {
			lists := [][]string{nil, {"a"}, {"d", "x"}, {"r"}}
			apply := func(v string, l []string) string {
				for _, t := range l {
					v = transProbe(t, v)
				}
				return v
			}
			seqs(len(lists), 2, c.Pick(3, 4), func(s []int) {
				wants := map[string]bool{}
				var ws []string
				add := func(w string) {
					if !wants[w] {
						wants[w] = true
						ws = append(ws, w)
					}
				}
				for _, i := range s {
					add(apply("bc", lists[i]))
					for _, j := range s {
						add(apply(apply("bc", lists[i]), lists[j]))
					}
				}
				for at := range s { // the deciding link
					for _, w := range ws {
						for _, not := range []bool{false, true} {
							mk := func(k int) Rule {
								r := Rule{V: []string{"bc"}, T: lists[s[k]], Want: apply("bc", lists[s[k]]), Acts: []string{fmt.Sprintf("x2:%d", k)}}
								if k == at {
									r.Want, r.Not = w, not
								}
								return r
							}
							r := mk(0)
							r.Ph = 2
							for k := 1; k < len(s); k++ {
								r.Subs = append(r.Subs, mk(k))
							}
							y(EngineCase{Rules: []Rule{r, hit(2, "x2:n")}, Ops: []string{"conn", "reqh", "result"}})
						}
					}
				}
			})
		}, runEngine)
	core.Register("C03", "target-lists",
		"chains of up to 3 (thorough 4) links each with one of eight target lists: none at all, without values, matching, not matching, and several; negated or not",
		func(c *core.Ctx, y func(EngineCase)) {
			vs := [][]string{nil, {"-"}, {"1"}, {"0"}, {"0", "1"}, {"-", "1"}, {"0,1"}, {"-", "-"}}
			seqs(len(vs)*2, 1, c.Pick(3, 4), func(s []int) {
				mk := func(k int) Rule {
					return Rule{V: vs[s[k]/2], Not: s[k]%2 == 1, Acts: []string{fmt.Sprintf("x2:%d", k), "log"}}
				}
				r := mk(0)
				r.Ph = 3
				for k := 1; k < len(s); k++ {
					r.Subs = append(r.Subs, mk(k))
				}
				y(EngineCase{Rules: []Rule{r, hit(3, "x2:n")}, Ops: []string{"conn", "reqh", "reqb", "result"}})
			})
		}, runEngine)

	// ---------------- C04
	aborts := []Rule{
		{Ph: 2, V: []string{"1", "A"}, Acts: []string{"x2:m", "deny"}}, {Ph: 2, V: []string{"A", "1"}, Acts: []string{"x2:m"}}, {Ph: 2, V: []string{"0", "A", "1"}, Acts: []string{"x2:m"}},
		{Ph: 2, V: []string{"-", "A"}, Not: true, Acts: []string{"x2:m"}}, {Ph: 2, V: []string{"1", "A"}, Acts: []string{"x2:m"}, Subs: []Rule{hit(0, "x2:l")}},
		{Ph: 2, V: one, Acts: []string{"x2:m", "status:501"}, Subs: []Rule{{V: []string{"1", "A", "0"}, Acts: []string{"deny"}}, hit(0, "x2:l")}},
		{Ph: 2, V: one, Acts: []string{"x2:m"}, Subs: []Rule{miss(0), {V: []string{"A"}}}},
	}
	for _, prop := range []string{"C04", "C05", "C03"} {
		core.Register(prop, "aborting-targets",
			"a target that aborts while it is read in front of, between and behind targets that match and do not match, in the starter and each link of a chain; every mode; results everywhere",
			func(c *core.Ctx, y func(EngineCase)) {
				for _, m := range []string{"", "on", "detect", "off"} {
					for i, a := range aborts {
						for j := -1; j < len(aborts); j++ {
							rules := []Rule{hit(2, "x2:b"), a, hit(2, "x2:n"), hit(3, "x2:n"), hit(6, "log")}
							if j >= 0 {
								b := aborts[j]
								b.Ph = 2 + (i+j)%3
								rules = append(rules, b, hit(b.Ph, "x2:o"))
							}
							y(EngineCase{Mode: m, Rules: rules, Ops: each})
							y(EngineCase{Mode: m, Rules: rules, Ops: append(append([]string{}, full...), "result")})
						}
					}
				}
			}, runEngine)
	}
	core.Register("C04", "host-aborts",
		"the host aborts with every status -1..1001 (and far ones), with and without an error, before, between and behind the steps, after a deny, an allow or a result, once and twice; the verdict taken twice",
		func(c *core.Ctx, y func(EngineCase)) {
			var codes []int
			for n := -1; n <= 1001; n++ {
				codes = append(codes, n)
			}
			codes = append(codes, 4242, 65536, 1<<31-1, -403, -1<<31)
			sets := [][]Rule{probesIn(1, 2, 3, 6), {hit(1, "deny"), hit(2, "x2:n")}, {hit(1, "allow"), hit(2, "x2:n"), hit(6, "x2:n")}, {hit(2, "status:501", "deny"), hit(3, "x2:n")}}
			for _, n := range codes {
				for _, k := range []string{"abort", "err"} {
					op := fmt.Sprintf("%s:%d", k, n)
					for _, ops := range [][]string{
						{op, "result", "result", "conn", "result", "log", "result"},
						{"conn", op, "reqh", "result", "result", "reqb", "log", "result"},
						{"conn", "result", op, "result", "reqh", "result", "log", "result"},
						{"conn", "reqh", op, op, "result", "result"},
						{"conn", "reqh", "abort:503", op, "result", "reqb", "result"},
						{"conn", "reqh", op, "err:418", "result", "log", "result"},
					} {
						for _, r := range sets {
							y(EngineCase{Rules: r, Ops: ops})
						}
					}
				}
			}
		}, runEngine)

	// ---------------- C07
	core.Register("C07", "between other targets",
		"an oversized or fitting body among other targets that match or do not match, each in front of and behind it, in each chain position, with every action and in every mode",
		func(ctx *core.Ctx, yield func(InspCase)) {
			full := "a=bcde"
			others := []string{"REMOTE_ADDR", "QUERY_STRING", "REQUEST_METHOD", "ARGS_GET", "ARGS_GET_NAMES", "&ARGS_GET", "&REQUEST_HEADERS", "REQUEST_URI", "REQUEST_COOKIES", "REQUEST_HEADERS", "RESPONSE_STATUS", "REQUEST_BASENAME", "REQUEST_PROTOCOL"}
			for _, b := range []string{"REQUEST_BODY", "ARGS_POST", "ARGS", "ARGS_POST_NAMES", "&ARGS_POST", "&REQUEST_BODY"} {
				var lists []string
				for _, o := range others {
					lists = append(lists, o+"|"+b, b+"|"+o)
					for _, p := range others[:5] {
						if p != o {
							lists = append(lists, o+"|"+b+"|"+p)
						}
					}
				}
				for _, tg := range lists {
					if strings.Contains(tg, "RESPONSE") {
						continue
					}
					for n := 2; n <= 5; n++ {
						for pos := 0; pos < 3; pos++ {
							for _, op := range []string{"any", "eq0", "noteq9"} {
								for _, mode := range []string{"on", "detect", "off"} {
									acts := []string{"deny,status:418", "log", "deny,log"}[(n+pos)%3]
									yield(InspCase{Req: Req{Method: "POST", URL: "/?q=1", CT: urlenc, Body: core.B(full[:n]), Split: n % 3, Mem: 3}, Mode: mode, Target: tg, Op: op, Pos: pos, Acts: acts})
								}
							}
						}
					}
				}
			}
		}, runInsp)

	// ---------------- C08
	extra, forms, multis := furtherHeaders, formTypes, multiTypes
	methods := []string{"POST", "PUT", "PATCH", "GET", "HEAD", "DELETE", "OPTIONS", "CONNECT", "TRACE", "post", "Put", "POST ", "PROPFIND", ""}
	core.Register("C08", "around the body", "33 kinds of further request headers (lengths that are wrong, encodings, connections, ...), 14 methods and access switches, for urlencoded and multipart bodies in one piece and in pieces, with 14 and 17 ways of writing the content type",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			ps := [][]Part{{{Name: "a", Value: "1"}, {Name: "b", Value: "x y"}}, {{Name: "f", Value: "data", File: "f"}, {Name: "a", Value: "2", Rep: 40}, {Name: "a", Value: "3"}}}
			put := func(m string, h [][2]core.B, form, multi string, n int) {
				r := Req{Method: m, URL: "/?g=1&a=2", CT: core.B(form), Hdr: h, Split: n % 4, Body: core.B([]string{"a=1&b=2&a=%41+c", "a", "=&x=1", "a=1&b=%zz&c=3"}[n%4])}
				yield(ArgCase{Req: r, Reads: allReads})
				r.CT, r.Body, r.Mem = core.B(multi), "", []int64{0, 1, 64}[n%3]
				yield(ArgCase{Req: r, Multi: true, Parts: ps[n%2], Boundary: "B", Reads: allReads})
				r.Mem, r.NoReqB = 0, true
				yield(ArgCase{Req: r, Multi: true, Parts: ps[n%2], Boundary: "B", Reads: backReads})
			}
			n := 0
			for _, m := range methods {
				for _, h := range extra {
					for k := 0; k < ctx.Pick(4, 12); k++ {
						n++
						put(m, h, forms[n%len(forms)], multis[n%len(multis)], k)
					}
				}
				for _, f := range forms {
					for k := 0; k < 4; k++ {
						n++
						put(m, extra[n%len(extra)], f, multis[n%len(multis)], k)
					}
				}
				for _, f := range multis {
					for k := 0; k < 6; k++ {
						n++
						put(m, extra[n%len(extra)], urlenc, f, k)
					}
				}
			}
			for _, a := range extra {
				for _, b := range extra {
					n++
					put("POST", append(append([][2]core.B{}, a...), b...), urlenc, multis[0], n)
				}
			}
			// every character a boundary can have, in quotes
			for _, ch := range "'()+_,-./:=? aZ09" {
				for _, bd := range []string{"B" + string(ch) + "B", string(ch) + "B", strings.Repeat(string(ch)+"b", 35)} {
					for _, ct := range []string{"multipart/form-data; boundary=\"" + bd + "\"", "multipart/form-data; boundary=\"" + bd + "\"; charset=x", "multipart/form-data; charset=x; boundary=\"" + bd + "\""} {
						for k := 0; k < 2; k++ {
							yield(ArgCase{Req: Req{Method: []string{"POST", "PUT"}[k], URL: "/", CT: core.B(ct), Split: k * 5}, Multi: true, Parts: ps[k], Boundary: bd, Reads: allReads})
						}
					}
				}
			}
		}, runArgs)

	// ---------------- C10
	core.Register("C10", "cookie-bytes", "every byte alone, doubled, as percent escape in both letter cases, and behind a backslash, %u and &#, in names and values of cookies beside others",
		func(c *core.Ctx, y func(VarCase)) {
			vs := []string{"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS"}
			for b := 0; b < 256; b++ {
				for _, s := range []string{string([]byte{byte(b)}), string([]byte{byte(b), byte(b)}), fmt.Sprintf("%%%02x", b), fmt.Sprintf("%%%02X", b), string([]byte{'\\', byte(b)}), fmt.Sprintf("%%u00%02x", b), fmt.Sprintf("&#%d;", b), fmt.Sprintf("\\x%02x", b), string([]byte{'%', byte(b)}), string([]byte{'"', byte(b), '"'})} {
					for _, f := range []string{"a=x@y", "a@b=1", "a=x@y; b=2", "z=1;a@b=1;c=3", "a=@b; a=c@", "a=b+c@d", "n=@x=@y"} {
						y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(strings.ReplaceAll(f, "@", s))}}}, vs})
					}
				}
			}
			for n := 1; n <= 300; n++ { // long ones, and many
				y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(strings.Repeat("a", n) + "=" + strings.Repeat("b", n*n%5000) + "; c=" + strings.Repeat("=", n))}}}, vs})
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, fmt.Sprintf("n%d=%d", i%(n/2+1), i))
				}
				y(VarCase{Req{Method: "GET", URL: "/", Hdr: [][2]core.B{{"Cookie", core.B(strings.Join(l, []string{";", "; ", ";;", " ; "}[n%4]))}}}, vs})
			}
		}, runVars)
	core.Register("C10", "words", "client addresses, methods and protocols of every length and form, status codes beside each: given as they were handed over",
		func(c *core.Ctx, y func(VarCase)) {
			vs := []string{"REMOTE_ADDR", "REQUEST_METHOD", "REQUEST_PROTOCOL", "RESPONSE_PROTOCOL", "REQUEST_URI"}
			var words []string
			for _, a := range addresses(c) {
				words = append(words, a[0], a[1])
			}
			words = append(words, "::1", "0:0:0:0:0:0:0:1", "::FFFF:10.0.0.1", "::ffff:a00:1", "2001:DB8::1", "2001:db8:0:0:0:0:0:1", "2001:db8::0001", "010.000.000.001", "10.1", "127.1", "0x7f000001", "2130706433", "10.0.0.1:80", "[::1]:80", "10.0.0.1/8", " 10.0.0.1 ", "localhost", "LOCALHOST", "fe80::1%25eth0", "::", "0.0.0.0", "255.255.255.255", "256.1.1.1",
				"GET", "get", "Get", "POST", "post", " GET", "GET ", "G\tET", "HTTP/1.1", "http/1.1", "HTTP/1.10", "HTTP/01.1", "HTTP/2.0", "HTTP/2", "h2c", "RTSP/1.0", "HTTP /1.1", "%47ET", "G+ET", "\xff", "é", "É", "ＧＥＴ", "\u0130", "ß")
			for i, w := range words {
				if w == "" {
					continue
				}
				y(VarCase{Req{IP: w, Method: "GET", URL: "/", Code: 200}, vs})
				y(VarCase{Req{Method: w, URL: "/", Proto: words[(i+7)%len(words)], RProto: words[(i+3)%len(words)], Code: 200}, vs})
				y(VarCase{Req{Method: w, URL: "/", Proto: w, RProto: w, IP: w, Code: i % 1000, CT: urlenc, Body: ""}, vs})
			}
		}, runVars)
}

// furtherHeaders are what a request can carry beside its body.
var furtherHeaders = [][][2]core.B{
	nil, {{"Content-Length", "0"}}, {{"Content-Length", "1"}}, {{"Content-Length", "999999"}}, {{"Content-Length", "-1"}}, {{"Content-Length", "abc"}}, {{"Content-Length", "3"}, {"Content-Length", "5"}},
	{{"Transfer-Encoding", "chunked"}}, {{"Content-Encoding", "gzip"}}, {{"Content-Encoding", "identity"}}, {{"Expect", "100-continue"}}, {{"Connection", "close"}}, {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}},
	{{"X-Http-Method-Override", "GET"}}, {{"Content-Disposition", "attachment"}}, {{"Content-Range", "bytes 0-0/5"}}, {{"Range", "bytes=0-1"}}, {{"Host", "h"}}, {{"Content-Transfer-Encoding", "base64"}}, {{"Accept-Charset", "utf-16"}},
	{{"content-type", "text/plain"}}, {{"content-length", "0"}}, {{"X-Requested-With", "XMLHttpRequest"}}, {{"Accept", "application/json"}}, {{"If-None-Match", "*"}}, {{"Trailer", "A"}}, {{"User-Agent", ""}}, {{"Origin", "null"}},
	{{"Content-Md5", "x"}}, {{"Authorization", "Basic eA=="}}, {{"Cookie", "a=1"}}, {{"Te", "trailers"}}, {{"Content-Language", "de"}}, {{"Content-Location", "/x"}},
}

// formTypes and multiTypes are ways of writing the content type of a form.
var formTypes = []string{urlenc, urlenc + "; charset=utf-8", urlenc + ";charset=UTF-8", urlenc + " ; charset=\"x;y\"", urlenc + "; boundary=B", urlenc + ";", urlenc + "; charset", urlenc + "; x=\"", " " + urlenc, urlenc + " ",
	strings.ToUpper(urlenc), "Application/x-WWW-form-urlencoded; A=B; c=d", urlenc + "; charset=iso-8859-1", urlenc + "; charset=utf-16; q=1",
	urlenc + "; charset=a; charset=b", urlenc + "; charset=a; Charset=a; x", urlenc + "; a=1; a=1", urlenc + ";;", urlenc + "; =", urlenc + "; a=1; b", urlenc + "; charset=\xe9", urlenc + "; charset=latin1", urlenc + "; charset=ISO-8859-1", urlenc + "; charset=windows-1252", urlenc + "; charset=us-ascii", urlenc + "; charset=utf-7", urlenc + "; charset=\"\""}
var multiTypes = []string{"multipart/form-data; boundary=B", "multipart/form-data;boundary=B", "multipart/form-data ;  boundary=\"B\"", "multipart/form-data; boundary=B; charset=utf-8", "multipart/form-data; charset=utf-8; boundary=B",
	"multipart/form-data; boundary=\"B\"; x=\"a;b=c\"", "multipart/form-data; x=\"boundary=C\"; boundary=B", "multipart/form-data; xboundary=C; boundary=B", "multipart/form-data; boundary=B; xboundary=C", "multipart/form-data; BOUNDARY=B", "multipart/form-data; Boundary=B",
	"MULTIPART/FORM-DATA; boundary=B", "multipart/form-data; boundary=B;", "multipart/form-data;\tboundary=B", "multipart/form-data; a=1; b=2; boundary=B; c=3", "multipart/form-data; boundary=B; a=\"boundary=D\"", "Multipart/Form-Data; Boundary=\"B\"; Charset=\"x\""}
