package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Requests with something in them that other programs take for special:
// every character at the edges of a name or value, names that mean something
// elsewhere, bodies that look like the end of a body.

// tokens are the strings that are put into names and values.
var tokens = func() []string {
	var res []string
	for b := 1; b < 256; b++ {
		switch b {
		case '\t', '\n', '\v', '\f', '\r', ' ':
			continue
		}
		res = append(res, string([]byte{byte(b)}))
	}
	return append(res, "$Version", "$Path", "$Domain", "$Port", "__Host-", "__Secure-", "Path", "path", "Domain", "Expires", "HttpOnly", "Secure", "Max-Age", "SameSite", "Comment", "Version",
		"__proto__", "constructor", "_method", "X-", "x-", "--", "/*", "*/", "<!--", "-->", "]]>", "<?", "?>", "{{", "${", "%{", "#{", "`", "''", `""`, "\\\\", "\\x", "\\u", "&amp;", "&#", "%%", "%u", "0x", "0X", "1e", "-1", "+1", "..", "...", "//", "://", "::", "[]", "[0]", "a[b]", "a.b", "null", "NULL", "nil", "true", "undefined", "NaN", "none", "deleted", "expired",
		"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\u0130", "\u017f", "\u212a", "\u00df", "e\u0301", "\u00e9", "\u200b", "\u202e", "\U0001f600", "\xc0\xaf", "\xe0\x80\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "=?utf-8?q?a?=", "utf-8''a")
}()

// heads are headers that mean something to some other program.
var heads = func() [][][2]core.B {
	res := append([][][2]core.B{}, furtherHeaders...)
	one := func(k string, vs ...string) {
		for _, v := range vs {
			res = append(res, [][2]core.B{{core.B(k), core.B(v)}})
		}
	}
	for _, k := range []string{"X-Forwarded-For", "X-Real-Ip", "Client-Ip", "X-Client-Ip", "True-Client-Ip", "Cf-Connecting-Ip", "Via", "X-Cluster-Client-Ip"} {
		one(k, "1.2.3.4", "1.2.3.4, 10.1.2.3", "::1", "unknown")
	}
	one("Forwarded", "for=1.2.3.4;proto=https;by=5.6.7.8", "for=\"[::1]\"")
	one("X-Http-Method-Override", "PUT", "POST", "DELETE")
	one("X-Http-Method", "PUT")
	one("X-Method-Override", "PUT")
	one("X-Original-Url", "/other?x=1")
	one("X-Rewrite-Url", "/other?x=1")
	one("X-Original-Method", "PUT")
	one("X-Forwarded-Proto", "https", "HTTP/2")
	one("X-Forwarded-Host", "other")
	one("X-Forwarded-Uri", "/other?x=1")
	one("X-Forwarded-Method", "PUT")
	one("Host", "other", "other:80", "", "a/b")
	one("Referer", "http://h/?r=1")
	one("Set-Cookie", "a=1; Path=/", "b=2; HttpOnly; Secure")
	one("Set-Cookie2", "a=1; Version=1")
	one("Cookie2", "$Version=1; a=1")
	one("cookie", "low=1")
	one("COOKIE", "up=1")
	one("Location", "/x", "http://h/y?z=1")
	one("Refresh", "0; url=/x")
	one("Link", "</x>; rel=preload")
	one("Status", "404 Not Found", "200")
	one(":status", "404")
	one(":method", "PUT")
	one(":path", "/other?x=1")
	one(":authority", "other")
	one("Content-Encoding", "deflate", "br", "gzip, gzip", "x-gzip", "utf-8", "")
	one("Transfer-Encoding", "gzip, chunked", "identity", "Chunked", "")
	one("Content-Length", "5", " 5", "+5", "0x5", "1e3", "5, 5", "18446744073709551616", "00000000000000000000000000000000000000000000005")
	one("Content-Disposition", "inline", "form-data; name=\"x\"; filename=\"f\"")
	one("Upgrade", "h2c")
	one("Connection", "X-A, Cookie", "keep-alive")
	one("Keep-Alive", "timeout=5")
	one("Proxy-Authorization", "Basic eA==")
	one("Authorization", "Bearer a.b.c", "Digest username=\"u\"", "basic eA==")
	one("Cache-Control", "no-store", "only-if-cached")
	one("Pragma", "no-cache")
	one("Accept-Encoding", "gzip", "identity;q=0")
	one("Content-Security-Policy", "default-src 'none'")
	one("Soapaction", "\"x\"")
	one("User-Agent", "ModSecurity", "curl/7", "() { :; }; x", "")
	one("X-Modsecurity", "off")
	one("X-Waf-Bypass", "1")
	one("Early-Data", "1")
	one("Sec-Fetch-Mode", "navigate")
	one("Sec-Websocket-Key", "x")
	one("Access-Control-Request-Method", "PUT")
	one("If-Modified-Since", "0")
	one("Proxy", "http://h")
	one("X-Sendfile", "/etc/motd")
	one("X-Accel-Redirect", "/x")
	one("Max-Forwards", "0")
	return res
}()

var mediaTypes = []string{"text/html", "text/plain; charset=utf-8", "text/css", "text/javascript", "text/xml", "text/event-stream", "text/csv", "application/json", "application/javascript", "application/xml", "application/soap+xml", "application/octet-stream", "application/pdf", "application/zip", "application/gzip", "application/grpc", "application/x-protobuf", "application/msgpack", "application/problem+json", "application/x-ndjson", "application/vnd.ms-excel", "application/wasm", urlenc, "multipart/form-data; boundary=B", "multipart/byteranges; boundary=B", "message/rfc822", "message/http", "image/png", "image/svg+xml", "video/mp4", "audio/ogg", "font/woff2", "TEXT/HTML", "text", "/", "*/*", "html", "text/html, text/plain", "text/html;", "; charset=utf-8", "unknown/unknown", "x"}

func init() {
	core.Register("C10", "every character", "all single bytes but blanks, and some 90 names, brackets, escapes and characters that mean something elsewhere, in front of, behind, within and instead of names and values of cookies, headers of both directions, the query (raw and escaped), and of the method, protocols and address",
		func(c *core.Ctx, y func(VarCase)) {
			for i, s := range tokens {
				forms := []string{s, s + "a", "a" + s, "a" + s + "b", s + s, s + "a" + s}
				for j, f := range forms {
					if strings.ContainsAny(f, ";=") {
						continue
					}
					other := tokens[(i*7+j*31+5)%len(tokens)]
					if strings.ContainsAny(other, ";=") {
						other = "$o"
					}
					for _, l := range [][]string{{f + "=1"}, {f + "=1; b=2"}, {"b=2; " + f + "=1"}, {"b=2;" + f}, {"b=" + f + "; c=3"}, {f + "=" + f, f + "=2; " + other + "=3"}, {other + "=1; " + f + "=" + other + "; " + other + "=2"}} {
						var h [][2]core.B
						for _, x := range l {
							h = append(h, [2]core.B{"Cookie", core.B(x)})
						}
						y(VarCase{Req{Method: "GET", URL: "/", Hdr: h}, []string{"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS"}})
					}
				}
				for j, f := range forms {
					other := tokens[(i*11+j*17+3)%len(tokens)]
					h := [][2]core.B{{core.B(f), "1"}, {"X", core.B(f)}, {core.B(other), core.B(f)}, {"Y", "2"}}
					y(VarCase{Req{Method: "GET", URL: "/", Hdr: h, RHdr: [][2]core.B{{"Z", core.B(f)}, {core.B(f), core.B(other)}}}, []string{"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}})
					y(VarCase{Req{Method: f, URL: "/", Proto: f, RProto: f, IP: f}, []string{"REQUEST_METHOD", "REQUEST_PROTOCOL", "RESPONSE_PROTOCOL", "REMOTE_ADDR"}})
					esc := func(s string) string {
						var b strings.Builder
						for k := 0; k < len(s); k++ {
							fmt.Fprintf(&b, "%%%02X", s[k])
						}
						return b.String()
					}
					qs := []string{esc(f) + "=1&b=2", "b=" + esc(f) + "&c=3", "b=1&" + esc(f) + "&" + esc(f) + "=" + esc(other), "b=2&" + esc(f) + "=" + esc(f) + "&" + esc(other) + "=1&" + esc(f) + "=3"}
					if !strings.ContainsAny(f, "#\x7f") && f[0] > ' ' && s[0] > ' ' && !strings.Contains(f, " ") {
						qs = append(qs, f+"=1&b=2", "b="+f+"&c=3", "b=2&"+f)
					}
					for _, q := range qs {
						y(VarCase{Req{Method: "GET", URL: core.B("/p?" + q)}, []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "QUERY_STRING"}})
					}
					y(VarCase{Req{Method: "GET", URL: core.B("/a" + esc(f) + "/b" + esc(other) + "?x=1")}, []string{"REQUEST_FILENAME", "QUERY_STRING", "REQUEST_BASENAME"}})
				}
			}
		}, runVars)
	core.Register("C10", "further headers", "requests and responses that carry any one or two of some 120 headers that mean something to other programs (addresses, methods, URLs, cookies, encodings, lengths), read by every variable; status codes below zero and of four and more digits",
		func(c *core.Ctx, y func(VarCase)) {
			vars := append(append([]string{}, collections...), scalars...)
			for i, h := range heads {
				for _, base := range []Req{
					{Method: "GET", URL: "/p/q?a=1", Proto: "HTTP/1.1", Code: 200, RProto: "HTTP/1.0", RBody: "resp"},
					{Method: "POST", URL: "/p/q?a=1", Proto: "HTTP/1.1", CT: urlenc, Body: "b=2&c=%41", Code: 404, RProto: "HTTP/1.0", RBody: "resp"},
					{Method: "PUT", URL: "http://h/p/q?a=1", Proto: "HTTP/2", CT: "text/plain", Body: "b=2", Code: 302, IP: "::1", RBody: "resp"},
				} {
					r := base
					r.Hdr = append([][2]core.B{{"Cookie", "s=1"}}, h...)
					y(VarCase{r, vars})
					r = base
					r.RHdr = append([][2]core.B{{"X", "1"}}, h...)
					y(VarCase{r, vars})
					for k := 1; k < 12; k++ {
						g := heads[(i*k+k)%len(heads)]
						r = base
						r.Hdr = append(append([][2]core.B{}, h...), g...)
						r.RHdr = append(append([][2]core.B{}, g...), h...)
						y(VarCase{r, vars})
					}
				}
			}
			for _, n := range counted(2200, 1<<31-1) {
				for _, r := range []Req{{Method: "GET", URL: "/", Code: n}, {Method: "GET", URL: "/", Code: -n}} {
					y(VarCase{r, []string{"RESPONSE_STATUS", "RESPONSE_PROTOCOL"}})
				}
			}
		}, runVars)
	core.Register("C07", "response heads", "a response body inspected whatever the head of the response says: some 120 further headers, 42 media types, all status codes 100..599 and others, in every mode, whole and in pieces; and request bodies whatever the further headers of the request say",
		func(ctx *core.Ctx, yield func(InspCase)) {
			n := 0
			put := func(h [][2]core.B, code int) {
				for _, tg := range []string{"RESPONSE_BODY", "&RESPONSE_BODY"} {
					n++
					op := []string{"any", "exact"}[n/2%2]
					if tg[0] == '&' {
						op = []string{"eq0", "noteq9"}[n/2%2]
					}
					body := []string{"evil", "<html>x</html>", "{\"a\":1}", "\x1f\x04\x08"}[n%4]
					yield(InspCase{Req: Req{Method: "GET", URL: "/", Code: code, RHdr: h, RBody: core.B(body), Split: n % 3}, Mode: []string{"on", "detect", "on", "off"}[n%4], Target: tg, Op: op, Pos: n % 3, Acts: []string{"deny,status:418", "log", "deny,log"}[n%3]})
				}
			}
			for i, h := range heads {
				for k := 0; k < 4; k++ {
					put(h, 0)
				}
				for k := 0; k < 8; k++ {
					put(append(append([][2]core.B{}, h...), heads[(i+k*k+1)%len(heads)]...), []int{200, 206, 304, 404}[k%4])
				}
			}
			for i, mt := range mediaTypes {
				for k := 0; k < 12; k++ {
					put([][2]core.B{{"Content-Type", core.B(mt)}}, []int{200, 206, 204, 500}[k%4])
					put(append([][2]core.B{{"Content-Type", core.B(mt)}}, heads[(i*13+k*29)%len(heads)]...), 200)
				}
			}
			for code := 100; code < 600; code++ {
				put(nil, code)
				put([][2]core.B{{"Content-Type", "text/html"}, {"Content-Length", "4"}}, code)
			}
			for _, code := range []int{-1, 1, 99, 600, 999, 1000, 1 << 30} {
				put(nil, code)
			}
			for _, h := range heads {
				for size := 2; size <= 4; size++ {
					for _, tg := range []string{"ARGS_POST", "REQUEST_BODY", "&ARGS", "ARGS_POST_NAMES"} {
						n++
						yield(InspCase{Req: Req{Method: []string{"POST", "PUT", "PATCH"}[n%3], URL: "/?q=1", CT: urlenc, Hdr: h, Body: core.B("a=bc"[:size]), Split: n % 3, Mem: 3}, Mode: []string{"on", "detect", "on"}[n/3%3], Target: tg, Op: "any", Pos: n % 3, Acts: []string{"deny,status:418", "log", "deny,log"}[n/9%3]})
					}
				}
			}
		}, runInsp)
	core.Register("C08", "odd pieces", "some 300 strings that end a body, a part, a line or a text elsewhere, or mean something there, at the start, in the middle and at the end of a URL-encoded body (raw and escaped), and as names, values, preamble and epilogue of a multipart body, with pairs before and behind them",
		func(ctx *core.Ctx, yield func(ArgCase)) {
			odd := append([]string{}, tokens...)
			for _, s := range []string{"\r\n\r\n", "\n\n", "\r\n", "\n", "\r", "\t", " ", "\v\f", "0\r\n\r\n", "5\r\nabcde\r\n", "--B--", "--B", "\r\n--B--\r\n", "\r\n.\r\n", "\x00", "\x00\x00", "\x1a", "\x04", "\x1b[0m", "{", "{\"a\":1}", "[1,2]", "<?xml version=\"1.0\"?>", "<a/>", "<!DOCTYPE a>", "GET / HTTP/1.1\r\nHost: h\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x1f\x8b\x08\x00", "PK\x03\x04", "%PDF-", "MZ", "#!", "\u2028", "\u2029", "\u0085", "\u00a0", "\u3000", "EOF", "\\0", "\\r\\n\\r\\n", "boundary=B", "Content-Length: 0", "filename=\"x\"", "name=\"x\"", "; charset=x"} {
				odd = append(odd, s)
			}
			esc := func(s string) string {
				var b strings.Builder
				for k := 0; k < len(s); k++ {
					fmt.Fprintf(&b, "%%%02x", s[k])
				}
				return b.String()
			}
			for i, s := range odd {
				ok := s
				if strings.ContainsAny(s, ";%") {
					ok = esc(s)
				}
				for k, b := range []string{ok, ok + "a=1&b=2", "a=1&b=2" + ok, "a=1&b=2&" + ok, "a=1" + ok + "&b=2", "a=1&" + ok + "&b=2", "a=" + ok + "1&b=2", "a=1&b" + ok + "=2", "a=1&b=" + ok + "&c=3", ok + "&" + ok + "=" + ok + "&a=1", esc(s) + "=1&a=" + esc(s) + "&b=2", "a=1" + strings.Repeat(ok, 3) + "2&b=2"} {
					yield(ArgCase{Req: Req{Method: []string{"POST", "PUT", "PATCH"}[k%3], URL: "/?g=1&a=2", CT: urlenc, Body: core.B(b), Split: (i + k) % 4}, Reads: allReads})
				}
				if strings.ContainsAny(s, "\r\n\x00") || s != strings.TrimSpace(s) || strings.Contains(s, "--") {
					s = "v" + strings.NewReplacer("\r", "r", "\n", "n", "\x00", "0").Replace(s) + "v"
				}
				for k, ps := range [][]Part{{{Name: "a", Value: core.B(s)}, {Name: "b", Value: "2"}}, {{Name: "b", Value: "2"}, {Name: "a", Value: core.B(s + s)}, {Name: "a", Value: "1"}}} {
					yield(ArgCase{Req: Req{Method: "POST", URL: "/?g=1", CT: core.B(multiTypes[0]), Split: (i + k) % 4 * 3, Mem: []int64{0, 16}[k]}, Multi: true, Boundary: "B", Parts: ps, Reads: allReads})
				}
			}
			for _, n := range counted(40, ctx.Pick(20000, 100000)) { // long ones, each character escaped
				for _, c := range []string{"%41", "+", "%2B", "%25", "%00", "=", "%3d", "%F0"} {
					if n*len(c) > 60000 && c != "%41" && c != "+" {
						continue
					}
					yield(ArgCase{Req: Req{Method: "POST", URL: "/", CT: urlenc, Mem: 1 << 22, Body: core.B("x=1&a=" + strings.Repeat(c, n) + "&b=2")}, Reads: argReads})
				}
			}
		}, runArgs)
	core.Register("C09", "plain and anchored", "every list of up to 3 (thorough 4) exclusions of one collection out of three names and seven regexes that say the same in another way, or match all or nothing; behind the whole, one name or one regex, and in front of it",
		func(c *core.Ctx, y func(SelCase)) {
			idx := []string{":a", ":b", ":ab", ":/^a$/", ":/^b$/", ":/^ab$/", ":/^/", ":/^c/", ":/[ab]/", ":/^zz$/"}
			for ci, coll := range collections {
				var exc []string
				for _, i := range idx {
					exc = append(exc, "!"+coll+i)
				}
				n := 0
				seqs(len(exc), 1, c.Pick(3, 4), func(s []int) {
					for bi, b := range append([]string{""}, idx...) {
						n++
						if len(s) == 3 && (n+bi+ci)%5 != 0 && !c.Thorough {
							continue
						}
						l := selLayouts[n%6]
						sel := pickS(exc, s)
						at := n % (len(sel) + 1)
						sel = append(append(append([]string{}, sel[:at]...), coll+b), sel[at:]...)
						y(SelCase{Sel: sel, Sep: l[0], Quote: l[1], Req: []int{0, 1, 3}[n/6%3]})
						if len(s) <= 2 {
							y(SelCase{Sel: append([]string{coll + b}, pickS(exc, s)...), Sep: l[0], Quote: l[1], Req: 0})
						}
					}
					if len(s) <= 3 {
						y(SelCase{Sel: pickS(exc, s), Sep: "|", Quote: `"`, Req: 0})
						var inc []string
						for _, k := range s {
							inc = append(inc, coll+idx[k])
						}
						y(SelCase{Sel: inc, Sep: "|", Quote: `"`, Req: 0})
					}
				})
			}
		}, runSel)
	core.Register("C13", "many targets", "every number of targets up to 40 and around the powers of two up to 1024 (thorough 4096), of one and of several collections, included, excluded and mixed, in six layouts, over a request that has an entry for each",
		func(c *core.Ctx, y func(SelCase)) {
			cs := [][2]string{{"ARGS_GET", "a"}, {"ARGS_POST", "n"}, {"REQUEST_COOKIES", "s"}, {"REQUEST_HEADERS", "h"}, {"RESPONSE_HEADERS", "r"}, {"ARGS_NAMES", "n"}}
			for k, n := range append(counted(40, c.Pick(1024, 4096)), 70, 99, 101, 150, 200, 300, 500) {
				l := selLayouts[k%6]
				for j, co := range cs {
					sel := listOf(n, func(i int) string { return fmt.Sprintf("%s:%s%d", co[0], co[1], i) })
					y(SelCase{Sel: sel, Sep: l[0], Quote: l[1], Req: 100 + n})
					if n < 600 || j == k%6 {
						y(SelCase{Sel: append([]string{co[0]}, listOf(n, func(i int) string { return fmt.Sprintf("!%s:%s%d", co[0], co[1], i) })...), Sep: l[0], Quote: l[1], Req: 100 + n + 3})
					}
				}
				y(SelCase{Sel: listOf(n, func(i int) string { return fmt.Sprintf("%s:%s%d", cs[i%6][0], cs[i%6][1], i) }), Sep: l[0], Quote: l[1], Req: 100 + n})
				y(SelCase{Sel: append(listOf(n, func(i int) string { return fmt.Sprintf("%s:%s%d", cs[i%6][0], cs[i%6][1], i) }), "&ARGS_GET", "REQUEST_METHOD"), Sep: l[0], Quote: l[1], Req: 100 + n})
			}
		}, runSel).WithBudget(1 << 40)
}
