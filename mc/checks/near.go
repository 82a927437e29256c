package checks

import (
	"fmt"
	"strings"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// Requests that differ in one thing only. Whatever is remembered of one
// transaction and found again by a part of the next one (its length, its
// beginning, one line of it, ...) shows.

var nearReqs = func() []Req {
	var res []Req
	for _, n := range []int{3, 150} {
		w := func(s string) string { return s + strings.Repeat("x", n-len(s)%n) }
		base := func() Req {
			return Req{Method: "POST", Proto: "HTTP/1.1", IP: "10.1.2.3",
				URL:  core.B("/" + w("p") + "/" + w("q") + "?" + w("a") + "=" + w("1") + "&b=" + w("2")),
				Hdr:  [][2]core.B{{"Cookie", core.B(w("s") + "=" + w("v") + "; t=" + w("w"))}, {"Cookie", core.B("u=" + w("z"))}, {"X-A", core.B(w("h"))}, {"X-A", core.B(w("i"))}, {core.B("X-" + w("B")), "1"}},
				CT:   urlenc,
				Body: core.B(w("c") + "=" + w("3") + "&d=" + w("4")),
				Code: 200, RProto: "HTTP/1.1",
				RHdr:  [][2]core.B{{"Content-Type", core.B("text/" + w("html"))}, {"Content-Length", core.B(strings.Repeat("7", n))}, {"X-R", core.B(w("r"))}, {"X-R", core.B(w("r2"))}},
				RBody: core.B(w("body"))}
		}
		add := func(f func(*Req)) {
			r := base()
			r.Hdr = append([][2]core.B{}, r.Hdr...)
			r.RHdr = append([][2]core.B{}, r.RHdr...)
			f(&r)
			res = append(res, r)
		}
		sub := func(s *core.B, old, new string) { *s = core.B(strings.Replace(string(*s), old, new, 1)) }
		last := func(s *core.B) { *s = (*s)[:len(*s)-1] + "y" }
		mp := func(bd, name, val string) core.B {
			return core.B(fmt.Sprintf("--%s\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n--%s--\r\n", bd, w(name), w(val), bd))
		}
		for _, f := range []func(*Req){
			func(r *Req) {},
			func(r *Req) { r.Method = "PUT" },
			func(r *Req) { r.Method = "GET" },
			func(r *Req) { r.Proto = "HTTP/1.0" },
			func(r *Req) { r.IP = "10.1.2.4" },
			func(r *Req) { r.IP = "10.1.2.3" + strings.Repeat(" ", n) },
			// the URL
			func(r *Req) { sub(&r.URL, "/p", "/P") },
			func(r *Req) { sub(&r.URL, "/q", "/r") },
			func(r *Req) { sub(&r.URL, "x?", "y?") },
			func(r *Req) { sub(&r.URL, "?", "/?") },
			func(r *Req) { sub(&r.URL, "?a", "?A") },
			func(r *Req) { sub(&r.URL, "=1", "=2") },
			func(r *Req) { sub(&r.URL, "x&b", "y&b") },
			func(r *Req) { sub(&r.URL, "x&b", "&bx") },
			func(r *Req) { sub(&r.URL, "&b=", "&B=") },
			func(r *Req) { sub(&r.URL, "&b=", "&a=") },
			func(r *Req) { sub(&r.URL, "&b=", "&bb") },
			func(r *Req) { last(&r.URL) },
			func(r *Req) { r.URL += "needle" },
			func(r *Req) { r.URL += "&c=needle" },
			func(r *Req) { r.URL += "&" },
			func(r *Req) { r.URL += "%zz" },
			func(r *Req) { r.URL = "http://h" + r.URL },
			func(r *Req) { i := strings.Index(string(r.URL), "?"); r.URL = r.URL[:i] },
			// request headers
			func(r *Req) { last(&r.Hdr[0][1]) },
			func(r *Req) { r.Hdr[0][1] += "; v=needle" },
			func(r *Req) { sub(&r.Hdr[0][1], "; t", ";u") },
			func(r *Req) { sub(&r.Hdr[0][1], "=w", "=v") },
			func(r *Req) { sub(&r.Hdr[0][1], "s", "S") },
			func(r *Req) { last(&r.Hdr[1][1]) },
			func(r *Req) { r.Hdr[1][1] = "u=needle" },
			func(r *Req) { r.Hdr = r.Hdr[1:] },
			func(r *Req) { r.Hdr = append(r.Hdr[:1], r.Hdr[2:]...) },
			func(r *Req) { r.Hdr = append(r.Hdr, [2]core.B{"Cookie", "n=needle"}) },
			func(r *Req) { r.Hdr[0], r.Hdr[1] = r.Hdr[1], r.Hdr[0] },
			func(r *Req) { last(&r.Hdr[2][1]) },
			func(r *Req) { r.Hdr[3][1] += "needle" },
			func(r *Req) { r.Hdr = append(r.Hdr[:3], r.Hdr[4:]...) },
			func(r *Req) { r.Hdr[2][0], r.Hdr[3][0] = "X-C", "X-C" },
			func(r *Req) { r.Hdr[3][0] = "X-B" },
			func(r *Req) { last(&r.Hdr[4][0]) },
			func(r *Req) { r.Hdr[4][1] = "2" },
			func(r *Req) { r.Hdr = append(r.Hdr, [2]core.B{"X-N", "needle"}) },
			func(r *Req) { r.Hdr = nil },
			// the request body
			func(r *Req) { last(&r.Body) },
			func(r *Req) { sub(&r.Body, "c", "C") },
			func(r *Req) { sub(&r.Body, "=3", "=4") },
			func(r *Req) { sub(&r.Body, "x&d", "y&d") },
			func(r *Req) { sub(&r.Body, "x&d", "&dx") },
			func(r *Req) { sub(&r.Body, "&d=", "&c=") },
			func(r *Req) { r.Body += "&n=needle" },
			func(r *Req) { r.Body += "needle" },
			func(r *Req) { r.Body += "%zz" },
			func(r *Req) { r.Body = "" },
			func(r *Req) { r.Split = 1 },
			func(r *Req) { r.Split = 2; last(&r.Body) },
			func(r *Req) { r.CT = "text/plain" },
			func(r *Req) { r.CT += "; charset=utf-8" },
			func(r *Req) { r.CT = "" },
			func(r *Req) { r.CT = "multipart/form-data; boundary=B" },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=B", mp("B", "c", "3") },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=C", mp("B", "c", "3") },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=C", mp("C", "c", "3") },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=B", mp("B", "c", "4") },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=B", mp("B", "d", "3") },
			func(r *Req) { r.CT, r.Body = "multipart/form-data; boundary=B", mp("B", "d", "needle") },
			func(r *Req) { r.Body = core.B(string(r.URL)[strings.Index(string(r.URL), "?")+1:]) },
			func(r *Req) { i := strings.Index(string(r.URL), "?"); r.URL, r.Body = r.URL[:i+1]+r.Body, r.URL[i+1:] },
			// the response
			func(r *Req) { r.Code = 404 },
			func(r *Req) { r.RProto = "HTTP/1.0" },
			func(r *Req) { last(&r.RHdr[0][1]) },
			func(r *Req) { r.RHdr[0][1] += "; charset=x" },
			func(r *Req) { last(&r.RHdr[1][1]) },
			func(r *Req) { last(&r.RHdr[2][1]) },
			func(r *Req) { last(&r.RHdr[3][1]) },
			func(r *Req) { r.RHdr[3][1] = "needle" },
			func(r *Req) { r.RHdr = r.RHdr[1:] },
			func(r *Req) { r.RHdr = nil },
			func(r *Req) { last(&r.RBody) },
			func(r *Req) { r.RBody += "needle" },
			func(r *Req) { r.RBody = "" },
			func(r *Req) { r.RBody, r.Body = r.Body, r.RBody },
			func(r *Req) { r.Skip = skipRBody },
			func(r *Req) { r.Skip = skipBody },
		} {
			add(f)
		}
	}
	return res
}()

func nearText() string {
	text := "SecRuleEngine On\nSecRequestBodyAccess On\nSecResponseBodyAccess On\n"
	id := 1
	for ph, l := range map[int][]string{2: {"REMOTE_ADDR", "REQUEST_METHOD"}} {
		for _, v := range l {
			text += fmt.Sprintf("SecRule %s \"T\" \"id:%d,phase:%d,log\"\n", v, id, ph)
			id++
		}
	}
	for _, v := range collections {
		text += fmt.Sprintf("SecRule %s \"needle\" \"id:%d,phase:5,log\"\nSecRule &%s \"@ge 4\" \"id:%d,phase:5,log\"\n", v, id, v, id+1)
		id += 2
	}
	for _, v := range scalars {
		text += fmt.Sprintf("SecRule %s \"needle\" \"id:%d,phase:5,log\"\n", v, id)
		id++
	}
	text += "SecRule REQUEST_COOKIES:u|REQUEST_HEADERS:X-A|ARGS:/^b/|!ARGS:c \"needle\" \"id:900,phase:3,status:405,deny,t:lowercase,t:urlDecodeUni\"\n"
	text += "SecRule ARGS|RESPONSE_HEADERS \"needle\" \"id:901,phase:6,status:406,deny\"\n"
	return strings.Replace(text, "phase:6", "phase:5", 1)
}

func init() {
	histRules["near"] = nearText()
	core.Register("C16", "similar requests", fmt.Sprintf("%d requests that differ from a short or a long one in a single thing (each part of the request line, names, values, ends and order of arguments, cookies, header lines, body, type, boundary, response): all pairs in a row on one engine, each compared with the request alone in a process of its own; each also beside the same request on engines of other modes, limits and access", len(nearReqs)),
		func(ctx *core.Ctx, y func(HistCase)) {
			for i := range nearReqs {
				for j := range nearReqs {
					y(HistCase{Rules: "near", Events: []string{fmt.Sprintf("~%d", i), fmt.Sprintf("~%d", j)}})
				}
			}
			half := len(nearReqs) / 2
			for i := range nearReqs {
				al := []string{fmt.Sprintf("~%d", i), fmt.Sprintf("*%d", i), fmt.Sprintf("^%d", i), fmt.Sprintf("_%d", i)}
				seqs(len(al), 2, 3, func(s []int) { y(HistCase{Rules: "near", Events: pickS(al, s)}) })
				b := i / half * half // its base
				y(HistCase{Rules: "near", Events: []string{fmt.Sprintf("~%d", b), fmt.Sprintf("*%d", i), fmt.Sprintf("~%d", i), fmt.Sprintf("~%d", b)}})
				if ctx.Thorough {
					for j := b; j < b+half; j++ {
						for k := b; k < b+half; k += 3 {
							y(HistCase{Rules: "near", Events: []string{fmt.Sprintf("~%d", i), fmt.Sprintf("~%d", j), fmt.Sprintf("~%d", k)}})
						}
					}
				}
			}
		}, runHist).WithBudget(1 << 40)
	core.Register("C15", "similar requests", fmt.Sprintf("a short or a long request beside each of the %d that differ from it in a single thing, every interleaving of groups of three calls", len(nearReqs)),
		func(ctx *core.Ctx, y func(CallCase)) {
			half := len(nearReqs) / 2
			for i := range nearReqs {
				y(CallCase{Rules: "near", Reqs: []int{200 + i/half*half, 200 + i}, Short: true})
			}
		}, runCalls).WithBudget(1 << 40)
}
