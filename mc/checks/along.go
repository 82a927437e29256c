package checks

import (
	"fmt"
	"os"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// variables read along the way

// AlongCase hands a request over in steps and reads variables between them.
// Parts lists the parts in the order they are handed over: 0 connection, 1
// URL, 2 request headers, 3 request body, 4 response headers, 5 response
// body, and from 8 on those of the second request.
type AlongCase struct {
	Reqs  [2]Req   `json:"reqs"`
	Parts []int    `json:"parts"` // part + 8*request
	At    []int    `json:"at"`    // bit set of variables read behind each part (and before the first)
	Vars  []string `json:"vars"`
}

func (c AlongCase) hand(t *ms.Transaction, part int) error {
	r := c.Reqs[part/8]
	r.Skip = 63 &^ (1 << uint(part%8))
	return r.play(t)
}

// now is the request as it has been handed over so far.
func (c AlongCase) now(n int) Req {
	r := c.Reqs[0]
	r.Skip = 63
	for _, p := range c.Parts[:n] {
		q := c.Reqs[p/8]
		r.Skip &^= 1 << uint(p%8)
		switch p % 8 {
		case 0:
			r.IP = q.IP
		case 1:
			r.URL, r.Method, r.Proto, r.Line = q.URL, q.Method, q.Proto, q.Line
		case 2:
			r.Hdr, r.CT = q.Hdr, q.CT
		case 3:
			r.Body = q.Body
		case 4:
			r.Code, r.RProto, r.RHdr = q.Code, q.RProto, q.RHdr
		case 5:
			r.RBody = q.RBody
		}
	}
	return r
}

// checkVar compares the values of one variable with a request.
func checkVar(r Req, name string, got []string) string {
	if _, ok := r.collection(name, nil); ok {
		if want := r.selected(name, nil, func(string) bool { return true }); !sameMultiset(got, want) {
			return fmt.Sprintf("%s yields %s, want %s", name, quoteAll(got), quoteAll(want))
		}
		return ""
	}
	want, supplied := r.scalar(name)
	if supplied {
		if !sameMultiset(got, want) {
			return fmt.Sprintf("%s yields %s, want %s", name, quoteAll(got), quoteAll(want))
		}
		return ""
	}
	for _, g := range got {
		if len(got) > 1 || g != "" && g != "0" && g != "application/octet-stream" {
			return fmt.Sprintf("%s yields %s, but the host has not supplied it", name, quoteAll(got))
		}
	}
	return ""
}

func runAlong(ctx *core.Ctx, c AlongCase) *core.Fail {
	os.Setenv("TMPDIR", ctx.Dir)
	e := c.Reqs[0].engine(ctx.Dir)
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	rules := make([]*ms.SecRule, len(c.Vars))
	for i, v := range c.Vars {
		var f *core.Fail
		if rules[i], f = targetRule(e, v); f != nil {
			return f
		}
	}
	for n := 0; n <= len(c.Parts); n++ {
		if n > 0 {
			if err := c.hand(t, c.Parts[n-1]); err != nil {
				return core.Failf("%v", err)
			}
		}
		r := c.now(n)
		for i, v := range c.Vars {
			if c.At[n]&(1<<uint(i)) == 0 {
				continue
			}
			ctx.Trans(1)
			got := fetchAll(rules[i], t)
			if m := checkVar(r, v, got); m != "" {
				return core.Failf("behind the parts %v: %s", c.Parts[:n], m)
			}
			ctx.State(v, strings.Join(sorted(got), "\x00"))
		}
	}
	if res := t.Result(); res.Status != 200 || res.Disruptive {
		return core.Failf("the transaction ends with status %d, disruptive %v", res.Status, res.Disruptive)
	}
	ctx.Outcome(fmt.Sprint(c.Parts, c.At, c.Vars))
	return nil
}

func init() {
	first := Req{Method: "POST", URL: "/p/f.php?a=1&b=2", Proto: "HTTP/1.1", CT: urlenc, Body: "a=3&c=4", IP: "10.1.2.3", Code: 200, RProto: "HTTP/1.0", RBody: "resp",
		Hdr: [][2]core.B{{"Cookie", "k=v; l=w"}, {"X", "1"}, {"X", "2"}}, RHdr: [][2]core.B{{"Content-Type", "text/html"}, {"Content-Length", "4"}, {"Y", "3"}}}
	second := Req{Method: "PUT", URL: "/q/g.cgi?a=5&d=6", Proto: "HTTP/2", CT: urlenc, Body: "", IP: "192.0.2.7", Code: 404, RProto: "HTTP/1.1",
		Hdr: [][2]core.B{{"Cookie", "k=u; m=x"}, {"X", "3"}, {"Z", "4"}}, RHdr: [][2]core.B{{"Content-Type", "text/plain"}, {"Content-Length", "9"}, {"W", "3"}}}
	core.Register("C10", "along the way", "every variable read before, between and after the parts of a request in every selection of places, the parts handed over in the usual and in other orders, and parts handed over a second time with other contents: each reading yields what has been handed over by then",
		func(ctx *core.Ctx, yield func(AlongCase)) {
			body := map[string]bool{}
			for _, v := range []string{"ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY", "RESPONSE_BODY"} {
				body[v] = true
			}
			for _, parts := range [][]int{{0, 1, 2, 3, 4, 5}, {2, 1, 0, 3, 5, 4}, {3, 1, 2, 0, 4, 5}, {5, 4, 3, 2, 1, 0}, {4, 1, 0, 2, 3, 5}, {1, 9, 2, 4}, {0, 8, 1, 2, 10}, {0, 1, 2, 3, 9, 4, 5}, {0, 1, 2, 3, 10, 4, 5, 12}, {0, 1, 2, 3, 4, 5, 8, 9, 10, 12}, {8, 9, 10, 12, 0, 1, 2, 4}} {
				for _, v := range allVars {
					if body[v] {
						continue // reading ends the body
					}
					for s := 0; s < 1<<uint(len(parts)+1); s++ {
						at := make([]int, len(parts)+1)
						for i := range at {
							at[i] = s >> uint(i) & 1
						}
						yield(AlongCase{Reqs: [2]Req{first, second}, Parts: parts, At: at, Vars: []string{v}})
					}
				}
				for _, v := range allVars {
					for _, w := range allVars {
						if body[v] || body[w] {
							continue
						}
						for i := 0; i <= len(parts); i++ {
							for j := i; j <= len(parts); j++ {
								at := make([]int, len(parts)+1)
								at[i] |= 1
								at[j] |= 2
								at[len(parts)] = 3
								yield(AlongCase{Reqs: [2]Req{first, second}, Parts: parts, At: at, Vars: []string{v, w}})
							}
						}
					}
				}
			}
			// body variables from where their body is complete
			for _, v := range allVars {
				for _, w := range allVars {
					if !body[v] && !body[w] {
						continue
					}
					for s := 0; s < 64; s++ {
						parts := []int{0, 1, 2, 3, 4, 5}
						at := make([]int, 7)
						from := 4
						if v == "RESPONSE_BODY" || w == "RESPONSE_BODY" {
							from = 6
						}
						for i := from; i < 7; i++ {
							at[i] = s >> uint(2*(i-from)) & 3
						}
						if s>>uint(2*(7-from)) > 0 {
							break
						}
						yield(AlongCase{Reqs: [2]Req{first, second}, Parts: parts, At: at, Vars: []string{v, w}})
					}
				}
			}
		}, runAlong)
	core.Register("C10", "request targets", "request targets parsed as net/http does (paths that begin with several slashes, asterisk, absolute forms, odd escapes) and URL objects built from their fields with any bytes in the path: all variables of the URL",
		func(ctx *core.Ctx, yield func(VarCase)) {
			vs := []string{"REQUEST_FILENAME", "REQUEST_BASENAME", "REQUEST_URI", "QUERY_STRING", "ARGS", "ARGS_GET", "ARGS_GET_NAMES", "REQUEST_METHOD", "REQUEST_PROTOCOL"}
			pc := []string{"/", "//", "a", ".", "..", "%2f", "%41", ":", "@", ";", "=", ","}
			for _, pre := range []string{"/", "//", "///", "http://h", "http://h/", "http://h//", "HTTPS://u@h:1///"} {
				seqs(len(pc), 0, ctx.Pick(3, 4), func(s []int) {
					p := pre + strings.Join(pickS(pc, s), "")
					if strings.HasPrefix(pre, "http") && pre[len(pre)-1] != '/' && len(s) > 0 && pc[s[0]][0] != '/' {
						return
					}
					for _, q := range []string{"", "?", "?a=1&b=//c", "?x=?"} {
						yield(VarCase{Req{Method: "GET", URL: core.B(p + q), Proto: "HTTP/1.1", Line: 1}, vs})
					}
				})
			}
			yield(VarCase{Req{Method: "OPTIONS", URL: "*", Proto: "HTTP/1.1", Line: 1}, vs})
			var fields []string
			for i := 0; i < 256; i++ {
				if i != '#' && i != '?' {
					fields = append(fields, string([]byte{byte(i)}))
				}
			}
			no := []string{"REQUEST_FILENAME", "REQUEST_BASENAME", "QUERY_STRING", "ARGS", "ARGS_GET", "ARGS_GET_NAMES"}
			for _, f := range fields {
				for _, g := range []string{"/", "/a", "/a/b", "/a" + f, "/a/" + f} {
					for _, s := range []string{f, "", "/", f + "/" + f} {
						yield(VarCase{Req{Method: "GET", URL: core.B(strings.Replace(g+s, "%", "%25", -1) + "?a=1&b"), Line: 2}, no})
					}
				}
			}
			for _, p := range []string{"/", "/a", "/a/b.c", "//a", "/a-b_c~d", "/$&+,/:;=@", ""} {
				for _, q := range []string{"", "?", "?a=1&b=%41"} {
					yield(VarCase{Req{Method: "GET", URL: core.B(p + q), Line: 2}, vs})
				}
			}
		}, runVars)
}
