package checks

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"

	"verifmc/core"
)

// ---------------------------------------------------------------------
// C20: what the host hands over stays as it is

// KeepCase is a complete transaction, with what the host handed over compared
// with its copy after every step.
type KeepCase struct {
	Req   Req    `json:"req"`
	Rules string `json:"rules"`
	Mode  string `json:"mode,omitempty"`
	Reads bool   `json:"reads,omitempty"` // read every variable after every step
	URL   string `json:"urlform,omitempty"`
	Same  bool   `json:"same,omitempty"` // the response has the header map of the request
	Spoil bool   `json:"spoil,omitempty"`
	Total int64  `json:"total,omitempty"` // total limit of both bodies
	Late  bool   `json:"late,omitempty"`  // body pieces are appended again after every step
}

func copyHeader(h http.Header) http.Header {
	if h == nil {
		return nil
	}
	c := http.Header{}
	for k, v := range h {
		if v == nil {
			c[k] = nil
			continue
		}
		c[k] = append([]string{}, v[:cap(v)]...)[:len(v)]
	}
	return c
}

func sameHeader(a, b http.Header) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || len(v) != len(w) || (v == nil) != (w == nil) {
			return false
		}
		v, w = v[:cap(v)], w[:cap(v)] // spare room is the host's, too
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

// roomy gives every value list spare room that an append would write to.
func roomy(h http.Header) http.Header {
	for k, v := range h {
		w := make([]string, len(v), len(v)+3)
		copy(w, v)
		w = w[:cap(w)]
		for i := len(v); i < cap(w); i++ {
			w[i] = "room"
		}
		h[k] = w[:len(v)]
	}
	return h
}

func runKeep(ctx *core.Ctx, c KeepCase) *core.Fail {
	defer cleanDir(ctx.Dir)
	r := c.Req
	e := r.engine(ctx.Dir)
	if f := loadRules(e, histText(c.Rules)); f != nil {
		return f
	}
	e.RequestBodyAccess, e.ResponseBodyAccess = !r.NoReqB, !r.NoResB
	if c.Total > 0 {
		e.RequestBody, e.ResponseBody = c.Total, c.Total
	}
	if c.Mode != "" {
		setMode(e, c.Mode)
	}
	t, err := e.NewTransaction()
	if err != nil {
		return core.Failf("NewTransaction: %v", err)
	}
	defer func() {
		t.Request.Body.Close()
		t.Response.Body.Close()
	}()
	u, err := r.parsedURL()
	if err != nil {
		return nil
	}
	switch c.URL {
	case "opaque":
		u = &url.URL{Scheme: "http", Opaque: "//h/p?x", RawQuery: u.RawQuery}
	case "force":
		u.ForceQuery, u.RawQuery = true, ""
	case "raw":
		u.RawPath, u.Path = "/a%2fb", "/a/b"
	case "bare":
		u = &url.URL{}
	}
	var user *url.Userinfo
	if u.User != nil {
		v := *u.User
		user = &v
	}
	u0 := *u
	h, rh := roomy(r.header()), roomy(header(r.RHdr))
	if c.Same {
		rh = h
	}
	if c.URL == "nilvalues" {
		h["Nothing"], h["Cookie"] = nil, []string{}
		rh["Content-Type"] = nil
	}
	h0, rh0 := copyHeader(h), copyHeader(rh)
	body, rbody := roomyPieces(string(r.Body), r.Split), roomyPieces(string(r.RBody), r.Split)
	body0, rbody0 := roomyPieces(string(r.Body), r.Split), roomyPieces(string(r.RBody), r.Split)
	check := func(step string) *core.Fail {
		ctx.Trans(1)
		un := *u
		un.User, u0.User = nil, nil
		if !reflect.DeepEqual(un, u0) || (u.User == nil) != (user == nil) || u.User != nil && *u.User != *user {
			return core.Failf("after %s the host's URL is %#v with user %v, it was %#v with user %v (rules %s)", step, un, u.User, u0, user, c.Rules)
		}
		if !sameHeader(h, h0) {
			return core.Failf("after %s the host's request headers are %q, they were %q (rules %s)", step, h, h0, c.Rules)
		}
		if !sameHeader(rh, rh0) {
			return core.Failf("after %s the host's response headers are %q, they were %q (rules %s)", step, rh, rh0, c.Rules)
		}
		if f := samePieces(body, body0); f == nil {
			if f = samePieces(rbody, rbody0); f != nil {
				return core.Failf("after %s the host's response body %s (rules %s)", step, f.Msg, c.Rules)
			}
		} else {
			return core.Failf("after %s the host's request body %s (rules %s)", step, f.Msg, c.Rules)
		}
		return nil
	}
	read := func(step string) *core.Fail {
		if !c.Reads {
			return nil
		}
		var ps []int
		for p := range e.RuleSet.Phases {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		for _, p := range ps {
			for _, x := range e.RuleSet.Phases[p] {
				for _, s := range append([]*ms.SecRule{x}, x.SubRules...) {
					for _, v := range s.Variables {
						got := v.Fetch(t)
						keep := append([]string{}, got...)
						if c.Spoil { // a reader does what it wants with what it got
							for i := range got {
								got[i] = "spoiled"
							}
							got = append(got, "spoiled")
						}
						if again := v.Fetch(t); !sameMultiset(again, keep) {
							return core.Failf("after %s %s yields %s, and then, when the values have been changed by their reader, %s", step, v.Name(), quoteAll(keep), quoteAll(again))
						}
					}
				}
			}
		}
		return check(step + " and readings")
	}
	steps := []struct {
		name string
		f    func()
	}{
		{"ProcessConnection", func() { t.ProcessConnection("10.0.0.1", "5555", "192.0.2.1", "80") }},
		{"ProcessRequestURL", func() { t.ProcessRequestURL(u, r.Method, r.Proto) }},
		{"ProcessRequestHeader", func() { t.ProcessRequestHeader(h) }},
		{"AppendRequestBody", func() { handOver(body, t.AppendRequestBody) }},
		{"ProcessRequestBody", func() { t.ProcessRequestBody() }},
		{"Result", func() { t.Result() }},
		{"ProcessResponseHeaders", func() { t.ProcessResponseHeaders(r.Code, r.RProto, rh) }},
		{"AppendResponseBody", func() { handOver(rbody, t.AppendResponseBody) }},
		{"ProcessResponseBody", func() { t.ProcessResponseBody() }},
		{"ProcessLogging", func() { t.ProcessLogging() }},
		{"the last Result", func() { t.Result() }},
	}
	for i, s := range steps {
		s.f()
		if c.Late {
			handOver(body, t.AppendRequestBody)
			if f := check("appending behind " + s.name); f != nil {
				return f
			}
			handOver(rbody, t.AppendResponseBody)
		}
		if f := check(s.name); f != nil {
			return f
		}
		// reading a body before it is complete would end its filling
		if i < 2 || i == 3 || i == 7 {
			continue
		}
		if f := read(s.name); f != nil {
			return f
		}
	}
	ctx.State(c.Rules, c.Mode, string(r.URL), string(r.Body), len(r.Hdr), c.URL)
	ctx.Outcome(fmt.Sprint(c.Rules, c.Mode, c.URL, len(r.Hdr)))
	return nil
}

// roomyPieces cuts a body into the pieces that a host hands over. There is
// room behind each that is the host's, too.
func roomyPieces(data string, split int) [][]byte {
	if split <= 0 {
		split = len(data)
	}
	var res [][]byte
	for len(data) > 0 {
		n := split
		if n > len(data) {
			n = len(data)
		}
		p := make([]byte, n, 2*n+16)
		copy(p, data)
		rest := p[n:cap(p)]
		for i := range rest {
			rest[i] = "room"[i%4]
		}
		res = append(res, p)
		data = data[n:]
	}
	return res
}

func handOver(pieces [][]byte, f func([]byte) error) {
	for _, p := range pieces {
		f(p)
	}
}

func samePieces(a, b [][]byte) *core.Fail {
	for i, p := range a {
		if p, q := p[:cap(p)], b[i][:cap(p)]; !bytes.Equal(p, q) {
			return core.Failf("(piece %d of %d bytes with the room behind it) has changed: %s", i, len(a[i]), diff(p, q))
		}
	}
	return nil
}

func init() {
	// every variable, in every form, with every transformation, in every phase
	text := ""
	id := 1
	for ph := 2; ph <= 5; ph++ {
		for _, v := range append(append([]string{}, collections...), scalars...) {
			if ph < 5 && (strings.Contains(v, "BODY") || strings.HasPrefix(v, "ARGS")) && !(ph == 3 && v != "RESPONSE_BODY") {
				continue
			}
			tg := v + "|&" + v
			if v != "REQUEST_BODY" && v[0] != 'Q' && strings.Contains("|"+strings.Join(collections, "|")+"|", "|"+v+"|") {
				tg += "|" + v + ":a|" + v + ":/^[a-n]/|!" + v + ":b|!" + v + ":/^Co/"
			}
			text += fmt.Sprintf("SecRule %s \"!@rx ^no$\" \"id:%d,phase:%d,log,t:%s\"\n", tg, id, ph, []string{"lowercase", "urlDecode", "urlDecodeUni", "removeWhitespace", "compressWhitespace", "replaceNulls", "removeNulls", "none"}[id%8])
			id++
		}
	}
	histRules["everything"] = text
	odd := []Req{
		{Method: "POST", URL: "http://u:p@h:1/a%2Fb/../c;d=1?q=%zz&a=1&a;b=c&%41=+#f%20", CT: urlenc, Body: "a=1&A=2&%zz=3&b", Hdr: [][2]core.B{{"x-lower", "A"}, {"X-Lower", "b"}, {"Cookie", "b=2; a=1;;c"}, {"Cookie", " z"}, {"cookie", "low=1"}, {"A", " MiXed  "}, {"A", "a"}, {"a", "B%41"}}, Code: 200,
			RHdr: [][2]core.B{{"content-type", "Text/HTML"}, {"Content-Type", "TEXT/html ; a=B"}, {"Content-Length", " 7"}, {"Set-Cookie", "z"}, {"Set-Cookie", "a"}, {"A", "\x00"}}, RBody: "MiXed  +%41\x00"},
		{Method: "PUT", URL: "/?b=2&a=1&a=0", CT: "Multipart/Form-Data; boundary=B", Body: core.B(mpBody), Split: 3, Hdr: [][2]core.B{{"b", "2"}, {"a", "1"}, {"a", "0"}}, RHdr: [][2]core.B{{"b", "2"}, {"a", "1"}, {"a", "0"}}, RBody: "x"},
		{Method: "PATCH", URL: "/", CT: urlenc, Body: "zz=9&a=1&mm=%41%42&b=x+y", Mem: 10, Split: 4},
	}
	core.Register("C20", "transactions", "every rule set of the other properties and one that reads every variable in every form, over requests of every kind (also odd URLs, headers that differ in letter case, lists without values, one map for both directions), in every mode, with body access on and off, values read and changed by their reader after every step",
		func(ctx *core.Ctx, yield func(KeepCase)) {
			var names []string
			for n := range histRules {
				names = append(names, n)
			}
			for n := range sharedRules {
				names = append(names, n)
			}
			sort.Strings(names)
			reqs := append(append(append([]Req{}, orderReqs...), selReqs...), odd...)
			for _, n := range counted(9, 200) {
				reqs = append(reqs, wideReq(n))
			}
			for k := 0; k < 40; k += 5 {
				reqs = append(reqs, similarReq(k))
			}
			for _, n := range names {
				for ri, r := range reqs {
					for _, mode := range []string{"", "on", "detect", "off"} {
						for k := 0; k < 4; k++ {
							if n == "similar" && (k > 0 || mode != "") && !ctx.Thorough {
								continue
							}
							q := r
							if k >= 2 && (ri+k)%2 == 0 {
								q.Split = 1
							}
							q.NoReqB, q.NoResB = k == 3, k == 3
							for _, form := range []string{"", "opaque", "force", "raw", "bare", "nilvalues"} {
								if form != "" && (ri > 20 || k > 1) {
									continue
								}
								yield(KeepCase{Req: q, Rules: n, Mode: mode, URL: form, Reads: k == 1 || k == 2, Spoil: k == 2, Same: k == 1 && ri%3 == 0})
							}
						}
					}
				}
			}
		}, runKeep).WithBudget(1 << 30)
	core.Register("C20", "small parts", "every header list, cookie line and query of up to four small pieces, read by a rule for every variable",
		func(ctx *core.Ctx, yield func(KeepCase)) {
			kv := [][2]core.B{{"A", "1"}, {"a", "2"}, {"B", ""}, {"Cookie", "b=1;a=2"}, {"Cookie", "a"}, {"Content-Type", "Text/X; q"}, {"b", "MIX\x00 "}}
			seqs(len(kv), 0, ctx.Pick(4, 5), func(idx []int) {
				var h [][2]core.B
				q := "/?"
				for _, i := range idx {
					h = append(h, kv[i])
					q += string(kv[i][0]) + "=" + []string{"1", "+", "%41", "", "%", "a;b", "x"}[i] + "&"
				}
				m := []string{"GET", "POST"}[len(idx)%2]
				yield(KeepCase{Req: Req{Method: m, URL: core.B(q), Hdr: h, RHdr: h, Body: core.B(q[2:]), CT: urlenc, Code: 200, RBody: "x"}, Rules: "everything", Reads: true, Spoil: len(idx) < 4})
			})
		}, runKeep).WithBudget(1 << 30)
	core.Register("C20", "refused bodies", "bodies of 0..12 bytes and 5000 in both directions in every split, around every small total and memory limit (some pieces are refused, others spilled), appended again after every step, with and without readers",
		func(ctx *core.Ctx, yield func(KeepCase)) {
			full := "a=MiX%41+&b=\x00z"
			for _, names := range []string{"everything", "bodies", "detect"} {
				for n := 0; n <= 12; n++ {
					for _, total := range []int64{0, 1, 2, 3, 5, 8, 11, 12, 13} {
						for _, mem := range []int64{0, 1, 4, 8} {
							for split := 0; split <= 5; split++ {
								for k := 0; k < 4; k++ {
									if names != "everything" && (split > 2 || k == 3) {
										continue
									}
									b := core.B(full[:n])
									yield(KeepCase{Req: Req{Method: "POST", URL: "/?q", CT: urlenc, Body: b, RBody: b, Split: split, Mem: mem, Code: 200, NoReqB: k == 3, NoResB: k == 3}, Rules: names, Total: total, Late: k > 0, Reads: k == 2, Mode: []string{"", "detect", "on", "off"}[(n+split)%4]})
								}
							}
						}
					}
				}
			}
			big := core.B("a=" + strings.Repeat("Bb%43 ", 833))
			for _, total := range []int64{0, 1, 4095, 4096, 4097, 4999, 5000, 5001, 10000} {
				for _, mem := range []int64{0, 1, 4096, 5000} {
					for _, split := range []int{0, 1000, 4095, 4096, 4097} {
						for k := 0; k < 4; k++ {
							yield(KeepCase{Req: Req{Method: "PUT", URL: "/?q", CT: urlenc, Body: big, RBody: big, Split: split, Mem: mem, Code: 200}, Rules: "everything", Total: total, Late: k&1 == 1, Reads: k&2 == 2})
						}
					}
				}
			}
		}, runKeep).WithBudget(1 << 30)
	core.Register("C20", "large bodies", "bodies in both directions, of sizes and in pieces around the powers of two from 256 to 65536 (thorough: 1<<21), each piece with spare room behind it, around memory and total limits, with and without readers",
		func(ctx *core.Ctx, yield func(KeepCase)) {
			n := 0
			for p := 256; p <= ctx.Pick(65536, 1<<21); p *= 2 {
				for _, split := range []int{p - 1, p, p + 1, p + p/2} {
					for _, size := range []int{split, split + 1, 2*split - 1, 2 * split, 3*split + 5} {
						for _, mem := range []int64{1, int64(split), int64(2 * split), 1 << 27} {
							n++
							b := core.B(("a=" + strings.Repeat("Bb%43 ", size/6+1))[:size])
							r := Req{Method: []string{"PUT", "POST"}[n%2], URL: "/?q", CT: urlenc, Body: b, RBody: b, Split: split, Mem: mem, Code: 200}
							if p > 4096 && n%3 > 0 && !ctx.Thorough {
								continue
							}
							yield(KeepCase{Req: r, Rules: []string{"everything", "bodies"}[n/2%2], Total: []int64{0, int64(2*split - 1), int64(size)}[n%3], Late: n%4 == 0, Reads: n%4 == 1, Mode: []string{"", "detect", "on", "off"}[n/4%4]})
						}
					}
				}
			}
		}, runKeep).WithBudget(1 << 40)
}
