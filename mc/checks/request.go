package checks

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"unicode/utf8"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"

	"verifmc/core"
)

// Req is one request and response, as the host would hand it over.
type Req struct {
	Method string      `json:"method,omitempty"`
	URL    core.B      `json:"url"`
	Proto  string      `json:"proto,omitempty"`
	Hdr    [][2]core.B `json:"hdr,omitempty"`
	CT     core.B      `json:"ct,omitempty"` // request content type
	Body   core.B      `json:"body,omitempty"`
	Split  int         `json:"split,omitempty"` // piece size, 0 whole
	Code   int         `json:"code,omitempty"`
	RProto string      `json:"rproto,omitempty"`
	RHdr   [][2]core.B `json:"rhdr,omitempty"`
	RBody  core.B      `json:"rbody,omitempty"`
	IP     string      `json:"ip,omitempty"`
	Mem    int64       `json:"mem,omitempty"` // in-memory limit, 0 default
	NoReqB bool        `json:"noReqAccess,omitempty"`
	NoResB bool        `json:"noResAccess,omitempty"`
	Skip   int         `json:"skip,omitempty"` // bit set of parts the host does not supply
	Line   int         `json:"line,omitempty"` // 1: the URL is a request target, parsed as net/http does; 2: built from its fields
}

const (
	skipConn = 1 << iota
	skipURL
	skipReqH
	skipBody
	skipRespH
	skipRBody
)

func header(kv [][2]core.B) http.Header {
	h := http.Header{}
	for _, p := range kv {
		h[string(p[0])] = append(h[string(p[0])], string(p[1]))
	}
	return h
}

func (r Req) header() http.Header {
	h := header(r.Hdr)
	if r.CT != "" {
		h["Content-Type"] = []string{string(r.CT)}
	}
	return h
}

func appendSplit(data []byte, split int, f func([]byte) error) error {
	if split <= 0 {
		split = len(data)
	}
	for len(data) > 0 {
		n := split
		if n > len(data) {
			n = len(data)
		}
		p := append([]byte{}, data[:n]...)
		if err := f(p); err != nil {
			return err
		}
		for i := range p {
			p[i] = 0xee
		}
		data = data[n:]
	}
	return nil
}

func (r Req) engine(dir string) *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyAccess = !r.NoReqB
	e.ResponseBodyAccess = !r.NoResB
	if r.Mem != 0 {
		e.RequestBodyInMem = r.Mem
	}
	return e
}

func (r Req) parsedURL() (*url.URL, error) {
	switch r.Line {
	case 1:
		return url.ParseRequestURI(string(r.URL))
	case 2:
		path, query, has, _ := rawParts(string(r.URL))
		return &url.URL{Path: pctDecode(path), RawQuery: query, ForceQuery: has && query == ""}, nil
	}
	return url.Parse(string(r.URL))
}

// play hands the request over.
func (r Req) play(t *ms.Transaction) error {
	if r.Skip&skipConn == 0 {
		ip := r.IP
		if ip == "" {
			ip = "10.1.2.3"
		}
		t.ProcessConnection(ip, "5555", "192.0.2.1", "80")
	}
	if r.Skip&skipURL == 0 {
		u, err := r.parsedURL()
		if err != nil {
			return err
		}
		t.ProcessRequestURL(u, r.Method, r.Proto)
	}
	if r.Skip&skipReqH == 0 {
		t.ProcessRequestHeader(r.header())
	}
	if r.Skip&skipBody == 0 {
		if err := appendSplit([]byte(r.Body), r.Split, t.AppendRequestBody); err != nil {
			return err
		}
		t.ProcessRequestBody()
	}
	if r.Skip&skipRespH == 0 {
		t.ProcessResponseHeaders(r.Code, r.RProto, header(r.RHdr))
	}
	if r.Skip&skipRBody == 0 {
		if err := appendSplit([]byte(r.RBody), r.Split, t.AppendResponseBody); err != nil {
			return err
		}
		t.ProcessResponseBody()
	}
	return nil
}

// ---------------------------------------------------------------------
// independent reading of a request

type pair struct{ k, v string }

func hexVal(c byte) int {
	return strings.IndexByte("0123456789abcdef", c|0x20*b2i(c >= 'A' && c <= 'F'))
}
func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// formDecode decodes + and percent escapes; false if an escape is malformed.
func formDecode(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			out = append(out, ' ')
		case '%':
			if i+2 >= len(s) || hexVal(s[i+1]) < 0 || hexVal(s[i+2]) < 0 {
				return "", false
			}
			out = append(out, byte(hexVal(s[i+1])*16+hexVal(s[i+2])))
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

// formPairs are the well-formed pairs of an URL encoded string.
func formPairs(s string) (res []pair, malformed bool) {
	for _, p := range strings.Split(s, "&") {
		if p == "" {
			continue
		}
		if strings.Contains(p, ";") {
			malformed = true
			continue
		}
		k, v := p, ""
		if i := strings.IndexByte(p, '='); i >= 0 {
			k, v = p[:i], p[i+1:]
		}
		dk, ok1 := formDecode(k)
		dv, ok2 := formDecode(v)
		if !ok1 || !ok2 {
			malformed = true
			continue
		}
		res = append(res, pair{dk, dv})
	}
	return
}

func cookiePairs(lines []string) []pair {
	var res []pair
	for _, l := range lines {
		for len(l) > 0 {
			part := l
			if i := strings.IndexByte(l, ';'); i >= 0 {
				part, l = l[:i], l[i+1:]
			} else {
				l = ""
			}
			part = strings.Trim(part, " \t\r\n\v\f")
			if part == "" {
				continue
			}
			i := 0
			for i < len(part) && part[i] != '=' {
				i++
			}
			if i == len(part) {
				res = append(res, pair{part, ""})
			} else {
				res = append(res, pair{part[:i], part[i+1:]})
			}
		}
	}
	return res
}

// rawParts cuts an URL text by hand.
func rawParts(raw string) (path, query string, hasQuery bool, frag string) {
	if i := strings.IndexByte(raw, '#'); i >= 0 {
		raw, frag = raw[:i], raw[i:]
	}
	if i := strings.Index(raw, "://"); i >= 0 && !strings.ContainsAny(raw[:i], "/?") {
		raw = raw[i+3:]
		j := strings.IndexAny(raw, "/?")
		if j < 0 {
			j = len(raw)
		}
		raw = raw[j:]
	}
	if i := strings.IndexByte(raw, '?'); i >= 0 {
		return raw[:i], raw[i+1:], true, frag
	}
	return raw, "", false, frag
}

func pctDecode(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && hexVal(s[i+1]) >= 0 && hexVal(s[i+2]) >= 0 {
			out = append(out, byte(hexVal(s[i+1])*16+hexVal(s[i+2])))
			i += 2
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

func lastSegment(path string) string {
	end := len(path)
	for end > 0 && (path[end-1] == '/' || path[end-1] == '\\') {
		end--
	}
	beg := end
	for beg > 0 && path[beg-1] != '/' && path[beg-1] != '\\' {
		beg--
	}
	if beg == end {
		return "/"
	}
	return path[beg:end]
}

func (r Req) bodyInspected() bool {
	return !r.NoReqB && (r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH") && r.Skip&skipURL == 0 && r.Skip&skipReqH == 0 && r.Skip&skipBody == 0 && r.Body != ""
}

func mediaType(ct string) string {
	if i := strings.IndexByte(ct, ';'); i >= 0 {
		ct = ct[:i]
	}
	return strings.ToLower(strings.Trim(ct, " \t"))
}

// collection gives the entries of a collection variable, in no particular
// order; multipart bodies are described by the form parameter.
func (r Req) collection(name string, form []pair) ([]pair, bool) {
	var query, body []pair
	if r.Skip&skipURL == 0 {
		_, q, _, _ := rawParts(string(r.URL))
		query, _ = formPairs(q)
	}
	if r.bodyInspected() {
		switch mt := mediaType(string(r.CT)); {
		case mt == "application/x-www-form-urlencoded":
			body, _ = formPairs(string(r.Body))
		case strings.HasPrefix(mt, "multipart/"):
			body = form
		}
	}
	hdr := func(kv [][2]core.B, ct core.B) []pair {
		var res []pair
		for _, p := range kv {
			res = append(res, pair{string(p[0]), string(p[1])})
		}
		if ct != "" {
			res = append(res, pair{"Content-Type", string(ct)})
		}
		return res
	}
	switch strings.TrimSuffix(name, "_NAMES") {
	case "ARGS":
		return append(append([]pair{}, query...), body...), true
	case "ARGS_GET":
		return query, true
	case "ARGS_POST":
		return body, true
	case "REQUEST_COOKIES":
		if r.Skip&skipReqH != 0 {
			return nil, true
		}
		var lines []string
		for _, p := range r.Hdr {
			if p[0] == "Cookie" {
				lines = append(lines, string(p[1]))
			}
		}
		return cookiePairs(lines), true
	case "REQUEST_HEADERS":
		if r.Skip&skipReqH != 0 {
			return nil, true
		}
		return hdr(r.Hdr, r.CT), true
	case "RESPONSE_HEADERS":
		if r.Skip&skipRespH != 0 {
			return nil, true
		}
		return hdr(r.RHdr, ""), true
	}
	return nil, false
}

func distinctNames(ps []pair) []string {
	seen := map[string]bool{}
	var res []string
	for _, p := range ps {
		if !seen[p.k] {
			seen[p.k] = true
			res = append(res, p.k)
		}
	}
	return res
}

// selected gives the values a collection variable yields for the entries for
// which keep holds. The merged ARGS variables are the query part plus the
// body part.
func (r Req) selected(name string, form []pair, keep func(string) bool) []string {
	var res []string
	parts := []string{name}
	if name == "ARGS" || name == "ARGS_NAMES" {
		s := strings.TrimPrefix(name, "ARGS")
		parts = []string{"ARGS_GET" + s, "ARGS_POST" + s}
	}
	for _, p := range parts {
		es, _ := r.collection(p, form)
		if strings.HasSuffix(p, "_NAMES") {
			for _, n := range distinctNames(es) {
				if keep(n) {
					res = append(res, n)
				}
			}
			continue
		}
		for _, e := range es {
			if keep(e.k) {
				res = append(res, e.v)
			}
		}
	}
	return res
}

var collections = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES",
	"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}
var scalars = []string{"QUERY_STRING", "REMOTE_ADDR", "REQUEST_BASENAME", "REQUEST_BODY", "REQUEST_FILENAME", "REQUEST_METHOD",
	"REQUEST_PROTOCOL", "REQUEST_URI", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE", "RESPONSE_PROTOCOL", "RESPONSE_STATUS"}

// scalar gives the value of a scalar variable; no value and an empty one are
// the same where the host has not supplied the part.
func (r Req) scalar(name string) ([]string, bool) {
	path, query, has, frag := rawParts(string(r.URL))
	url := r.Skip&skipURL == 0
	resp := r.Skip&skipRespH == 0
	one := func(ok bool, v string) ([]string, bool) {
		if !ok {
			return nil, false
		}
		return []string{v}, true
	}
	get := func(kv [][2]core.B, name string) string {
		for _, p := range kv {
			if string(p[0]) == name {
				return string(p[1])
			}
		}
		return ""
	}
	switch name {
	case "QUERY_STRING":
		return one(url, query)
	case "REMOTE_ADDR":
		ip := r.IP
		if ip == "" {
			ip = "10.1.2.3"
		}
		return one(r.Skip&skipConn == 0, ip)
	case "REQUEST_BASENAME":
		return one(url, lastSegment(pctDecode(path)))
	case "REQUEST_FILENAME":
		return one(url, pctDecode(path))
	case "REQUEST_METHOD":
		return one(url, r.Method)
	case "REQUEST_PROTOCOL":
		return one(url, r.Proto)
	case "REQUEST_URI":
		s := path
		if has {
			s += "?" + query
		}
		return one(url, s+frag)
	case "REQUEST_BODY":
		if !r.bodyInspected() || mediaType(string(r.CT)) != "application/x-www-form-urlencoded" {
			return nil, true
		}
		return []string{string(r.Body)}, true
	case "RESPONSE_BODY":
		if r.NoResB || r.RBody == "" || r.Skip&skipRBody != 0 {
			return nil, true
		}
		return []string{string(r.RBody)}, true
	case "RESPONSE_CONTENT_LENGTH":
		v := get(r.RHdr, "Content-Length")
		if v == "" {
			v = "0"
		}
		return one(resp, v)
	case "RESPONSE_CONTENT_TYPE":
		v := get(r.RHdr, "Content-Type")
		if v == "" {
			v = "application/octet-stream"
		}
		return one(resp, mediaType(v))
	case "RESPONSE_PROTOCOL":
		return one(resp, r.RProto)
	case "RESPONSE_STATUS":
		return one(resp, fmt.Sprint(r.Code))
	}
	panic(name)
}

// ---------------------------------------------------------------------

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func sameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = sorted(a), sorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// loadRules loads SecLang text into a new engine.
func loadRules(e *ms.Engine, text string) *core.Fail {
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		return core.Failf("valid rules were refused: %v\n%s", err, text)
	}
	if err := ds.Execute(e); err != nil {
		return core.Failf("valid rules were refused: %v\n%s", err, text)
	}
	return nil
}

// targetRule loads one rule of phase 5 with the given targets. It is not run:
// the caller reads its values.
func targetRule(e *ms.Engine, targets string) (*ms.SecRule, *core.Fail) {
	text := fmt.Sprintf("SecRule %s \"@rx ^no such value$\" \"id:1,phase:5,log\"\n", targets)
	if f := loadRules(e, text); f != nil {
		return nil, f
	}
	l := e.RuleSet.Phases[5]
	if len(l) == 0 {
		return nil, core.Failf("no rule in phase 5 after loading %q", text)
	}
	return l[len(l)-1], nil
}

func fetchAll(r *ms.SecRule, t *ms.Transaction) []string {
	return r.FetchAllTransformedVariables(t)
}

func quoteAll(s []string) string {
	var q []string
	for _, v := range sorted(s) {
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		q = append(q, fmt.Sprintf("%q", v))
		if len(q) > 20 {
			q = append(q, fmt.Sprintf("... (%d)", len(s)))
			break
		}
	}
	return "[" + strings.Join(q, " ") + "]"
}

var _ = utf8.RuneError
