package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"

	ms "github.com/senghoo/modsecurity-go/modsecurity"

	"verifmc/core"
)

// TwinCase interleaves operations on the bodies of two transactions that
// spool to one directory: a request body (0), its response body (1), and the
// bodies of the other (2, 3). a: append so many bytes; r: read so many; c:
// close; z: read all again from the beginning.
type TwinCase struct {
	Mem int64    `json:"mem"`
	Ops []string `json:"ops"`

	Same int `json:"same,omitempty"` // so many first bytes are the same in all four
}

func (c TwinCase) bytes(i, from, n int) []byte {
	p := pattern(i*13+from, n)
	for k := range p {
		if from+k < c.Same {
			p[k] = byte('a' + from + k)
		}
	}
	return p
}

func runTwin(ctx *core.Ctx, c TwinCase) *core.Fail {
	dir := ctx.Dir + "/twin"
	os.Mkdir(dir, 0700)
	defer cleanup(dir)
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = c.Mem, 50, 50
	var ts [2]*ms.Transaction
	for i := range ts {
		t, err := e.NewTransaction()
		if err != nil {
			return core.Failf("NewTransaction: %v", err)
		}
		ts[i] = t
		defer t.Request.Body.Close()
		defer t.Response.Body.Close()
	}
	type body interface {
		io.Reader
		io.Closer
		io.Seeker
		Len() int64
	}
	bodies := []body{ts[0].Request.Body, ts[0].Response.Body, ts[1].Request.Body, ts[1].Response.Body}
	adds := []func([]byte) error{ts[0].AppendRequestBody, ts[0].AppendResponseBody, ts[1].AppendRequestBody, ts[1].AppendResponseBody}
	var content [4][]byte
	var pos [4]int
	var reading, closed [4]bool
	readAll := func(i int, what string) *core.Fail {
		got, err := io.ReadAll(bodies[i])
		if err != nil || !bytes.Equal(got, content[i][pos[i]:]) {
			return core.Failf("%s: body %d: %s (%v)", what, i, diff(got, content[i][pos[i]:]), err)
		}
		reading[i], pos[i] = true, len(content[i])
		return nil
	}
	spilled := func(i int) bool { return i%2 == 0 && int64(len(content[i])) > c.Mem }
	want := func() (n int) {
		for i := range bodies {
			if spilled(i) && !closed[i] {
				n++
			}
		}
		return
	}
	for n, op := range append(append([]string{}, c.Ops...), "z0", "z1", "z2", "z3") {
		ctx.Trans(1)
		i, k := int(op[1]-'0'), 0
		if len(op) > 2 {
			k = int(op[2] - '0')
		}
		what := fmt.Sprintf("operation %d (%s)", n, op)
		if closed[i] {
			continue
		}
		switch op[0] {
		case 'a':
			p := c.bytes(i, len(content[i]), k)
			if err := adds[i](p); (err == nil) == reading[i] {
				return core.Failf("%s: error %v, reading began: %v", what, err, reading[i])
			} else if err == nil {
				content[i] = append(content[i], p...)
			}
		case 'r':
			p := make([]byte, k)
			m, err := io.ReadFull(bodies[i], p)
			reading[i] = true
			w := content[i][pos[i]:]
			if len(w) > k {
				w = w[:k]
			}
			if !bytes.Equal(p[:m], w) {
				return core.Failf("%s: body %d: %s (%v)", what, i, diff(p[:m], w), err)
			}
			pos[i] += m
		case 'z':
			if _, err := bodies[i].Seek(0, io.SeekStart); err != nil {
				return core.Failf("%s: %v", what, err)
			}
			pos[i] = 0
			if f := readAll(i, what); f != nil {
				return f
			}
		case 'c':
			if err := bodies[i].Close(); err != nil {
				return core.Failf("%s: %v", what, err)
			}
			closed[i] = spilled(i)
		}
		for j := range bodies {
			if bodies[j].Len() != int64(len(content[j])) {
				return core.Failf("%s: body %d has the length %d, want %d", what, j, bodies[j].Len(), len(content[j]))
			}
		}
		if g := files(dir); g != want() {
			return core.Failf("%s: %d files in the spool directory, want %d", what, g, want())
		}
	}
	ctx.State(c.Mem, content, pos, closed)
	ctx.Outcome(fmt.Sprint(want()))
	return nil
}

func init() {
	core.Register("C06", "several bodies", "every sequence of up to 5 (thorough 6) appends, reads and closings on the request and response bodies of two transactions that spool to one directory, memory limit 0, 1, 3, contents that begin with 0 or 3 (thorough: 0 to 3) equal bytes: each body reads back as its own bytes, closing one removes its file alone",
		func(ctx *core.Ctx, yield func(TwinCase)) {
			al := []string{"a01", "a03", "r02", "c0", "a21", "a22", "r21", "c2", "a12", "a33", "r12", "c3"}
			for _, mem := range []int64{0, 1, 3} {
				seqs(len(al), 2, ctx.Pick(5, 6), func(idx []int) {
					if al[idx[0]][0] != 'a' {
						return
					}
					for _, same := range []int{0, 1, 2, 3} {
						if same%3 == 0 || ctx.Thorough {
							yield(TwinCase{Mem: mem, Ops: pickS(al, idx), Same: same})
						}
					}
				})
			}
		}, runTwin)
}
