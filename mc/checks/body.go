package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	ms "github.com/senghoo/modsecurity-go/modsecurity"

	"verifmc/core"
)

// bodyBuf is what the transaction exposes of a body buffer.
type bodyBuf interface {
	io.Reader
	io.Writer
	io.WriterTo
	io.Seeker
	io.Closer
	String() (string, error)
	Bytes() ([]byte, error)
	Len() int64
}

// BufCase drives one body buffer.
type BufCase struct {
	Resp  bool     `json:"resp,omitempty"`
	Mem   int64    `json:"mem"`
	Total int64    `json:"total"`
	Ops   []string `json:"ops"`
}

// pattern is the content of a body: position dependent, so that lost,
// repeated or reordered pieces are visible.
func pattern(from, n int) []byte {
	p := make([]byte, n)
	for i := range p {
		k := from + i
		p[i] = byte('A' + (k*7+k/251)%53)
	}
	return p
}

func spoolDir(ctx *core.Ctx) string { return filepath.Join(ctx.Dir, "spool") }

func newBody(ctx *core.Ctx, resp bool, mem, total int64) (*ms.Transaction, bodyBuf, string, *core.Fail) {
	dir := spoolDir(ctx)
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyInMem, e.RequestBody = mem, total
	if resp {
		e.ResponseBody = total
	}
	t, err := e.NewTransaction()
	if err != nil {
		return nil, nil, dir, core.Failf("NewTransaction: %v", err)
	}
	if resp {
		return t, t.Response.Body, dir, nil
	}
	return t, t.Request.Body, dir, nil
}

func files(dir string) int {
	d, _ := os.ReadDir(dir)
	return len(d)
}

func cleanup(dir string) {
	d, _ := os.ReadDir(dir)
	for _, f := range d {
		os.Remove(filepath.Join(dir, f.Name()))
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %s, want %s, first difference at %d", short(got), short(want), i)
}

func runBuf(ctx *core.Ctx, c BufCase) *core.Fail {
	t, b, dir, f := newBody(ctx, c.Resp, c.Mem, c.Total)
	if f != nil {
		return f
	}
	mem := c.Mem
	if c.Resp {
		mem = c.Total
	}
	if mem < 0 {
		mem = 0 // nothing fits
	}
	spilled := false
	defer func() {
		if spilled {
			b.Close()
			cleanup(dir)
		}
	}()
	var content []byte
	reading, closed := false, false
	pos := 0
	cid := core.Hash(c.Mem, c.Total, c.Resp)
	for n, op := range c.Ops {
		ctx.Trans(1)
		fail := func(f string, a ...interface{}) *core.Fail {
			return core.Failf("operation %d (%s): %s", n, op, fmt.Sprintf(f, a...))
		}
		arg := 0
		if len(op) > 1 {
			arg, _ = strconv.Atoi(op[1:])
		}
		if closed && spilled && op[0] != 'C' {
			continue // a removed body is not read any more
		}
		switch op[0] {
		case 'w', 'a':
			p := pattern(len(content), arg)
			q := append([]byte{}, p...)
			var err error
			wn := arg
			if op[0] == 'w' {
				wn, err = b.Write(p)
			} else if c.Resp {
				err = t.AppendResponseBody(p)
			} else {
				err = t.AppendRequestBody(p)
			}
			if !bytes.Equal(p, q) {
				return fail("the append changed the caller's bytes")
			}
			for i := range p {
				p[i] = '#' // the caller reuses its memory
			}
			switch {
			case reading || int64(len(content)+arg) > c.Total:
				if err == nil {
					return fail("accepted, although reading began or the limit %d is exceeded", c.Total)
				}
				if op[0] == 'w' && wn != 0 {
					return fail("refused, but reports %d bytes written", wn)
				}
			case err != nil:
				return fail("refused: %v", err)
			case wn != arg:
				return fail("wrote %d of %d bytes", wn, arg)
			default:
				content = append(content, q...)
				spilled = spilled || int64(len(content)) > mem
			}
		case 'r':
			reading = true
			p := make([]byte, arg)
			k, err := b.Read(p)
			if k < 0 || k > arg || k > len(content)-pos {
				return fail("read %d bytes at %d of %d", k, pos, len(content))
			}
			if !bytes.Equal(p[:k], content[pos:pos+k]) {
				return fail("%s", diff(p[:k], content[pos:pos+k]))
			}
			pos += k
			if err != nil && err != io.EOF {
				return fail("%v", err)
			}
			if err == io.EOF && pos < len(content) {
				return fail("end of body reported at %d of %d", pos, len(content))
			}
			if k == 0 && arg > 0 && err == nil {
				return fail("read nothing, without an error")
			}
		case 'T':
			reading = true
			var w bytes.Buffer
			k, err := b.WriteTo(&w)
			if err != nil {
				return fail("%v", err)
			}
			if !bytes.Equal(w.Bytes(), content[pos:]) || k != int64(len(content)-pos) {
				return fail("reports %d bytes: %s", k, diff(w.Bytes(), content[pos:]))
			}
			pos = len(content)
		case 'S', 'B':
			reading = true
			var s string
			var err error
			if op[0] == 'S' {
				s, err = b.String()
			} else {
				var p []byte
				p, err = b.Bytes()
				s = string(p)
			}
			if spilled {
				if err == nil {
					return fail("%d bytes reported complete, %d of %d are only on disk", len(s), int64(len(content))-mem, len(content))
				}
			} else {
				if err != nil {
					return fail("%v", err)
				}
				if s != string(content) {
					return fail("%s", diff([]byte(s), content))
				}
			}
		case 'k':
			reading = true
			var want int
			var got int64
			var err error
			switch arg {
			case 0, 1, 2:
				want = arg
				got, err = b.Seek(int64(arg), io.SeekStart)
			case 3:
				want = pos
				got, err = b.Seek(0, io.SeekCurrent)
			case 4:
				want = len(content)
				got, err = b.Seek(0, io.SeekEnd)
			case 5:
				want = len(content) - 1
				got, err = b.Seek(-1, io.SeekEnd)
			}
			if want < 0 {
				if err == nil {
					return fail("seek before the beginning accepted")
				}
				break
			}
			if err != nil || got != int64(want) {
				return fail("at %d (%v), want %d", got, err, want)
			}
			pos = want
			if pos > len(content) {
				// reading beyond the end is not part of the property
				b.Seek(int64(len(content)), io.SeekStart)
				pos = len(content)
			}
		case 'C':
			err := b.Close()
			if !closed && err != nil {
				return fail("%v", err)
			}
			if n := files(dir); spilled && n != 0 {
				return fail("%d files left after closing", n)
			}
			closed = true
		}
		if b.Len() != int64(len(content)) {
			return fail("length %d, want %d", b.Len(), len(content))
		}
		ctx.State(cid, len(content), pos, reading, closed, spilled)
	}
	ctx.Outcome(fmt.Sprint(len(content), pos, reading, spilled, closed))
	if !closed && spilled {
		if err := b.Close(); err != nil {
			return core.Failf("closing: %v", err)
		}
		if n := files(dir); n != 0 {
			return core.Failf("%d files left after closing", n)
		}
	}
	return nil
}

// ---------------------------------------------------------------------
// faults

// FaultCase appends pieces while storage is broken from before piece From
// until before piece To.
type FaultCase struct {
	Mem    int64  `json:"mem"`
	Total  int64  `json:"total"`
	Pieces []int  `json:"pieces"`
	Fault  string `json:"fault"` // fsize, nodir, nofile
	Bytes  int    `json:"bytes"` // fsize: the file can grow to that size
	From   int    `json:"from"`
	To     int    `json:"to"`
	Read   string `json:"read"`
}

func init() { signal.Ignore(syscall.SIGXFSZ) }

func withLimit(res int, cur uint64, f func()) error {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(res, &old); err != nil {
		return err
	}
	l := old
	l.Cur = cur
	if err := syscall.Setrlimit(res, &l); err != nil {
		return err
	}
	defer syscall.Setrlimit(res, &old)
	f()
	return nil
}

const rlimitNofile = 7

func openFds() uint64 {
	f, err := os.Open("/dev/null")
	if err != nil {
		return 3
	}
	defer f.Close()
	return uint64(f.Fd())
}

func runFault(ctx *core.Ctx, c FaultCase) *core.Fail {
	dir := spoolDir(ctx)
	os.RemoveAll(dir + ".gone")
	os.MkdirAll(dir, 0700)
	defer func() { os.MkdirAll(dir, 0700); cleanup(dir) }()
	_, b, _, f := newBody(ctx, false, c.Mem, c.Total)
	if f != nil {
		return f
	}
	defer b.Close()
	var content []byte
	fid := core.Hash(c.Fault, c.Bytes, c.Mem)
	errs := 0
	for i, n := range c.Pieces {
		ctx.Trans(1)
		p := pattern(len(content)+i*3, n)
		q := append([]byte{}, p...)
		before := b.Len()
		if before != int64(len(content)) {
			return core.Failf("piece %d: length %d, want %d", i, before, len(content))
		}
		var wn int
		var err error
		do := func() { wn, err = b.Write(p) }
		broken := i >= c.From && i < c.To
		switch {
		case broken && c.Fault == "fsize":
			if e := withLimit(syscall.RLIMIT_FSIZE, uint64(c.Bytes), do); e != nil {
				panic(e)
			}
		case broken && c.Fault == "nofile":
			if e := withLimit(rlimitNofile, openFds(), do); e != nil {
				panic(e)
			}
		case broken && c.Fault == "nodir":
			os.Rename(dir, dir+".gone")
			do()
			// the directory comes back; what the code may have put in a new one stays in it
			if made, err := os.ReadDir(dir); err == nil {
				for _, m := range made {
					os.Rename(filepath.Join(dir, m.Name()), filepath.Join(dir+".gone", m.Name()))
				}
				os.RemoveAll(dir)
			}
			os.Rename(dir+".gone", dir)
		default:
			do()
		}
		for k := range p {
			p[k] = '#'
		}
		if err == nil {
			if wn != n {
				return core.Failf("piece %d: wrote %d of %d bytes without an error", i, wn, n)
			}
			content = append(content, q...)
			if int64(len(content)) > c.Total {
				return core.Failf("piece %d: accepted beyond the limit", i)
			}
		} else {
			errs++
			k := b.Len() - before
			if k < 0 || k > int64(n) {
				return core.Failf("piece %d: the failed append changed the length by %d", i, k)
			}
			if !broken && int64(len(content)+n) <= c.Total {
				return core.Failf("piece %d: refused although nothing is broken: %v", i, err)
			}
			if int64(wn) != k {
				return core.Failf("piece %d: reports %d bytes written, but the length changed by %d", i, wn, k)
			}
			content = append(content, q[:k]...)
		}
		ctx.State(fid, len(content), broken, err != nil)
	}
	if b.Len() != int64(len(content)) {
		return core.Failf("length %d, want %d", b.Len(), len(content))
	}
	ctx.Outcome(fmt.Sprint(len(content), errs, c.Fault))
	var got []byte
	var err error
	switch c.Read {
	case "string":
		var s string
		s, err = b.String()
		if err != nil {
			err = nil
			got, err = io.ReadAll(b)
			break
		}
		got = []byte(s)
	case "read":
		got, err = io.ReadAll(b)
	case "writeto":
		var w bytes.Buffer
		_, err = b.WriteTo(&w)
		got = w.Bytes()
	}
	if err != nil {
		return core.Failf("reading: %v", err)
	}
	if !bytes.Equal(got, content) {
		return core.Failf("reading back: %s", diff(got, content))
	}
	if err := b.Close(); err != nil && errs == 0 {
		return core.Failf("closing: %v", err)
	}
	if n := files(dir); n != 0 {
		return core.Failf("%d files left after closing", n)
	}
	return nil
}

// DirCase: the spool directory cannot be used when the transaction starts.
type DirCase struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
}

func runDir(ctx *core.Ctx, c DirCase) *core.Fail {
	base := filepath.Join(ctx.Dir, "dircase")
	os.RemoveAll(base)
	os.MkdirAll(base, 0700)
	defer os.RemoveAll(base)
	os.WriteFile(filepath.Join(base, "file"), []byte("x"), 0600)
	e := ms.NewEngine()
	e.TmpPath = filepath.Join(base, c.Path)
	e.RequestBodyInMem = 2
	t, err := e.NewTransaction()
	ctx.Trans(1)
	ctx.State(c.Path, c.Kind, err != nil)
	ctx.Outcome(fmt.Sprint(err != nil))
	switch c.Kind {
	case "creatable":
		if err != nil {
			return core.Failf("NewTransaction with %s: %v", c.Path, err)
		}
		if err := t.AppendRequestBody([]byte("abcd")); err != nil {
			return core.Failf("append: %v", err)
		}
		got, err := io.ReadAll(t.Request.Body)
		if err != nil || string(got) != "abcd" {
			return core.Failf("got %q, %v", got, err)
		}
		return nil
	default: // not a directory: either reported now, or by the append that spills
		if err != nil {
			return nil
		}
		if err := t.AppendRequestBody([]byte("ab")); err != nil {
			return core.Failf("append within memory: %v", err)
		}
		if err := t.AppendRequestBody([]byte("cd")); err == nil {
			return core.Failf("append acknowledged, although no file can be created in %s", c.Path)
		}
		if t.Request.Body.Len() != 2 {
			return core.Failf("length %d, want 2", t.Request.Body.Len())
		}
		if s, err := t.Request.Body.String(); err == nil && s != "ab" {
			return core.Failf("reading back %q, want %q", s, "ab")
		}
		return nil
	}
}

// composition n: the k'th way to cut n bytes into consecutive pieces.
func composition(n, k int) []int {
	var res []int
	piece := 0
	for i := 0; i < n; i++ {
		piece++
		if k>>uint(i)&1 == 1 || i == n-1 {
			res = append(res, piece)
			piece = 0
		}
	}
	return res
}

func init() {
	ops := []string{"w0", "w1", "w2", "w3", "r1", "r2", "S", "T", "k0", "k5", "C"}
	core.Register("C06", "operation-sequences",
		"all sequences of up to 4 (thorough 5) buffer operations out of "+strings.Join(ops, ",")+" for memory limits 0..4 and total limits 0..6, and negative ones, request and response body",
		func(c *core.Ctx, y func(BufCase)) {
			seqs(len(ops), 1, c.Pick(4, 5), func(s []int) {
				o := pickS(ops, s)
				for mem := int64(0); mem <= 4; mem++ {
					for total := int64(0); total <= 6; total++ {
						if len(s) >= 4 && (total == 0 || total == 5 || mem > total) {
							continue
						}
						y(BufCase{Mem: mem, Total: total, Ops: o})
					}
				}
				for total := int64(0); total <= 4; total++ {
					y(BufCase{Resp: true, Total: total, Ops: o})
				}
				if len(s) <= c.Pick(3, 4) {
					for _, neg := range []int64{-1, -3, -1 << 63} {
						y(BufCase{Resp: true, Total: neg, Ops: o})
						y(BufCase{Mem: 2, Total: neg, Ops: o})
						y(BufCase{Mem: neg, Total: 5, Ops: o})
						y(BufCase{Mem: neg, Total: neg, Ops: o})
					}
				}
			})
		}, runBuf)
	core.Register("C06", "fill-then-read",
		"all sequences of 5 and 6 operations: appends of 0..3 bytes followed by reads, seeks and WriteTo, for memory limits 0..4, total 6 and 20",
		func(c *core.Ctx, y func(BufCase)) {
			rd := []string{"r1", "r3", "S", "B", "T", "k0", "k1", "k3", "k4", "k5", "a1"}
			for mem := int64(0); mem <= 4; mem++ {
				for _, total := range []int64{6, 20} {
					seqs(4, 2, c.Pick(3, 4), func(w []int) {
						seqs(len(rd), 3, 3, func(r []int) {
							y(BufCase{Mem: mem, Total: total, Ops: append(pickS([]string{"w0", "a1", "w2", "a3"}, w), pickS(rd, r)...)})
						})
					})
				}
			}
		}, runBuf)
	core.Register("C06", "splits",
		"every way to cut a body of 0..9 bytes (thorough 11) into appends, memory limit 0..n+1, read back with buffers of 1..4 bytes or WriteTo",
		func(c *core.Ctx, y func(BufCase)) {
			for n := 1; n <= c.Pick(9, 11); n++ {
				for k := 0; k < 1<<uint(n-1); k++ {
					var w []string
					for _, p := range composition(n, k) {
						w = append(w, fmt.Sprintf("a%d", p))
					}
					for mem := 0; mem <= n+1; mem++ {
						for r := 0; r <= 4; r++ {
							o := append([]string{}, w...)
							for i := 0; r > 0 && i <= n; i += r {
								o = append(o, fmt.Sprintf("r%d", r))
							}
							if r == 0 {
								o = append(o, "T")
							}
							y(BufCase{Mem: int64(mem), Total: int64(n), Ops: o})
						}
					}
				}
			}
		}, runBuf)
	core.Register("C06", "sizes",
		"all pairs and triples of appends with sizes around 512, 4096, 32768, 65536 and the limits (131072 in memory; 524228 response), read back whole, by 4096 and by 32768",
		func(c *core.Ctx, y func(BufCase)) {
			sizes := []int{1, 511, 4095, 4096, 4097, 32767, 32768, 32769, 65537, 131071, 131072, 131073}
			sizes = sizes[:]
			seqs(len(sizes), 1, 2, func(s []int) {
				for _, mem := range []int64{4096, 32768, 131072} {
					var o []string
					sum := 0
					for _, i := range s {
						o = append(o, fmt.Sprintf("a%d", sizes[i]))
						sum += sizes[i]
					}
					for _, total := range []int64{int64(sum), int64(sum) - 1} {
						y(BufCase{Mem: mem, Total: total, Ops: append(append([]string{}, o...), "T", "k0", "r32768", "T", "S")})
						y(BufCase{Mem: mem, Total: total, Ops: append(append([]string{}, o...), "a1", "B", "r4096", "r1", "r131072", "k0", "T")})
					}
				}
			})
			def := int64(524228)
			for _, o := range [][]string{{"a524227", "a1", "S"}, {"a524228", "a1", "S", "T"}, {"a524229", "a1", "B"}, {"a524227", "a2", "a1", "T"}} {
				y(BufCase{Resp: true, Total: def, Ops: o})
			}
			for _, o := range [][]string{{"a131072", "S", "T"}, {"a131073", "S", "T"}, {"a131072", "a1", "B", "T"}, {"a131071", "a1", "T"}, {"a134217728", "a1", "T"}, {"a134217727", "a2", "a1", "r1"}} {
				y(BufCase{Mem: 131072, Total: 134217728, Ops: o})
			}
		}, runBuf).WithBudget(1 << 40)

	core.Register("C17", "write-limit",
		"bodies of up to 4 appends of 0..3 bytes (thorough 5), memory limit 0..3; during every window of appends the file can only grow to F bytes, for every F; then read back in three ways",
		func(c *core.Ctx, y func(FaultCase)) {
			seqs(4, 1, c.Pick(4, 5), func(s []int) {
				sum := 0
				for _, n := range s {
					sum += n
				}
				p := append([]int{}, s...)
				for mem := 0; mem <= 3 && mem < sum; mem++ {
					for from := 0; from < len(s); from++ {
						for to := from + 1; to <= len(s); to++ {
							if to-from > 2 && to != len(s) {
								continue
							}
							for F := 0; F <= sum; F++ {
								rd := []string{"read", "string", "writeto"}
								if len(s) >= 4 {
									rd = rd[(F+from)%3 : (F+from)%3+1]
								}
								for _, r := range rd {
									y(FaultCase{Mem: int64(mem), Total: 100, Pieces: p, Fault: "fsize", Bytes: F, From: from, To: to, Read: r})
								}
							}
						}
					}
				}
			})
		}, runFault)
	core.Register("C17", "creation",
		"the same bodies while the spool directory is missing, or no file descriptor is free, during every window of appends; total limits that refuse some of them",
		func(c *core.Ctx, y func(FaultCase)) {
			seqs(4, 1, c.Pick(4, 5), func(s []int) {
				sum := 0
				for _, n := range s {
					sum += n
				}
				p := append([]int{}, s...)
				for mem := 0; mem <= 3 && mem < sum; mem++ {
					for from := 0; from < len(s); from++ {
						for to := from + 1; to <= len(s); to++ {
							for _, kind := range []string{"nodir", "nofile"} {
								for _, total := range []int64{100, int64(sum) - 1} {
									for _, r := range []string{"read", "string", "writeto"} {
										y(FaultCase{Mem: int64(mem), Total: total, Pieces: p, Fault: kind, From: from, To: to, Read: r})
									}
								}
							}
						}
					}
				}
			})
		}, runFault)
	core.Register("C17", "large-writes",
		"appends of 1, 4095..4097, 32768 and 70000 bytes, memory limit 0, 4096, 65536; the file can grow to each of a list of sizes around the piece ends",
		func(c *core.Ctx, y func(FaultCase)) {
			sizes := []int{1, 4095, 4096, 4097, 32768, 70000}
			seqs(len(sizes), 1, c.Pick(2, 3), func(s []int) {
				var p []int
				sum := 0
				cuts := map[int]bool{0: true, 4096: true}
				for _, i := range s {
					p = append(p, sizes[i])
					sum += sizes[i]
					cuts[sum-1], cuts[sum], cuts[sum/2] = true, true, true
				}
				for _, mem := range []int64{0, 4096, 65536} {
					for F := 0; F <= sum; F++ {
						if !cuts[F] {
							continue
						}
						for from := 0; from < len(p); from++ {
							y(FaultCase{Mem: mem, Total: 1 << 30, Pieces: append(p, 3), Fault: "fsize", Bytes: F, From: from, To: from + 1, Read: "read"})
							y(FaultCase{Mem: mem, Total: 1 << 30, Pieces: append(p, 3), Fault: "fsize", Bytes: F, From: from, To: len(p), Read: "writeto"})
						}
					}
				}
			})
		}, runFault).WithBudget(1 << 40)
	core.Register("C17", "spool-directory",
		"spool directories that exist, must be created (one and three levels), are a file, or lie below a file",
		func(c *core.Ctx, y func(DirCase)) {
			y(DirCase{".", "creatable"})
			y(DirCase{"new", "creatable"})
			y(DirCase{"a/b/c", "creatable"})
			y(DirCase{"file", "unusable"})
			y(DirCase{"file/below", "unusable"})
			y(DirCase{"file/below/deep", "unusable"})
		}, runDir)
	_ = errors.New
}
