package checks

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verifmc/core"
)

// ReaderCase is a text that arrives through a reader in pieces, the reading
// of which may fail.
type ReaderCase struct {
	Text  core.B `json:"text"`
	Piece int    `json:"piece"`          // bytes per Read
	Fail  int    `json:"fail"`           // fails after that many bytes; -1 never
	With  bool   `json:"with,omitempty"` // the last bytes come together with the error
	Empty int    `json:"empty,omitempty"`
	Err   string `json:"err,omitempty"`
	Once  bool   `json:"once,omitempty"` // the bytes after the failure would be given when asked again
}

// readFaults are what readers fail with.
var readFaultNames = []string{"unexpected", "closed", "pipe", "progress", "interrupted", "canceled", "deadline", "named EOF", "body", "short", "full"}
var readFaults = map[string]error{
	"unexpected":  io.ErrUnexpectedEOF,
	"closed":      &os.PathError{Op: "read", Path: "rules.conf", Err: os.ErrClosed},
	"pipe":        io.ErrClosedPipe,
	"progress":    io.ErrNoProgress,
	"interrupted": syscall.EINTR,
	"canceled":    context.Canceled,
	"deadline":    os.ErrDeadlineExceeded,
	"named EOF":   errors.New("EOF"),
	"body":        http.ErrBodyReadAfterClose,
	"short":       io.ErrShortBuffer,
	"full":        bufio.ErrBufferFull,
}

type pieceReader struct {
	c    ReaderCase
	at   int
	idle int
	err  error
	told bool
}

func (r *pieceReader) Read(p []byte) (int, error) {
	end := len(r.c.Text)
	var err error = io.EOF
	if r.c.Fail >= 0 && r.c.Fail <= end && !r.told {
		end, err = r.c.Fail, r.err
	}
	if r.at >= end {
		r.told = r.c.Once
		return 0, err
	}
	if r.idle < r.c.Empty { // nothing yet
		r.idle++
		return 0, nil
	}
	r.idle = 0
	n := r.c.Piece
	if n > len(p) {
		n = len(p)
	}
	if n > end-r.at {
		n = end - r.at
	}
	copy(p, string(r.c.Text[r.at:r.at+n]))
	r.at += n
	if r.at == end && r.c.With {
		r.told = r.c.Once
		return n, err
	}
	return n, nil
}

func dirsText(ds []parser.Directive) string {
	var b strings.Builder
	for _, d := range ds {
		j, _ := json.Marshal(d)
		fmt.Fprintf(&b, "%d %s\n", d.Token(), j)
	}
	return b.String()
}

func runReader(ctx *core.Ctx, c ReaderCase) *core.Fail {
	fault := errors.New("fault")
	if c.Err != "" {
		fault = readFaults[c.Err]
	}
	read := func(r io.Reader, whole bool) (string, int, error) {
		s := parser.NewSecLangScanner(r)
		if whole {
			ds, err := s.AllDirective()
			if err != nil && len(ds) > 0 {
				return "directives together with an error", 0, err
			}
			return dirsText(ds), s.LineNumber, err
		}
		var ds []parser.Directive
		for {
			d, err := s.ReadDirective()
			if err == parser.ErrEOS {
				return dirsText(ds), s.LineNumber, nil
			}
			if err != nil {
				return dirsText(ds), s.LineNumber, err
			}
			ds = append(ds, d)
		}
	}
	for _, whole := range []bool{true, false} {
		want, lines, werr := read(strings.NewReader(string(c.Text)), whole)
		got, glines, err := read(&pieceReader{c: c, err: fault}, whole)
		ctx.Trans(2)
		how := fmt.Sprintf("%.300q in pieces of %d, failing after %d (together with the last piece: %v, once: %v)", string(c.Text), c.Piece, c.Fail, c.With, c.Once)
		if c.Fail >= 0 && werr == nil {
			if err == nil {
				return core.Failf("%s: accepted, as %q", how, got)
			}
			if !strings.HasPrefix(want, got) && whole == false {
				return core.Failf("%s: directives %q, the text has %q", how, got, want)
			}
		}
		if c.Fail < 0 {
			if (err == nil) != (werr == nil) || got != want || glines != lines {
				return core.Failf("%s: %q (%v, line %d), in one piece %q (%v, line %d)", how, got, err, glines, want, werr, lines)
			}
		}
		ctx.State(how, whole, err != nil)
		ctx.Outcome(loadOutcome(err))
	}
	return nil
}

func init() {
	texts := []string{
		"SecRuleEngine On",
		"SecRuleEngine On\n",
		"SecRuleEngine \"Off\"\r\nSecRequestBodyAccess On \n\n",
		"SecRule ARGS x log\nSecRule ARGS y deny",
		"SecRule &ARGS:/^a/|!ARGS.b \"!@ge 3\" 'log,status:\"404\",msg:\"x, y\",chain'\n SecRule REMOTE_ADDR z skip:2\n",
		"SecRule ARGS \\\n  \"@rx a\\\\d\" \\\r\n \"id:1,\\\n  phase:2,deny\"\n  \x00\nSecResponseBodyAccess Off\n",
		"SecRule ARGS a \"log\\",
		"SecRule ARGS \\\nx \\\nlog\n",
		"SecRule ARGS a\nBogus",
		"", "\n", " \x00 ",
	}
	long := "SecRule ARGS \"@rx " + strings.Repeat("ab", 2100) + "\" \"id:1,log\"\nSecRule ARGS x \\\n  \"deny\"\n"
	core.Register("C14", "reader", "twelve texts (and one longer than the read buffer) through readers that give 1..5 and more bytes at a time, pause, and fail after every byte, for good or once, with twelve kinds of errors, alone or together with the last bytes: a text that could not be read to its end is refused, otherwise the pieces make no difference",
		func(ctx *core.Ctx, y func(ReaderCase)) {
			for _, t := range texts {
				for _, p := range []int{1, 2, 3, 5, 7, 64, 5000} {
					for _, e := range []int{0, 1, 20} {
						for _, with := range []bool{false, true} {
							for fail := -1; fail <= len(t); fail++ {
								y(ReaderCase{Text: core.B(t), Piece: p, Fail: fail, With: with, Empty: e})
								if fail >= 0 {
									y(ReaderCase{Text: core.B(t), Piece: p, Fail: fail, With: with, Empty: e, Once: true})
								}
								for k := range readFaultNames {
									if fail >= 0 && (p == 1 || p == 3 || p == 5000) && e == 0 {
										y(ReaderCase{Text: core.B(t), Piece: p, Fail: fail, With: with, Err: readFaultNames[k]})
									}
								}
							}
						}
					}
				}
			}
			for _, p := range []int{1, 4095, 4096, 4097, 10000} {
				for _, with := range []bool{false, true} {
					for fail := -1; fail <= len(long); fail += ctx.Pick(61, 7) {
						y(ReaderCase{Text: core.B(long), Piece: p, Fail: fail, With: with})
					}
					for fail := 4080; fail <= 4110; fail++ {
						y(ReaderCase{Text: core.B(long), Piece: p, Fail: fail, With: with})
					}
				}
			}
		}, runReader).WithBudget(1 << 24)
}
