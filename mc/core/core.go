// Package core enumerates the cases of a property, executes every one on the
// real code next to its reference model, and reports what was covered.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifmc/mcsched"
)

// Fail is a disagreement between the code and the property.
type Fail struct {
	Msg     string
	Key     string      // names the failing input for the known-findings file
	Refined interface{} // a more specific case to replay (same type as the case)
}

// Failf makes a Fail.
func Failf(f string, a ...interface{}) *Fail { return &Fail{Msg: fmt.Sprintf(f, a...)} }

// B is a byte string that survives JSON.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	*b = B(u)
	return err
}

// Ctx is handed to generators and executors.
type Ctx struct {
	Thorough bool
	Seed     int64
	Dir      string // scratch directory of this worker
	Budget   uint64 // statements one case may execute
	deadline time.Time
	states   map[uint64]struct{}
	capped   bool
	cut      bool
	over     bool
	trans    int64
	traces   int64
	extra    map[string]int64
	outcomes map[string]int64
	scnHash  uint64
}

const maxStates = 6 << 20

// Hash is a 64 bit fingerprint of the parts.
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			h.Write([]byte(p))
		case B:
			h.Write([]byte(p))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(p))
			h.Write(b[:])
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], p)
			h.Write(b[:])
		case bool:
			if p {
				h.Write([]byte{1})
			} else {
				h.Write([]byte{0})
			}
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// State counts a state of the product of model and code, once.
func (c *Ctx) State(parts ...interface{}) {
	h := Hash(parts...) ^ c.scnHash
	if len(c.states) >= maxStates {
		c.capped = true
		return
	}
	c.states[h] = struct{}{}
}

// Trans counts n steps taken on the real code.
func (c *Ctx) Trans(n int) { c.trans += int64(n) }

// Traces counts n further complete traces compared with the model.
func (c *Ctx) Traces(n int) { c.traces += int64(n) }

// Count adds to a named measure of the evidence.
func (c *Ctx) Count(name string, n int) { c.extra[name] += int64(n) }

// Outcome counts distinct observed outcomes.
func (c *Ctx) Outcome(s string) {
	if _, ok := c.outcomes[s]; ok || len(c.outcomes) < 20000 {
		c.outcomes[s]++
	}
}

// Expired tells that the internal deadline has passed.
func (c *Ctx) Expired() bool { return c.over || time.Now().After(c.deadline) }

// Abandon ends the exploration of this worker: its process can not be used
// any further. Nothing is reported for it, but it was not exhaustive.
func (c *Ctx) Abandon(why string) {
	if !c.over {
		fmt.Fprintln(os.Stderr, "note: a worker gave up:", why)
	}
	c.over, c.cut = true, true
}

// Cut is Expired for an executor: the case was not explored completely.
func (c *Ctx) Cut() bool {
	c.cut = c.cut || c.Expired()
	return c.cut
}

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

type scenario struct {
	prop, name, rule string
	gen              func(*Ctx, func(interface{}) bool)
	exec             func(*Ctx, interface{}) *Fail
	decode           func([]byte) (interface{}, error)
	budget           uint64
	most             uint64
	race             bool
}

var scenarios = map[string][]*scenario{}

// Register adds a scenario to a property. gen yields every case, in a fixed
// order, simplest first; exec runs one case on the real code and judges it.
func Register[C any](prop, name, rule string, gen func(*Ctx, func(C)), exec func(*Ctx, C) *Fail) *scenario {
	s := &scenario{prop: prop, name: name, rule: rule, budget: 1 << 24}
	s.gen = func(c *Ctx, y func(interface{}) bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		gen(c, func(k C) {
			if !y(k) {
				panic(stop{})
			}
		})
	}
	s.exec = func(c *Ctx, k interface{}) *Fail { return exec(c, k.(C)) }
	s.decode = func(d []byte) (interface{}, error) {
		var k C
		err := json.Unmarshal(d, &k)
		return k, err
	}
	scenarios[prop] = append(scenarios[prop], s)
	return s
}

// WithBudget sets the number of statements a case may take.
func (s *scenario) WithBudget(b uint64) *scenario { s.budget = b; return s }

// UnderRace has the scenario executed by the build with the race detector.
func (s *scenario) UnderRace() *scenario { s.race = true; return s }

func (s *scenario) exe() string {
	if b := os.Getenv("VERIF_RACE_BIN"); s.race && b != "" {
		return b
	}
	return os.Args[0]
}

// mine tells whether this build executes the scenario.
func (s *scenario) mine() bool {
	return os.Getenv("VERIF_RACE_BIN") == "" || s.race == mcsched.Race
}

type stop struct{}

// ---------------------------------------------------------------------

type failRec struct {
	Scenario int             `json:"scenario"`
	Index    int             `json:"index"`
	Case     json.RawMessage `json:"case"`
	Msg      string          `json:"msg"`
	Key      string          `json:"key,omitempty"`
	Stable   bool            `json:"stable"`
}

type scnRes struct {
	Cases int    `json:"cases"`
	Cut   bool   `json:"cut"`
	Steps uint64 `json:"steps"` // most statements one case executed
}

type workerRes struct {
	Fails    []failRec         `json:"fails"`
	Scn      []scnRes          `json:"scn"`
	Samples  []json.RawMessage `json:"samples"`
	Trans    int64             `json:"trans"`
	Traces   int64             `json:"traces"`
	Extra    map[string]int64  `json:"extra"`
	Outcomes map[string]int64  `json:"outcomes"`
	Capped   bool              `json:"capped"`
	Cov      []int             `json:"cov"`
	Steps    uint64            `json:"steps"`
}

func newCtx(dir string, deadline time.Time) *Ctx {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &Ctx{
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		Seed:     seed, Dir: dir, deadline: deadline,
		states: map[uint64]struct{}{}, extra: map[string]int64{}, outcomes: map[string]int64{},
	}
}

// run executes one case with a step budget and turns panics into failures.
func run(c *Ctx, s *scenario, k interface{}) (f *Fail) {
	mcsched.Begin(s.budget)
	mcsched.Order = nil
	defer func() {
		if n := mcsched.End(); n > s.most {
			s.most = n
		}
		mcsched.Order = nil
		if r := recover(); r != nil {
			f = &Fail{Msg: fmt.Sprintf("panic: %v at %s", r, where(debug.Stack()))}
		}
	}()
	return s.exec(c, k)
}

// where extracts the innermost frames in the code under test.
func where(stack []byte) string {
	var res []string
	for _, l := range strings.Split(string(stack), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 {
			res = append(res, strings.SplitN(l[i:], " ", 2)[0])
		}
	}
	if len(res) > 4 {
		res = res[:4]
	}
	return strings.Join(res, " < ")
}

func mustJSON(v interface{}) json.RawMessage {
	d, err := json.Marshal(v)
	if err != nil {
		d, _ = json.Marshal(err.Error())
	}
	return d
}

// work runs shard i of n. only: run only that case (global index) of that
// scenario. until: stop after that case.
func work(prop string, i, n int, dir, resFile string, onlyScn, onlyIdx, untilScn, untilIdx int, deadline time.Time) {
	debug.SetMaxStack(2 << 30)
	c := newCtx(dir, deadline)
	known := loadKnown()
	progress := mapProgress(resFile + ".progress")
	res := workerRes{}
	total := 0
	for si, s := range scenarios[prop] {
		sr := scnRes{}
		c.scnHash = Hash(s.name)
		if c.over || !s.mine() || onlyScn >= 0 && onlyScn != si || untilScn >= 0 && si > untilScn {
			res.Scn = append(res.Scn, sr)
			continue
		}
		idx := -1
		unstable := 0
		done := false
		s.gen(c, func(k interface{}) bool {
			idx++
			if onlyIdx >= 0 {
				if idx < onlyIdx {
					return true
				}
				if idx > onlyIdx {
					return false
				}
			} else if idx%n != i {
				return true
			}
			if untilScn == si && idx > untilIdx {
				return false
			}
			if c.over || total&63 == 0 && c.Expired() {
				sr.Cut = true
				return false
			}
			progress[0], progress[1] = uint64(si), uint64(idx)
			sr.Cases++
			total++
			f := run(c, s, k)
			c.traces++
			sr.Cut = sr.Cut || c.cut
			if c := sr.Cases; c == 1 || c == 100 {
				if len(res.Samples) < 12 {
					res.Samples = append(res.Samples, mustJSON(map[string]interface{}{"scenario": s.name, "case": k}))
				}
			}
			if f == nil {
				return true
			}
			rec := failRec{Scenario: si, Index: idx, Case: mustJSON(k), Msg: f.Msg, Key: f.Key, Stable: true}
			if f.Refined != nil {
				rec.Case = mustJSON(f.Refined)
				k = f.Refined
			}
			for j := 0; j < 5 && rec.Stable && !c.over; j++ {
				g := run(c, s, k)
				rec.Stable = g != nil
			}
			if !rec.Stable {
				if unstable++; unstable > 3 {
					return true
				}
			}
			isKnown := rec.Key != "" && known[prop+" "+rec.Key] != ""
			if isKnown {
				for _, r := range res.Fails {
					if r.Key == rec.Key {
						return true
					}
				}
			}
			res.Fails = append(res.Fails, rec)
			if rec.Stable && !isKnown {
				done = true
				return false
			}
			return true
		})
		sr.Steps = s.most
		res.Scn = append(res.Scn, sr)
		if done {
			break
		}
	}
	res.Trans, res.Traces, res.Extra, res.Outcomes, res.Capped = c.trans, c.traces, c.extra, c.outcomes, c.capped
	for id, hit := range mcsched.Cov {
		if hit {
			res.Cov = append(res.Cov, id)
		}
	}
	buf := make([]byte, 0, 8*len(c.states))
	for h := range c.states {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	os.WriteFile(resFile+".states", buf, 0600)
	d, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.WriteFile(resFile+".tmp", d, 0600)
	os.Rename(resFile+".tmp", resFile)
}

func mapProgress(name string) []uint64 {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err == nil {
		f.Truncate(4096)
		var b []byte
		b, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		f.Close()
		if err == nil {
			return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), 2)
		}
	}
	return make([]uint64, 2)
}

// ---------------------------------------------------------------------
// parent

// Root is /verif, or wherever the framework was built from.
var Root = func() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}()

func loadKnown() map[string]string {
	res := map[string]string{}
	d, err := os.ReadFile(filepath.Join(Root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(d), "\n") {
		// finding: property=C13 key=phase-1 what fails
		p := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(p) == 4 && p[0] == "finding:" && strings.HasPrefix(p[1], "property=") && strings.HasPrefix(p[2], "key=") {
			res[p[1][9:]+" "+p[2][4:]] = p[3]
		}
	}
	return res
}

type job struct {
	cmd     *exec.Cmd
	resFile string
	dir     string
	done    chan error
}

func start(exe, prop, tmp, tag string, i, n, onlyScn, onlyIdx, untilScn, untilIdx int, deadline time.Time) *job {
	j := &job{resFile: filepath.Join(tmp, tag+".res"), dir: filepath.Join(tmp, tag), done: make(chan error, 1)}
	os.MkdirAll(j.dir, 0700)
	os.Remove(j.resFile)
	j.cmd = exec.Command(exe, "worker", prop, fmt.Sprint(i), fmt.Sprint(n), j.dir, j.resFile,
		fmt.Sprint(onlyScn), fmt.Sprint(onlyIdx), fmt.Sprint(untilScn), fmt.Sprint(untilIdx), fmt.Sprint(deadline.UnixNano()))
	errf, _ := os.Create(j.resFile + ".stderr")
	j.cmd.Stderr = errf
	j.cmd.Env = append(os.Environ(), "TMPDIR="+j.dir, "GOMAXPROCS=2")
	j.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := j.cmd.Start(); err != nil {
		j.done <- err
		return j
	}
	go func() { j.done <- j.cmd.Wait(); errf.Close() }()
	return j
}

// wait returns the result, or nil and the position where the worker died.
func (j *job) wait() (*workerRes, int, int, string) {
	var last [2]uint64
	same := 0
	for {
		select {
		case <-j.done:
			d, err := os.ReadFile(j.resFile)
			if err == nil {
				r := new(workerRes)
				if json.Unmarshal(d, r) == nil {
					return r, 0, 0, ""
				}
			}
			p := readProgress(j.resFile)
			e, _ := os.ReadFile(j.resFile + ".stderr")
			if len(e) > 600 {
				e = e[:600]
			}
			return nil, int(p[0]), int(p[1]), "process died: " + string(e)
		case <-time.After(time.Second):
			// Only a case that blocks outside of the code under test gets
			// here: loops in it run into the step budget.
			if p := readProgress(j.resFile); p == last {
				if same++; same >= 240 {
					j.cmd.Process.Kill()
					<-j.done
					return nil, int(p[0]), int(p[1]), "blocked for minutes"
				}
			} else {
				last, same = p, 0
			}
		}
	}
}

func readProgress(resFile string) (p [2]uint64) {
	d, err := os.ReadFile(resFile + ".progress")
	if err == nil && len(d) >= 16 {
		p[0], p[1] = binary.LittleEndian.Uint64(d), binary.LittleEndian.Uint64(d[8:])
	}
	return
}

type artefact struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Seed     string          `json:"seed"`
	Kind     string          `json:"kind"` // case: the case alone fails. shard: it fails after the cases before it
	Scenario string          `json:"scenario"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Index    int             `json:"index"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Check runs the property and returns the exit code.
func Check(prop string, notes []string) int {
	begin := time.Now()
	scns := scenarios[prop]
	if len(scns) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	limit := 300 * time.Second
	if tier() == "thorough" {
		limit = 3000 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	deadline := begin.Add(limit)
	tmp, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	var jobs []*job
	for i := 0; i < n; i++ {
		jobs = append(jobs, start(os.Args[0], prop, tmp, fmt.Sprintf("w%d", i), i, n, -1, -1, -1, -1, deadline))
	}
	for _, s := range scns {
		if s.exe() != os.Args[0] {
			for i := 0; i < n; i++ {
				jobs = append(jobs, start(s.exe(), prop, tmp, fmt.Sprintf("r%d", i), i, n, -1, -1, -1, -1, deadline))
			}
			break
		}
	}
	known := loadKnown()
	states := map[uint64]struct{}{}
	total := workerRes{Extra: map[string]int64{}, Outcomes: map[string]int64{}, Scn: make([]scnRes, len(scns))}
	cov := map[int]bool{}
	var stable []artefact
	type cand struct {
		shard int
		rec   failRec
	}
	var unstable []cand
	var died []cand
	seenKnown := map[string]string{}
	exhaustive := true
	for i, j := range jobs {
		first := i == 0
		i %= n
		r, si, idx, why := j.wait()
		if r == nil {
			died = append(died, cand{i, failRec{Scenario: si, Index: idx, Msg: why}})
			exhaustive = false
			continue
		}
		total.Trans += r.Trans
		total.Traces += r.Traces
		total.Capped = total.Capped || r.Capped
		for k, v := range r.Extra {
			total.Extra[k] += v
		}
		for k, v := range r.Outcomes {
			total.Outcomes[k] += v
		}
		for si, s := range r.Scn {
			total.Scn[si].Cases += s.Cases
			total.Scn[si].Cut = total.Scn[si].Cut || s.Cut
			if total.Scn[si].Steps < s.Steps {
				total.Scn[si].Steps = s.Steps
			}
			exhaustive = exhaustive && !s.Cut
		}
		if len(r.Scn) < len(scns) {
			exhaustive = false
		}
		if first {
			total.Samples = r.Samples
		}
		for _, id := range r.Cov {
			cov[id] = true
		}
		if d, err := os.ReadFile(j.resFile + ".states"); err == nil {
			for o := 0; o+8 <= len(d); o += 8 {
				states[binary.LittleEndian.Uint64(d[o:])] = struct{}{}
			}
		}
		for _, f := range r.Fails {
			if f.Key != "" && f.Stable {
				if what, ok := known[prop+" "+f.Key]; ok {
					seenKnown[f.Key] = what
					continue
				}
			}
			if f.Stable {
				stable = append(stable, artefact{prop, tier(), os.Getenv("VERIF_SEED"), "case", scns[f.Scenario].name, i, n, f.Index, f.Case, f.Msg})
			} else {
				unstable = append(unstable, cand{i, f})
			}
		}
	}
	far := begin.Add(2 * limit)
	if len(stable) == 0 {
		for _, d := range died {
			// does the case alone do it again?
			r, _, _, why := start(scns[d.rec.Scenario].exe(), prop, tmp, "again", 0, 1, d.rec.Scenario, d.rec.Index, -1, -1, far).wait()
			if r == nil || len(r.Fails) > 0 {
				kind := "case"
				a := artefact{prop, tier(), os.Getenv("VERIF_SEED"), kind, scns[d.rec.Scenario].name, d.shard, n, d.rec.Index, nil, why}
				a.Case = mustJSON(findCase(tmp, scns[d.rec.Scenario], d.rec.Index))
				if r != nil {
					a.Message = r.Fails[0].Msg
				}
				stable = append(stable, a)
				break
			}
			r, si, idx, why := start(scns[d.rec.Scenario].exe(), prop, tmp, "again", d.shard, n, -1, -1, d.rec.Scenario, d.rec.Index, far).wait()
			if r == nil && si == d.rec.Scenario && idx == d.rec.Index {
				stable = append(stable, artefact{prop, tier(), os.Getenv("VERIF_SEED"), "shard", scns[d.rec.Scenario].name, d.shard, n, d.rec.Index,
					mustJSON(findCase(tmp, scns[d.rec.Scenario], d.rec.Index)), why})
				break
			}
			fmt.Printf("note: a worker ended (%s) and did not do so again\n", strings.TrimSpace(d.rec.Msg))
		}
	}
	if len(stable) == 0 {
		for k, u := range unstable {
			if k >= 4 {
				break
			}
			again := true
			for t := 0; t < 2 && again; t++ {
				r, _, _, _ := start(scns[u.rec.Scenario].exe(), prop, tmp, "again", u.shard, n, -1, -1, u.rec.Scenario, u.rec.Index, far).wait()
				again = false
				if r != nil {
					for _, f := range r.Fails {
						again = again || f.Scenario == u.rec.Scenario && f.Index == u.rec.Index
					}
				}
			}
			if again {
				stable = append(stable, artefact{prop, tier(), os.Getenv("VERIF_SEED"), "shard", scns[u.rec.Scenario].name, u.shard, n, u.rec.Index, u.rec.Case, u.rec.Msg})
				break
			}
			fmt.Printf("note: not reproducible, not reported: %s %s\n", scns[u.rec.Scenario].name, u.rec.Msg)
			total.Extra["unreproducible"]++
		}
	}
	var keys []string
	for k := range seenKnown {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, seenKnown[k])
	}
	code := 0
	if len(stable) > 0 {
		sort.SliceStable(stable, func(a, b int) bool {
			sa, sb := scnIndex(prop, stable[a].Scenario), scnIndex(prop, stable[b].Scenario)
			if sa != sb {
				return sa < sb
			}
			return stable[a].Index < stable[b].Index
		})
		a := stable[0]
		dir := filepath.Join(Root, "replays")
		os.MkdirAll(dir, 0755)
		d, _ := json.MarshalIndent(a, "", " ")
		name := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, Hash(string(d))))
		os.WriteFile(name, append(d, '\n'), 0644)
		msg := a.Message
		if len(msg) > 2000 {
			msg = msg[:2000] + "..."
		}
		cs := string(a.Case)
		if len(cs) > 2000 {
			cs = cs[:2000] + "..."
		}
		fmt.Printf("scenario %s case %s\n%s\n", a.Scenario, cs, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		code = 1
		exhaustive = false
	}
	evidence(prop, scns, total, len(states), cov, exhaustive && !total.Capped, notes, time.Since(begin), len(stable), len(seenKnown))
	return code
}

func scnIndex(prop, name string) int {
	for i, s := range scenarios[prop] {
		if s.name == name {
			return i
		}
	}
	return -1
}

func findCase(dir string, s *scenario, idx int) interface{} {
	var res interface{}
	i := -1
	s.gen(newCtx(dir, time.Now().Add(time.Hour)), func(k interface{}) bool {
		i++
		if i == idx {
			res = k
			return false
		}
		return true
	})
	return res
}

func scratch() (string, error) {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if t, err := os.MkdirTemp(d, "verifmc-"); err == nil {
			return t, nil
		}
	}
	return os.MkdirTemp("", "verifmc-")
}

func evidence(prop string, scns []*scenario, t workerRes, states int, cov map[int]bool, exhaustive bool, notes []string, wall time.Duration, viol, knownN int) {
	var list []interface{}
	for i, s := range scns {
		list = append(list, map[string]interface{}{"name": s.name, "space": s.rule, "cases": t.Scn[i].Cases, "cut_by_deadline": t.Scn[i].Cut,
			"most_statements_in_a_case": t.Scn[i].Steps, "statement_budget": s.budget})
	}
	points, _ := os.ReadFile(os.Getenv("VERIF_POINTS"))
	names := strings.Split(string(points), "\n")
	files := map[string]int{}
	covered := 0
	for id := range cov {
		if id < len(names) && names[id] != "" {
			files[strings.SplitN(names[id], ":", 2)[0]]++
			covered++
		}
	}
	if out := os.Getenv("VERIF_COVOUT"); out != "" {
		var l []string
		for id := range cov {
			if id < len(names) {
				l = append(l, names[id])
			}
		}
		os.WriteFile(filepath.Join(out, prop), []byte(strings.Join(l, "\n")), 0644)
		os.WriteFile(filepath.Join(out, "all"), points, 0644)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := t.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	coverage := map[string]interface{}{
		"states":                        states,
		"transitions":                   t.Trans,
		"traces_validated_against_impl": t.Traces,
		"distinct_outcomes":             len(t.Outcomes),
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"scenarios":                     list,
		"statements_of_repo_executed":   covered,
		"statements_of_repo_total":      len(names),
		"statements_by_file":            files,
		"explanation": "explicit enumeration: every case of every scenario's bounded space is executed on the real (instrumented) code in lockstep with a reference model; " +
			"states = distinct fingerprints of model state and observation, transitions = calls made on the real code, traces = complete executions compared with the model",
	}
	for k, v := range t.Extra {
		coverage[k] = v
	}
	if t.Capped {
		coverage["states_capped"] = true
	}
	if knownN > 0 {
		coverage["known_findings_seen"] = knownN
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier(), "seed": seed, "level": "model_checking",
		"coverage": coverage, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": append([]string{
			"bounds and alphabets as listed per scenario; nothing is claimed outside of them",
			"the reference models in /verif/mc/checks are right; they share no code with /repo",
			"Go's standard library behaves as documented",
		}, notes...),
	}
	d, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(Root, "evidence", prop+".json"), append(d, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	cases := 0
	for _, s := range t.Scn {
		cases += s.Cases
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d outcomes, exhaustive=%v, %.1fs\n", prop, tier(), cases, states, t.Trans, len(t.Outcomes), exhaustive, wall.Seconds())
}

// Replay runs an artefact again.
func Replay(file string) int {
	d, err := os.ReadFile(file)
	var a artefact
	if err == nil {
		err = json.Unmarshal(d, &a)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Setenv("VERIF_TIER", a.Tier)
	os.Setenv("VERIF_SEED", a.Seed)
	tmp, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	si := scnIndex(a.Property, a.Scenario)
	if si < 0 {
		fmt.Fprintln(os.Stderr, "unknown scenario", a.Scenario)
		return 2
	}
	s := scenarios[a.Property][si]
	if !s.mine() {
		os.RemoveAll(tmp)
		fmt.Fprintln(os.Stderr, syscall.Exec(s.exe(), []string{s.exe(), "replay", file}, os.Environ()))
		return 2
	}
	if a.Kind == "case" {
		k, err := s.decode(a.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c := newCtx(tmp, time.Now().Add(time.Hour))
		if f := run(c, s, k); f != nil {
			fmt.Println(f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", a.Property, file)
			return 1
		}
		fmt.Println("the property holds on this case")
		return 0
	}
	r, _, _, why := start(s.exe(), a.Property, tmp, "again", a.Shard, a.Shards, -1, -1, si, a.Index, time.Now().Add(time.Hour)).wait()
	if r == nil {
		fmt.Println(why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.Property, file)
		return 1
	}
	for _, f := range r.Fails {
		fmt.Println(f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.Property, file)
		return 1
	}
	fmt.Println("the property holds on this case")
	return 0
}

// Pristine functions can be run in a process of their own, which nothing has
// happened in before.
var pristine = map[string]func(dir string, arg json.RawMessage) []string{}
var pristineSeen = map[string][]string{}

// RegisterPristine names such a function.
func RegisterPristine(name string, f func(dir string, arg json.RawMessage) []string) {
	pristine[name] = f
}

// Pristine runs the function in a new process, or returns what it returned there before.
func (c *Ctx) Pristine(name string, arg interface{}) ([]string, error) {
	a := string(mustJSON(arg))
	if r, ok := pristineSeen[name+a]; ok {
		return r, nil
	}
	dir, err := os.MkdirTemp(c.Dir, "pristine-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], "pristine", name, a, dir)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	d, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var r []string
	if err := json.Unmarshal(d, &r); err != nil {
		return nil, err
	}
	pristineSeen[name+a] = r
	return r, nil
}

// Main dispatches the command line.
func Main(notes func(prop string) []string) {
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	a := os.Args
	switch {
	case len(a) == 3 && a[1] == "check":
		os.Exit(Check(a[2], notes(a[2])))
	case len(a) == 3 && a[1] == "replay":
		os.Exit(Replay(a[2]))
	case len(a) == 12 && a[1] == "worker":
		ns, _ := strconv.ParseInt(a[11], 10, 64)
		work(a[2], atoi(a[3]), atoi(a[4]), a[5], a[6], atoi(a[7]), atoi(a[8]), atoi(a[9]), atoi(a[10]), time.Unix(0, ns))
	case len(a) == 5 && a[1] == "pristine":
		mcsched.Begin(50000000)
		os.Setenv("TMPDIR", a[4])
		os.Stdout.Write(mustJSON(pristine[a[2]](a[4], json.RawMessage(a[3]))))
	case len(a) == 2 && a[1] == "list":
		var ids []string
		for p := range scenarios {
			ids = append(ids, p)
		}
		sort.Strings(ids)
		for _, p := range ids {
			for _, s := range scenarios[p] {
				fmt.Printf("%s %s: %s\n", p, s.name, s.rule)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "usage: mc check ID | mc replay FILE | mc list")
		os.Exit(2)
	}
}
