package checks

import (
	"strings"

	"verifmc/core"
)

// PathCase sets the engine mode along a path, and runs a transaction.
type PathCase struct {
	Path []string   `json:"path"` // api:MODE, sec:WORD (a load of its own) or +sec:WORD (same text as before)
	Case EngineCase `json:"case"`
}

var modeWords = map[string]string{"On": "on", "Off": "off", "DetectionOnly": "detect", "on": "on", "OFF": "off", "detectiononly": "detect"}

func runPath(ctx *core.Ctx, c PathCase) *core.Fail {
	k := c.Case
	k.prepare = nil
	last := ""
	type step struct{ api, text string }
	var steps []step
	for _, p := range c.Path {
		i := strings.IndexByte(p, ':')
		switch w := p[i+1:]; p[:i] {
		case "api":
			steps = append(steps, step{api: w})
			last = w
		case "sec", "+sec":
			t := "SecRuleEngine " + w + "\n"
			last = modeWords[w]
			if n := len(steps) - 1; p[0] == '+' && n >= 0 && steps[n].text != "" {
				steps[n].text += t
			} else {
				steps = append(steps, step{text: t})
			}
		case "body", "+body":
			t := "SecRequestBodyAccess " + w + "\n"
			if n := len(steps) - 1; p[0] == '+' && n >= 0 && steps[n].text != "" {
				steps[n].text += t
			} else {
				steps = append(steps, step{text: t})
			}
		}
	}
	k.prepare = func(e *engineT) *core.Fail {
		for _, s := range steps {
			if s.api != "" {
				setMode(e, s.api)
				continue
			}
			if f := loadRules(e, s.text); f != nil {
				return f
			}
		}
		return nil
	}
	k.final = last
	return runEngine(ctx, k)
}

func init() {
	sets := [][]Rule{
		{hit(1, "deny"), hit(2, "log"), hit(2, "deny"), hit(3, "block"), hit(4, "x2:n"), hit(5, "allow"), hit(6, "log")},
		cat([]Rule{hit(1, "allow"), {Ph: 2, V: []string{"A"}, Acts: []string{"log"}}}, probesIn(1, 2, 3, 4, 5, 6), []Rule{hit(2, "deny"), hit(6, "deny")}),
	}
	each := []string{"conn", "result", "reqh", "result", "reqb", "result", "resph", "result", "respb", "result", "log", "result"}
	core.Register("C05", "mode-paths",
		"every sequence of up to 4 (thorough 5) settings of the mode: On, Off, DetectionOnly by API, by a directive of its own load, or by a further directive of the same text, with other directives in between; a transaction afterwards obeys the last one",
		func(c *core.Ctx, y func(PathCase)) {
			alpha := []string{"api:on", "api:off", "api:detect", "sec:On", "sec:Off", "sec:DetectionOnly", "+sec:On", "+sec:Off", "+sec:DetectionOnly", "sec:on", "+sec:OFF", "sec:detectiononly", "+body:On"}
			seqs(len(alpha), 0, c.Pick(4, 5), func(s []int) {
				p := pickS(alpha, s)
				for i, r := range sets {
					if len(s) > 3 && (i+s[0]+s[3])%2 == 1 && !c.Thorough {
						continue
					}
					y(PathCase{Path: p, Case: EngineCase{Rules: r, Default: []string{"status:406", "deny"}, Ops: each}})
				}
			})
		}, runPath)

	targets := []string{"REQUEST_BODY", "ARGS_POST", "ARGS", "ARGS_POST_NAMES", "&ARGS", "&ARGS_POST", "ARGS|REMOTE_ADDR", "REMOTE_ADDR|REQUEST_BODY"}
	full := "a=bcdefg"
	core.Register("C05", "real-bodies",
		"bodies of 0..8 bytes around every memory limit of 1..5 bytes, in pieces, inspected by real targets in any chain position with log, deny, block and allow, in DetectionOnly, Off and On; results taken at the end or after every step",
		func(c *core.Ctx, y func(InspCase)) {
			for n := 0; n <= len(full); n++ {
				for mem := int64(1); mem <= 5; mem++ {
					for split := 0; split <= 2; split++ {
						for _, mode := range []string{"detect", "off", "on"} {
							for _, tg := range targets {
								for _, op := range []string{"any", "eq0"} {
									for pos := 0; pos < 3; pos++ {
										for ai, acts := range []string{"deny,status:418", "log", "deny,log"} {
											if mode == "on" && ai > 0 {
												continue
											}
											k := InspCase{Req: Req{Method: "POST", URL: "/?q=1", CT: urlenc, Body: core.B(full[:n]), Split: split, Mem: mem},
												Mode: mode, Target: tg, Op: op, Pos: pos, Acts: acts}
											if (n+split+pos)%2 == 0 {
												k.Ops = []string{"conn", "reqh", "reqb", "resph", "respb", "log"}
											}
											y(k)
										}
									}
								}
							}
						}
					}
				}
			}
			for _, tg := range []string{"RESPONSE_BODY", "&RESPONSE_BODY"} {
				for n := 0; n <= 8; n++ {
					for total := int64(1); total <= 8; total++ {
						for split := 0; split <= 3; split++ {
							for _, mode := range []string{"detect", "off"} {
								y(InspCase{Req: Req{Method: "POST", URL: "/", CT: urlenc, Body: core.B(full[:n]), RBody: core.B(full[:n]), Split: split, Mem: 3}, Total: total, Mode: mode, Target: tg, Op: "any", Acts: "deny,status:418"})
							}
						}
					}
				}
			}
		}, runInsp)
}
