From 63d610831e5f6244a8f25c6da34f415dd7d83b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 01/35] fix: scanner looped forever on a backslash that is not
 followed by LF

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..9583986 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil // an escape, not a line continuation
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From cac8ca8093d8f4c29b46642099ef95cd7771c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 02/35] fix: body spilled to a file repeated the part that
 still fitted in memory

---
 modsecurity/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..5d5b637 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,7 +44,6 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
 		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
@@ -53,6 +52,8 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 		if err != nil {
 			return 0, err
 		}
+		// keep the leading part in memory only after the file got its own copy
+		b.memBuf.Write(p[:b.memLimit-b.length])
 		wn, err = b.fileBuf.Write(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
-- 
2.43.0


From 8835efa5fe784c0f534b544535082ce762cf9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 03/35] fix: every read of a body restarted at its beginning

---
 modsecurity/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 5d5b637..9bf229a 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -84,6 +84,7 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
 		b.fileBuf.Seek(0, 0)
 	}
-- 
2.43.0


From 5d9065e35df1a2e91a9f94604fe388ecfffc138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 04/35] fix: closing a body held in memory crashed

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 9bf229a..5d1b96b 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -113,6 +113,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From 472c091fba83f1f4c86b321885cd80ada27363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 05/35] fix: a name and a regex inclusion together selected
 only what both select

---
 modsecurity/variables/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..6b0c63d 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,9 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) &&
+			!utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From 90e2cd6e02406bf427d316eb9a55bb0a831d04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 06/35] fix: a whole-collection target was narrowed by a named
 one beside it

---
 seclang/variable.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..481a598 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -73,17 +73,19 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 				countVarMap[v.Tk] = variables.NewCountVariable(variable)
 			}
 		}
-		if v.Index != "" {
-			if !v.Exclusion {
-				err := variable.Include(v.Index)
-				if err != nil {
-					return err
-				}
-			} else {
-				err := variable.Exclude(v.Index)
-				if err != nil {
-					return err
-				}
+		index := v.Index
+		if index == "" {
+			index = "//" // no index means every entry of the collection
+		}
+		if !v.Exclusion {
+			err := variable.Include(index)
+			if err != nil {
+				return err
+			}
+		} else {
+			err := variable.Exclude(index)
+			if err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From c769649b33a3a5ebc1293b183800e7c5c3df7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 07/35] fix: the phase allow jumps to was bypassed as well

---
 modsecurity/transaction.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..5a928b9 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -22,10 +22,11 @@ type Transaction struct {
 	VariableCache map[string]interface{}
 	intervention  *Intervention
 	// status
-	currentPhase int
-	currentRule  int
-	nextRule     int
-	Data         map[string]interface{}
+	currentPhase   int
+	processedPhase int
+	currentRule    int
+	nextRule       int
+	Data           map[string]interface{}
 }
 
 const StatusNotStarted = -1
@@ -153,9 +154,12 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	// currentPhase == phase with the phase not processed yet means that an
+	// action jumped here: only the phases before it are bypassed.
+	if t.currentPhase > phase || t.processedPhase >= phase {
 		return
 	}
+	t.processedPhase = phase
 	t.JumpToPhase(phase)
 	t.processPhase(phase)
 }
-- 
2.43.0


From a035c7fd51900dc0a38866320b48f5ef81948248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 08/35] fix: allow in the phase it jumps to, or a later one,
 ran rules again, forever

---
 modsecurity/actions/allow.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..b4f5b74 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -25,12 +25,20 @@ func (a *ActionAllow) Value() string {
 
 }
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
+	target := t.CurrentPhase()
 	switch a.arg {
 	case "":
-		t.JumpToPhase(modsecurity.PhaseLogging)
+		target = modsecurity.PhaseLogging
 	case "phase":
-		t.NextPhase()
+		target++
 	case "request":
-		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+		target = modsecurity.PhaseResponseHeaders
+	default:
+		return
 	}
+	if target <= t.CurrentPhase() {
+		// never go back, and never start the current phase over
+		target = t.CurrentPhase() + 1
+	}
+	t.JumpToPhase(target)
 }
-- 
2.43.0


From 223c394495d44bb7e1359cb654847ce3fe9bf270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 09/35] fix: pass discarded the log records of the rules that
 matched

---
 modsecurity/actions/pass.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 06b85b4..ff739a2 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,5 +21,7 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	log := t.Intervention().Log
 	t.ResetIntervention()
+	t.Intervention().Log = log
 }
-- 
2.43.0


From 6476d656f134b05c6d5aa6ad6e8e74c5ee4d8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 10/35] fix: rules of later phases could overturn a denial the
 host has not taken yet

---
 modsecurity/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 5a928b9..e69f558 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -168,6 +168,10 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort {
 		return
 	}
+	if t.Intervention().Disruptive {
+		logrus.Debug("skiping this phase, an earlier verdict is pending")
+		return
+	}
 	next := t.Next()
 	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
 		t.RuleSet.Process(t, phase, next)
-- 
2.43.0


From c09bf7d07ec44a728348a6a621d017ce1aedddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 11/35] fix: the status of one rule was used by the denial of
 another

---
 modsecurity/sec_rule.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..e99b7cf 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -95,6 +95,8 @@ func (r *SecRule) Do(t *Transaction) {
 			return
 		}
 	}
+	// a status belongs to the rule it is written in
+	delete(t.Data, "status")
 	ActionsExecute(t, r.Actions)
 	for _, sub := range r.SubRules {
 		ActionsExecute(t, sub.Actions)
-- 
2.43.0


From efc4365d43bab239d97ac4c402a6d59955441fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 12/35] fix: deny logged code 403 whatever status it returned

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From 5146fe6b3430a184fe4354e9a5363af0be149f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 13/35] fix: skip:n skipped one rule whatever n

---
 modsecurity/actions/skip.go | 13 ++++++++++++-
 seclang/actions.go          | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..50a1185 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,15 +1,26 @@
 package actions
 
 import (
+	"fmt"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	more int // rules to skip beyond the next one
 }
 
 func NewActionSkip() modsecurity.Action {
 	return &ActionSkip{}
 }
+
+// NewActionSkipCount skips the next count rules.
+func NewActionSkipCount(count int) (modsecurity.Action, error) {
+	if count < 1 {
+		return nil, fmt.Errorf("cannot skip %d rules", count)
+	}
+	return &ActionSkip{more: count - 1}, nil
+}
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
 }
@@ -22,5 +33,5 @@ func (a *ActionSkip) Value() string {
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	t.JumpTo(t.CurrentRule() + 2 + a.more)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..0f1f63b 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -14,7 +14,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: skipFactory,
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
@@ -78,6 +78,17 @@ func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action)
 	}
 }
 
+func skipFactory(v *parser.Action) (modsecurity.Action, error) {
+	if v.Argument == "" {
+		return actions.NewActionSkip(), nil
+	}
+	count, err := toNum(v.Argument)
+	if err != nil {
+		return nil, err
+	}
+	return actions.NewActionSkipCount(count)
+}
+
 func actionWrapper(f func() modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
 		return f(), nil
-- 
2.43.0


From 33087091978bdb6dd92c709c0d549917f5548b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 14/35] fix: an engine switched Off still evaluated its rules

---
 modsecurity/engine.go      | 2 ++
 modsecurity/transaction.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..4fdf309 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -4,6 +4,7 @@ type Engine struct {
 	Enabled       bool
 	DetectionOnly bool
 	RuleSet       *SecRuleSet
+	off           bool
 	*Limits
 	*Config
 }
@@ -49,6 +50,7 @@ const (
 
 // Enable acts like SecRuleEngine. status argument should be `StatusOn`, `StatusOff` or `StatusDect`.
 func (e *Engine) Enable(status int) {
+	e.off = status == StatusOff
 	switch status {
 	case StatusOn:
 		e.Enabled = true
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index e69f558..dc5f520 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -165,7 +165,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Engine.off {
 		return
 	}
 	if t.Intervention().Disruptive {
-- 
2.43.0


From 0f7b2260ff7ca25103aa15da2d74d0de1bf67ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 15/35] fix: DetectionOnly mode still denied, allowed and
 aborted transactions

---
 modsecurity/actions/allow.go | 3 +++
 modsecurity/actions/deny.go  | 4 ++++
 modsecurity/transaction.go   | 5 ++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index b4f5b74..a82fabf 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -25,6 +25,9 @@ func (a *ActionAllow) Value() string {
 
 }
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
+	if t.Engine.DetectionOnly {
+		return
+	}
 	target := t.CurrentPhase()
 	switch a.arg {
 	case "":
diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 80d8fb1..f291bb0 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -21,6 +21,10 @@ func (*ActionDeny) Value() string {
 
 }
 func (*ActionDeny) Do(t *modsecurity.Transaction) {
+	if t.Engine.DetectionOnly {
+		t.Logf("ModSecurity: Warning. Access would be denied, but detection only")
+		return
+	}
 	i := t.Intervention()
 	if i.Status == 200 {
 		var status int
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index dc5f520..9bd09bb 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -248,11 +248,14 @@ func (t *Transaction) ResetIntervention() {
 }
 
 func (t *Transaction) AbortWithError(code int, err error) {
+	t.Logf("abort process with error %s", err.Error())
+	if t.Engine.DetectionOnly {
+		return
+	}
 	t.Abort = true
 	i := t.Intervention()
 	i.Status = code
 	i.Disruptive = true
-	t.Logf("abort process with error %s", err.Error())
 }
 
 func (t *Transaction) AbortWithStatus(code int) {
-- 
2.43.0


From 826fd25f73c3caf50e51a402683ca7ff458122b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 16/35] fix: a malformed pair hid the whole URL encoded body
 from the first reader

---
 modsecurity/variables/request_body_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..9b7a12f 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -31,7 +31,12 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return url.ParseQuery(body)
+			values, err := url.ParseQuery(body)
+			if err != nil {
+				// malformed pairs must not hide the well formed ones
+				t.RequestBodyError = err
+			}
+			return values, nil
 		},
 	},
 	bodyTypeMultipart: &bodyParser{
-- 
2.43.0


From 6dabb860067e7ab5a50605a861edd1abbffe072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 17/35] fix: reading ARGS_POST_NAMES of a malformed multipart
 body twice crashed

---
 modsecurity/variables/args_post_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/args_post_names.go b/modsecurity/variables/args_post_names.go
index e66eab2..e272ad2 100644
--- a/modsecurity/variables/args_post_names.go
+++ b/modsecurity/variables/args_post_names.go
@@ -30,7 +30,7 @@ func (v *VariableArgsPostNames) Fetch(t *modsecurity.Transaction) []string {
 		return v.filter.Names(content)
 	case bodyTypeMultipart:
 		content, ok := parsed.(*multipart.Form)
-		if !ok {
+		if content == nil || !ok {
 			return nil
 		}
 		return v.filter.Names(content.Value)
-- 
2.43.0


From cd59742a68d13713a7fbe56035d4747546f11395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 18/35] fix: numbers beyond 64 bits compared as 0

---
 modsecurity/operators/compare.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..c3de9fd 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -64,7 +64,9 @@ func (o *OperatorCompare) Args() string {
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
+	if numErr, ok := err.(*strconv.NumError); ok && numErr.Err == strconv.ErrRange {
+		// out of range, v already is the nearest representable number
+	} else if err != nil {
 		v = 0
 	}
 	return o.fn(v, o.arg)
-- 
2.43.0


From 3c362a5f577d15fc632a3f4417c85220631454ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 19/35] fix: whitespace transformations ignored all whitespace
 but the space

---
 modsecurity/transforms/compress_whitespace.go |  3 ++-
 modsecurity/transforms/map_rune.go            | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..ac723c0 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -19,11 +19,12 @@ func (t *TransCompressWhitespace) Name() string {
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
 	return strings.Map(func(i rune) rune {
-		if i == ' ' {
+		if isSpace(i) {
 			if previousIsSpace {
 				return -1
 			}
 			previousIsSpace = true
+			i = ' '
 		} else {
 			previousIsSpace = false
 		}
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..eaeeed9 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -14,7 +14,7 @@ type TransMapRune struct {
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
 		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		mapping: removeSpace,
 	}
 }
 
@@ -32,6 +32,18 @@ func NewTransReplaceNulls() modsecurity.Trans {
 	}
 }
 
+// isSpace tells the ASCII white space characters and the non breaking space.
+func isSpace(i rune) bool {
+	return i == ' ' || ('\t' <= i && i <= '\r') || i == 0xa0
+}
+
+func removeSpace(i rune) rune {
+	if isSpace(i) {
+		return -1
+	}
+	return i
+}
+
 func replaceRune(from, to rune) func(rune) rune {
 	return func(i rune) rune {
 		if i == from {
-- 
2.43.0


From 2cbbaacf83539b2747718c41b693a09f5fbbdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 20/35] fix: a rule without a phase was silently never
 evaluated

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 0f1f63b..bf16508 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -103,6 +103,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if dr.rule.Phase == 0 {
+		dr.rule.Phase = parser.PhaseRequestBody // ModSecurity's default
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From 535fe36266c05bd851d6dab07305f57db29860b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 21/35] fix: a failed load left the directives before the error
 in the rule set

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..44716e7 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -49,6 +49,7 @@ func (rs *DireSet) AddSecLangString(str string) error {
 	if err != nil {
 		return err
 	}
+	var dires []Dire // added only when everything is accepted
 	for _, dir := range dirs {
 		dire, err := direFactory(dir)
 		if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		dires = append(dires, dire)
 	}
+	rs.dires = append(rs.dires, dires...)
 	return nil
 }
 
-- 
2.43.0


From def6a5c7f053b0cb3f40790f5a37cf1ce9df98c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 22/35] fix: commas inside a quoted action argument started
 further actions

---
 seclang/parser/scanner.go |  2 +-
 seclang/parser/utils.go   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 9583986..f74b778 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -322,7 +322,7 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
-	actions := strings.Split(str, ",")
+	actions := splitActions(str)
 	for _, action := range actions {
 		err := processAction(res, action)
 		if err != nil {
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index fd1363b..3058563 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -57,3 +57,33 @@ func splitMulti(s string, seps string) []string {
 	return res[:i+1]
 
 }
+
+// splitActions splits at the commas outside of quoted arguments.
+func splitActions(str string) []string {
+	var res []string
+	start := 0
+	for i := 0; i < len(str); i++ {
+		if str[i] == ',' {
+			res = append(res, str[start:i])
+			start = i + 1
+		} else if isQuote(rune(str[i])) && i > start && strings.IndexByte(str[start:], ':') == i-start-1 {
+			i += quotedLen(str[i:])
+		}
+	}
+	return append(res, str[start:])
+}
+
+// quotedLen returns the distance from the quote str begins with to the quote
+// that closes it, one before a comma or the end, or 0 if there is none.
+func quotedLen(str string) int {
+	for i := 1; i < len(str); i++ {
+		if str[i] != str[0] {
+			continue
+		}
+		rest := strings.TrimSpace(str[i+1:])
+		if rest == "" || rest[0] == ',' {
+			return i
+		}
+	}
+	return 0
+}
-- 
2.43.0


From b7e9baa2833c2555e547176962a6e439f09c81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 23/35] fix: a body was truncated when spilling it to a file
 failed half way

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 5d1b96b..20ee4c4 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -50,6 +50,9 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 		}
 		_, err = b.fileBuf.Write(b.memBuf.Bytes())
 		if err != nil {
+			// stay in memory, the file has not got everything
+			b.Close()
+			b.fileBuf = nil
 			return 0, err
 		}
 		// keep the leading part in memory only after the file got its own copy
-- 
2.43.0


From b0c715b38e836bd5575a980be9b59abfe61444c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 24/35] fix: allow with an unknown argument was loaded and did
 nothing

---
 seclang/actions.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seclang/actions.go b/seclang/actions.go
index bf16508..27df15c 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -26,7 +26,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
 	parser.TkActionAllow: &actionProcessor{
-		factory: actionArgWrapper(actions.NewActionAllow),
+		factory: allowFactory,
 	},
 	parser.TkActionTag: &actionProcessor{
 		meta: metaFactory("tag"),
@@ -63,10 +63,13 @@ func metaFactory(name string) func(*parser.Action) (map[string]string, error) {
 	}
 }
 
-func actionArgWrapper(f func(string) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
-	return func(v *parser.Action) (modsecurity.Action, error) {
-		return f(trimQuote(v.Argument)), nil
+func allowFactory(v *parser.Action) (modsecurity.Action, error) {
+	arg := trimQuote(v.Argument)
+	switch arg {
+	case "", "phase", "request":
+		return actions.NewActionAllow(arg), nil
 	}
+	return nil, fmt.Errorf("cannot allow %s", arg)
 }
 func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
-- 
2.43.0


From 7ad308a0d0836c4f503ce9f0b5aa5174655bfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 25/35] fix: blanks around an action argument changed its
 meaning

---
 seclang/parser/scanner.go | 2 +-
 seclang/parser/utils.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index f74b778..0924fdc 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -341,7 +341,7 @@ func parseAction(act string) (int, string, error) {
 		return 0, "", fmt.Errorf("unknown action %s", s[0])
 	}
 	if len(s) > 1 {
-		arg = s[1]
+		arg = strings.TrimSpace(s[1])
 	}
 	return tk, arg, nil
 }
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index 3058563..fc4075e 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -66,7 +66,7 @@ func splitActions(str string) []string {
 		if str[i] == ',' {
 			res = append(res, str[start:i])
 			start = i + 1
-		} else if isQuote(rune(str[i])) && i > start && strings.IndexByte(str[start:], ':') == i-start-1 {
+		} else if colon := strings.IndexByte(str[start:i], ':'); isQuote(rune(str[i])) && colon >= 0 && strings.TrimSpace(str[start+colon+1:i]) == "" {
 			i += quotedLen(str[i:])
 		}
 	}
-- 
2.43.0


From bc3ccd51cf9701d60124b24b0459a3544da5d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 26/35] fix: seclang: report a failing reader instead of taking
 it for the end of the text

---
 seclang/parser/scanner.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 0924fdc..926bdb8 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -34,6 +34,7 @@ type Scanner struct {
 	buffer               *bytes.Buffer
 	r                    *bufio.Reader
 	current              rune
+	err                  error // of the reader, other than the end
 	LineNumber, LastLine int
 }
 
@@ -132,9 +133,15 @@ func (s *Scanner) ReadDirective() (Directive, error) {
 		case 0:
 			s.advance()
 		case EOS:
+			if s.err != nil {
+				return nil, s.err
+			}
 			return nil, ErrEOS
 		default:
 			dir, err := s.readDirective()
+			if s.err != nil {
+				return nil, s.err // what was read may be cut short
+			}
 			if err == ErrEOS {
 				return nil, errors.New("unexpected EOS")
 			}
@@ -407,6 +414,9 @@ func (s *Scanner) incrementLineNumber() {
 
 func (s *Scanner) advance() {
 	if c, err := s.r.ReadByte(); err != nil {
+		if err != io.EOF {
+			s.err = err
+		}
 		s.current = EOS
 	} else {
 		s.current = rune(c)
-- 
2.43.0


From c636f9e25a2563c94fd772ff237a246a25b8d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 27/35] fix: operators: a value with trailing junk is no
 number, however many digits it has

---
 modsecurity/operators/compare.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index c3de9fd..2d1c2ec 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -64,10 +64,15 @@ func (o *OperatorCompare) Args() string {
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	v, err := strconv.ParseInt(s, 10, 64)
-	if numErr, ok := err.(*strconv.NumError); ok && numErr.Err == strconv.ErrRange {
+	if numErr, ok := err.(*strconv.NumError); ok && numErr.Err == strconv.ErrRange && allDigits(s[1:]) {
 		// out of range, v already is the nearest representable number
 	} else if err != nil {
 		v = 0
 	}
 	return o.fn(v, o.arg)
 }
+
+// allDigits is needed because ParseInt stops at the digit that overflows
+func allDigits(s string) bool {
+	return strings.Trim(s, "0123456789") == ""
+}
-- 
2.43.0


From 7443bdd37ce85469e97b8ed1257e2c335e55031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 28/35] fix: allow counts from the phase its rule is in, not
 from where an earlier allow jumped

---
 modsecurity/actions/allow.go | 11 ++++++++---
 modsecurity/transaction.go   | 12 ++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index a82fabf..1580cd5 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -28,7 +28,8 @@ func (a *ActionAllow) Do(t *modsecurity.Transaction) {
 	if t.Engine.DetectionOnly {
 		return
 	}
-	target := t.CurrentPhase()
+	phase := t.RulePhase()
+	target := phase
 	switch a.arg {
 	case "":
 		target = modsecurity.PhaseLogging
@@ -39,9 +40,13 @@ func (a *ActionAllow) Do(t *modsecurity.Transaction) {
 	default:
 		return
 	}
-	if target <= t.CurrentPhase() {
+	if target <= phase {
 		// never go back, and never start the current phase over
-		target = t.CurrentPhase() + 1
+		target = phase + 1
+	}
+	if target <= t.CurrentPhase() {
+		// an earlier allow has already jumped that far
+		return
 	}
 	t.JumpToPhase(target)
 }
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 9bd09bb..5aca4e6 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -24,6 +24,7 @@ type Transaction struct {
 	// status
 	currentPhase   int
 	processedPhase int
+	processing     bool
 	currentRule    int
 	nextRule       int
 	Data           map[string]interface{}
@@ -137,6 +138,15 @@ func (s *Transaction) CurrentPhase() int {
 	return s.currentPhase
 }
 
+// RulePhase is the phase whose rules are being processed, wherever an action
+// has jumped to, and the current phase when none are.
+func (s *Transaction) RulePhase() int {
+	if s.processing {
+		return s.processedPhase
+	}
+	return s.currentPhase
+}
+
 func (s *Transaction) JumpToPhase(i int) int {
 	switch {
 	case i < PhaseBegin:
@@ -161,7 +171,9 @@ func (t *Transaction) ProcessPhase(phase int) {
 	}
 	t.processedPhase = phase
 	t.JumpToPhase(phase)
+	t.processing = true
 	t.processPhase(phase)
+	t.processing = false
 }
 
 func (t *Transaction) processPhase(phase int) {
-- 
2.43.0


From 0ab879663a0071971c039f4d8af27a84adaa62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 29/35] fix: a record names the phase of its rule also after an
 allow in the same chain

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 5aca4e6..5740372 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -287,7 +287,7 @@ func (t *Transaction) Result() *Intervention {
 
 func (t *Transaction) Logf(f string, val ...interface{}) {
 	buffer := bytes.NewBuffer(nil)
-	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
+	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.RulePhase())
 	fmt.Fprintf(buffer, f, val...)
 	i := t.Intervention()
 	i.Log = append(i.Log, buffer.String())
-- 
2.43.0


From 44d4a23522ed8a544cd8c133b074eb2139f342a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 30/35] fix: REQUEST_HEADERS_NAMES does not depend on the
 request URL

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..3f37add 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From b3e4f8e72b1a2f429c5befd3ba95fafe8a06586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 31/35] fix: a negative body memory limit holds nothing instead
 of crashing the append

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 20ee4c4..5ec6687 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -13,6 +13,9 @@ func newBuffer(dir string, memLimit, fileLimit int64) (*buffer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if memLimit < 0 {
+		memLimit = 0 // nothing fits
+	}
 	return &buffer{
 		dir:       dir,
 		memLimit:  memLimit,
-- 
2.43.0


From ffaa78f96deb6a1601006b8170a44a6460462d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 32/35] fix: urlDecodeUni decodes only FF01..FF5E to ASCII, not
 every FFxx

---
 utils/urlencode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/urlencode.go b/utils/urlencode.go
index 386e280..0ae9440 100644
--- a/utils/urlencode.go
+++ b/utils/urlencode.go
@@ -29,7 +29,7 @@ func urldecode(s string, uni bool) (string, int) {
 			c2 := rune(UnHex(s[i+4]))
 			c3 := rune(UnHex(s[i+5]))
 			v = c0<<4 | c1
-			if v == 0xff {
+			if low := c2<<4 | c3; v == 0xff && low >= 0x01 && low <= 0x5e {
 				v = (c2<<4 | c3) + 0x20 // full width ascii offset
 			} else {
 				v = v<<4 | c2
-- 
2.43.0


From 09706c5acf7c48cca4b37d9bc8e6572cfbc28be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 33/35] fix: skip with a count near the largest integer crashed

---
 modsecurity/actions/skip.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index 50a1185..1b87abc 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -33,5 +33,9 @@ func (a *ActionSkip) Value() string {
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2 + a.more)
+	more := a.more
+	if rules := len(t.CurrentPhaseRules()); more > rules {
+		more = rules // all that is left, and no overflow
+	}
+	t.JumpTo(t.CurrentRule() + 2 + more)
 }
-- 
2.43.0


From c2512e3fc73824e0e8d31005a560273906938119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 34/35] fix: a content type whose parameters repeat kept the
 body from being inspected

---
 modsecurity/variables/request_body.go          | 3 +++
 modsecurity/variables/request_body_parser.go   | 5 +++++
 modsecurity/variables/response_content_type.go | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..1136170 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -3,6 +3,7 @@ package variables
 import (
 	"mime"
 	"net/http"
+	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -31,6 +32,8 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		return nil
 	}
+	// parameters, however malformed, do not change the type
+	ct = strings.SplitN(ct, ";", 2)[0]
 	ct, _, _ = mime.ParseMediaType(ct)
 	if ct != "application/x-www-form-urlencoded" {
 		return nil
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 9b7a12f..f2acb13 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -65,7 +65,12 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
+	bare := strings.SplitN(ct, ";", 2)[0]
 	ct, params, _ := mime.ParseMediaType(ct)
+	if ct == "" {
+		// parameters, however malformed, do not change the type
+		ct, _, _ = mime.ParseMediaType(bare)
+	}
 	for _, tp := range types {
 		parser, has := parsers[tp]
 		if !has {
diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 8ad8acb..74de355 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"mime"
+	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -23,6 +24,8 @@ func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
+	// parameters, however malformed, do not change the type
+	ct = strings.SplitN(ct, ";", 2)[0]
 	ct, _, _ = mime.ParseMediaType(ct)
 	return []string{ct}
 }
-- 
2.43.0


From 958d6ff67e8c69ff1e7f847625661c3f346e0cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 35/35] fix: a reader failure right after a backslash was
 forgotten

---
 seclang/parser/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 926bdb8..ce950c3 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -425,6 +425,9 @@ func (s *Scanner) advance() {
 
 func (s *Scanner) next() rune {
 	if c, err := s.r.ReadByte(); err != nil {
+		if err != io.EOF {
+			s.err = err // the reader may not tell it again
+		}
 		return EOS
 	} else {
 		s.r.UnreadByte()
-- 
2.43.0

