From 7a00341a8c257af5936d1a226e45ad9cba257b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 01/31] fix: match the left edges only at real edges after the
 first match

Pattern.Find resumes the search on word[offset:], where the start of the
shifted word was taken as the start of the string. So "^^a" matched with every
letter of "aaa".
---
 pkg/hre/assertions.go | 31 +++++++++++++++++++++++++++--
 pkg/hre/pattern.go    | 46 ++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..0d35e91 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -198,14 +198,41 @@ func mustNoZeroWidth(expr string) error {
 	return nil
 }
 
+// endsChunk tests if a new chunk starts right after the given string.
+func endsChunk(s string) bool {
+	if s == "" {
+		return false
+	}
+	return strings.HasSuffix(s, `{}`) || strings.IndexByte("\t\n\f\r ", s[len(s)-1]) != -1
+}
+
+// never is a Regexp which never matches.
+const never = `[^\x00-\x{10FFFF}]`
+
+// expandEdges expands the edges to search from the start of a string.
 func expandEdges(expr string) string {
+	return expandEdgesFrom(expr, `^`, `^`)
+}
+
+// expandChunkEdges expands the edges to search from the start of a chunk which
+// is not the start of a string.
+func expandChunkEdges(expr string) string {
+	return expandEdgesFrom(expr, `^`, never)
+}
+
+// expandInnerEdges expands the edges to search from the middle of a chunk.
+func expandInnerEdges(expr string) string {
+	return expandEdgesFrom(expr, never, never)
+}
+
+func expandEdgesFrom(expr string, chunkStart, stringStart string) string {
 	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
 		if e == `^` {
 			// "{}" is a zero-width space which is injected by an RPattern.
-			return `(?:^|\s+|{})`
+			return `(?:` + chunkStart + `|\s+|{})`
 		}
 		// ^^...
-		return `^`
+		return stringStart
 	})
 	expr = reRightEdge.ReplaceAllStringFunc(expr, func(e string) string {
 		if e == `$` {
diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..8c0926e 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -37,7 +37,10 @@ import (
 type Pattern struct {
 	expr string
 
-	re   *regexp.Regexp // positive regexp
+	re      *regexp.Regexp // positive regexp
+	reChunk *regexp.Regexp // positive regexp from the start of a chunk
+	reInner *regexp.Regexp // positive regexp from the middle of a chunk
+
 	negA *regexp.Regexp // negative ahead regexp
 	negB *regexp.Regexp // negative behind regexp
 
@@ -81,6 +84,8 @@ func NewPattern(
 		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
 	}
 
+	chunkExpr := expandChunkEdges(reExpr)
+	innerExpr := expandInnerEdges(reExpr)
 	reExpr = expandEdges(reExpr)
 
 	// Collect letters in the regexps.
@@ -96,6 +101,23 @@ func NewPattern(
 		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
 	}
 
+	// Compile regexps for the rest of a word after the first match.
+	reChunk, reInner := re, re
+
+	if chunkExpr != reExpr {
+		reChunk, err = regexp.Compile(chunkExpr)
+		if err != nil {
+			return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
+		}
+	}
+
+	if innerExpr != reExpr {
+		reInner, err = regexp.Compile(innerExpr)
+		if err != nil {
+			return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
+		}
+	}
+
 	// Compile negative lookahead/behind regexps.
 	var negA *regexp.Regexp
 	var negB *regexp.Regexp
@@ -116,7 +138,12 @@ func NewPattern(
 		}
 	}
 
-	p := &Pattern{expr, re, negA, negB, negAWidth, negBWidth, letters, usedVars}
+	p := &Pattern{
+		expr,
+		re, reChunk, reInner,
+		negA, negB, negAWidth, negBWidth,
+		letters, usedVars,
+	}
 	return p, nil
 }
 
@@ -173,6 +200,19 @@ func pickStartStop(m []int) (int, int) {
 	return start, stop
 }
 
+// reAt chooses the positive regexp to search on word[offset:]. The start of a
+// shifted word is not the start of the string.
+func (p *Pattern) reAt(word string, offset int) *regexp.Regexp {
+	switch {
+	case offset == 0:
+		return p.re
+	case endsChunk(word[:offset]):
+		return p.reChunk
+	default:
+		return p.reInner
+	}
+}
+
 // Find searches up to n matches in the word. If n is -1, it will search all
 // matches. The result is an array of submatch locations.
 func (p *Pattern) Find(word string, n int) [][]int {
@@ -183,7 +223,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 
 	for offset < length && (n < 0 || len(matches) < n) {
 		// Find submatches on a shifted word.
-		m := p.re.FindStringSubmatchIndex(word[offset:])
+		m := p.reAt(word, offset).FindStringSubmatchIndex(word[offset:])
 		for i := range m {
 			if m[i] != -1 {
 				m[i] += offset
-- 
2.43.0


From 5599c49cd3af38841fb5e3f03514197a3ff0b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 02/31] fix: look around negatively by letters, not by bytes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The widths of the negative lookarounds are counted in letters but they were
used as the number of bytes. So "a{~б}" matched with "aб". A negative lookbehind
wider than the preceding letters was not tested at all.
---
 pkg/hre/pattern.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 8c0926e..634cb5e 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/pkg/errors"
 )
@@ -44,8 +45,8 @@ type Pattern struct {
 	negA *regexp.Regexp // negative ahead regexp
 	negB *regexp.Regexp // negative behind regexp
 
-	negAWidth int // max width of nagative lookahead
-	negBWidth int // max width of nagative lookbehind
+	negAWidth int // max width of nagative lookahead in letters
+	negBWidth int // max width of nagative lookbehind in letters
 
 	// Letters used in the positive/negative regexps.
 	letters map[rune]bool
@@ -267,7 +268,8 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				// The width is counted in letters.
+				negAStop = m[lenM-4] + p.negAWidth*utf8.UTFMax
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -283,7 +285,11 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				// The width is counted in letters.
+				negBStart = m[5] - p.negBWidth*utf8.UTFMax
+				if negBStart < 0 {
+					negBStart = 0
+				}
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
-- 
2.43.0


From 98bf30030f8f2e9f435c827dd22b86abce510c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 03/31] fix: keep the unlimited width of a repeated expression

RegexpMaxWidth returned -2 for "(?:a*){2}", so an unlimited negative
lookaround was not rejected.
---
 pkg/hre/width.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..3216b0b 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,12 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 && re.Max != 0 {
+			// Unlimited sub is still unlimited.
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From cabf6e7871dab7dd60193872b233fd5522b223a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 04/31] fix: map vars by their own capturing groups

Interpolate assumed that the n-th var is the n-th group of the match. It
panicked or mapped wrong letters when there was a var in a lookaround, another
group before the var, a var which was not matched, or an undefined var.
---
 pkg/hre/pattern.go  |  8 ++++----
 pkg/hre/rpattern.go | 13 +++++++++++--
 pkg/hre/util.go     | 10 +++++++++-
 pkg/hre/var.go      | 30 +++++++++++++++++++++++++++---
 4 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 634cb5e..2665d45 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -51,8 +51,8 @@ type Pattern struct {
 	// Letters used in the positive/negative regexps.
 	letters map[rune]bool
 
-	// References to expanded vars.
-	usedVars [][]string
+	// References to captured vars.
+	usedVars []usedVar
 }
 
 func (p *Pattern) String() string {
@@ -77,7 +77,7 @@ func NewPattern(
 
 	reExpr = expandMacros(reExpr, macros)
 
-	reExpr, usedVars := expandVars(reExpr, vars)
+	reExpr, expandedVars := expandVars(reExpr, vars)
 
 	reExpr, negAExpr, negBExpr, negAWidth, negBWidth, err :=
 		expandLookaround(reExpr)
@@ -143,7 +143,7 @@ func NewPattern(
 		expr,
 		re, reChunk, reInner,
 		negA, negB, negAWidth, negBWidth,
-		letters, usedVars,
+		letters, capturedVars(re, expandedVars),
 	}
 	return p, nil
 }
diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..f5dd8c1 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -116,10 +116,19 @@ func (rp *RPattern) Interpolate(
 				return "", err
 			}
 			fromVar := p.usedVars[varIndex]
-			fromVal := captured(word, m, varIndex+1)
+
+			// The match has no groups of the lookbehind and its edge.
+			group := fromVar.group - 2
+			if m[group*2] == -1 {
+				return "", errors.New("mapped var not matched")
+			}
+			fromVal := captured(word, m, group)
 
 			// Find index of the matched character in the var.
-			i := indexOf(fromVal, fromVar)
+			i := indexOf(fromVal, fromVar.vals)
+			if i == -1 || len(part.usedVar) == 0 {
+				return "", errors.New("no value to map")
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..e732a1c 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -43,9 +43,17 @@ func captured(s string, m []int, n int) string {
 	return substr(s, m[i], m[i+1])
 }
 
+// reGroupStart matches an escaped letter or the start of a group.
+var reGroupStart = regexp.MustCompile(`\\.|\(\?P<.+?>|\(\?|\(`)
+
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	return reGroupStart.ReplaceAllStringFunc(expr, func(s string) string {
+		if s == "(" || strings.HasPrefix(s, "(?P<") {
+			return "(?:"
+		}
+		return s
+	})
 }
 
 // -----------------------------------------------------------------------------
diff --git a/pkg/hre/var.go b/pkg/hre/var.go
index ea76aaf..bd22dd7 100644
--- a/pkg/hre/var.go
+++ b/pkg/hre/var.go
@@ -1,6 +1,7 @@
 package hre
 
 import (
+	"fmt"
 	"regexp"
 	"strings"
 )
@@ -11,7 +12,14 @@ import (
 //	 └─┴─ (1)
 var reVar = re(`<(.+?)>`)
 
-// expandVars replaces <var> to corresponding content Regexp such as (a|b|c).
+// usedVar is a reference to a var which is used in a Pattern.
+type usedVar struct {
+	vals  []string
+	group int // index of the capturing group
+}
+
+// expandVars replaces <var> to corresponding content Regexp such as
+// (?P<var0>a|b|c). The name of the group indicates which var it came from.
 func expandVars(expr string, vars map[string][]string) (string, [][]string) {
 	var usedVars [][]string
 
@@ -19,20 +27,36 @@ func expandVars(expr string, vars map[string][]string) (string, [][]string) {
 		// Retrieve variable name and values.
 		_, vals := getVar(varExpr, vars)
 
+		name := fmt.Sprintf(`var%d`, len(usedVars))
 		usedVars = append(usedVars, vals)
 
-		// Build as Regexp like /(a|b|c)/.
+		// Build as Regexp like /(?P<var0>a|b|c)/.
 		escapedVals := make([]string, len(vals))
 		for i, val := range vals {
 			escapedVals[i] = regexp.QuoteMeta(val)
 		}
 
-		return `(` + strings.Join(escapedVals, `|`) + `)`
+		return `(?P<` + name + `>` + strings.Join(escapedVals, `|`) + `)`
 	})
 
 	return expr, usedVars
 }
 
+// capturedVars picks the vars which are captured by the expanded Regexp. The
+// vars in the lookarounds are not captured.
+func capturedVars(re *regexp.Regexp, vars [][]string) []usedVar {
+	var usedVars []usedVar
+
+	for i, vals := range vars {
+		group := re.SubexpIndex(fmt.Sprintf(`var%d`, i))
+		if group != -1 {
+			usedVars = append(usedVars, usedVar{vals, group})
+		}
+	}
+
+	return usedVars
+}
+
 // getVar parses a var expression, which looks like "<var>",
 // and returns the var name and values.
 func getVar(expr string, vars map[string][]string) (string, []string) {
-- 
2.43.0


From 593c3461609efa00ba0ab946c9a66cf212a5ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 05/31] fix: do not take escaped letters in a pattern as edges

A var value such as "^" or "$" is quoted when it is expanded, but the quoted
letter was taken as an edge. It made the pattern invalid. A negated class
"[^...]" was broken by the same reason.
---
 pkg/hre/assertions.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 0d35e91..7aca085 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -7,11 +7,11 @@ import (
 )
 
 var (
-	// ^^
-	reLeftEdge = re(`\^+`)
+	// ^^ (or an escaped letter or a negated class which is not an edge)
+	reLeftEdge = re(`\\.|\[\^|\^+`)
 
-	// $$
-	reRightEdge = re(`\$+`)
+	// $$ (or an escaped letter which is not an edge)
+	reRightEdge = re(`\\.|\$+`)
 
 	// {...}
 	//  └─┴─ (1)
@@ -227,6 +227,9 @@ func expandInnerEdges(expr string) string {
 
 func expandEdgesFrom(expr string, chunkStart, stringStart string) string {
 	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '^' {
+			return e
+		}
 		if e == `^` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:` + chunkStart + `|\s+|{})`
@@ -235,6 +238,9 @@ func expandEdgesFrom(expr string, chunkStart, stringStart string) string {
 		return stringStart
 	})
 	expr = reRightEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '$' {
+			return e
+		}
 		if e == `$` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:$|\s+|{})`
-- 
2.43.0


From 6581f59423d527570cbf98b5963ed70d941dd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 06/31] fix: expand overlapping macros in a fixed order

When a macro is a prefix of another one, the expansion depended on the random
order of the map. Now the longer macro always wins.
---
 pkg/hre/macro.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..c5c1f4a 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,29 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	// The replacer prefers the prior source when several sources match at the
+	// same position. So a longer source comes first, regardless of the map
+	// order.
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
-- 
2.43.0


From b65eeea4d8404fd20050e12b38722c10a4fa5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/31] fix: normalize overlapping letters in a fixed order

The custom normalization of a spec depended on the random order of the map when
some letters overlap each other.
---
 spec.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/spec.go b/spec.go
index 3a97367..cc67ea7 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -165,13 +166,7 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
-	for to, froms := range normalize {
-		for _, from := range froms {
-			args = append(args, from, to)
-		}
-	}
-	normReplacer := strings.NewReplacer(args...)
+	normReplacer := newNormReplacer(normalize)
 
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
@@ -210,6 +205,35 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// newNormReplacer creates a replacer for the custom normalization. When several
+// letters match at the same position, the longest one is replaced regardless
+// of the map order.
+func newNormReplacer(normalize map[string][]string) *strings.Replacer {
+	var pairs [][2]string
+	for to, froms := range normalize {
+		for _, from := range froms {
+			pairs = append(pairs, [2]string{from, to})
+		}
+	}
+
+	sort.Slice(pairs, func(i, j int) bool {
+		a, b := pairs[i], pairs[j]
+		if len(a[0]) != len(b[0]) {
+			return len(a[0]) > len(b[0])
+		}
+		if a[0] != b[0] {
+			return a[0] < b[0]
+		}
+		return a[1] < b[1]
+	})
+
+	args := make([]string, 0, len(pairs)*2)
+	for _, pair := range pairs {
+		args = append(args, pair[0], pair[1])
+	}
+	return strings.NewReplacer(args...)
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From fabf978859aec01bd43f2436f6206c95b804b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 08/31] fix: transliterate overlapping Cyrillic spellings in a
 fixed order

The replacer was built in the random order of the map. So "shchuka" or
"Yandex" could be transliterated differently by each process.
---
 translit/cyrillic/cyrillic.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..96c5a3d 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,22 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	// Prefer the longer one, for example "shch" rather than "sh", regardless of
+	// the map order.
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From dd57fd335cbef14b0bff046b9e32bda480fbe7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 09/31] fix: normalize Latin letters whose base letter is not
 ASCII
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"ǿ" was normalized into "ã" because only the first byte of the decomposition
was taken. Now it becomes "ø".
---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From 26ae7e20334ba1a4c6adb9408b83dad9845657f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 10/31] fix: keep every letter of a custom normalization

Only the first letter of a normalized form was kept from the per-script
normalization.
---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index cc67ea7..1cc411c 100644
--- a/spec.go
+++ b/spec.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -171,11 +170,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From 22f54704cd1cd176fa506c978a385784fed75cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 11/31] fix: keep the letters after a backslash in a quoted
 string

A backslash swallowed every letter until the next quote, so a string such as
"a\\.b" lost its tail and a backslash itself could not be written.
---
 pkg/hsl/lexer.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..0c30802 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -154,21 +154,19 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
-		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
-			}
-		}
+		if escaped {
+			escaped = false
 
-		if ch == '\\' {
+			// Only a quote and a backslash can be escaped.
+			if ch != '"' && ch != '\\' {
+				buf.WriteRune('\\')
+			}
+		} else if ch == '"' {
+			break
+		} else if ch == '\\' {
 			escaped = true
 			continue
 		}
-		if escaped {
-			continue
-		}
 
 		buf.WriteRune(ch)
 	}
-- 
2.43.0


From d8e29c3078d806736efa19bd8f3f3157843a0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 12/31] fix: report malformed strings and arrows as illegal
 tokens

An unterminated quoted string never ended to be scanned and exhausted the
memory. A hyphen which does not start an arrow was a panic.
---
 pkg/hsl/lexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 0c30802..92e5714 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -154,6 +154,10 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
+		if ch == eof {
+			return Illegal, `unterminated "` + buf.String()
+		}
+
 		if escaped {
 			escaped = false
 
@@ -181,7 +185,8 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		l.unread()
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
-- 
2.43.0


From 4f90c913891dabfaf3897c096cf7650c98754669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 13/31] fix: do not accept a truncated HSL source silently

NUL and an error of the reader were taken as the end of the source.
---
 pkg/hsl/hsl.go   |  8 +++++++-
 pkg/hsl/lexer.go | 28 +++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pkg/hsl/hsl.go b/pkg/hsl/hsl.go
index 0ed4af6..b38c7a3 100644
--- a/pkg/hsl/hsl.go
+++ b/pkg/hsl/hsl.go
@@ -37,5 +37,11 @@ import (
 // Parse parses an HSL formatted text.
 func Parse(r io.Reader) (HSL, error) {
 	p := newParser(r)
-	return p.parse()
+	h, err := p.parse()
+
+	// An error of the reader is prior to the error caused by the lost tail.
+	if readErr := p.lexer.Err(); readErr != nil {
+		return nil, readErr
+	}
+	return h, err
 }
diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 92e5714..41d3e02 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,25 +14,43 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// The first error of the reader. Nothing can be read after it.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{bufio.NewReader(r), 1, 1, nil}
 }
 
-const eof = rune(0)
+// eof is not a valid rune, so it never appears in the source.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
 	return l.line
 }
 
+// Err returns the error of the underlying reader. The end of the source is not
+// an error.
+func (l lexer) Err() error {
+	if l.err == io.EOF {
+		return nil
+	}
+	return l.err
+}
+
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
+	if l.err != nil {
+		return eof
+	}
+
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		l.err = err
 		return eof
 	}
 
@@ -46,6 +64,10 @@ func (l *lexer) read() rune {
 
 // unread rewinds the buffer cursor once.
 func (l *lexer) unread() {
+	if l.err != nil {
+		return
+	}
+
 	err := l.r.UnreadRune()
 	if err == nil {
 		l.line = l.prevLine
@@ -197,7 +219,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
-- 
2.43.0


From 54ca5332559c4b3ec603f3d07933d71fe445e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 14/31] fix: end the values at a trailing comment

A comment token includes the newline. So the pair in the next line was merged
into the values before the comment:

    codes = "it", "ita" # ISO 639-1 and 3 codes
    english = "Italian"
---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..5c8b2ad 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -122,7 +122,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment token includes the newline.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 0a8d9b807a8d5beefedbe27b63e91004d412ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 15/31] fix: report a duplicated key as an error

hsl.Parse panicked on a source having same keys in a dict section.
---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 5c8b2ad..1ca5941 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From b9bbc975bd7569e7f05c3da0c6a55a63257243c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 16/31] fix: report a malformed section of a spec as an error

ParseSpec panicked when a dict section was written as a list section or vice
versa, or when a rule had no right.
---
 spec.go | 75 +++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 8 deletions(-)

diff --git a/spec.go b/spec.go
index 1cc411c..55bf97f 100644
--- a/spec.go
+++ b/spec.go
@@ -76,7 +76,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -89,7 +94,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -102,8 +112,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
 
+		macros, err = dict.Injective()
 		if err != nil {
 			return nil, err
 		}
@@ -112,19 +126,30 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		rewritePairs, err = listPairs("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -135,7 +160,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		transcribePairs, err = listPairs("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -146,7 +174,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		pairs, err := listPairs("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range pairs {
 			word := pair.Left()
 			result := pair.Right()[0]
 
@@ -201,6 +234,32 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// dictSection asserts that the given section is a dict section.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("section must be a dict: %s", name)
+	}
+	return dict, nil
+}
+
+// listPairs asserts that the given section is a list section and every pair in
+// the section has a right. It returns the pairs.
+func listPairs(name string, sec hsl.Section) ([]hsl.Pair, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("section must be a list: %s", name)
+	}
+
+	pairs := list.Pairs()
+	for _, pair := range pairs {
+		if len(pair.Right()) == 0 {
+			return nil, errors.Errorf("right of pair not found: %s: %#v", name, pair.Left())
+		}
+	}
+	return pairs, nil
+}
+
 // newNormReplacer creates a replacer for the custom normalization. When several
 // letters match at the same position, the longest one is replaced regardless
 // of the map order.
-- 
2.43.0


From ecf9e33a398127f286c6b0604d9f28cc866c2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 17/31] fix: read the author of a spec

The documentation and every bundled spec write "author" in the config section
but only "authors" was read. So the authors were always unknown.
---
 spec.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spec.go b/spec.go
index 55bf97f..0196b68 100644
--- a/spec.go
+++ b/spec.go
@@ -338,8 +338,13 @@ type Config struct {
 }
 
 func newConfig(dict *hsl.DictSection) (*Config, error) {
+	// A spec may have just one author.
+	authors := make([]string, 0)
+	authors = append(authors, dict.All("author")...)
+	authors = append(authors, dict.All("authors")...)
+
 	config := Config{
-		Authors: dict.All("authors"),
+		Authors: authors,
 		Stage:   dict.One("stage"),
 	}
 	return &config, nil
-- 
2.43.0


From 4eec306528fb1b0079095f9e8c3cb1012e8b4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 18/31] fix: create the Kagome tokenizer once

Concurrent first calls of Transliterate raced on the cached tokenizer.
---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..0233333 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -17,20 +19,21 @@ var T hangulize.Translit = &furigana{}
 // ----------------------------------------------------------------------------
 
 type furigana struct {
+	once   sync.Once
 	kagome *kagome.Tokenizer
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From 5d546fc4f75d1df01954ae6c5ca0f330b1766c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 19/31] fix: allow concurrent use of the package-level
 functions

LoadSpec, UnloadSpec, Hangulize and the default Translit registry shared maps
without a lock. Concurrent calls could crash the process by "concurrent map
writes".
---
 hangulize.go |  2 +-
 specs.go     | 19 ++++++++++++++++---
 translit.go  | 13 ++++++++++++-
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/hangulize.go b/hangulize.go
index 59707fa..2f156b7 100644
--- a/hangulize.go
+++ b/hangulize.go
@@ -12,7 +12,7 @@ func Hangulize(lang string, word string) (string, error) {
 		return word, err
 	}
 
-	h := &hangulizer{spec, defaultTranslitRegistry, nil}
+	h := &hangulizer{spec, Translits(), nil}
 	return h.Hangulize(word)
 }
 
diff --git a/specs.go b/specs.go
index ea2d727..df0d068 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -35,14 +36,17 @@ func ListLangs() []string {
 }
 
 // Cached specs.
-var specs = make(map[string]*Spec)
+var (
+	specs   = make(map[string]*Spec)
+	specsMu sync.RWMutex
+)
 
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
-	var spec *Spec
-
+	specsMu.RLock()
 	spec, ok := specs[lang]
+	specsMu.RUnlock()
 	if ok {
 		// already loaded
 		return spec, nil
@@ -63,11 +67,20 @@ func LoadSpec(lang string) (*Spec, error) {
 	}
 
 	// Cache it.
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
+	if cached, ok := specs[lang]; ok {
+		// loaded by another goroutine in the meantime
+		return cached, nil
+	}
 	specs[lang] = spec
 	return spec, nil
 }
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
 	delete(specs, lang)
 }
diff --git a/translit.go b/translit.go
index 7a821e7..93d072f 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -46,19 +48,28 @@ func (r translitRegistry) Remove(scheme string) bool {
 }
 
 // defaultTranslitRegistry the default Translit registry.
-var defaultTranslitRegistry = make(translitRegistry)
+var (
+	defaultTranslitRegistry   = make(translitRegistry)
+	defaultTranslitRegistryMu sync.RWMutex
+)
 
 // Translits returns a copy of the default Translit registry.
 func Translits() map[string]Translit {
+	defaultTranslitRegistryMu.RLock()
+	defer defaultTranslitRegistryMu.RUnlock()
 	return defaultTranslitRegistry.Detach()
 }
 
 // UseTranslit imports a Translit into the default registry.
 func UseTranslit(t Translit) bool {
+	defaultTranslitRegistryMu.Lock()
+	defer defaultTranslitRegistryMu.Unlock()
 	return defaultTranslitRegistry.Add(t)
 }
 
 // UnuseTranslit removes an imported Translit from the default registry.
 func UnuseTranslit(scheme string) bool {
+	defaultTranslitRegistryMu.Lock()
+	defer defaultTranslitRegistryMu.Unlock()
 	return defaultTranslitRegistry.Remove(scheme)
 }
-- 
2.43.0


From 99b415ec1ec773117600e97e9046864b2d422c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 20/31] fix: transcribe every line of stdin

A blank line stopped the stream and the last line without a newline was
discarded.
---
 cmd/hangulize/main.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..b11c6d9 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -49,12 +49,7 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 	ch := make(chan string)
 	go readWords(ch, args)
 
-	for {
-		word := <-ch
-		if word == "" {
-			break
-		}
-
+	for word := range ch {
 		var (
 			result string
 			traces []hangulize.Trace
@@ -80,15 +75,20 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 }
 
 func readWords(ch chan<- string, args []string) {
+	defer close(ch)
+
 	if len(args) == 1 {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
-			if err != nil {
+			if err != nil && word == "" {
 				break
 			}
 			word = strings.TrimSpace(word)
 			ch <- word
+			if err != nil {
+				break
+			}
 		}
 	} else {
 		for _, word := range args[1:] {
@@ -97,5 +97,4 @@ func readWords(ch chan<- string, args []string) {
 			}
 		}
 	}
-	ch <- ""
 }
-- 
2.43.0


From 7ead62da75feeacdd0e1cbd366d6e097bf90628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 21/31] fix: import the standard Translits to test or develop a
 spec

"hangulize test specs/jpn.hsl" always failed because no Translit was imported.
---
 cmd/hangulize/dev.go  | 2 ++
 cmd/hangulize/test.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/hangulize/dev.go b/cmd/hangulize/dev.go
index 7a649ae..4ed291c 100644
--- a/cmd/hangulize/dev.go
+++ b/cmd/hangulize/dev.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -32,6 +33,7 @@ var devCmd = &cobra.Command{
 
 		// Test the spec.
 		h := hangulize.New(spec)
+		translit.Install(h)
 		hangulizeStream(cmd, args, h)
 		return nil
 	},
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..e831868 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -62,6 +63,7 @@ var testCmd = &cobra.Command{
 				traces   []hangulize.Trace
 			)
 			h := hangulize.New(spec)
+			translit.Install(h)
 
 			// Run test.
 			for _, exm := range spec.Test {
-- 
2.43.0


From 4fabb4b0b3006eba3d5793b62029fb7937149a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 22/31] fix: write a correct coverage profile for every spec

A spec without rewrite or transcribe section was a panic, a shorter profile left
the tail of the existing file, and the coverage of no rules was NaN.
---
 cmd/hangulize/cover.go | 17 +++++++++++++++--
 cmd/hangulize/test.go  |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..7b00ec8 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -79,6 +79,11 @@ func (c *cover) Coverage() float64 {
 		total += len(spec.Transcribe)
 	}
 
+	if total == 0 {
+		// There's no rule to be covered.
+		return 0.0
+	}
+
 	return float64(len(c.covered)) / float64(total)
 }
 
@@ -128,7 +133,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
+		rewritePairs := pairsOf(hsl["rewrite"])
 		for _, rule := range spec.Rewrite {
 			line := rewritePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -136,7 +141,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
+		transcribePairs := pairsOf(hsl["transcribe"])
 		for _, rule := range spec.Transcribe {
 			line := transcribePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -148,6 +153,14 @@ func (c *cover) WriteProfile(w io.Writer) error {
 	return nil
 }
 
+// pairsOf returns the pairs of a section. A spec may not have the section.
+func pairsOf(section hsl.Section) []hsl.Pair {
+	if section == nil {
+		return nil
+	}
+	return section.Pairs()
+}
+
 func btoi(b bool) int {
 	if b {
 		return 1
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index e831868..c5c6e21 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -112,7 +112,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From 40634a5137627628bebe833c219dfcf52b60b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 23/31] fix: refuse a pattern ending with a backslash

---
 pkg/hre/assertions.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 7aca085..0e77c29 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -64,6 +64,10 @@ var (
 )
 
 func expandLookaround(expr string) (string, string, string, int, int, error) {
+	if err := mustNoDanglingEscape(expr); err != nil {
+		return ``, ``, ``, 0, 0, err
+	}
+
 	posExpr, negAExpr, negAWidth := expandLookahead(expr)
 	posExpr, negBExpr, negBWidth := expandLookbehind(posExpr)
 
@@ -198,6 +202,17 @@ func mustNoZeroWidth(expr string) error {
 	return nil
 }
 
+// mustNoDanglingEscape refuses a backslash which would escape the parenthesis
+// put after the core expression.
+func mustNoDanglingEscape(expr string) error {
+	core := expr[:reLookahead.FindStringIndex(expr)[0]]
+	escapes := len(core) - len(strings.TrimRight(core, `\`))
+	if escapes%2 != 0 {
+		return fmt.Errorf("trailing backslash found: %#v", expr)
+	}
+	return nil
+}
+
 // endsChunk tests if a new chunk starts right after the given string.
 func endsChunk(s string) bool {
 	if s == "" {
-- 
2.43.0


From 636f0cb0dbd8f9e8b72621bdd82f6a08b47488db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 24/31] fix: refuse a positive lookaround starting with a
 quantifier

---
 pkg/hre/assertions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 0e77c29..834caf6 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -119,7 +119,8 @@ func dissolveLookaround(
 		return ``, ``, 0, false
 	}
 
-	return lookExpr, ``, 0, true
+	// Grouped, a leading "?" can't be taken as flags of the outer group.
+	return `(?:` + lookExpr + `)`, ``, 0, true
 }
 
 // Lookahead: {...} on the right-side.
-- 
2.43.0


From f0e7ec2e4557e179f1bb2d06b8e92f6ca5cc00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 25/31] fix: refuse an invalid negative lookaround

---
 pkg/hre/assertions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 834caf6..94a339b 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -101,11 +101,11 @@ func dissolveLookaround(
 		if !hasEdge {
 			negExpr = fmt.Sprintf(format, lookExpr[1:])
 
+			// An invalid expression is going to fail when it is compiled.
 			re, err := syntax.Parse(negExpr, syntax.Perl)
-			if err != nil {
-				return ``, ``, 0, false
+			if err == nil {
+				negWidth = RegexpMaxWidth(re)
 			}
-			negWidth = RegexpMaxWidth(re)
 		}
 
 		return ``, negExpr, negWidth, true
-- 
2.43.0


From a45b16f58db4d00b64c49446ea83ba3751d13ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 26/31] fix: do not take letters after an escaped one as
 escaped

---
 pkg/hre/util.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index e732a1c..e07dc04 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -105,26 +105,16 @@ func re(verboseExpr string) *regexp.Regexp {
 // Finding meaningful letters from Regexp
 
 var (
-	reSpace  = regexp.MustCompile(`\s`)
-	reGroup  = regexp.MustCompile(`\(\?(:|P<.+?>)`)
-	reMeta   = regexp.MustCompile(`/`)
-	reQuoted = regexp.MustCompile(`\\.`)
+	reNoLetter = regexp.MustCompile(`\\.|\s|\(\?(:|P<.+?>)|/`)
+	reQuoted   = regexp.MustCompile(`\\.`)
 )
 
 func regexpLetters(reExpr string) string {
 	letters := reExpr
 
-	// Remove spaces.
-	letters = reSpace.ReplaceAllString(letters, ``)
-
-	// Remove group starters "(?:", "(?P<...>".
-	letters = reGroup.ReplaceAllString(letters, ``)
-
-	// Remove meta characters.
-	letters = reMeta.ReplaceAllString(letters, ``)
-
-	// Remove escaped letters.
-	letters = reQuoted.ReplaceAllString(letters, ``)
+	// Remove escaped letters, spaces, group starters "(?:", "(?P<...>", and
+	// meta characters at once. What is left must not be taken as one of them.
+	letters = reNoLetter.ReplaceAllString(letters, ``)
 
 	// Quote Regexp meta letters.
 	letters = regexp.QuoteMeta(letters)
-- 
2.43.0


From eefe06e0d9a9b32e47502ef570849779bd785dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 27/31] fix: link to any example word

---
 web/src/components/Examples.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/components/Examples.tsx b/web/src/components/Examples.tsx
index 9fbc5f0..26262cb 100644
--- a/web/src/components/Examples.tsx
+++ b/web/src/components/Examples.tsx
@@ -34,7 +34,7 @@ export default function Examples({ specs, lang }: ExamplesProps) {
       <label>예시</label> <Icon name="shuffle" link onClick={shuffle} />
       {examples.map((x, i) => {
         return (
-          <Label as={Link} to={`?lang=${lang}&word=${x.word}`} key={i}>
+          <Label as={Link} to={`?${new URLSearchParams({ lang: lang, word: x.word })}`} key={i}>
             {x.word}
           </Label>
         )
-- 
2.43.0


From ac388f1d7f781342f911c7a3faac2e212052cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 28/31] fix: drop a late result after the word has been cleared

---
 web/src/hangulize/useHangulize.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/src/hangulize/useHangulize.ts b/web/src/hangulize/useHangulize.ts
index 49a6b69..aff1875 100644
--- a/web/src/hangulize/useHangulize.ts
+++ b/web/src/hangulize/useHangulize.ts
@@ -119,6 +119,9 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
   useEffect(() => {
     async function hangulizeEffect() {
       if (!hangulize.isValidInput(input)) {
+        // Drop the result of the currently running job.
+        target.current = { lang: '', word: '' }
+
         setResult('')
         setState(HangulizeState.IDLE)
 
-- 
2.43.0


From 682ef64d0b8e0df382b13d041a665fe5d339e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 29/31] fix: write a coverage profile of lines longer than 64
 KiB

The scanner stopped at such a line, and the column of a later rule was looked
up out of range.
---
 cmd/hangulize/cover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 7b00ec8..4716450 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -128,6 +128,8 @@ func (c *cover) WriteProfile(w io.Writer) error {
 
 		cols := make([]int, 0)
 		scanner := bufio.NewScanner(file)
+		// A line may be as long as the file.
+		scanner.Buffer(nil, len(spec.Source)+1)
 		for scanner.Scan() {
 			col := len(scanner.Text()) + 1
 			cols = append(cols, col)
-- 
2.43.0


From 0bfbdeb9d4fc05356e5d87d88e127cb0db07c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 30/31] fix: survive a transliteration rejected by any value

---
 cmd/hangulize.wasm/translit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..5cbf1e1 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -38,8 +38,12 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	})
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
-		catchCh <- err
+		// A promise can be rejected by any value, not only by an Error.
+		reason := args[0]
+		if reason.Type() == js.TypeObject {
+			reason = reason.Get("message")
+		}
+		catchCh <- errors.New(js.Global().Call("String", reason).String())
 		return nil
 	})
 
-- 
2.43.0


From 6c48571bcbb7fff78bab2d6f2757261dd36d2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 31/31] fix: refuse a negative lookaround starting with a
 quantifier

"{~?:a}" compiled into another pattern because the "?" was taken as flags of
the group.
---
 pkg/hre/assertions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 94a339b..1f84d6e 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -99,7 +99,8 @@ func dissolveLookaround(
 		)
 
 		if !hasEdge {
-			negExpr = fmt.Sprintf(format, lookExpr[1:])
+			// Grouped for the same reason as a positive one.
+			negExpr = fmt.Sprintf(format, `(?:`+lookExpr[1:]+`)`)
 
 			// An invalid expression is going to fail when it is compiled.
 			re, err := syntax.Parse(negExpr, syntax.Perl)
-- 
2.43.0

