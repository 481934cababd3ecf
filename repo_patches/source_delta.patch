From 67b03f9ca172fa56871c6a7850d614e11f76fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 01/22] fix: add the missing runesio.AsRunesWriter

Package linebreak (and the tests of package attributes) did not compile
without it.
---
 terminal/runes/runesio/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..cd535b0 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,17 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter yields a runes Writer from an io.Writer.
+//
+// A writer that already knows how to write runes is returned as is.
+func AsRunesWriter(w io.Writer) Writer {
+	if rw, ok := w.(Writer); ok {
+		return rw
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From 50f0f9a0b2181c2420c85893db4a2fdc333aa4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 02/22] fix: ansi: read the keycode that follows a 3-digits
 parameter

ESC[107m or ESC[38;5;196m were not recognized, and a token ending with
ESC[123 panicked (or exposed runes past the end of the token).
---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..7fd17e4 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; i <= maxDigits; i++ { // reads past the last digit: the delimiter or the keycode
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if i == maxDigits || !unicode.IsDigit(r) {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; i <= maxDigits; i++ { // reads past the last digit: the delimiter or the keycode
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if i == maxDigits || !unicode.IsDigit(r) {
 				break
 			}
 
-- 
2.43.0


From 1f669b66b1006598b353f7578689b18a6928e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 03/22] fix: ansi: detect a sequence that follows a lone ESC

The second ESC of ESC ESC[0m was swallowed as text and the sequence missed.
---
 terminal/ansi/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 7fd17e4..ed53899 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -328,7 +328,8 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			// not a sequence: the rune just read may start another one
+			_, _ = rdr.Seek(-1, io.SeekCurrent)
 		}
 
 		runeCount++
-- 
2.43.0


From 4c20dce79f993c2e3c858d251104faaca6e4d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 04/22] fix: ansi: do not swallow the ESC that aborts an
 unfinished sequence

ESC[1 followed by ESC[0m hid the second sequence.
---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index ed53899..6023240 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -294,7 +294,7 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		sequenceKind = otherSequence
 	}
 
-	if err == nil {
+	if err == nil && r != esc { // ESC aborts the current sequence and starts another one
 		runeCount++
 		nextStart++
 	}
-- 
2.43.0


From 253cea8bade0b7c9fa2e6639727576735b18e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 05/22] fix: hyphenator: do not lose the last break point of a
 long word

Positions were kept in a buffer of 30, then stripped from its last item: for
a word of more than 28 letters this was an actual position.
---
 wordbreak/hyphenator/hyphenator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..6494c87 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -59,7 +59,7 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	// allocate buffers once for all iterations
 	hasPatterns := false
 	allBreakPoints := make([][]int, 0, wordLength+2)
-	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
+	positions := make([]int, wordLength+3) // the resulting hyphenation positions: as many as the length of ".word." plus one
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
 	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
-- 
2.43.0


From dd04dbf8aaeaad9e3fefcb17db3e261ebd447979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 06/22] fix: hyphenator: never break both before the first and
 after the last letter

Only one of the two was ruled out: with a null minimum right length, a word
could yield an empty last part.
---
 wordbreak/hyphenator/hyphenator.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 6494c87..2cfef6a 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -73,10 +73,8 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
+	positions[0] = 0 // sometimes hyphen before first letter is "allowed"
+	if len(positions) > wordLength {
 		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 	}
 
-- 
2.43.0


From 0fbafe8ec6369eb8f5bd34994fd553637a072e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 07/22] fix: hyphenator: apply the patterns that match from the
 last letter

Patterns such as "8d." or "1d" were never matched against the last letter, so
hyphens they forbid or allow there were wrong.
---
 wordbreak/hyphenator/hyphenator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 2cfef6a..be6a700 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -62,7 +62,7 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	positions := make([]int, wordLength+3) // the resulting hyphenation positions: as many as the length of ".word." plus one
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
-- 
2.43.0


From 763d10a913ae12cd46df9968746d3b21f66e7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 08/22] fix: hyphenator: look up exceptions regardless of the
 case

Patterns are matched regardless of the case, but an exception such as
"table" was not honored for "Table".
---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index be6a700..75091d9 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -82,7 +82,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lowered := make([]rune, 0, len(word))
+	for _, r := range word {
+		lowered = append(lowered, unicode.ToLower(r))
+	}
+
+	val := h.exceptions.Get(lowered)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From ea63fb10841e43d6c003bd3fac6de30c8a85988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 09/22] fix: hyphenator: select patterns of the base language
 for regional variants

fr-CH or de-AT fell back to the patterns for American English.
---
 wordbreak/hyphenator/languages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..f560e4e 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,10 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	// the tag returned by the matcher may carry extensions (e.g. fr-u-rg-chzzzz for fr-CH): use the index
+	_, index, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[index] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From d9913214700a81a4f21c1f83d33b9316a328dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 10/22] fix: runes: measure a slice of runes as the sum of the
 widths of its runes

Widths and StringWidth yielded 0 for U+2E3B (4 cells) and panicked on invalid
code points, which have no width.
---
 terminal/runes/width.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..4da0b0c 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -48,9 +48,8 @@ func Widths(runes []rune, opts ...Option) (width int) {
 		return width
 	}
 
-	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		width += Width(r) // some code points are not resolved by the lookup table
 	}
 
 	return width
-- 
2.43.0


From 003cf0ef9e44ce6075c561ccec35e27354f92c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 11/22] fix: hyphenator: read the exception that precedes the
 closing brace

---
 wordbreak/hyphenator/dictionary.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..5a1850b 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -115,8 +115,13 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		case strings.HasPrefix(line, exceptionsSection):
 			// decode the exceptions section
 			for scanner.Scan() {
-				line = scanner.Text()
-				dict.exceptions.Put(dict.readException(line))
+				line = strings.TrimSpace(scanner.Text())
+				// the closing brace may follow the last exception
+				exception := strings.TrimSuffix(line, "}")
+				dict.exceptions.Put(dict.readException(exception))
+				if exception != line {
+					break
+				}
 			}
 
 		case isTeXComment(line):
-- 
2.43.0


From 1897c7233a052f69fb83bcd75df4f934e3e937b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 12/22] fix: attributes: close and reopen only the attributes
 still open at a line break

StartOfLine started again attributes that were stopped already, or not
rendered yet, and EndOfLine wrote again stop sequences already rendered,
while leaving the outer levels open.
---
 attributes/state.go | 103 +++++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 64 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..f46fe27 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -97,97 +97,72 @@ func (i *StateIterator) Item() Renderer {
 	return i.current.Value.(Renderer)
 }
 
-func (i *StateIterator) backtrack(level int) *list.Element {
-	if i.current == nil {
+// opened yields the renderers with a start sequence not stopped yet, from the outermost to the innermost,
+// once the currently iterated renderer has been rendered.
+func (i *StateIterator) opened() []Renderer {
+	if i.start || i.current == nil {
 		return nil
 	}
 
-	current := i.current
-	/*
-		attribute := current.Value.(Renderer)
-		currentLevel := attribute.Level()
-	*/
-
-	// backtrack to the first renderer for this level
-	for current != nil {
-		lookback := current.Prev()
-		if lookback == nil {
-			return current
+	first := i.current
+	for first.Prev() != nil {
+		first = first.Prev()
+	}
+
+	var open []Renderer
+	for element := first; element != nil; element = element.Next() {
+		attribute := element.Value.(Renderer)
+
+		if attribute.HasStart() {
+			open = append(open, attribute)
 		}
 
-		attribute := lookback.Value.(Renderer)
-		if attribute.Level() < level {
-			return current
+		if attribute.HasStop() && len(open) > 0 {
+			open = open[:len(open)-1]
 		}
 
-		current = lookback
+		if element == i.current {
+			break
+		}
 	}
 
-	return nil
+	return open
 }
 
 // StartOfLine restores the state of attributes to start a new line.
 func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
-		return
-	}
-
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// starts all rendering sequences for this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-
+	for _, attribute := range i.opened() {
 		attribute.Start(w)
-
-		if current == i.current {
-			break
-		}
-
-		current = current.Next()
 	}
 }
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	remaining := len(i.opened())
+	if remaining == 0 {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
+	// look forward for the stop sequences that will close the opened levels
+	nested := 0
+	for element := i.current.Next(); element != nil && remaining > 0; element = element.Next() {
+		attribute := element.Value.(Renderer)
 
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
+		if attribute.HasStart() {
+			nested++
+		}
 
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-		level := attribute.Level()
+		if !attribute.HasStop() {
+			continue
+		}
 
-		if level < currentLevel {
-			break
+		if nested > 0 {
+			nested--
+
+			continue
 		}
 
 		attribute.Stop(w)
-
-		current = current.Next()
+		remaining--
 	}
 }
-- 
2.43.0


From be32ff5343f4e111cca863b4826ed36584057a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 13/22] fix: linebreak: forget the attributes of the previous
 paragraph

A line breaker used twice rendered the start sequences of the first
paragraph in the second one.
---
 linebreak/linebreaker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..692bb8d 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -79,6 +79,7 @@ func New(opts ...Option) *LineBreaker {
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
+	l.attrList = attributes.NewState()
 	l.nodes = l.leftAlignedNodes(tokens)
 
 	// 2. build a model for desired widths for lines
-- 
2.43.0


From 920679c641c7ab5713ab0c994bd37855ed448b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 14/22] fix: linebreak: do not take any node with the same
 penalty for a soft hyphen

With a hyphen penalty of 200, "well-known" was rendered as "well--"; with
a penalty of 400, a hyphen was added after the punctuation marks.
---
 linebreak/knuth_plass_types.go | 8 ++++++++
 linebreak/linebreaker.go       | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..2732f2f 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -11,6 +11,7 @@ type (
 		nodeType  nodeType
 		penalty   float64
 		flagged   bool
+		hyphen    bool // a penalty that stands for a soft hyphen
 		value     []rune
 		attribute attributes.Renderer // attributes such as color, italic, bold ...
 
@@ -129,6 +130,13 @@ func newPenalty(width float64, penalty float64, flagged bool) nodeT {
 	}
 }
 
+func newSoftHyphen(width float64, penalty float64) nodeT {
+	node := newPenalty(width, penalty, flaggedPenalty)
+	node.hyphen = true
+
+	return node
+}
+
 // newFitnessClass establish a coarse fitness classification according to the cost ratio.
 func newFitnessClass(ratio float64) fitnessClass {
 	switch {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 692bb8d..c758fd8 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -178,7 +178,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.hyphen && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -297,7 +297,7 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0


From d2a3f3beb55fc505c3022d45476bcd29aeca8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 15/22] fix: linebreak: lines that start with a punctuation
 mark may be loose

The stretch given to punctuation marks and explicit hyphens came before
the box, so it was taken for consumed when the mark starts a line: such a
line was feasible on an exact fit only.
---
 linebreak/linebreaker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index c758fd8..371e1e9 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -229,9 +229,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				// the punctuation mark. E.g. ";", "&", "." should probably deserve a special processing.
 				// For the moment, this package essentially supports rendering with fixed-width fonts on a terminal, so this is not really needed.
 				nodes = append(nodes,
+					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
 					newPenalty(noWidth, infinity, unflaggedPenalty),
 					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
-					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
@@ -252,9 +252,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				if hyphenator.IsHyphen(word) {
 					tokenState.Start(word)
 					nodes = append(nodes,
+						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, infinity, unflaggedPenalty),
 						newGlue(noWidth, l.glueStretch, noShrink),
-						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens
 						newGlue(noWidth, -l.glueStretch, noShrink),
 					)
-- 
2.43.0


From c72a8ae96b480ca9e6bc54127c54508cc9c80776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 16/22] fix: linebreak: lines broken without a hyphen may be
 loose

With the rendering of hyphens disabled, a word could only be broken where
it fits the line exactly, otherwise the paragraph could not be set.
---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 371e1e9..e86bc7a 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -304,7 +304,10 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 
 	return []nodeT{
 		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
+		newPenalty(noWidth, infinity, unflaggedPenalty),
+		newGlue(noWidth, l.glueStretch, noShrink),
 		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		newGlue(noWidth, -l.glueStretch, noShrink),
 	}
 }
 
-- 
2.43.0


From 50ebd95fa3d6901f2a0f315b1fe216f86ee7ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 17/22] fix: linebreak: do not lose the escape sequences that
 come without a text

In "\x1b[1m\x1b[31mfoo\x1b[0m", the first sequence was dropped, as were
the sequences in a token of their own. An empty first token prevented
the paragraph to be set.
---
 linebreak/linebreaker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index e86bc7a..daed66c 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -281,6 +281,13 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				)
 			}
 		}
+
+		if !tokenState.isStarted {
+			// no text: keep the escape sequences
+			tokenState.Start(nil)
+			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+		}
+
 		// add stop to the last renderer
 		tokenState.Stop()
 	}
-- 
2.43.0


From f256b53de61cb0b70b8101a10c34148ae3a8c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 18/22] fix: linebreak: an empty paragraph has no line, this is
 not an error

---
 linebreak/linebreaker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index daed66c..3b16f6c 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,10 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	if len(tokens) == 0 {
+		return nil, nil
+	}
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.attrList = attributes.NewState()
 	l.nodes = l.leftAlignedNodes(tokens)
-- 
2.43.0


From 8aa0d4fca610946e424ad6ad9eb54eebc8820754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 19/22] fix: linebreak: choose the breaks with the least total
 demerits

Demerits were never accumulated: the demerits recorded at each break point
were those of the start of the paragraph, so the first feasible break was
retained whatever its demerits. Besides, candidates were iterated over in
the order of a map, so lines could differ from one call to the other.
---
 linebreak/knuth_plass.go       | 12 ++++++------
 linebreak/knuth_plass_types.go | 19 +++++++++++++------
 linebreak/linebreaker.go       |  2 +-
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..00f8640 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -185,7 +185,7 @@ func (l *LineBreaker) mainLoop(index int) {
 
 	var (
 		currentLine int // will range over lines starting from 1
-		candidates  map[fitnessClass]*breakPoint
+		candidates  []candidateT
 	)
 
 	lowestDemerits := maxDemerit
@@ -210,7 +210,7 @@ func (l *LineBreaker) mainLoop(index int) {
 				lowestDemerits = minf(lowestDemerits, demerits)
 
 				if demerits < candidates[currentClass].totalDemerits {
-					candidates[currentClass] = active
+					candidates[currentClass] = candidateT{breakPoint: active, totalDemerits: demerits}
 				}
 			}
 
@@ -230,7 +230,7 @@ func (l *LineBreaker) mainLoop(index int) {
 	}
 }
 
-func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
+func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates []candidateT) {
 	sum := l.sumFromNode(index)
 
 	for class, candidate := range candidates {
@@ -243,9 +243,9 @@ func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index in
 			index,                                    // break at node index
 			candidate.totalDemerits, candidate.ratio, // ratings for this break point
 			candidate.line+1,
-			class,
-			sum,       // totals after this node
-			candidate, // link to the previous candidate breakpoint
+			fitnessClass(class),
+			sum,                  // totals after this node
+			candidate.breakPoint, // link to the previous candidate breakpoint
 		)
 
 		if activeElement != nil {
diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index 2732f2f..88bec74 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -35,6 +35,12 @@ type (
 		next          *breakPoint
 	}
 
+	// candidateT is the best active break point to start a line that ends at some node, for a fitness class
+	candidateT struct {
+		*breakPoint
+		totalDemerits float64 // total demerits up to this node, this line included
+	}
+
 	nodeType uint8
 
 	demeritsT struct {
@@ -151,13 +157,14 @@ func newFitnessClass(ratio float64) fitnessClass {
 	}
 }
 
-func defaultCandidates() map[fitnessClass]*breakPoint {
-	return map[fitnessClass]*breakPoint{
-		fitnessClassZero:  newBreakPoint(0, maxDemerit, 0, 0, fitnessClassZero, sums{}, nil),
-		fitnessClassOne:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassOne, sums{}, nil),
-		fitnessClassTwo:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassTwo, sums{}, nil),
-		fitnessClassThree: newBreakPoint(0, maxDemerit, 0, 0, fitnessClassThree, sums{}, nil),
+// defaultCandidates yields candidates with infinite demerits, for every fitness class.
+func defaultCandidates() []candidateT {
+	candidates := make([]candidateT, fitnessClassThree+1)
+	for class := range candidates {
+		candidates[class].totalDemerits = maxDemerit
 	}
+
+	return candidates
 }
 
 func (e err) Error() string {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 3b16f6c..ef3446f 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -235,7 +235,7 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				nodes = append(nodes,
 					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
 					newPenalty(noWidth, infinity, unflaggedPenalty),
-					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
+					newGlue(noWidth, l.glueStretch, noShrink),                 // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
-- 
2.43.0


From 2d5fc02f96974d287a6d99890ed8a34e7b24d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 20/22] fix: ansi tokens are extended in their own memory, not
 by writing to the input

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 6023240..68c8ca0 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 49355b39967ad2037ec42d600a315ba4df05e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 21/22] fix: linebreak: lines are not wider than a maximum that
 is not whole

---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index ef3446f..47cdb65 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -105,6 +105,9 @@ func (l *LineBreaker) buildUniformLengths(width float64) []float64 {
 	lengths := make([]float64, 1)
 	for i := range lengths {
 		lengths[i] = l.scale(width)
+		if lengths[i]/l.scaleFactor > width {
+			lengths[i]-- // rounded up: lines should not be wider than asked
+		}
 	}
 
 	return lengths
-- 
2.43.0


From 28d0109af8fc4e728e70b90f59ad4643f40c4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 22/22] fix: linebreak: a space is rendered as one space,
 whatever it measures

---
 linebreak/linebreaker.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 47cdb65..23f0fd8 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -119,8 +119,13 @@ func (l *LineBreaker) scale(in float64) float64 {
 	return math.Round(in * l.scaleFactor)
 }
 
-func (l *LineBreaker) downScale(in float64) float64 {
-	return math.Round(in / l.scaleFactor)
+// countSpaces tells how many spaces render some scaled width.
+func (l *LineBreaker) countSpaces(in float64) int {
+	if l.spaceWidth <= 0 {
+		return 0
+	}
+
+	return int(math.Round(in / l.spaceWidth))
 }
 
 func skipNodes(start int, nodes []nodeT) int {
@@ -181,7 +186,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 					pad += line.ratio * node.stretch
 				}
 
-				spaces := repeatRunes(space, int(l.downScale(pad)))
+				spaces := repeatRunes(space, l.countSpaces(pad))
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-- 
2.43.0

