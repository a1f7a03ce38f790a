From 2d966e0cd7770d7e85803e34f5ac0e3ac34f6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:08 +0000
Subject: [PATCH 01/13] fix: make the shared width cache safe for concurrent
 use

Alignment functions and independent tables share one process-wide LRU
cache without a lock: formatting two tables in two goroutines is a data
race and can crash with 'concurrent map read and map write'.
---
 width.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..9c80914 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,8 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+// shared by all tables, so it has to be safe for concurrent use
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From 4ffee9612c045a0aef27e8511422a1bb1ac07127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:08 +0000
Subject: [PATCH 02/13] fix: measure text after removing escape sequences

Subtracting the byte length of the escape sequences is wrong for the
8-bit CSI (U+009B is two bytes, so the text came out one cell narrower
per sequence, and a lone one wrapped around to 65535 cells) and when a
mark following a sequence joins its final byte.
---
 width.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/width.go b/width.go
index 9c80914..3451c4a 100644
--- a/width.go
+++ b/width.go
@@ -26,31 +26,12 @@ func visualWidth(str string) uint16 {
 	//		len(str) - countMatchesLength(ansiEscapeRE, str)
 	// method 2: without considering ANSI colors / escape sequences
 	//		return runewidth.StringWidth(str)
-	// method 3: considering all above, but a bit slow?
-	// 		return runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
+	// method 3: considering all above
 	w, _ := widthCache.Get(str)
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
 	widthCache.Set(str, w)
 	return w
 }
-
-func countMatchesLength(re *regexp.Regexp, s string) int {
-	// it does not count the first (invisible) character
-	// because runewidth library already ignores that
-	total := 0
-	for start := 0; start < len(s); {
-		remaining := s[start:] // slicing the string is cheap
-		loc := re.FindStringIndex(remaining)
-		if loc == nil {
-			break
-		}
-		// loc[0] is the start index of the match,
-		// loc[1] is the end index (exclusive)
-		start += loc[1]
-		total += loc[1] - loc[0] - 1
-	}
-	return total
-}
-- 
2.43.0


From 04a70649a5e4c204aa4a2aa2bc7505d038a48341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 03/13] fix: saturate the width of very long text instead of
 wrapping around

A cell wider than 65535 columns was measured modulo 65536, so it was
padded although it already exceeded the requested width.
---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 3451c4a..cc70dad 100644
--- a/width.go
+++ b/width.go
@@ -31,7 +31,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
+	width := runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From 6c29b2e519f21829af81681a4bcfd50def5f46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 04/13] fix: compare header titles with the column by display
 width

Titles were compared by byte length, so a non-ASCII title that fits its
column was replaced by the short title or left blank.
---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..bdb3952 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From 982463a4a74527e179d4f3a3652a5e16a44f0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 05/13] fix: TableWidth must not wrap around

It returned 65536-margin for a table without columns and the width
modulo 65536 for a table wider than MAX_WIDTH.
---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index bdb3952..a9303fa 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() < 1 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From 82884f8d31064288a1259ad3caed9c6b23584d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 06/13] fix: merging no items or no columns prints nothing

An empty list printed a blank line whenever more than one group fitted
the width, and a table without columns panicked (division by zero).
---
 horizontal.go | 3 +++
 vertical.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index e64945f..9b79e86 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -15,6 +15,9 @@ func (t *Table) MergeRowsHorizontal(
 ) {
 	margin := uint16(len(sep))
 	colN := t.ColumnCount()
+	if colN < 1 || items.Len() < 1 {
+		return
+	}
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
diff --git a/vertical.go b/vertical.go
index a64518e..3c76214 100644
--- a/vertical.go
+++ b/vertical.go
@@ -15,6 +15,9 @@ func (t *Table) MergeRowsVertical(
 ) {
 	margin := uint16(len(sep))
 	colN := t.ColumnCount()
+	if colN < 1 || items.Len() < 1 {
+		return
+	}
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-- 
2.43.0


From 75b7c43c1f2e1700e8692350cba3ca54a806bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 07/13] fix: do not overflow 16 bits when fitting groups into
 the width

With a maximum width close to 65535 the sum wrapped around: only one
group per line was printed, a compact line could be wider than the
limit, and compact MergeRowsHorizontal never returned. A negative limit
was taken modulo 65536. A zero-width table with an empty separator
panicked (division by zero).
---
 horizontal.go | 23 +++++++++++++++--------
 vertical.go   | 23 +++++++++++++++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 9b79e86..a9cf8dd 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,7 +13,7 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if colN < 1 || items.Len() < 1 {
 		return
@@ -21,8 +21,15 @@ func (t *Table) MergeRowsHorizontal(
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
+	maxWidth := maxWidthArg
+	groupWidth := int(t.TableWidth(uint16(margin))) + margin
+	if groupWidth < 1 {
+		groupWidth = 1
+	}
+	groupCount := (maxWidth + margin) / groupWidth
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -71,17 +78,17 @@ func (t *Table) MergeRowsHorizontal(
 
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
diff --git a/vertical.go b/vertical.go
index 3c76214..35e6e67 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,7 +13,7 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if colN < 1 || items.Len() < 1 {
 		return
@@ -21,8 +21,15 @@ func (t *Table) MergeRowsVertical(
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
+	maxWidth := maxWidthArg
+	groupWidth := int(t.TableWidth(uint16(margin))) + margin
+	if groupWidth < 1 {
+		groupWidth = 1
+	}
+	groupCount := (maxWidth + margin) / groupWidth
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -71,20 +78,20 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From 4f604d4981fa66cd0aa92e5a613029873f367e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 08/13] fix: fit groups by the separator that is used inside a
 group

The columns of a merged group are joined with innerSep, but their total
width was computed with the width of the group separator: with an empty
separator the lines were wider than the limit, with a long one fewer
groups than fit were printed.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index a9cf8dd..40bf457 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -25,7 +25,7 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupWidth := int(t.TableWidth(uint16(margin))) + margin
+	groupWidth := int(t.TableWidth(innerMargin)) + margin
 	if groupWidth < 1 {
 		groupWidth = 1
 	}
diff --git a/vertical.go b/vertical.go
index 35e6e67..c088131 100644
--- a/vertical.go
+++ b/vertical.go
@@ -25,7 +25,7 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupWidth := int(t.TableWidth(uint16(margin))) + margin
+	groupWidth := int(t.TableWidth(innerMargin)) + margin
 	if groupWidth < 1 {
 		groupWidth = 1
 	}
-- 
2.43.0


From b2c13d79e53490efaf06cfee414eeeadd00b3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 09/13] fix: stop compacting rows when every item has its own
 group

Compact MergeRowsHorizontal kept adding empty groups until they filled
the width, and forever if they take no space (one column, empty
separator).
---
 horizontal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 40bf457..8931754 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -85,6 +85,10 @@ func (t *Table) compactCalcH(
 	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
+		if groupCount > items.Len() {
+			// the last group would be empty
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
 		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-- 
2.43.0


From 214bbb9a4cbbe935713e8cb696450b33bb784958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 10/13] fix: do not take Konkani for Korean

The language was compared by prefix, so kok_IN.UTF-8 (a glibc locale)
switched the widths to East Asian ambiguous-wide.
---
 runewidth/runewidth_posix.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/runewidth/runewidth_posix.go b/runewidth/runewidth_posix.go
index 5a31d73..ec57853 100644
--- a/runewidth/runewidth_posix.go
+++ b/runewidth/runewidth_posix.go
@@ -51,14 +51,28 @@ func isEastAsian(locale string) bool {
 		max = m
 	}
 	if max > 1 && (charset[0] != 'u' ||
-		strings.HasPrefix(locale, "ja") ||
-		strings.HasPrefix(locale, "ko") ||
-		strings.HasPrefix(locale, "zh")) {
+		hasLanguage(locale, "ja", "jpn") ||
+		hasLanguage(locale, "ko", "kor") ||
+		hasLanguage(locale, "zh", "zho")) {
 		return true
 	}
 	return false
 }
 
+// hasLanguage tells if the language of the locale is one of the given codes
+func hasLanguage(locale string, codes ...string) bool {
+	lang := locale
+	if pos := strings.IndexAny(locale, "_.@"); pos >= 0 {
+		lang = locale[:pos]
+	}
+	for _, code := range codes {
+		if lang == code {
+			return true
+		}
+	}
+	return false
+}
+
 // IsEastAsian return true if the current locale is CJK
 func IsEastAsian() bool {
 	locale := os.Getenv("LC_ALL")
-- 
2.43.0


From 3e86c3da6b29afb445a93ec96a77dbaab0b8fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 11/13] fix: do not overwrite a lookup table that a copy of the
 condition uses

---
 runewidth/runewidth.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runewidth/runewidth.go b/runewidth/runewidth.go
index 08e69f2..8d980a8 100644
--- a/runewidth/runewidth.go
+++ b/runewidth/runewidth.go
@@ -164,13 +164,9 @@ func (c *Condition) RuneWidth(r rune) int {
 // If options in c is changed, CreateLUT should be called again.
 func (c *Condition) CreateLUT() {
 	const max = 0x110000
-	lut := c.combinedLut
-	if len(c.combinedLut) != 0 {
-		// Remove so we don't use it.
-		c.combinedLut = nil
-	} else {
-		lut = make([]byte, max/2)
-	}
+	// Remove so we don't use it. A copy of c may still use it, so don't overwrite it.
+	c.combinedLut = nil
+	lut := make([]byte, max/2)
 	for i := range lut {
 		i32 := int32(i * 2)
 		x0 := c.RuneWidth(i32)
-- 
2.43.0


From d54f78dea69cf6afdea24d6da63f125a89ad15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 12/13] fix: do not write tables from a failed or incomplete
 download

---
 runewidth/script/generate.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runewidth/script/generate.go b/runewidth/script/generate.go
index ccae49b..eb5b7d8 100644
--- a/runewidth/script/generate.go
+++ b/runewidth/script/generate.go
@@ -105,6 +105,10 @@ func eastasian(out io.Writer, in io.Reader) error {
 		}
 	}
 
+	if scanner.Err() != nil {
+		return scanner.Err()
+	}
+
 	shapeup(&cmb)
 	generate(out, "combining", cmb)
 	fmt.Fprintln(out)
@@ -167,6 +171,10 @@ func emoji(out io.Writer, in io.Reader) error {
 		})
 	}
 
+	if scanner.Err() != nil {
+		return scanner.Err()
+	}
+
 	shapeup(&arr)
 	generate(out, "emoji", arr)
 
@@ -185,16 +193,26 @@ func main() {
 		log.Fatal(err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatal(resp.Status)
+	}
 
-	eastasian(f, resp.Body)
+	if err := eastasian(f, resp.Body); err != nil {
+		log.Fatal(err)
+	}
 
 	resp, err = http.Get("https://unicode.org/Public/13.0.0/ucd/emoji/emoji-data.txt")
 	if err != nil {
 		log.Fatal(err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatal(resp.Status)
+	}
 
-	emoji(f, resp.Body)
+	if err := emoji(f, resp.Body); err != nil {
+		log.Fatal(err)
+	}
 
 	out, err := format.Source(f.Bytes())
 	if err != nil {
-- 
2.43.0


From b547f7773343cb83f94a144e2480ab23e4a94cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 13/13] fix: do not generate properties from an error page

---
 runewidth/uniseg/gen_properties.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runewidth/uniseg/gen_properties.go b/runewidth/uniseg/gen_properties.go
index 763fcd5..d55a4d8 100644
--- a/runewidth/uniseg/gen_properties.go
+++ b/runewidth/uniseg/gen_properties.go
@@ -120,6 +120,9 @@ func parse(propertyURL, emojiProperty string, includeGeneralCategory bool) (stri
 		}
 		in1 := res.Body
 		defer in1.Close()
+		if res.StatusCode != http.StatusOK {
+			return "", errors.New(res.Status)
+		}
 
 		// Parse it.
 		scanner := bufio.NewScanner(in1)
@@ -154,6 +157,9 @@ func parse(propertyURL, emojiProperty string, includeGeneralCategory bool) (stri
 		}
 		in2 := res.Body
 		defer in2.Close()
+		if res.StatusCode != http.StatusOK {
+			return "", errors.New(res.Status)
+		}
 
 		// Parse it.
 		scanner := bufio.NewScanner(in2)
-- 
2.43.0

