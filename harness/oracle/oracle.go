package oracle

import (
	"os"
	"regexp"
	"unicode/utf8"
)

const maxRune = 0x10FFFF

// Grapheme cluster break classes.
const (
	Other = uint8(iota)
	CR
	LF
	Control
	Extend
	ZWJ
	RI
	Prepend
	SpacingMark
	L
	V
	T
	LV
	LVT
	ExtPict
)

var ClassName = []string{"Other", "CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict"}

const (
	fNonprint = 1 << iota
	fCombining
	fWide
	fAmbiguous
	fEmoji
	fNarrow
)

var (
	rwFlags [maxRune + 1]uint8
	gcb     [maxRune + 1]uint8
	wide14  [maxRune + 1]bool
	emoPres [maxRune + 1]bool
)

// Data is the character data behind the specification: pairs of first and last
// code point.
type Data struct {
	// Unicode 13
	Combining, Wide, Ambiguous, Narrow, Emoji []int32
	// Unicode 14
	Break        [ExtPict + 1][]int32
	Wide14, Pres []int32
}

// Real is the data of the Unicode versions the library is made for.
func Real() Data {
	return Data{
		Combining: rwCombining, Wide: rwDoublewidth, Ambiguous: rwAmbiguous, Narrow: rwNarrow, Emoji: rwEmoji,
		Break: [ExtPict + 1][]int32{CR: gcbCR, LF: gcbLF, Control: gcbControl, Extend: gcbExtend, ZWJ: gcbZWJ, RI: gcbRegionalIndicator,
			Prepend: gcbPrepend, SpacingMark: gcbSpacingMark, L: gcbL, V: gcbV, T: gcbT, LV: gcbLV, LVT: gcbLVT, ExtPict: gcbExtendedPictographic},
		Wide14: append(append([]int32{}, eawW...), eawF...), Pres: emoEmojiPresentation,
	}
}

// Each calls f for every code point of a list of ranges.
func Each(iv []int32, f func(r int32)) {
	for i := 0; i < len(iv); i += 2 {
		for r := iv[i]; r <= iv[i+1]; r++ {
			f(r)
		}
	}
}

// Use makes the specification follow other data.
func Use(d Data) {
	rwFlags, gcb = [maxRune + 1]uint8{}, [maxRune + 1]uint8{}
	wide14, emoPres = [maxRune + 1]bool{}, [maxRune + 1]bool{}
	flag := func(iv []int32, b uint8) { Each(iv, func(r int32) { rwFlags[r] |= b }) }
	flag(rwNonprint, fNonprint)
	flag(d.Combining, fCombining)
	flag(d.Wide, fWide)
	flag(d.Ambiguous, fAmbiguous)
	flag(d.Emoji, fEmoji)
	flag(d.Narrow, fNarrow)
	for c, iv := range d.Break {
		Each(iv, func(r int32) { gcb[r] = uint8(c) })
	}
	Each(d.Wide14, func(r int32) { wide14[r] = true })
	Each(d.Pres, func(r int32) { emoPres[r] = true })
}

// Nonprint reports whether r is among the characters that are never shown.
func Nonprint(r rune) bool { return rwFlags[r]&fNonprint != 0 }

// Light processes use the library at once and need no specification.
var Light = len(os.Args) > 1 && os.Args[1] == LightArg

// LightArg marks them.
const LightArg = "-first-use"

func init() {
	if !Light {
		Use(Real())
	}
}

// Class is the Unicode 14 grapheme cluster break class of r.
func Class(r rune) uint8 {
	if r < 0 || r > maxRune {
		return Other
	}
	return gcb[r]
}

// RuneWidth is the specified column width of a code point.
func RuneWidth(r rune, ea, strict bool) int {
	if r < 0 || r > maxRune {
		return 0
	}
	f := rwFlags[r]
	switch {
	case f&(fNonprint|fCombining) != 0:
		return 0
	case f&fNarrow != 0:
		return 1
	case f&fWide != 0:
		return 2
	case ea && f&fAmbiguous != 0:
		return 2
	case ea && !strict && f&fEmoji != 0:
		return 2
	}
	return 1
}

// Kind names the width class of r, for coverage.
func Kind(r rune) uint8 {
	if r < 0 || r > maxRune {
		return 0xff
	}
	return rwFlags[r]
}

// Boundaries returns the byte offsets of all grapheme cluster boundaries of s
// after the start (the last one is len(s)), by the rules of UAX #29.
func Boundaries(s string) []int {
	if s == "" {
		return nil
	}
	var out []int
	prev := uint8(0xff)
	riRun := 0            // regional indicators immediately before the position, in this cluster's run
	pict := false         // ExtPict Extend* before the position
	pictZWJ := false      // ExtPict Extend* ZWJ before the position
	for i, r := range s { // invalid bytes come as U+FFFD of length 1, like DecodeRune
		c := Class(r)
		if prev != 0xff && isBoundary(prev, c, riRun, pictZWJ) {
			out = append(out, i)
		}
		// context after c
		if c == RI {
			riRun++
		} else {
			riRun = 0
		}
		pictZWJ = pict && c == ZWJ
		pict = c == ExtPict || (pict && c == Extend)
		prev = c
	}
	return append(out, len(s))
}

func isBoundary(a, b uint8, riRun int, pictZWJ bool) bool {
	switch {
	case a == CR && b == LF: // GB3
		return false
	case a == CR || a == LF || a == Control: // GB4
		return true
	case b == CR || b == LF || b == Control: // GB5
		return true
	case a == L && (b == L || b == V || b == LV || b == LVT): // GB6
		return false
	case (a == LV || a == V) && (b == V || b == T): // GB7
		return false
	case (a == LVT || a == T) && b == T: // GB8
		return false
	case b == Extend || b == ZWJ: // GB9
		return false
	case b == SpacingMark: // GB9a
		return false
	case a == Prepend: // GB9b
		return false
	case pictZWJ && b == ExtPict: // GB11
		return false
	case a == RI && b == RI: // GB12, GB13
		return riRun%2 == 0
	}
	return true // GB999
}

// Clusters splits s.
func Clusters(s string) []string {
	var out []string
	start := 0
	for _, b := range Boundaries(s) {
		out = append(out, s[start:b])
		start = b
	}
	return out
}

// TextWidth is the specified width of s, without regard to escape sequences.
func TextWidth(s string, ea, strict bool) int {
	ascii := true
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			ascii = false
			break
		}
		n++
	}
	if ascii {
		return n
	}
	total, start := 0, 0
	for _, b := range Boundaries(s) {
		for _, r := range s[start:b] {
			if w := RuneWidth(r, ea, strict); w > 0 {
				total += w
				break
			}
		}
		start = b
	}
	return total
}

// the same language as the property's statement; the matcher below is a
// direct transcription, cross-checked with this regexp by the selftest
var escRE = regexp.MustCompile("(?:\x1b|\u009b)[\\[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]")

func isFinal(b byte) bool {
	switch {
	case b >= '0' && b <= '9', b >= 'A' && b <= 'O', b >= 'f' && b <= 'n':
		return true
	}
	switch b {
	case 'R', 'Z', 'c', 'q', 'r', 'y', '=', '>', '<':
		return true
	}
	return false
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// matchEscape returns the length of the longest escape sequence at the start of s, or 0.
func matchEscape(s string) int {
	i := 0
	if len(s) > 0 && s[0] == 0x1b {
		i = 1
	} else if len(s) > 1 && s[0] == 0xc2 && s[1] == 0x9b {
		i = 2
	} else {
		return 0
	}
	best := 0
	final := func(j int) {
		if j < len(s) && isFinal(s[j]) && j+1 > best {
			best = j + 1
		}
	}
	final(i)
	for i < len(s) && (s[i] == '[' || s[i] == '(' || s[i] == ')' || s[i] == '#' || s[i] == ';' || s[i] == '?') {
		i++
		final(i)
	}
	j := i
	for j < len(s) && j < i+4 && isDigit(s[j]) {
		j++
		final(j)
	}
	if j == i {
		return best
	}
	// numbers shorter than the run of digits cannot be followed by ';' or a
	// non-digit, so going on from the longest is enough
	for j < len(s) && s[j] == ';' {
		j++
		final(j)
		k := j
		for j < len(s) && j < k+4 && isDigit(s[j]) {
			j++
			final(j)
		}
	}
	return best
}

// Strip removes the escape sequences of s.
func Strip(s string) string {
	clean := true
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b || s[i] == 0xc2 {
			clean = false
			break
		}
	}
	if clean {
		return s
	}
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); {
		if n := matchEscape(s[i:]); n > 0 {
			i += n
			continue
		}
		_, l := utf8.DecodeRuneInString(s[i:])
		out = append(out, s[i:i+l]...)
		i += l
	}
	return string(out)
}

// StripRE is Strip by regexp, for the selftest.
func StripRE(s string) string { return escRE.ReplaceAllString(s, "") }

// Width is the specified display width of a cell (strict emoji, the default).
func Width(s string, ea bool) int { return TextWidth(Strip(s), ea, true) }

// Cell is Width saturated to 16 bits.
func Cell(s string, ea bool) int {
	w := Width(s, ea)
	if w > 65535 {
		return 65535
	}
	return w
}

// monospace widths reported by the stepper

func MonoRune(r rune) int {
	switch Class(r) {
	case Control, CR, LF, Extend, ZWJ:
		return 0
	case RI:
		return 2
	case ExtPict:
		if emoPres[r] {
			return 2
		}
		return 1
	}
	switch {
	case r == 0x2e3a:
		return 3
	case r == 0x2e3b:
		return 4
	case r >= 0 && r <= maxRune && wide14[r]:
		return 2
	}
	return 1
}

func MonoCluster(c string) int {
	const vs15, vs16 = 0xfe0e, 0xfe0f
	first := uint8(0)
	w := 0
	n := 0
	for _, r := range c {
		n++
		if n == 1 {
			first = Class(r)
			w = MonoRune(r)
			continue
		}
		switch {
		case r == vs16:
			w = 2
		case first == ExtPict:
			w = 2
			if r == vs15 {
				w = 1
			}
		case first == RI || first == L:
		default:
			w += MonoRune(r)
		}
	}
	return w
}
