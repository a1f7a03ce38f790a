// Package gen makes the workloads' texts.
package gen

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/oracle"
	"verif/rnd"
)

// Opt restricts what a text may contain.
type Opt struct {
	Escapes   bool // well-formed escape sequences ending in a letter
	AnyEscape bool // anything of the escape language and near misses
	Controls  bool // C0/C1 controls except newline, and ESC unless AnyEscape
	Newlines  bool
	Invalid   bool // invalid UTF-8
	Marks     bool // marks, joiners and prepended characters anywhere
	MaxParts  int
}

var Wild = Opt{Escapes: true, AnyEscape: true, Controls: true, Newlines: true, Invalid: true, Marks: true, MaxParts: 8}

// Line is text that can stand in a table cell of a terminal: no newline.
var Line = Opt{Escapes: true, Controls: true, Invalid: true, Marks: true, MaxParts: 6}

// Tame is printable text whose parts do not join their neighbours.
var Tame = Opt{Escapes: true, MaxParts: 5}

var words = []string{"a", "file", "README.md", "x y", "0", "12345", "-rw-r--r--", "total", "ok", "[31m", "[0m", "1.5 KiB", "~", "A", "(B", "m", ";", "38;5;1m"}

var cjk = []string{"さの", "いざわ", "世界", "한국어", "中文字符", "ｱｲｳ", "ＡＢ", "、。", "\u3000", "🀄", "𠀀𠀁", "㈱", "가나다"}

var other = []string{"é", "ñandú", "Ωμέγα", "Привет", "سلام", "שלום", "हिन्दी", "ไทย", "தமிழ்", "■①☆", "│┃", "…", "€", "☺☻", "♥♦", "α", "\u2e3a", "\u2e3b", "\u00ad", "ﬁ", "\ufffd", "\u00a0", "｡", "\U0001F1E6", "👁", "❤", "⟦⟧"}

var clusters = []string{
	"e\u0301", "a\u0300\u0323", "👩\u200d🍳", "👨\u200d👨\u200d👧", "🇺🇸", "🇯🇵🇰🇷", "👍🏽", "❤\ufe0f", "❤\ufe0e", "1\ufe0f\u20e3", "\u1100\u1161\u11a8", "क्षि", "நி", "กำ", "\u0600١", "🏴\U000E0067\U000E0062\U000E007F", "か\u3099", "\u1100\u1100\uac00", "🏳\ufe0f\u200d🌈", "z\u0337\u0322",
}

// marks that attach to (or affect) their neighbours
var marks = []string{"\u0301", "\u200d", "\ufe0f", "\ufe0e", "\u0903", "\u093e", "\u0941", "\u20e3", "\u0600", "\U000110BD", "\u0e33", "\u1161", "\u11a8", "\u1100", "\uac00", "\uac01", "\U0001F1FA", "\U0001F3FD", "\u200c", "\u3099", "\u200b", "\u2060", "\U000E0020"}

var controls = []string{"\t", "\x00", "\x07", "\x7f", "\u0085", "\u009f", "\x01", "\x1f", "\u2028", "\u200e", "\ufeff", "\u202e"}

var invalid = []string{"\xff", "\xc3", "\xe3\x81", "\xf0\x9f\x91", "\x80", "\xed\xa0\x80", "\xc0\xaf", "\xf8\x88\x80\x80\x80", "\x9b", "\xc2", "\xf4\x90\x80\x80"}

func pick(r *rnd.Rand, s []string) string { return s[r.Intn(len(s))] }

const letterFinals = "ABCDEFGHIJKLMNORZcfghijklmnqry"

// GoodEscape is a complete sequence with a letter as its final character, so
// that nothing after it can become part of it.
func GoodEscape(r *rnd.Rand) string {
	var b strings.Builder
	if r.Intn(6) == 0 {
		b.WriteString("\u009b")
	} else {
		b.WriteString("\x1b")
	}
	switch r.Intn(10) {
	case 0:
		for i, n := 0, r.Intn(4); i < n; i++ {
			b.WriteByte("[()#;?"[r.Intn(6)])
		}
	case 1:
		b.WriteString("[?")
	case 2:
		b.WriteString("(")
	default:
		b.WriteString("[")
	}
	if r.Intn(8) > 0 {
		num := func(min int) {
			n := min + r.Intn(5-min)
			if r.Intn(3) > 0 && n > 2 {
				n = 1 + r.Intn(2)
			}
			for i := 0; i < n; i++ {
				b.WriteByte('0' + byte(r.Intn(10)))
			}
		}
		num(1)
		k := r.Intn(4)
		if r.Intn(12) == 0 {
			k = 4 + r.Intn(30)
		}
		for i := 0; i < k; i++ {
			b.WriteByte(';')
			num(0)
		}
	}
	if r.Intn(2) == 0 {
		b.WriteByte('m')
	} else {
		b.WriteByte(letterFinals[r.Intn(len(letterFinals))])
	}
	return b.String()
}

// SGR is a typical colour sequence.
func SGR(r *rnd.Rand) string {
	switch r.Intn(6) {
	case 0:
		return "\x1b[0m"
	case 1:
		return "\x1b[1;" + strconv.Itoa(30+r.Intn(8)) + "m"
	case 2:
		return "\x1b[48;5;" + strconv.Itoa(r.Intn(256)) + "m"
	case 3:
		return "\x1b[38;2;" + strconv.Itoa(r.Intn(256)) + ";" + strconv.Itoa(r.Intn(256)) + ";" + strconv.Itoa(r.Intn(256)) + "m"
	case 4:
		return "\x1b[m"
	}
	return "\x1b[38;5;" + strconv.Itoa(r.Intn(256)) + "m"
}

// EscapeNoise is text over the alphabet of escape sequences: sequences with
// digit finals, truncated ones, doubled introducers, near misses.
func EscapeNoise(r *rnd.Rand) string {
	const alpha = "[()#;?0123456789ABMOPQRZabcefmnopqrstuvwxyz=><~ "
	var b strings.Builder
	n := 1 + r.Intn(14)
	for i := 0; i < n; i++ {
		switch x := r.Intn(10); {
		case x < 2 || i == 0 && x < 6:
			if r.Intn(4) == 0 {
				b.WriteString("\u009b")
			} else {
				b.WriteByte(0x1b)
			}
		case x < 4:
			b.WriteByte("[()#;?"[r.Intn(6)])
		case x < 7:
			for j, k := 0, 1+r.Intn(6); j < k; j++ {
				b.WriteByte('0' + byte(r.Intn(10)))
			}
		default:
			b.WriteByte(alpha[r.Intn(len(alpha))])
		}
	}
	return b.String()
}

// Rune is any Unicode scalar value, biased to low planes.
func Rune(r *rnd.Rand) rune {
	for {
		var c rune
		switch r.Intn(6) {
		case 0:
			c = rune(r.Intn(0x80))
		case 1:
			c = rune(r.Intn(0x3000))
		case 2:
			c = rune(r.Intn(0x10000))
		case 3:
			c = 0x1f000 + rune(r.Intn(0x1000))
		case 4:
			c = rune(r.Intn(0x20000))
		default:
			c = rune(r.Intn(0x110000))
		}
		if c >= 0xd800 && c <= 0xdfff {
			continue
		}
		return c
	}
}

// tameRune has no control character and does not join a neighbour.
func tameRune(r *rnd.Rand) rune {
	for {
		c := Rune(r)
		if c < 0x20 || c == 0x7f {
			continue
		}
		switch oracle.Class(c) {
		case oracle.Other, oracle.ExtPict:
			if oracle.RuneWidth(c, false, true) > 0 {
				return c
			}
		}
	}
}

// Text makes one text.
func Text(r *rnd.Rand, o Opt) string {
	n := r.Intn(o.MaxParts + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(part(r, o))
	}
	if r.D != nil {
		return fromDict(r, o, b.String())
	}
	return b.String()
}

// allowed tells if a text is one of those o describes.
func allowed(s string, o Opt) bool {
	if !utf8.ValidString(s) && !o.Invalid {
		return false
	}
	for _, c := range s {
		switch {
		case c == '\n' || c == '\r':
			if !o.Newlines {
				return false
			}
		case c == 0x1b || c == 0x9b:
			if !o.AnyEscape {
				return false
			}
		case c < 0x20 || c >= 0x7f && c < 0xa0:
			if !o.Controls {
				return false
			}
		}
		if !o.Marks {
			k := oracle.Class(c)
			if k != oracle.Other && k != oracle.ExtPict || oracle.RuneWidth(c, false, true) <= 0 {
				return false
			}
		}
	}
	return true
}

// fromDict works constants and texts of the code under test into a text.
func fromDict(r *rnd.Rand, o Opt, s string) string {
	if w, ok := r.Word(func(w string) bool { return len(w) < 200 && allowed(w, o) }); ok {
		switch r.Intn(5) {
		case 0:
			s = w
		case 1:
			s = w + s
		case 2:
			s += w
		case 3:
			s += w + part(r, o)
		case 4:
			s += w + w
		}
	}
	if r.Intn(4) == 0 { // a length in bytes or characters
		n := r.Size(0, 3000)
		fill := pick(r, []string{"x", "x", "x", "é", "世"})
		have := len(s)
		if r.Intn(3) == 0 {
			fill, have = pick(r, []string{"é", "世", "y"}), utf8.RuneCountInString(s)
			n -= have
		} else {
			n = (n - have) / len(fill)
		}
		if n > 0 {
			pad := strings.Repeat(fill, n)
			if r.Intn(2) == 0 {
				s = pad + s
			} else {
				s += pad
			}
		}
	}
	return s
}

func part(r *rnd.Rand, o Opt) string {
	for {
		switch r.Intn(16) {
		case 0, 1, 2:
			return pick(r, words)
		case 3, 4:
			return pick(r, cjk)
		case 5:
			return pick(r, other)
		case 6:
			s := pick(r, clusters)
			if !o.Marks && (strings.HasPrefix(s, "🇺") || strings.HasPrefix(s, "🇯") || strings.HasPrefix(s, "\u1100")) {
				continue
			}
			return s
		case 7:
			if o.Marks {
				return pick(r, marks)
			}
		case 8, 9:
			if o.Escapes {
				return SGR(r)
			}
		case 10:
			if o.Escapes {
				return GoodEscape(r)
			}
		case 11:
			if o.AnyEscape {
				return EscapeNoise(r)
			}
		case 12:
			if o.Controls {
				return pick(r, controls)
			}
			if o.Newlines {
				return pick(r, []string{"\n", "\r\n", "\r"})
			}
		case 13:
			if o.Invalid {
				return pick(r, invalid)
			}
		case 14:
			k := 1 + r.Intn(4)
			var b strings.Builder
			for i := 0; i < k; i++ {
				if o.Marks {
					c := Rune(r)
					if c == '\n' && !o.Newlines || c == 0x1b && !o.AnyEscape || c == 0x9b && !o.AnyEscape || (c < 0x20 || c == 0x7f) && !o.Controls {
						c = '.'
					}
					b.WriteRune(c)
				} else {
					b.WriteRune(tameRune(r))
				}
			}
			return b.String()
		case 15:
			if r.Intn(3) == 0 { // one character for long
				c := tameRune(r)
				if o.Marks && r.Intn(2) == 0 {
					c = Rune(r)
				}
				if o.Marks || c >= 0x20 && c != 0x7f {
					n := 2 + r.Intn(8)
					if r.Intn(4) == 0 {
						n = 20 + r.Intn(60)
					}
					if t := strings.Repeat(string(c), n); allowed(t, o) {
						return t
					}
				}
			}
			return strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(12))
		}
	}
}

// Bytes is raw noise.
func Bytes(r *rnd.Rand, max int) string {
	b := make([]byte, r.Intn(max+1))
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

// Reps are code points representing every pair of cluster class and width
// class, several per class.
var Reps []rune

func init() {
	if oracle.Light {
		return
	}
	type key struct {
		c uint8
		k uint8
		m int
	}
	n := map[key]int{}
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		k := key{oracle.Class(r), oracle.Kind(r), oracle.MonoRune(r)}
		if n[k] < 1 {
			n[k]++
			Reps = append(Reps, r)
		}
	}
	Reps = append(Reps, 0xfe0e, 0xfe0f, 0x2e3a, 0x2e3b, 0x1b, 0xfffd)
}

// Core is one code point per cluster class plus the variation selectors.
var Core = []rune{'a', '\r', '\n', 0x01, 0x0301, 0x200d, 0x1f1fa, 0x0600, 0x0903, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x2764, 0x1f469, 0xfe0f, 0xfe0e, 0x4e16}
