package gen

import (
	"strings"

	"verif/rnd"
)

// size is a number biased to powers of two and their neighbours.
func size(r *rnd.Rand, bits int) int {
	n := 1 << uint(2+r.Intn(bits-1))
	switch r.Intn(3) {
	case 0:
		n += r.Intn(5) - 2
	case 1:
		n += r.Intn(n)
	}
	return n
}

// LongCluster is one cluster of many code points, or a long run of the same class.
func LongCluster(r *rnd.Rand, bits int) string {
	n := size(r, bits)
	rep := strings.Repeat
	switch r.Intn(14) {
	case 11, 12: // nothing visible for long, then something
		return rep(pick(r, []string{"\u070f", "\u0301", "\u200d", "\u0301\u200d", "\U000110BD", "\u0600"}), n) +
			pick(r, []string{"世", "a", "\u0903", "😀", "🇺🇸", "\u1100\u1161", "\u0e33", "", "\r"}) + rep("\u0301", r.Intn(3))
	case 0:
		return pick(r, []string{"a", "世", "😀", " ", "\u0600", "가", "☂"}) + rep(pick(r, []string{"\u0301", "\u200d", "\ufe0f", "\U000E0062", "\u3099", "\u20e3"}), n)
	case 1:
		return "a" + rep(pick(r, []string{"\u0903", "\u093e", "\u0e33"}), n)
	case 2:
		return rep("👩\u200d", n) + "👩"
	case 3:
		return rep("☂\u0301\u200d", n) + pick(r, []string{"☂", "a", "😀", ""})
	case 4:
		return rep("\u1100", n) + rep("\u1161", r.Intn(n)) + rep("\u11a8", r.Intn(n))
	case 5:
		return "\uac00" + rep("\u1161", n) + rep("\u11a8", n)
	case 6:
		return rep("\u0600", n) + pick(r, []string{"a", "世", "🇺🇸", "\n", ""})
	case 7:
		return rep("🇺", n) + pick(r, []string{"", "\u0301", "a"})
	case 8:
		return rep("🇺🇸\u200d", n)
	case 9:
		return rep("\r\n", n) + rep("\r", r.Intn(4))
	case 10:
		var b strings.Builder
		b.WriteString(pick(r, clusters))
		for i := 0; i < n; i++ {
			b.WriteString(pick(r, []string{"\u0301", "\u200d", "\u0300", "\u0323", "\u0903"}))
		}
		return b.String()
	}
	if r.Intn(2) == 0 {
		return rep(string(Rune(r)), n)
	}
	return rep(pick(r, clusters), n)
}

// Across is a text that has something interesting where a power of two of bytes
// (or of characters) is reached.
func Across(r *rnd.Rand, bits int) string {
	at := 1 << uint(3+r.Intn(bits-2))
	fill := pick(r, []string{"a", "a", "x y", "é", "世", "😀", "e\u0301", "\x1b[0m", "🇺🇸", "│"})
	special := ""
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(6) {
		case 0, 1:
			special += pick(r, clusters)
		case 2:
			special += SGR(r)
		case 3:
			special += pick(r, marks)
		case 4:
			special += pick(r, cjk)
		case 5:
			special += pick(r, invalid)
		}
	}
	unit := len(fill)
	if r.Intn(3) == 0 {
		unit = len([]rune(fill))
	}
	n := at/unit - r.Intn(len(special)/unit+2)
	if n < 0 {
		n = 0
	}
	s := strings.Repeat(fill, n)
	if k := r.Intn(len(special) + 1); r.Intn(2) == 0 { // exact distance in bytes
		for len(s)+k < at && len(s) > at-200 {
			s += "b"
		}
	}
	s += special
	if r.Intn(2) == 0 {
		s += strings.Repeat(fill, r.Intn(n+1)) + pick(r, clusters)
	}
	return s
}

// LongEscape is an escape sequence with many parameters or introducing characters.
func LongEscape(r *rnd.Rand, bits int) string {
	n := size(r, bits)
	switch r.Intn(4) {
	case 0:
		return "\x1b[" + strings.Repeat("1;", n) + "31m"
	case 1:
		return "\x1b" + strings.Repeat(string("[()#;?"[r.Intn(6)]), n) + "31m"
	case 2:
		return "\u009b1" + strings.Repeat(";", n) + pick(r, []string{"m", "p", "x", ""})
	}
	return strings.Repeat(SGR(r), n)
}

// Long is a long text, or one with long parts.
func Long(r *rnd.Rand, bits int) string {
	s := ""
	for k := 1 + r.Intn(2); k > 0; k-- {
		switch r.Intn(5) {
		case 0, 1:
			s += Across(r, bits)
		case 2, 3:
			s += LongCluster(r, bits-4)
		case 4:
			s += LongEscape(r, bits-4)
		}
		if r.Intn(2) == 0 {
			s += Text(r, Wild)
		}
	}
	return s
}

// LongBits spreads the sizes for Long: mostly some hundred bytes, sometimes a megabyte.
func LongBits(r *rnd.Rand) int {
	switch r.Intn(40) {
	case 0:
		return 18
	case 1, 2, 3:
		return 15
	}
	return 8 + r.Intn(5)
}
