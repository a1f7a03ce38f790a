package checks

import (
	"strings"

	table "github.com/ilius/go-table"
	"verif/gen"
	"verif/mon"
	"verif/oracle"
)

// escAlphabet is everything that could be taken for a part of an escape sequence.
var escAlphabet = func() (a []string) {
	for i := rune(0); i < 0xa0; i++ {
		a = append(a, string(i))
	}
	return append(a, "\x80", "\x90", "\x9b", "\xc2", "\xff", "［", "；", "？", "０", "ｍ", "\u0660", "\u212a", "ſ", "é", "\u0301", "世", "\u00b2", "\u2028")
}()

var realAligns = aligns[1:]

func checkAlign(c *mon.Case, s string, width int) {
	for _, a := range realAligns {
		var out string
		c.Do("alignment "+a.name, func() { out = a.f(s, uint16(width)) })
		if want := aligned(a.name, s, width, c.EA); out != want {
			c.Fail("%s alignment of %s to %d: got %s, want %s (display width of the text %d)", a.name, quote(s), width, quote(out), quote(want), oracle.Width(s, c.EA))
		}
		if width%8 == 3 {
			c.Keep("an aligned text", out)
		}
		c.Eval(1)
	}
}

func init() {
	register(&mon.Check{
		ID:   "C01",
		Rule: "texts (words, CJK, clusters, colours, controls, invalid UTF-8, every code point, very long) x target widths around the text's width and anywhere in 0..65535 x three alignments, both width modes; non-trivial: padding was added",
		Need: []string{"padded", "unpadded", "wider than 65535", "texts with escapes"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 240000, Thorough: 1500000, Run: func(c *mon.Case) {
				o := gen.Wild
				if c.Rng.Intn(3) == 0 {
					o = gen.Line
				}
				o.MaxParts = 1 + c.Rng.Intn(12)
				s := gen.Text(c.Rng, o)
				if c.Rng.Intn(12) == 0 {
					s = gen.Bytes(c.Rng, 40)
				}
				c.Logf("text %s", quote(s))
				w := oracle.Width(s, c.EA)
				ws := []int{0, w, w + 1, w + 2, w + 3 + c.Rng.Intn(60)}
				if w > 0 {
					ws = append(ws, w-1)
				}
				ws = append(ws, c.Rng.Size(w+1, 65535))
				if c.Rng.Intn(100) == 0 {
					ws = append(ws, 65535, c.Rng.Intn(65536))
				}
				for _, x := range ws {
					if x > 65535 {
						continue
					}
					checkAlign(c, s, x)
					if x > w {
						c.Count("padded", 1)
						c.Distinct(s, x)
					} else {
						c.Count("unpadded", 1)
					}
				}
				if strings.ContainsAny(s, "\x1b\u009b") {
					c.Count("texts with escapes", 1)
				}
				c.Sample("%s (width %d) to widths %v", quote(s), w, ws)
			}},
			{Name: "every-rune", Quick: 1088, Thorough: 1088, Run: func(c *mon.Case) {
				for i := 0; i < 1024; i++ {
					r := rune(c.Idx*1024 + i)
					s := string(r)
					checkAlign(c, s, 4)
					if !c.Quick {
						checkAlign(c, "a"+s+"b", 5)
						checkAlign(c, "世"+s, 5)
					}
				}
				c.Count("code points", 1024)
				c.Count("padded", 1024)
			}},
			{Name: "long-parts", Quick: 2000, Thorough: 40000, Run: func(c *mon.Case) {
				s := gen.Long(c.Rng, gen.LongBits(c.Rng))
				c.Logf("text %s", quote(s))
				w := oracle.Width(s, c.EA)
				for _, x := range []int{w, w + 1, w + 2 + c.Rng.Intn(300)} {
					if x <= 65535 {
						checkAlign(c, s, x)
					}
				}
				c.Max("longest text (bytes)", len(s))
			}},
			{Name: "long", Quick: 64, Thorough: 600, Run: func(c *mon.Case) {
				units := []string{"a", "世", "\x1b[31mx", "e\u0301", "│", "👩\u200d🍳"}
				u := units[c.Rng.Intn(len(units))]
				uw := oracle.Width(u, c.EA)
				targets := []int{100, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 140000}
				tw := targets[c.Idx%len(targets)]
				s := strings.Repeat(u, tw/uw) + strings.Repeat("b", tw%uw)
				w := oracle.Width(s, c.EA)
				c.Logf("%q repeated to width %d", u, w)
				for _, x := range []int{0, 1, w % 65536, (w + 1) % 65536, (w + 100) % 65536, 65534, 65535, c.Rng.Intn(65536)} {
					checkAlign(c, s, x)
				}
				if w > 65535 {
					c.Count("wider than 65535", 1)
				}
				c.Distinct(s)
				c.Max("longest text (columns)", w)
			}},
		},
	})

	register(&mon.Check{
		ID:   "C02",
		Rule: "texts with escape sequences of the whole grammar inserted anywhere (metamorphic: measured width equals that of the text without them) and noise over the escape alphabet (near misses, truncated, digit finals) against the grammar oracle; non-trivial: at least one sequence present",
		Need: []string{"sequences inserted", "8-bit CSI", "noise with sequences", "noise without sequences"},
		Streams: []mon.Stream{
			{Name: "insert", Quick: 240000, Thorough: 1500000, Run: func(c *mon.Case) {
				o := gen.Opt{Controls: c.Rng.Intn(3) == 0, Marks: c.Rng.Intn(2) == 0, Invalid: c.Rng.Intn(4) == 0, Newlines: c.Rng.Intn(8) == 0, MaxParts: 5}
				plain := gen.Text(c.Rng, o)
				runes := strings.SplitAfter(plain, "")
				if c.Rng.Intn(2) == 0 {
					runes = []string{plain}
				}
				var b strings.Builder
				n := 0
				ins := func() {
					for c.Rng.Intn(3) == 0 || n == 0 {
						e := gen.GoodEscape(c.Rng)
						if strings.HasPrefix(e, "\u009b") {
							c.Count("8-bit CSI", 1)
						}
						b.WriteString(e)
						n++
						if c.Rng.Intn(2) == 0 {
							break
						}
					}
				}
				for _, r := range runes {
					if c.Rng.Intn(3) == 0 {
						ins()
					}
					b.WriteString(r)
				}
				ins()
				s := b.String()
				c.Logf("plain %s with sequences %s", quote(plain), quote(s))
				var wp, ws int
				c.Do("measuring", func() { wp, ws = measure(plain), measure(s) })
				// (a bare introducer in the text may swallow a sequence or be cut off from its own)
				if wp != ws && oracle.Strip(s) == plain && oracle.Strip(plain) == plain {
					c.Fail("width of %s is %d, with escape sequences %s it is %d", quote(plain), wp, quote(s), ws)
				}
				if want := oracle.Cell(s, c.EA); ws != want {
					c.Fail("width of %s is %d, want %d", quote(s), ws, want)
				}
				// seen from the alignment functions
				var out string
				c.Do("alignment", func() { out = table.AlignmentLeft(s, uint16(ws+5)) })
				if out != s+"     " {
					c.Fail("left alignment of %s to its width plus 5 gives %s", quote(s), quote(out))
				}
				c.Eval(3)
				c.Count("sequences inserted", n)
				c.Distinct(s)
				c.Sample("%s vs %s: %d", quote(s), quote(plain), ws)
			}},
			{Name: "noise", Quick: 320000, Thorough: 2000000, Run: func(c *mon.Case) {
				s := gen.EscapeNoise(c.Rng)
				switch c.Rng.Intn(4) {
				case 0:
					s += gen.Text(c.Rng, gen.Wild)
				case 1:
					s = gen.Text(c.Rng, gen.Wild) + s
				case 2:
					s += gen.EscapeNoise(c.Rng)
				}
				c.Logf("text %s", quote(s))
				var w int
				c.Do("measuring", func() { w = measure(s) })
				if want := oracle.Cell(s, c.EA); w != want {
					c.Fail("width of %s is %d, want %d (without sequences: %s)", quote(s), w, want, quote(oracle.Strip(s)))
				}
				c.Eval(1)
				if oracle.Strip(s) != s {
					c.Count("noise with sequences", 1)
					c.Distinct(s)
				} else {
					c.Count("noise without sequences", 1)
				}
			}},
			{Name: "long", Quick: 3000, Thorough: 60000, Run: func(c *mon.Case) {
				s := gen.Long(c.Rng, gen.LongBits(c.Rng))
				if c.Rng.Intn(2) == 0 {
					s += gen.LongEscape(c.Rng, 8)
				}
				c.Logf("text %s", quote(s))
				var w int
				c.Do("measuring", func() { w = measure(s) })
				if want := oracle.Cell(s, c.EA); w != want {
					c.Fail("width of %s is %d, want %d", quote(s), w, want)
				}
				c.Eval(1)
				c.Max("longest text (bytes)", len(s))
			}},
			{Name: "short-exhaustive", Quick: 2 * len(escAlphabet), Thorough: 2 * len(escAlphabet), Run: func(c *mon.Case) {
				// every tail of up to 2 characters (thorough: 3) over an alphabet with all roles
				intro := []string{"\x1b", "\u009b"}[c.Idx%2]
				a := escAlphabet[c.Idx/2]
				check := func(s string) {
					var w int
					c.Do("measuring", func() { w = measure(s) })
					if want := oracle.Cell(s, c.EA); w != want {
						c.Fail("width of %s is %d, want %d", quote(s), w, want)
					}
					c.Eval(1)
				}
				check(intro + a)
				check(intro + a + "世")
				check(a + "[31mx") // alone it is no introducer
				check(a + intro + "[31mx")
				for _, b := range escAlphabet {
					check(intro + a + b)
					check("x" + intro + "[" + a + b + "yz")
					check(intro + "[1" + a + b + "m")
					check(intro + "[1;" + a + b + "m")
					check(intro + "(" + a + b + "x")
					check(intro + a + "5" + b + "x")
					if !c.Quick {
						for _, d := range escAlphabet {
							check(intro + a + b + d)
							check(intro + "[" + a + b + d + "x")
						}
					}
				}
				c.Count("introducers followed by each of the alphabet", 1)
				if c.Idx > 1 {
					return
				}
				for n := 0; n <= 7; n++ {
					d := strings.Repeat("1", n)
					for k := 0; k <= 7; k++ {
						e := strings.Repeat("2", k)
						check(intro + "[" + d + "mx")
						check(intro + "[" + d + ";" + e + "mx")
						check(intro + "[" + d + ";;" + e + "mx")
						check(intro + "[" + d + ";" + e + ";" + d + "mx")
						check(intro + "[" + d + ";" + e)
					}
				}
			}},
		},
	})
}
