package checks

import (
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

const chunk = 1 << 14

func init() {
	const first = -chunk
	nChunks := (0x110000+2*chunk)/chunk + 1
	register(&mon.Check{
		ID:   "C03",
		Rule: "every rune from -16384 to beyond U+10FFFF plus random 32-bit runes, under all four option sets, against the frozen width classes; non-trivial: width differs from 1",
		Need: []string{"width 0", "width 1", "width 2", "out of range"},
		Streams: []mon.Stream{
			{Name: "all", Quick: nChunks * 4, Thorough: nChunks * 4, Run: func(c *mon.Case) {
				ea, strict := c.Idx&1 == 1, c.Idx&2 == 0
				cond := runewidth.NewCondition()
				cond.EastAsianWidth, cond.StrictEmojiNeutral = ea, strict
				base := rune(first + c.Idx/4*chunk)
				var n [3]int
				for r := base; r < base+chunk; r++ {
					checkRune(c, cond, r, ea, strict)
					w := oracle.RuneWidth(r, ea, strict)
					n[w]++
					if w != 1 {
						c.Distinct(int(r), c.Idx&3)
					}
					if r < 0 || r > 0x10ffff {
						c.Count("out of range", 1)
					}
				}
				c.Count("width 0", n[0])
				c.Count("width 1", n[1])
				c.Count("width 2", n[2])
				c.Sample("runes %#x..%#x EastAsian=%v strict=%v: %v of widths 0, 1, 2", base, base+chunk-1, ea, strict, n)
			}},
			{Name: "far", Quick: 40, Thorough: 400, Run: func(c *mon.Case) {
				ea, strict := c.Rng.Intn(2) == 0, c.Rng.Intn(2) == 0
				cond := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
				for i := 0; i < 4000; i++ {
					checkRune(c, cond, rune(c.Rng.Uint32()), ea, strict)
				}
				for _, r := range []rune{-1 << 31, 1<<31 - 1, -1, 0x110000, 0x10ffff, 0x110001, 0x1fffff, 0x200000} {
					checkRune(c, cond, r, ea, strict)
				}
				// options switched back and forth on one condition
				for i := 0; i < 2000; i++ {
					cond.EastAsianWidth = c.Rng.Intn(2) == 0
					cond.StrictEmojiNeutral = c.Rng.Intn(2) == 0
					checkRune(c, cond, gen.Rune(c.Rng), cond.EastAsianWidth, cond.StrictEmojiNeutral)
				}
				c.Count("out of range", 1)
			}},
		},
	})

	register(&mon.Check{
		ID:   "C04",
		Rule: "random histories over three conditions: set an option, build the table, look at all runes or at texts; after each build a condition must agree with the oracle for its options on every rune; non-trivial: a build after an option change",
		Need: []string{"builds", "rebuilds after a change", "all-rune scans", "default-condition builds"},
		Streams: []mon.Stream{
			{Name: "history", Quick: 64, Thorough: 1200, Run: lutHistory},
			{Name: "default", Quick: 8, Thorough: 64, Run: lutDefault},
		},
	})

	register(&mon.Check{
		ID:   "C05",
		Rule: "texts (random, all 1..3-tuples of class representatives, raw bytes, every code point) x all option sets, against the sum over oracle clusters; additivity at every cluster boundary; non-trivial: text with a multi-code-point cluster or a wide character",
		Need: []string{"multi-rune clusters", "texts", "splits"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 240000, Thorough: 1500000, Run: func(c *mon.Case) {
				o := gen.Wild
				o.MaxParts = 1 + c.Rng.Intn(14)
				s := gen.Text(c.Rng, o)
				if c.Rng.Intn(8) == 0 {
					s = gen.Bytes(c.Rng, 60)
				}
				if c.Rng.Intn(300) == 0 {
					for i := 0; i < 200; i++ {
						s += gen.Text(c.Rng, gen.Wild)
					}
				}
				checkStringWidth(c, s)
				c.Sample("%s", quote(s))
			}},
			{Name: "long", Quick: 3000, Thorough: 60000, Run: func(c *mon.Case) {
				s := gen.Long(c.Rng, gen.LongBits(c.Rng))
				checkStringWidth(c, s)
				c.Max("longest text (bytes)", len(s))
				c.Sample("%s", quote(s))
			}},
			{Name: "every-rune", Quick: 1088, Thorough: 1088, Run: func(c *mon.Case) {
				for i := 0; i < 1024; i++ {
					r := rune(c.Idx*1024 + i)
					ea := i&1 == 1
					cond := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: true}
					for _, s := range []string{string(r), "a" + string(r), "世" + string(r), string(r) + "\u0301", "\u200d" + string(r)} {
						if w, want := cond.StringWidth(s), oracle.TextWidth(s, ea, true); w != want {
							c.Fail("StringWidth(%s) = %d, want %d (EastAsian=%v)", quote(s), w, want, ea)
						}
						c.Eval(1)
					}
				}
				c.Count("texts", 1024*5)
			}},
			{Name: "tuples", Quick: len(gen.Reps), Thorough: len(gen.Reps), Run: func(c *mon.Case) {
				a := gen.Reps[c.Idx]
				for _, b := range gen.Reps {
					for _, d := range gen.Reps {
						s := string(a) + string(b) + string(d)
						ea, strict := (int(b)+int(d))&1 == 1, int(d)&2 == 0
						cond := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
						if w, want := cond.StringWidth(s), oracle.TextWidth(s, ea, strict); w != want {
							c.Fail("StringWidth(%s) = %d, want %d (EastAsian=%v strict=%v)", quote(s), w, want, ea, strict)
						}
						c.Eval(1)
					}
				}
				c.Count("texts", len(gen.Reps)*len(gen.Reps))
			}},
		},
	})

	register(&mon.Check{
		ID:   "C06",
		Rule: "cluster traces of random texts, raw bytes, every code point in contexts revealing its class, all tuples of class representatives, against a rule-by-rule UAX #29 checker; restarts at every boundary with and without state; non-trivial: text with at least two clusters, one of several code points",
		Need: []string{"clusters", "multi-rune clusters", "restarts", "iterations"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 160000, Thorough: 1500000, Run: func(c *mon.Case) {
				checkClusters(c, randomText(c), false)
			}},
			{Name: "emoji-flags", Quick: 120000, Thorough: 800000, Run: func(c *mon.Case) {
				n := 1 + c.Rng.Intn(24)
				s := make([]rune, n)
				for i := range s {
					s[i] = gen.Core[c.Rng.Intn(len(gen.Core))]
				}
				checkClusters(c, string(s), false)
			}},
			{Name: "long", Quick: 3000, Thorough: 60000, Run: func(c *mon.Case) {
				s := gen.Long(c.Rng, gen.LongBits(c.Rng))
				checkClusters(c, s, false)
				for _, cl := range oracle.Clusters(s) {
					c.Max("longest cluster (code points)", len([]rune(cl)))
				}
			}},
			{Name: "every-rune", Quick: 1088, Thorough: 1088, Run: func(c *mon.Case) { runeContexts(c, false) }},
			{Name: "tuples", Quick: len(gen.Reps), Thorough: len(gen.Reps), Run: func(c *mon.Case) { tuples(c, false) }},
		},
	})

	register(&mon.Check{
		ID:   "C07",
		Rule: "the same traces as C06, looking at the reported width of every cluster; non-trivial: reported width differs from 1",
		Need: []string{"clusters", "width 0", "width 1", "width 2", "wider"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 160000, Thorough: 1500000, Run: func(c *mon.Case) {
				checkClusters(c, randomText(c), true)
			}},
			{Name: "emoji-flags", Quick: 120000, Thorough: 800000, Run: func(c *mon.Case) {
				n := 1 + c.Rng.Intn(24)
				s := make([]rune, n)
				for i := range s {
					s[i] = gen.Core[c.Rng.Intn(len(gen.Core))]
				}
				checkClusters(c, string(s), true)
			}},
			{Name: "long", Quick: 3000, Thorough: 60000, Run: func(c *mon.Case) {
				s := gen.Long(c.Rng, gen.LongBits(c.Rng))
				checkClusters(c, s, true)
				for _, cl := range oracle.Clusters(s) {
					c.Max("longest cluster (code points)", len([]rune(cl)))
				}
			}},
			{Name: "every-rune", Quick: 1088, Thorough: 1088, Run: func(c *mon.Case) { runeContexts(c, true) }},
			{Name: "tuples", Quick: len(gen.Reps), Thorough: len(gen.Reps), Run: func(c *mon.Case) { tuples(c, true) }},
		},
	})
}

func checkRune(c *mon.Case, cond *runewidth.Condition, r rune, ea, strict bool) {
	w := -1
	if e := c.Try(func() { w = cond.RuneWidth(r) }); e != nil {
		c.Fail("RuneWidth(%#x) panicked: %v (EastAsian=%v strict=%v)", r, e, ea, strict)
	}
	if want := oracle.RuneWidth(r, ea, strict); w != want {
		c.Fail("RuneWidth(%#x) = %d, want %d (EastAsian=%v strict=%v)", r, w, want, ea, strict)
	}
	c.Eval(1)
}

func scanAll(c *mon.Case, cond *runewidth.Condition, what string) {
	for r := rune(-5); r <= 0x110005; r++ {
		if w, want := cond.RuneWidth(r), oracle.RuneWidth(r, cond.EastAsianWidth, cond.StrictEmojiNeutral); w != want {
			c.Fail("%s: RuneWidth(%#x) = %d, want %d (EastAsian=%v strict=%v)", what, r, w, want, cond.EastAsianWidth, cond.StrictEmojiNeutral)
		}
	}
	c.Eval(0x110000)
	c.Count("all-rune scans", 1)
}

func lutHistory(c *mon.Case) {
	type state struct {
		*runewidth.Condition
		lut   bool
		stale bool
	}
	conds := make([]*state, 3)
	for i := range conds {
		cond := runewidth.NewCondition()
		if c.Rng.Intn(2) == 0 {
			cond = &runewidth.Condition{}
		}
		conds[i] = &state{Condition: cond}
	}
	c.Do("history", func() {
		steps := 10 + c.Rng.Intn(8)
		for n := 0; n < steps; n++ {
			i := c.Rng.Intn(len(conds))
			s := conds[i]
			switch op := c.Rng.Intn(8); {
			case op >= 6:
				// a condition is a plain value: a copy is a condition of its own
				j := c.Rng.Intn(len(conds))
				if j == i {
					continue
				}
				cp := *s.Condition
				conds[j] = &state{Condition: &cp, lut: s.lut, stale: s.stale}
				c.Logf("cond %d: copy of %d", j, i)
				c.Count("copies", 1)
				s = conds[j]
			case op == 0:
				s.EastAsianWidth = !s.EastAsianWidth
				s.stale = s.lut
				c.Logf("cond %d: EastAsianWidth=%v", i, s.EastAsianWidth)
			case op == 1:
				s.StrictEmojiNeutral = !s.StrictEmojiNeutral
				s.stale = s.lut
				c.Logf("cond %d: StrictEmojiNeutral=%v", i, s.StrictEmojiNeutral)
			case op < 4:
				c.Logf("cond %d: CreateLUT", i)
				s.CreateLUT()
				c.Count("builds", 1)
				if s.stale {
					c.Count("rebuilds after a change", 1)
					c.Distinct(c.Idx, n)
				}
				s.lut, s.stale = true, false
			}
			if s.stale {
				continue
			}
			if n == steps-1 || c.Rng.Intn(4) == 0 {
				scanAll(c, s.Condition, "condition with lookup table")
			}
			for _, o := range conds {
				if o.stale {
					continue
				}
				for k := 0; k < 200; k++ {
					r := gen.Rune(c.Rng)
					if w, want := o.RuneWidth(r), oracle.RuneWidth(r, o.EastAsianWidth, o.StrictEmojiNeutral); w != want {
						c.Fail("RuneWidth(%#x) = %d, want %d (EastAsian=%v strict=%v lut=%v)", r, w, want, o.EastAsianWidth, o.StrictEmojiNeutral, o.lut)
					}
				}
				for k := 0; k < 10; k++ {
					t := gen.Text(c.Rng, gen.Wild)
					if w, want := o.StringWidth(t), oracle.TextWidth(t, o.EastAsianWidth, o.StrictEmojiNeutral); w != want {
						c.Fail("StringWidth(%s) = %d, want %d (EastAsian=%v strict=%v lut=%v)", quote(t), w, want, o.EastAsianWidth, o.StrictEmojiNeutral, o.lut)
					}
				}
				c.Eval(210)
			}
		}
		for i, s := range conds { // settle everything
			if s.stale {
				c.Logf("cond %d: CreateLUT", i)
				s.CreateLUT()
				c.Count("builds", 1)
				c.Count("rebuilds after a change", 1)
			}
			scanAll(c, s.Condition, "end of history")
		}
	})
	c.Sample("history of %d events", len(conds))
}

func lutDefault(c *mon.Case) {
	texts := make([]string, 300)
	before := make([]int, len(texts))
	for i := range texts {
		texts[i] = gen.Text(c.Rng, gen.Wild)
		before[i] = runewidth.StringWidth(texts[i])
	}
	other := runewidth.NewCondition()
	other.EastAsianWidth = !c.EA
	c.Do("CreateLUT", func() {
		runewidth.CreateLUT()
		if c.Rng.Intn(2) == 0 {
			runewidth.CreateLUT()
		}
		if c.Rng.Intn(2) == 0 {
			runewidth.DefaultCondition.CreateLUT()
		}
	})
	c.Count("default-condition builds", 1)
	for i, t := range texts {
		if w := runewidth.StringWidth(t); w != before[i] || w != oracle.TextWidth(t, c.EA, true) {
			c.Fail("StringWidth(%s) was %d before building the table, %d after, want %d", quote(t), before[i], w, oracle.TextWidth(t, c.EA, true))
		}
		if w, want := other.StringWidth(t), oracle.TextWidth(t, !c.EA, true); w != want {
			c.Fail("another condition: StringWidth(%s) = %d, want %d", quote(t), w, want)
		}
		if w, want := measure(t), oracle.Cell(t, c.EA); w != want {
			c.Fail("table cell %s measured as %d, want %d", quote(t), w, want)
		}
		c.Eval(3)
		c.Distinct(t)
	}
	scanAll(c, runewidth.DefaultCondition, "default condition")
	scanAll(c, other, "other condition")
	c.Sample("package-wide table, %d texts", len(texts))
}

func checkStringWidth(c *mon.Case, s string) {
	c.Logf("text %s", quote(s))
	ea, strict := c.Rng.Intn(2) == 0, c.Rng.Intn(3) > 0
	cond := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
	c.Do("StringWidth", func() {
		w := cond.StringWidth(s)
		if want := oracle.TextWidth(s, ea, strict); w != want {
			c.Fail("StringWidth(%s) = %d, want %d (EastAsian=%v strict=%v)", quote(s), w, want, ea, strict)
		}
		if g, want := runewidth.StringWidth(s), oracle.TextWidth(s, c.EA, true); g != want {
			c.Fail("package StringWidth(%s) = %d, want %d", quote(s), g, want)
		}
		bs := oracle.Boundaries(s)
		if n := len(bs); n > 0 {
			for k := 0; k < 4; k++ {
				b := bs[c.Rng.Intn(n)]
				if l, r := cond.StringWidth(s[:b]), cond.StringWidth(s[b:]); l+r != w {
					c.Fail("StringWidth(%s) = %d but %d + %d when split after byte %d", quote(s), w, l, r, b)
				}
				c.Count("splits", 1)
			}
		}
		if n := len([]rune(s)) - len(bs); n > 0 {
			c.Count("multi-rune clusters", n)
			c.Distinct(s)
		}
		c.Count("texts", 1)
		c.Eval(6)
	})
}

func randomText(c *mon.Case) string {
	o := gen.Wild
	o.MaxParts = 1 + c.Rng.Intn(14)
	switch c.Rng.Intn(6) {
	case 0:
		return gen.Bytes(c.Rng, 60)
	case 1: // long runs
		var s []rune
		for len(s) < 60 {
			r := gen.Core[c.Rng.Intn(len(gen.Core))]
			for k := 1 + c.Rng.Intn(9); k > 0; k-- {
				s = append(s, r)
			}
		}
		return string(s)
	}
	return gen.Text(c.Rng, o)
}

// checkClusters compares the trace of the stepper and of the iterator with the
// oracle; the widths only if widths is set, everything else only if not.
func checkClusters(c *mon.Case, s string, widths bool) {
	c.Logf("text %s", quote(s))
	c.Do("stepping", func() {
		want := oracle.Clusters(s)
		multi := false
		for _, w := range want {
			if len([]rune(w)) > 1 {
				multi = true
				c.Count("multi-rune clusters", 1)
			}
		}
		c.Count("clusters", len(want))
		if widths {
			stepWidths(c, s, want, -1)
		} else {
			stepAll(c, s, want)
			iterate(c, s, want)
			if len(want) > 1 && multi {
				c.Distinct(s)
			}
		}
		c.Sample("%s: %d clusters", quote(s), len(want))
	})
}

func stepAll(c *mon.Case, s string, want []string) {
	rest, state := s, -1
	for i := 0; ; i++ {
		if rest == "" {
			if i != len(want) {
				c.Fail("stepping through %s ended after %d clusters, want %d", quote(s), i, len(want))
			}
			cl, r, _, _ := uniseg.StepString(rest, state)
			if cl != "" || r != "" {
				c.Fail("stepping past the end of %s yields %q, %q", quote(s), cl, r)
			}
			break
		}
		if i >= len(want) {
			c.Fail("stepping through %s goes on after %d clusters with %q", quote(s), len(want), rest)
		}
		cl, r, _, ns := uniseg.StepString(rest, state)
		if cl != want[i] || len(cl)+len(r) != len(rest) || rest[len(cl):] != r {
			c.Fail("cluster %d of %s is %s with rest %s, want %s", i, quote(s), quote(cl), quote(r), quote(want[i]))
		}
		c.Eval(1)
		if i > 0 { // a restart without state at this boundary gives the same cluster
			fc, fr, _, _ := uniseg.StepString(rest, -1)
			if fc != cl || fr != r {
				c.Fail("restarting at cluster %d of %s yields %q, continuing yields %q", i, quote(s), fc, cl)
			}
			c.Count("restarts", 1)
			c.Eval(1)
		}
		rest, state = r, ns
	}
}

func stepWidths(c *mon.Case, s string, want []string, state int) {
	rest := s
	var n [3]int
	wider := 0
	for i, cl := range want {
		got, r, b, ns := uniseg.StepString(rest, state)
		if got != cl { // C06 judges the boundaries: judge the width of what was returned
			cl = got
		}
		w, ww := b>>uniseg.ShiftWidth, oracle.MonoCluster(cl)
		if w != ww {
			c.Fail("width of cluster %d %q of %s is %d, want %d", i, cl, quote(s), w, ww)
		}
		if i > 0 && got == want[i] {
			_, _, b2, _ := uniseg.StepString(rest, -1)
			if b2>>uniseg.ShiftWidth != w {
				c.Fail("width of cluster %d %q of %s is %d when restarting, %d when continuing", i, cl, quote(s), b2>>uniseg.ShiftWidth, w)
			}
			c.Eval(1)
		}
		c.Eval(1)
		if w < 3 {
			n[w]++
		} else {
			wider++
		}
		if w != 1 {
			c.Distinct(cl)
		}
		rest, state = r, ns
		if rest == "" {
			break
		}
	}
	c.Count("width 0", n[0])
	c.Count("width 1", n[1])
	c.Count("width 2", n[2])
	c.Count("wider", wider)
}

func iterate(c *mon.Case, s string, want []string) {
	g := uniseg.NewGraphemes(s)
	if rs := g.Runes(); rs != nil {
		c.Fail("iterator over %s has code points %q before the first step", quote(s), rs)
	}
	i := 0
	keep := c.Rng.Intn(2) == 0
	var kept [][]rune
	for g.Next() {
		if i >= len(want) {
			c.Fail("iterator over %s yields more than %d clusters", quote(s), len(want))
		}
		if rs := g.Runes(); string(rs) != string([]rune(want[i])) {
			c.Fail("iterator over %s: cluster %d is %q, want %q", quote(s), i, string(rs), want[i])
		} else if keep {
			kept = append(kept, rs)
		} else { // the caller does with them what he likes
			for k := range rs {
				rs[k] = 'x'
			}
			if again := g.Runes(); string(again) != string([]rune(want[i])) {
				c.Fail("iterator over %s: cluster %d is %q once the caller has changed his copy of it, want %q", quote(s), i, string(again), want[i])
			}
		}
		i++
	}
	for k, rs := range kept {
		if string(rs) != string([]rune(want[k])) {
			c.Fail("iterator over %s: the code points of cluster %d had become %q at the end, want %q", quote(s), k, string(rs), want[k])
		}
	}
	if i != len(want) {
		c.Fail("iterator over %s yields %d clusters, want %d", quote(s), i, len(want))
	}
	if rs := g.Runes(); rs != nil {
		c.Fail("iterator over %s has code points %q after the end", quote(s), rs)
	}
	if g.Next() {
		c.Fail("iterator over %s goes on after its end", quote(s))
	}
	c.Count("iterations", 1)
	c.Eval(i + 1)
}

var contexts = [][2]string{{"", ""}, {"a", "b"}, {"\U0001F1FA", "\U0001F1F8"}, {"\u1100", "\u11a8"}, {"\u2764\u200d", "\u200d\u2764"}, {"\uac00", "\u1161"}, {"\u0600", "\u0301"}, {"\r", "\n"}, {"\u2764", "\u0903"}, {"\u0301", "\ufe0f"}, {"\uac01", "\uac00"}, {"\u200d", "\ufe0e"}, {"\u11a8", "a\u0301"}, {"\u0903", "\u0600"}, {"\u4e16", "\u1161"}}

func runeContexts(c *mon.Case, widths bool) {
	ctx := contexts
	if c.Quick && widths {
		ctx = contexts[:8]
	}
	c.Do("stepping", func() {
		for i := 0; i < 1024; i++ {
			r := string(rune(c.Idx*1024 + i))
			for _, x := range ctx {
				s := x[0] + r + x[1]
				want := oracle.Clusters(s)
				if widths {
					stepWidths(c, s, want, -1)
				} else {
					stepAll(c, s, want)
				}
				c.Count("clusters", len(want))
			}
		}
	})
}

func tuples(c *mon.Case, widths bool) {
	a := gen.Reps[c.Idx]
	rng := rnd.New(c.Seed+int64(c.Idx), false)
	c.Do("stepping", func() {
		for _, b := range gen.Reps {
			for _, d := range gen.Reps {
				for _, s := range []string{string([]rune{a, b, d}), string([]rune{a, b, d, gen.Reps[rng.Intn(len(gen.Reps))]}), string([]rune{a, b, d, gen.Reps[rng.Intn(len(gen.Reps))], gen.Core[rng.Intn(len(gen.Core))]})} {
					want := oracle.Clusters(s)
					if widths {
						stepWidths(c, s, want, -1)
					} else {
						stepAll(c, s, want)
					}
					c.Count("clusters", len(want))
				}
			}
		}
	})
}
