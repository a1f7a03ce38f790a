// Command genprobe is linked with a copy of the library whose tables were
// generated from other character data. It compares the library with the
// specification under that data.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"

	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/oracle"
)

type report struct {
	Evals, Clusters, Edges int
	Fail                   string
}

func main() {
	var d oracle.Data
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	seed, err2 := strconv.ParseInt(os.Args[2], 10, 64)
	if err != nil || err2 != nil {
		fmt.Fprintln(os.Stderr, err, err2)
		os.Exit(2)
	}
	oracle.Use(d)
	rep := &report{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				rep.Fail = fmt.Sprint("panic: ", e)
			}
		}()
		rep.Fail = judge(d, rand.New(rand.NewSource(seed)), rep)
	}()
	json.NewEncoder(os.Stdout).Encode(rep)
}

func judge(d oracle.Data, rng *rand.Rand, rep *report) string {
	for m := 0; m < 4; m++ {
		ea, strict := m&1 != 0, m&2 != 0
		c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
		for r := rune(0); r <= 0x10ffff; r++ {
			if got, want := c.RuneWidth(r), oracle.RuneWidth(r, ea, strict); got != want {
				return fmt.Sprintf("U+%04X is %d wide, the data says %d (East Asian %v, strict emoji %v)", r, got, want, ea, strict)
			}
		}
		rep.Evals += 0x110000
	}
	// the ends of all ranges
	seen := map[rune]bool{}
	var edges []rune
	add := func(r rune) {
		if r >= 0 && r <= 0x10ffff && (r < 0xd800 || r > 0xdfff) && !seen[r] {
			seen[r] = true
			edges = append(edges, r)
		}
	}
	lists := append([][]int32{d.Combining, d.Wide, d.Ambiguous, d.Narrow, d.Emoji, d.Wide14, d.Pres}, d.Break[:]...)
	for _, iv := range lists {
		for i := 0; i < len(iv); i += 2 {
			for _, r := range []rune{iv[i] - 1, iv[i], iv[i+1], iv[i+1] + 1, (iv[i] + iv[i+1]) / 2} {
				add(r)
			}
		}
	}
	rep.Edges = len(edges)
	member := func(c uint8) string {
		iv := d.Break[c]
		if len(iv) == 0 {
			return "a"
		}
		k := rng.Intn(len(iv)/2) * 2
		return string(iv[k] + rng.Int31n(iv[k+1]-iv[k]+1))
	}
	step := func(s string) string {
		rest, state := s, -1
		for i, want := range oracle.Clusters(s) {
			var got string
			var bounds int
			got, rest, bounds, state = uniseg.StepString(rest, state)
			if got != want {
				return fmt.Sprintf("cluster %d of %+q is %+q, by the data it is %+q", i, s, got, want)
			}
			if w, m := bounds>>uniseg.ShiftWidth, oracle.MonoCluster(want); w != m {
				return fmt.Sprintf("cluster %d of %+q, %+q, is %d wide when stepping, by the data %d", i, s, want, w, m)
			}
			rep.Clusters++
		}
		if rest != "" {
			return fmt.Sprintf("clusters of %+q leave %+q", s, rest)
		}
		rep.Evals++
		return ""
	}
	for _, r := range edges {
		x := string(r)
		for _, s := range []string{x, "a" + x, x + "a", x + member(oracle.Extend), member(oracle.RI) + x, x + member(oracle.RI), member(oracle.L) + x,
			x + member(oracle.V), member(oracle.LV) + x, x + member(oracle.T), member(oracle.LVT) + x, member(oracle.T) + x, member(oracle.Prepend) + x,
			x + member(oracle.SpacingMark), member(oracle.Control) + x, x + "\u200d" + member(oracle.ExtPict), member(oracle.ExtPict) + "\u200d" + x,
			member(oracle.ExtPict) + x + "\u200d" + member(oracle.ExtPict), member(oracle.RI) + x + x, "\r" + x, x + "\n"} {
			if f := step(s); f != "" {
				return f
			}
		}
	}
	for i := 0; i < 20000; i++ {
		s := ""
		for n := 1 + rng.Intn(8); n > 0; n-- {
			switch rng.Intn(3) {
			case 0:
				s += string(edges[rng.Intn(len(edges))])
			case 1:
				s += member(uint8(rng.Intn(int(oracle.ExtPict) + 1)))
			default:
				s += []string{"a", "é", "世", "\u0301", "\ufe0f", "\u200d", "🙂", "1"}[rng.Intn(8)]
			}
		}
		if f := step(s); f != "" {
			return f
		}
		ea, strict := rng.Intn(2) == 0, rng.Intn(2) == 0
		c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
		if got, want := c.StringWidth(s), oracle.TextWidth(s, ea, strict); got != want {
			return fmt.Sprintf("%+q is %d wide, by the data %d (East Asian %v, strict emoji %v)", s, got, want, ea, strict)
		}
		rep.Evals++
	}
	return ""
}
