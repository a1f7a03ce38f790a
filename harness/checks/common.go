// Package checks holds the monitors, one check per property. They use only the
// public API of the code under test.
package checks

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	table "github.com/ilius/go-table"

	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

var registry = map[string]*mon.Check{}

func register(c *mon.Check) {
	if registry[c.ID] != nil {
		panic("duplicate " + c.ID)
	}
	registry[c.ID] = c
}

// Get finds a check.
func Get(id string) *mon.Check {
	if id == "C29" {
		return platformCheck()
	}
	return registry[id]
}

// Level is the verification level recorded in the evidence.
func Level(id string) string {
	if id == "C23" {
		return "fault_enumeration"
	}
	return "exploration"
}

// Assumptions recorded in the evidence.
func Assumptions(id string) []string {
	a := []string{"the oracle's frozen Unicode data (checked against an independent copy of the UCD) and Go's runtime are right",
		"held on the executions observed; nothing is claimed about inputs outside the generated families"}
	switch id {
	case "C22":
		a = append(a, "the race detector sees the synchronisation of all packages (everything is Go)")
	case "C31", "C32":
		a = append(a, "files in the format of Unicode 13 and 14; the generators honour the usual proxy and certificate variables")
	case "C26":
		a = append(a, "live heap after forced collections measures retained memory")
	}
	return a
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func spaces(n int) string { return strings.Repeat(" ", n) }

func quote(s string) string {
	head := s
	if len(head) > 300 {
		head = head[:300]
	}
	q := fmt.Sprintf("%+q", head)
	if len(s) > 300 && len(q) <= 300 {
		return q + fmt.Sprintf("... (%d bytes)", len(s))
	}
	if len(q) > 300 {
		q = q[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return q
}

// strGetter gets cell i of a []string item.
type strGetter struct{ i int }

var errShort = errors.New("item too short")

func (g strGetter) Value(item any) (any, error) {
	row := item.([]string)
	if g.i >= len(row) {
		return nil, errShort
	}
	return row[g.i], nil
}

func (g strGetter) ValueString(_ string, item any) (string, error) {
	v, err := g.Value(item)
	if err != nil {
		return "", err
	}
	return v.(string), nil
}

func (g strGetter) Format(_ any, v any) (string, error) { return v.(string), nil }

type align struct {
	name string
	f    table.Alignment
}

var aligns = []align{{"none", nil}, {"left", table.AlignmentLeft}, {"right", table.AlignmentRight}, {"center", table.AlignmentCenter}}

// measure returns the width the library attributes to a text.
func measure(s string) int {
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: strGetter{0}})
	t := table.NewTable(spec)
	if _, err := t.FormatItem([]string{s}); err != nil {
		panic(err)
	}
	return int(t.Width("c"))
}

// list is an item list that counts its use and enforces a step budget.
type list struct {
	rows   [][]string
	gets   int
	lens   int
	budget int
}

type stepsExceeded struct{ n int }

func (s stepsExceeded) Error() string { return fmt.Sprintf("step budget of %d exceeded", s.n) }

func (l *list) Len() int {
	l.lens++
	l.step()
	return len(l.rows)
}

func (l *list) Get(i int) []string {
	l.gets++
	l.step()
	return l.rows[i]
}

func (l *list) step() {
	if l.budget > 0 && l.gets+l.lens > l.budget {
		panic(stepsExceeded{l.budget})
	}
}

// mergeBudget is far more than merging needs: a polynomial in items and columns.
func mergeBudget(items, cols int) int {
	n := 64*int64(items+4)*int64(items+4)*int64(cols+1) + 100000
	if n > math.MaxInt32 { // int has 32 bits on some platforms
		n = math.MaxInt32
	}
	return int(n)
}

// centered is the specified centring.
func centered(s string, sw, width int) string {
	if sw >= width {
		return s
	}
	n := width - sw
	return spaces((n+1)/2) + s + spaces(n/2)
}

// aligned is the specified result of a built-in alignment.
func aligned(kind string, s string, width int, ea bool) string {
	if f := customKinds[kind]; f != nil {
		return f(s, uint16(width))
	}
	sw := oracle.Width(s, ea)
	if sw >= width {
		return s
	}
	switch kind {
	case "right":
		return spaces(width-sw) + s
	case "center":
		return centered(s, sw, width)
	}
	return s + spaces(width-sw)
}

var separators = []string{"", " ", "  ", "|", " | ", ", ", "--", " * ", "    ", "::", "          ", "<>"}

var wideSeparators = []string{"│", " │ ", "　", "世", " ┃", "→", "\x1b[31m|\x1b[0m", "•", "é", "…|", "\t", "%d ", " \t"}

// oddSep is a separator where any text will do.
func oddSep(r *rnd.Rand) string {
	odd := []string{"\n", "|\n", "\r\n", " \n", "\n|", "\r", "\x00", "%", "%s%d", "\\n", "\"", "\n\n", "\t", "\u0301", "\u200d", "\x1b[", "\xff"}
	if r.Intn(2) == 0 {
		return odd[r.Intn(len(odd))]
	}
	return gen.Text(r, gen.Wild)
}

// plainSep is a separator of as many columns as bytes.
func plainSep(r *rnd.Rand) string {
	if s, ok := r.Word(func(s string) bool {
		return len(s) < 200 && !strings.ContainsFunc(s, func(c rune) bool { return c < ' ' || c > '~' || c == '{' || c == '}' || c == '#' })
	}); ok {
		return s
	}
	if n := r.Size(0, 300); n > 0 {
		return strings.Repeat([]string{"-", " ", "ab"}[r.Intn(3)], n)[:n]
	}
	return separators[r.Intn(len(separators))]
}

// names that are easily taken for each other
var oddNames = []string{"", "size", "Size", "SIZE", " size", "size ", "sizé", "size\u0301", "size\x00", "si ze", "size\t", "ｓｉｚｅ", "ſize", "size1", "size10", "size01", "col", "a.b", "a/b", "a,b", "世界", "\xff", "\xfe", strings.Repeat("long ", 20) + "a", strings.Repeat("long ", 20) + "b", "K", "\u212a", "straße", "STRASSE", "0", "00", "-1", "%s", "nil", "*"}

// colName is a name for column i that differs from the used ones.
func colName(r *rnd.Rand, i int, used []string) string {
	name := fmt.Sprintf("c%d", i)
	if r.Intn(4) == 0 {
		name = oddNames[r.Intn(len(oddNames))]
	}
	if w, ok := r.Word(func(string) bool { return true }); ok {
		name = w
	}
	for k := 0; k < len(used); k++ {
		if used[k] == name {
			name = fmt.Sprintf("c%d", i)
			if used[k] == name {
				name = "column" + name
			}
			k = -1
		}
	}
	return name
}

func pickAlign(r *rnd.Rand) align { return aligns[r.Intn(len(aligns))] }

// uniq wraps decoration around a unique token so that a cell can be found in
// the output; the first and last visible characters are braces.
func uniq(r *rnd.Rand, i, j int, deco gen.Opt) string {
	var b strings.Builder
	if deco.MaxParts > 0 && r.Intn(6) == 0 {
		b.WriteString(edge(r))
	}
	if deco.Escapes && r.Intn(4) == 0 {
		b.WriteString(gen.SGR(r))
	}
	b.WriteByte('{')
	if deco.MaxParts > 0 && r.Intn(3) == 0 {
		b.WriteString(strings.Map(func(c rune) rune {
			if c == '{' || c == '}' || c == '#' {
				return '.'
			}
			return c
		}, gen.Text(r, deco)))
	}
	fmt.Fprintf(&b, "#%d.%d", i, j)
	if deco.MaxParts > 0 && r.Intn(3) == 0 {
		b.WriteString(strings.Repeat("x", r.Intn(9)))
	}
	b.WriteByte('}')
	if deco.Escapes && r.Intn(4) == 0 {
		b.WriteString(gen.SGR(r))
	}
	if deco.MaxParts > 0 && r.Intn(6) == 0 {
		b.WriteString(edge(r))
	}
	return b.String()
}

var edges = []string{" ", "  ", " ", "\t", "\u3000", "\u00a0", "\u2003", "\u200b", "\x00", "\ufeff", "\r", "\v", "\f", "\u2028", "\u0085", "\u3000\u3000", " \t", "\t ", ".", ",", "-", "_", "|", "\"", "\\", "%", "…", "世", "\x07", "\x7f", "\xff"}

// edge is something at the beginning or end of a cell that code might take for
// padding or punctuation. It does not join its neighbours.
func edge(r *rnd.Rand) string {
	if w, ok := r.Word(func(w string) bool {
		if len(w) > 20 || !utf8.ValidString(w) {
			return false
		}
		for _, c := range w {
			if k := oracle.Class(c); c == '\n' || c == 0x1b || c == 0x9b || c == '{' || c == '}' || c == '#' || k != oracle.Other && k != oracle.ExtPict && k != oracle.Control {
				return false
			}
		}
		return true
	}); ok {
		return w
	}
	return edges[r.Intn(len(edges))]
}
