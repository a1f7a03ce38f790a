package checks

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	table "github.com/ilius/go-table"

	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

// scen is a table with formatted rows.
type scen struct {
	c      *mon.Case
	ea     bool
	names  []string
	kinds  []string
	rows   [][]string
	cells  [][]int // oracle widths of the cells
	widths []int   // oracle widths of the columns
	t      *table.Table
	opt    scenOpt
	byName map[string]int
	l      *list // the same list for every merge
	alias  bool  // a column object stands in several places
	merges int
	spare  []string // cells behind the last row, if the rows lie in one array
}

type scenOpt struct {
	n, cols int
	cell    func(r *rnd.Rand, i, j int) string
	kinds   []string // alignments to pick from, default all
	widen   bool     // sometimes supply widths explicitly
	dup     bool     // sometimes let columns share a name
}

var allKinds = []string{"none", "left", "right", "center"}

// customKinds are alignments a user might write; what they return is printed
// as is, wider, narrower or unrelated to the field.
var customKinds = map[string]func(string, uint16) string{
	"custom-show": func(s string, w uint16) string { return fmt.Sprintf("<%s:%d>", s, w) },
	"custom-dots": func(s string, w uint16) string { return s + strings.Repeat(".", int(w)%50) },
	"custom-cut": func(s string, w uint16) string {
		r := []rune(s)
		if len(r) > int(w)/2 {
			r = r[:w/2]
		}
		return string(r) + "~"
	},
	"custom-empty": func(s string, w uint16) string { return "" },
	"custom-same":  func(s string, w uint16) string { return s },
	"custom-blank": func(s string, w uint16) string { return strings.Repeat(" ", int(w)%7) + s + "  " },
}

// tagged makes alignments that are one function with different variables.
func tagged(tag string, n int) func(string, uint16) string {
	return func(s string, w uint16) string { return fmt.Sprintf("%s%s%d", tag, s, int(w)+n) }
}

func init() {
	for i, tag := range []string{"a", "b", "b", "\u4e16"} {
		name := fmt.Sprint("custom-tag", i)
		customKinds[name] = tagged(tag, i)
		customNames = append(customNames, name)
	}
}

var customNames = []string{"custom-show", "custom-show", "custom-dots", "custom-cut", "custom-empty", "custom-same", "custom-blank", "none", "left", "right", "center"}

func alignOf(kind string) table.Alignment {
	if f := customKinds[kind]; f != nil {
		return f
	}
	for _, a := range aligns {
		if a.name == kind {
			return a.f
		}
	}
	panic(kind)
}

func newScen(c *mon.Case, o scenOpt) *scen {
	r := c.Rng
	s := &scen{c: c, ea: c.EA}
	kinds := o.kinds
	if kinds == nil {
		kinds = allKinds
	}
	if r.D != nil && (o.widen || o.dup) {
		if o.n > 0 {
			o.n = max(1, r.Size(o.n, 300))
		}
		if o.cols > 0 {
			o.cols = max(1, r.Size(o.cols, 40))
		}
	}
	if o.dup && r.Intn(200) == 0 { // very many columns
		o.cols = manyColumns(r)
		o.n = min(o.n, 9)
		c.Count("tables of very many columns", 1)
	}
	spec := table.NewTableSpec()
	for j := 0; j < o.cols; j++ {
		name := colName(r, j, s.names)
		if o.dup && j > 0 && r.Intn(10) == 0 {
			name = s.names[r.Intn(j)]
		}
		kind := kinds[r.Intn(len(kinds))]
		if o.dup && j > 0 && r.Intn(25) == 0 { // the same column again
			k := r.Intn(j)
			s.names, s.kinds = append(s.names, s.names[k]), append(s.kinds, s.kinds[k])
			spec.AddColumn(spec.Columns[k])
			s.alias = true
			continue
		}
		s.names = append(s.names, name)
		s.kinds = append(s.kinds, kind)
		spec.AddColumn(&table.Column{Name: name, Title: name, Getter: strGetter{j}, Alignment: alignOf(kind)})
	}
	s.t = table.NewTable(spec)
	s.opt, s.byName, s.l = o, map[string]int{}, &list{}
	for i := 0; i < o.n; i++ {
		row, ws := s.newRow(i)
		s.rows = append(s.rows, row)
		s.cells = append(s.cells, ws)
	}
	if o.widen && o.cols > 0 && r.Intn(8) == 0 {
		s.widenColumn()
	}
	if o.widen || o.dup {
		warmUp(c, s.t, make([]string, o.cols))
	}
	s.settle()
	if r.Intn(4) == 0 {
		s.oneArray()
	}
	return s
}

func manyColumns(r *rnd.Rand) int {
	return []int{31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300}[r.Intn(15)]
}

// oneArray moves the rows into one array, where a row has others behind it.
func (s *scen) oneArray() {
	flat := make([]string, 0, (len(s.rows)+1)*s.opt.cols)
	for _, i := range s.c.Rng.Perm(len(s.rows)) {
		k := len(flat)
		flat = append(flat, s.rows[i]...)
		s.rows[i] = flat[k:]
	}
	k := len(flat)
	for j := 0; j < s.opt.cols; j++ {
		flat = append(flat, "spare")
	}
	s.spare = flat[k:]
	s.c.Count("lists in one array", 1)
}

// newRow formats the i-th row.
func (s *scen) newRow(i int) ([]string, []int) {
	row := make([]string, s.opt.cols)
	ws := make([]int, s.opt.cols)
	for j := range row {
		row[j] = s.opt.cell(s.c.Rng, i, j)
		ws[j] = oracle.Cell(row[j], s.c.EA)
		s.byName[s.names[j]] = max(s.byName[s.names[j]], ws[j])
	}
	if s.alias { // the columns of the same getter would show the same cell
		s.c.Do("UpdateWidth", func() {
			for j, w := range ws {
				s.t.UpdateWidth(map[string]uint16{s.names[j]: uint16(w)})
			}
		})
		s.c.Count("rows of tables with a repeated column", 1)
		return row, ws
	}
	var got []string
	s.c.Do("FormatItem", func() {
		var err error
		got, err = s.t.FormatItem(row)
		if err != nil {
			s.c.Fail("FormatItem fails: %v", err)
		}
	})
	return got, ws
}

func (s *scen) widenColumn() {
	r := s.c.Rng
	j := r.Intn(s.opt.cols)
	w := min(s.byName[s.names[j]]+r.Intn(12), 65535)
	w = max(w, r.Size(0, 3000))
	s.c.Do("UpdateWidth", func() { s.t.UpdateWidth(map[string]uint16{s.names[j]: uint16(w)}) })
	s.byName[s.names[j]] = w
}

func (s *scen) settle() {
	s.widths = nil
	for _, n := range s.names {
		s.widths = append(s.widths, s.byName[n])
	}
}

// maybeChange sometimes alters the table or the list between two merges: what
// was merged before must not matter.
func (s *scen) maybeChange() {
	r := s.c.Rng
	n := len(s.rows)
	what := ""
	switch r.Intn(12) {
	case 0:
		for k := 1 + r.Intn(4); k > 0; k-- {
			row, ws := s.newRow(len(s.rows))
			s.rows, s.cells = append(s.rows, row), append(s.cells, ws)
		}
		what = fmt.Sprintf("%d rows added", len(s.rows)-n)
	case 1, 2:
		if n == 0 {
			return
		}
		i := r.Intn(n)
		row, ws := s.newRow(i)
		if r.Intn(2) == 0 {
			copy(s.rows[i], row) // the row itself changes
		} else {
			s.rows[i] = row
		}
		s.cells[i] = ws
		what = fmt.Sprintf("row %d replaced", i)
	case 3:
		if n == 0 {
			return
		}
		n = r.Intn(n)
		s.rows, s.cells = s.rows[:n], s.cells[:n]
		what = fmt.Sprintf("cut to %d rows", n)
	case 4:
		if s.opt.cols == 0 {
			return
		}
		s.widenColumn()
		what = "a column widened"
	case 5:
		if s.opt.cols == 0 {
			return
		}
		kinds := s.opt.kinds
		if kinds == nil {
			kinds = allKinds
		}
		j := r.Intn(s.opt.cols)
		s.kinds[j] = kinds[r.Intn(len(kinds))]
		s.t.Columns[j].Alignment = alignOf(s.kinds[j])
		for k, col := range s.t.Columns {
			if col == s.t.Columns[j] {
				s.kinds[k] = s.kinds[j]
			}
		}
		what = fmt.Sprintf("column %d aligned %s", j, s.kinds[j])
	default:
		return
	}
	s.settle()
	s.c.Logf("between two merges: %s", what)
	s.c.Count("changes between merges", 1)
}

// itemWidth is the width of one item on non-compact lines.
func (s *scen) itemWidth() int {
	w := max(0, len(s.widths)-1)
	for _, x := range s.widths {
		w += x
	}
	return w
}

// groupWidths are the widths of the cells of each group and column if the
// items are spread over g groups.
func (s *scen) groupWidths(vertical bool, g int) [][]int {
	n := len(s.rows)
	lines := (n + g - 1) / g
	gw := make([][]int, g)
	for k := range gw {
		gw[k] = make([]int, len(s.widths))
	}
	for i := 0; i < n; i++ {
		k := i % g
		if vertical {
			k = i / lines
		}
		for j, w := range s.cells[i] {
			gw[k][j] = max(gw[k][j], w)
		}
	}
	return gw
}

func (s *scen) compactWidth(vertical bool, g, margin int) int {
	t := margin*(g-1) + (len(s.widths)-1)*g
	for _, ws := range s.groupWidths(vertical, g) {
		for _, w := range ws {
			t += w
		}
	}
	return t
}

func (s *scen) describe(vertical bool, limit int, sep string, compact bool) string {
	d := "MergeRowsHorizontal"
	if vertical {
		d = "MergeRowsVertical"
	}
	return fmt.Sprintf("%s of %d items, alignments %v, column widths %v, limit %d, separator %s, compact %v", d, len(s.rows), s.kinds, s.widths, limit, quote(sep), compact)
}

func (s *scen) log(vertical bool, limit int, sep string, compact bool, out string) {
	s.c.Logf("%s", s.describe(vertical, limit, sep, compact))
	for i, r := range s.rows {
		if i >= 40 {
			s.c.Logf("...")
			break
		}
		s.c.Logf("item %d: %+q", i, r)
	}
	for i, l := range strings.SplitAfter(out, "\n") {
		if i >= 40 {
			break
		}
		s.c.Logf("line %d: %+q", i, l)
	}
}

// merge runs the code under test; panics and endless loops are violations.
func (s *scen) merge(vertical bool, limit int, sep string, compact bool) string {
	l := s.l
	*l = list{rows: s.rows, budget: mergeBudget(len(s.rows), len(s.kinds))}
	out, got := sink(s.c.Idx + s.merges)
	s.merges++
	s.c.Do(s.describe(vertical, limit, sep, compact), func() {
		if vertical {
			s.t.MergeRowsVertical(out, l, limit, sep, compact)
		} else {
			s.t.MergeRowsHorizontal(out, l, limit, sep, compact)
		}
	})
	s.c.Count("merged outputs", 1)
	s.c.Max("list accesses in one merge", l.gets+l.lens)
	return got()
}

func onlySpaces(s string) bool { return strings.Trim(s, " ") == "" }

// gapOK tells if g is the separator surrounded by nothing but padding.
func gapOK(g, sep string) bool {
	for p := 0; p+len(sep) <= len(g); p++ {
		if g[p:p+len(sep)] == sep && onlySpaces(g[p+len(sep):]) {
			return true
		}
		if g[p] != ' ' {
			return false
		}
	}
	return sep == "" && onlySpaces(g)
}

func splitLines(s *scen, out string) []string {
	if out == "" {
		return nil
	}
	if !strings.HasSuffix(out, "\n") {
		s.c.Fail("the output does not end with a newline")
	}
	return strings.Split(out[:len(out)-1], "\n")
}

// lineItems parses a line holding exactly the given items and returns what
// follows them.
func (s *scen) lineItems(line string, items []int, sep string) string {
	rem := line
	for gi, i := range items {
		for j, cell := range s.rows[i] {
			p := strings.Index(rem, cell)
			if p < 0 {
				s.c.Fail("cell %d of item %d (%s) is missing or altered: expected in %s of line %s", j, i, quote(cell), quote(rem), quote(line))
			}
			gap := rem[:p]
			switch {
			case gi == 0 && j == 0:
				if !onlySpaces(gap) {
					s.c.Fail("line %s begins with %s before item %d", quote(line), quote(gap), i)
				}
			case j == 0:
				if !gapOK(gap, sep) {
					s.c.Fail("%s stands between items %d and %d, not the separator %s", quote(gap), items[gi-1], i, quote(sep))
				}
			default:
				if gap == "" || !onlySpaces(gap) {
					s.c.Fail("%s stands between cells %d and %d of item %d", quote(gap), j-1, j, i)
				}
			}
			rem = rem[p+len(cell):]
		}
	}
	return rem
}

// strict checks order and completeness of a merged output of token cells and
// returns the items of every line.
func (s *scen) strict(vertical bool, out, sep string) [][]int {
	n := len(s.rows)
	if n == 0 {
		if out != "" {
			s.c.Fail("merging nothing prints %s", quote(out))
		}
		return nil
	}
	lines := splitLines(s, out)
	res := make([][]int, len(lines))
	if vertical {
		L := len(lines)
		for l, line := range lines {
			var items []int
			for i := l; i < n; i += L {
				items = append(items, i)
			}
			if len(items) == 0 {
				s.c.Fail("%d lines for %d items", L, n)
			}
			rest := s.lineItems(line, items, sep)
			if !onlySpaces(rest) && !gapOK(rest, sep) {
				s.c.Fail("line %d of %d ends with %s after its last item %d", l, L, quote(rest), items[len(items)-1])
			}
			res[l] = items
		}
		s.c.Eval(n)
		return res
	}
	next, per := 0, 0
	for l, line := range lines {
		if next >= n {
			s.c.Fail("line %d (%s) comes after the last item", l, quote(line))
		}
		var items []int
		if l == 0 { // as many as the line has
			for next < n && strings.Contains(line, s.rows[next][0]) {
				items = append(items, next)
				next++
			}
			per = len(items)
			if per == 0 {
				s.c.Fail("the first line %s lacks item 0", quote(line))
			}
		} else {
			for len(items) < per && next < n {
				items = append(items, next)
				next++
			}
		}
		rest := s.lineItems(line, items, sep)
		full := l < len(lines)-1
		if !onlySpaces(rest) && (full || !gapOK(rest, sep)) {
			s.c.Fail("line %d of %d (%s) ends with %s after its last item %d", l, len(lines), quote(line), quote(rest), items[len(items)-1])
		}
		res[l] = items
	}
	if next != n {
		s.c.Fail("only %d of %d items are printed", next, n)
	}
	s.c.Eval(n)
	return res
}

// seen is a token cell found in the output.
type seen struct {
	line, group, item, col int
	start, end             int // display columns
}

// scan finds the token cells of a merged output without assuming an order.
func (s *scen) scan(out string) (cells []seen, lines []string, perLine []int) {
	if out == "" {
		return
	}
	lines = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for l, line := range lines {
		pos, disp, group, last := 0, 0, -1, -1
		for {
			a := strings.IndexByte(line[pos:], '{')
			if a < 0 {
				break
			}
			b := strings.IndexByte(line[pos+a:], '}')
			if b < 0 {
				break
			}
			tok := line[pos+a : pos+a+b+1]
			i, j := parseToken(tok)
			disp += oracle.Width(line[pos:pos+a], s.ea)
			w := oracle.Width(tok, s.ea)
			if i >= 0 {
				if i != last {
					group++
					last = i
				}
				x := seen{l, group, i, j, disp, disp + w}
				if i < len(s.rows) && j < len(s.rows[i]) { // what belongs to the cell outside the braces
					if p := strings.Index(s.rows[i][j], tok); p >= 0 {
						pre, post := s.rows[i][j][:p], s.rows[i][j][p+len(tok):]
						if strings.HasSuffix(line[:pos+a], pre) {
							x.start -= oracle.Width(pre, s.ea)
						}
						if strings.HasPrefix(line[pos+a+b+1:], post) {
							x.end += oracle.Width(post, s.ea)
						}
					}
				}
				cells = append(cells, x)
			}
			disp += w
			pos += a + b + 1
		}
		perLine = append(perLine, group+1)
	}
	return
}

func parseToken(t string) (int, int) {
	h := strings.LastIndexByte(t, '#')
	if h < 0 {
		return -1, -1
	}
	x := strings.TrimRight(t[h+1:len(t)-1], "x")
	d := strings.IndexByte(x, '.')
	if d < 0 {
		return -1, -1
	}
	i, err1 := strconv.Atoi(x[:d])
	j, err2 := strconv.Atoi(x[d+1:])
	if err1 != nil || err2 != nil {
		return -1, -1
	}
	return i, j
}

// limits picks a width limit at the interesting places.
func (s *scen) limit(vertical bool, margin int) int {
	r := s.c.Rng
	w := s.itemWidth()
	n := len(s.rows)
	d := r.Intn(5) - 2
	if l := r.Size(-1, 1<<20); l >= 0 {
		return l
	}
	switch r.Intn(12) {
	case 0:
		return r.Intn(12)
	case 1:
		return []int{0, 1, -1, -7, math.MinInt32, 65534, 65535, 65536, 65537, 1 << 20, math.MaxInt32, 131071, 131072, 65536 + 40}[r.Intn(14)]
	case 2, 3, 4:
		g := 1 + r.Intn(n+3)
		return g*(w+margin) - margin + d
	case 5, 6, 7, 8:
		g := 1 + r.Intn(max(1, n))
		return s.compactWidth(vertical, g, margin) + d
	case 9:
		return r.Intn(3*w + 10)
	default:
		return r.Intn((n + 1) * (w + margin + 1))
	}
}

func clampLimit(l int) int { return max(0, min(l, 65535)) }

func tokenCell(o gen.Opt) func(*rnd.Rand, int, int) string {
	return func(r *rnd.Rand, i, j int) string { return uniq(r, i, j, o) }
}

// tokenScen makes unique cells of varied widths.
func tokenScen(c *mon.Case, maxN int) *scen {
	r := c.Rng
	deco := []gen.Opt{{}, {MaxParts: 1}, {MaxParts: 3}, gen.Tame, gen.Line, {Escapes: true, MaxParts: 2}}[r.Intn(6)]
	n := r.Intn(maxN + 1)
	if r.Intn(3) == 0 {
		n = r.Intn(8)
	}
	return newScen(c, scenOpt{n: n, cols: 1 + r.Intn(4), cell: tokenCell(deco), widen: true, dup: true})
}

// gridCase enumerates small shapes: item count, limit, separator, columns.
type gridCase struct {
	n, limit, cols, variant int
	sep                     string
}

var gridSeps = []string{"", " ", "|", " | ", "----"}

// 10 item counts x 5 separators x 3 column counts x 4 variants; the limits are
// enumerated inside the case.
const gridCases = 10 * 5 * 3 * 4

func grid(c *mon.Case, f func(s *scen, sep string, limit int)) {
	x := c.Idx
	n := x % 10
	x /= 10
	sep := gridSeps[x%5]
	x /= 5
	cols := 1 + x%3
	x /= 3
	variant := x
	s := newScen(c, scenOpt{n: n, cols: cols, cell: func(r *rnd.Rand, i, j int) string {
		pad := 0
		switch variant {
		case 1: // growing
			pad = i + j
		case 2: // one wide item
			if i == n/2 {
				pad = 9
			}
		case 3:
			pad = r.Intn(7)
		}
		return fmt.Sprintf("{#%d.%d%s}", i, j, strings.Repeat("x", pad))
	}})
	top := (n+1)*(s.itemWidth()+len(sep)) + 2
	for limit := -1; limit <= top; limit++ {
		f(s, sep, limit)
	}
}

func anySep(r *rnd.Rand) string {
	if r.Intn(4) == 0 {
		return wideSeparators[r.Intn(len(wideSeparators))]
	}
	return plainSep(r)
}

func countDistinct(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact bool, out string) {
	if len(s.rows) > 1 && strings.Count(out, "\n") < len(s.rows) {
		c.Sample("%s: %d lines, the first %+q", s.describe(vertical, limit, sep, compact), strings.Count(out, "\n"), strings.SplitN(out, "\n", 2)[0])
		c.Count("outputs with several items per line", 1)
	}
	if strings.Count(out, "\n") > 1 {
		c.Count("outputs of several lines", 1)
	}
	c.Distinct(fmt.Sprint(vertical, compact), len(s.rows), limit, sep, fmt.Sprint(s.widths, s.kinds), strings.Count(out, "\n"))
}

func orderCheck(id string, vertical bool) {
	run := func(c *mon.Case, s *scen, limit int, sep string, compact bool) {
		out := s.merge(vertical, limit, sep, compact)
		func() {
			defer func() {
				if e := recover(); e != nil {
					s.log(vertical, limit, sep, compact, out)
					panic(e)
				}
			}()
			per := s.strict(vertical, out, sep)
			c.Max("items on a line", func() int {
				if len(per) > 0 {
					return len(per[0])
				}
				return 0
			}())
		}()
		c.Count("items decoded", len(s.rows))
		countDistinct(c, s, vertical, limit, sep, compact, out)
	}
	register(&mon.Check{
		ID:   id,
		Rule: "tables of unique token cells (escape sequences, CJK, marks and invalid bytes around the token) merged at limits around every packing boundary, non-compact and compact, with ASCII and wide separators; the output is decoded cell by cell and compared with the list. Non-trivial: distinct (shape, limit, separator, lines)",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "items decoded", "outputs with several items per line", "outputs of several lines", "ambiguous items compared", "items of any text compared", "changes between merges"},
		Streams: []mon.Stream{
			reentrantStream(map[bool]string{false: "horizontal", true: "vertical"}[vertical], 3000, 60000),
			{Name: "grid", Quick: gridCases, Thorough: gridCases, Run: func(c *mon.Case) {
				grid(c, func(s *scen, sep string, limit int) {
					run(c, s, limit, sep, false)
					run(c, s, limit, sep, true)
				})
			}},
			{Name: "random", Quick: 32000, Thorough: 400000, Run: func(c *mon.Case) {
				s := tokenScen(c, 40)
				for k := 0; k < 3; k++ {
					sep := anySep(c.Rng)
					run(c, s, s.limit(vertical, len(sep)), sep, c.Rng.Intn(2) == 0)
					s.maybeChange()
				}
			}},
			{Name: "large", Quick: 48, Thorough: 800, Run: func(c *mon.Case) {
				s := newScen(c, scenOpt{n: 200 + c.Rng.Intn(600), cols: 1 + c.Rng.Intn(3), cell: tokenCell(gen.Opt{MaxParts: 2}), widen: true})
				for k := 0; k < 3; k++ {
					sep := anySep(c.Rng)
					run(c, s, s.limit(vertical, len(sep)), sep, k == 0 && len(s.rows) < 400)
				}
			}},
			{Name: "many items", Quick: 24, Thorough: 240, Run: func(c *mon.Case) {
				// counts and places beyond 8 and 16 bits
				r := c.Rng
				n := []int{255, 256, 257, 4097, 32769, 65535, 65536, 65537, 70001, 131073}[c.Idx%10] + r.Intn(2)
				cols := 1 + r.Intn(2)
				if n > 60000 {
					cols = 1
				}
				s := newScen(c, scenOpt{n: n, cols: cols, cell: func(_ *rnd.Rand, i, j int) string { return fmt.Sprintf("%06d%c", i, 'a'+j) }})
				w := s.itemWidth()
				for k := 0; k < 2; k++ {
					sep := []string{"", " ", "|"}[r.Intn(3)]
					limit := []int{3 * w, 10*(w+len(sep)) - len(sep), 257 * (w + len(sep)), 65535, math.MaxInt32, 0}[r.Intn(6)]
					run(c, s, limit, sep, r.Intn(2) == 0)
				}
				c.Max("items in one merge", n)
			}},
			{Name: "wide lines", Quick: 24, Thorough: 400, Run: func(c *mon.Case) {
				// about as many items as the longest line holds, with little to compact
				r := c.Rng
				cols := []int{1, 1, 2, 3, 5, 40, 300}[r.Intn(7)]
				sep := []string{"", " ", "|", ", "}[r.Intn(4)]
				n := 65535/(cols*7+len(sep)) + r.Intn(8)
				s := newScen(c, scenOpt{n: n, cols: cols, cell: func(r *rnd.Rand, i, j int) string {
					if i == 7 && j == 0 {
						return fmt.Sprintf("%04xwide%03x", i, j)
					}
					return fmt.Sprintf("%04x%c%c", i, 'g'+j%20, 'g'+j/20)
				}})
				for k := 0; k < 2; k++ {
					run(c, s, []int{65535, math.MaxInt32, 65534, 65535 - len(sep)}[r.Intn(4)], sep, k == 0)
				}
			}},
			{Name: "ambiguous", Quick: 24000, Thorough: 300000, Run: func(c *mon.Case) { ambiguous(c, vertical) }},
			{Name: "any text", Quick: 16000, Thorough: 200000, Run: func(c *mon.Case) { anyText(c, vertical) }},
		},
	})
}

// ambiguous merges rows whose cells repeat, are empty or hold blanks, which
// cannot be told apart one by one: the non-blank text of each line is compared.
func ambiguous(c *mon.Case, vertical bool) {
	r := c.Rng
	pool := []string{"", "", "a", "b", "ab", "a b", "世", "é", "\x1b[1mq\x1b[0m", " c", "d ", "x\u0301", "\xff"}
	s := newScen(c, scenOpt{n: r.Intn(14), cols: 1 + r.Intn(4), dup: true, widen: true, cell: func(r *rnd.Rand, _, _ int) string { return pool[r.Intn(len(pool))] }})
	for i := range s.rows {
		if i > 0 && r.Intn(6) == 0 { // the same row again
			k := i - 1
			if r.Intn(2) == 0 {
				k = r.Intn(i)
			}
			s.rows[i], s.cells[i] = s.rows[k], s.cells[k]
			c.Count("rows listed twice", 1)
		}
	}
	sep := []string{"|", " | ", "  ", "", "%%", " ", "┃"}[r.Intn(7)]
	limit := s.limit(vertical, len(sep))
	compact := r.Intn(2) == 0
	out := s.merge(vertical, limit, sep, compact)
	n := len(s.rows)
	if n == 0 {
		if out != "" {
			c.Fail("merging nothing prints %s", quote(out))
		}
		return
	}
	defer func() {
		if e := recover(); e != nil {
			s.log(vertical, limit, sep, compact, out)
			panic(e)
		}
	}()
	mark := strings.TrimSpace(sep)
	squeeze := func(x string) string {
		x = strings.ReplaceAll(x, " ", "")
		return x
	}
	lines := splitLines(s, out)
	text := func(items []int) string {
		var parts []string
		for _, i := range items {
			parts = append(parts, squeeze(strings.Join(s.rows[i], "")))
		}
		return strings.Join(parts, mark)
	}
	check := func(l int, items []int, mayTrail bool) {
		want := text(items)
		got := squeeze(lines[l])
		if got != want && !(mayTrail && got == want+mark) {
			c.Fail("line %d of %d holds %s, want the cells of items %v: %s", l, len(lines), quote(lines[l]), items, quote(want))
		}
		// printed cells, blanks included, in order
		rem := lines[l]
		for _, i := range items {
			for j, cell := range s.rows[i] {
				p := strings.Index(rem, cell)
				if p < 0 {
					c.Fail("cell %d of item %d (%s) altered in line %d %s", j, i, quote(cell), l, quote(lines[l]))
				}
				rem = rem[p+len(cell):]
			}
		}
		c.Count("ambiguous items compared", len(items))
		c.Eval(1)
	}
	if vertical {
		L := len(lines)
		for l := range lines {
			var items []int
			for i := l; i < n; i += L {
				items = append(items, i)
			}
			if len(items) == 0 {
				c.Fail("%d lines for %d items", L, n)
			}
			check(l, items, true)
		}
	} else {
		// the number per line follows from the number of lines up to choice; try each
		L := len(lines)
		ok := false
		var firstErr any
		for g := 1; g <= n && !ok; g++ {
			if (n+g-1)/g != L {
				continue
			}
			firstErr = c.TryCheck(func() {
				for l := range lines {
					var items []int
					for i := l * g; i < (l+1)*g && i < n; i++ {
						items = append(items, i)
					}
					check(l, items, l == L-1)
				}
			})
			ok = firstErr == nil
		}
		if !ok {
			if firstErr == nil {
				c.Fail("%d lines cannot hold %d items equally", L, n)
			}
			panic(firstErr)
		}
	}
	countDistinct(c, s, vertical, limit, sep, compact, out)
}

// anyText merges cells of any text, newlines included. The output is compared
// without its blanks, for some number of items per line, and then searched for
// the cells with theirs.
func anyText(c *mon.Case, vertical bool) {
	r := c.Rng
	cell := func(r *rnd.Rand, i, j int) string {
		t := fmt.Sprintf("%d.%d", i, j)
		switch r.Intn(6) {
		case 0:
			t = ""
		case 1, 2:
			t = gen.Text(r, gen.Wild)
		case 3:
			t = gen.Text(r, gen.Wild) + t
		}
		brk := func() string { return []string{"\n", "\r\n", "\r", "\n\n", "\u2028"}[r.Intn(5)] }
		switch r.Intn(8) {
		case 0:
			t += edge(r)
		case 1:
			t = edge(r) + t
		case 2:
			t += brk()
		case 3:
			t = brk() + t
		}
		return t
	}
	s := newScen(c, scenOpt{n: 1 + r.Intn(10), cols: 1 + r.Intn(3), dup: true, widen: true, cell: cell})
	sep := anySep(r)
	limit := s.limit(vertical, len(sep))
	compact := r.Intn(2) == 0
	out := s.merge(vertical, limit, sep, compact)
	defer func() {
		if e := recover(); e != nil {
			s.log(vertical, limit, sep, compact, out)
			panic(e)
		}
	}()
	squeeze := func(x string) string { return strings.ReplaceAll(x, " ", "") }
	mark, text, n := squeeze(sep), squeeze(out), len(s.rows)
	explained := false
	var order []int
	for k := 1; k <= n && !explained; k++ { // lines (vertically) or items per line
		L := k
		if !vertical {
			L = (n + k - 1) / k
		}
		rem, ok := text, true
		order = order[:0]
		for l := 0; l < L && ok; l++ {
			first, step, end := l, L, n
			if !vertical {
				first, step, end = l*k, 1, min(n, l*k+k)
			}
			want := ""
			for i := first; i < end; i += step {
				if i > first {
					want += mark
				}
				want += squeeze(strings.Join(s.rows[i], ""))
				order = append(order, i)
			}
			ok = strings.HasPrefix(rem, want)
			if ok {
				rem = rem[len(want):]
				if vertical || l == L-1 { // a separator may follow the last item
					if strings.HasPrefix(rem, mark+"\n") {
						rem = rem[len(mark):]
					}
				}
				if ok = strings.HasPrefix(rem, "\n"); ok {
					rem = rem[1:]
				}
			}
		}
		explained = ok && rem == ""
	}
	if !explained {
		c.Fail("the output %s does not hold the %d items in their order for any number of items per line", quote(out), n)
	}
	rem := out
	for _, i := range order {
		for j, cell := range s.rows[i] {
			p := strings.Index(rem, cell)
			if p < 0 {
				c.Fail("cell %d of item %d (%s) altered in %s", j, i, quote(cell), quote(out))
			}
			rem = rem[p+len(cell):]
		}
	}
	c.Count("items of any text compared", n)
	c.Eval(n)
	countDistinct(c, s, vertical, limit, sep, compact, out)
}

func init() {
	orderCheck("C13", false)
	orderCheck("C14", true)
	register(limitCheck())
	register(packCheck())
	register(compactCheck())
	register(customCheck())
	register(gridAlignCheck())
	register(totalityCheck())
}

// C15

func limitCheck() *mon.Check {
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact bool) {
		out := s.merge(vertical, limit, sep, compact)
		if out == "" {
			return
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(lines) >= len(s.rows) { // one item per line
			c.Count("outputs with single items", 1)
			return
		}
		lim := clampLimit(limit)
		for l, line := range lines {
			w := oracle.Width(line, s.ea)
			if w > lim {
				s.log(vertical, limit, sep, compact, out)
				c.Fail("line %d is %d wide, the limit is %d, though there are %d lines for %d items", l, w, lim, len(lines), len(s.rows))
			}
			if w == lim {
				c.Count("lines exactly at the limit", 1)
			}
			if w == lim-1 {
				c.Count("lines one below the limit", 1)
			}
		}
		c.Eval(len(lines))
		countDistinct(c, s, vertical, limit, sep, compact, out)
	}
	both := func(c *mon.Case, s *scen, sep string, limit int) {
		for _, v := range []bool{false, true} {
			for _, k := range []bool{false, true} {
				judge(c, s, v, limit, sep, k)
			}
		}
	}
	return &mon.Check{
		ID:   "C15",
		Rule: "tables of cells of every kind (empty, escape sequences, CJK, marks, invalid bytes, thousands of columns wide) merged in all four ways at limits around each packing boundary; every line of an output with fewer lines than items is measured with the oracle. Non-trivial: distinct (shape, limit, separator, lines)",
		Need: []string{"outputs with several items per line", "lines exactly at the limit", "lines one below the limit"},
		Streams: []mon.Stream{
			{Name: "grid", Quick: gridCases, Thorough: gridCases, Run: func(c *mon.Case) {
				grid(c, func(s *scen, sep string, limit int) { both(c, s, sep, limit) })
			}},
			{Name: "random", Quick: 24000, Thorough: 300000, Run: func(c *mon.Case) {
				r := c.Rng
				o := []gen.Opt{gen.Tame, gen.Line, {MaxParts: 2}}[r.Intn(3)]
				cell := func(r *rnd.Rand, i, j int) string {
					if r.Intn(6) == 0 {
						return ""
					}
					t := gen.Text(r, o)
					if oracle.Width(t, c.EA) > 3000 {
						return "w"
					}
					return t
				}
				s := newScen(c, scenOpt{n: r.Intn(30), cols: 1 + r.Intn(4), cell: cell, widen: true, dup: true})
				for k := 0; k < 3; k++ {
					sep := anySep(r)
					both(c, s, sep, s.limit(r.Intn(2) == 0, len(sep)))
					s.maybeChange()
				}
			}},
			{Name: "many", Quick: 1600, Thorough: 30000, Run: func(c *mon.Case) {
				// hundreds of items, few of them wide: at the ends, or anywhere
				r := c.Rng
				n := 100 + r.Intn(500)
				if r.Intn(12) == 0 {
					n = 1000 + r.Intn(4000)
				}
				wide := map[int]int{}
				for k := r.Intn(4); k >= 0; k-- {
					wide[[]int{0, 1, n - 1, n - 1, n - 2, r.Intn(n)}[r.Intn(6)]] = 5 + r.Intn(60)
				}
				s := newScen(c, scenOpt{n: n, cols: 1 + r.Intn(3), widen: true, cell: func(r *rnd.Rand, i, j int) string {
					if w := wide[i]; w > 0 && r.Intn(3) > 0 {
						return strings.Repeat("w", w)
					}
					return []string{"a", "b", "cc", "世", "", "e\u0301"}[r.Intn(6)]
				}})
				sep := anySep(r)
				both(c, s, sep, s.itemWidth()+r.Intn(80))
				if n < 300 {
					both(c, s, sep, s.limit(r.Intn(2) == 0, len(sep)))
				}
			}},
			{Name: "huge", Quick: 900, Thorough: 12000, Run: func(c *mon.Case) {
				r := c.Rng
				base := []int{30, 1000, 8000, 16383, 21844, 32767, 32768, 60000, 65533, 65534}[r.Intn(10)]
				cell := func(r *rnd.Rand, i, j int) string {
					w := base - r.Intn(40)
					if r.Intn(3) == 0 {
						w = r.Intn(40)
					}
					return strings.Repeat("h", max(0, min(w, 65534)))
				}
				s := newScen(c, scenOpt{n: 2 + r.Intn(5), cols: 1 + r.Intn(3), cell: cell})
				limits := []int{65535, 65534, 65536, 1 << 20, math.MaxInt, 65535 + s.itemWidth(), s.limit(false, 1), s.limit(true, 1)}
				sep := anySep(r)
				if r.Intn(4) == 0 {
					sep = strings.Repeat("-", []int{255, 256, 32767, 65534, 65535, 65536, 65540}[r.Intn(7)])
				}
				both(c, s, sep, limits[r.Intn(len(limits))])
				c.Max("item width", s.itemWidth())
			}},
		},
	}
}

// C16

func packCheck() *mon.Check {
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string) {
		n := len(s.rows)
		w, m := s.itemWidth(), len(sep)
		if n == 0 || w+m == 0 {
			return
		}
		out := s.merge(vertical, limit, sep, false)
		G := max(1, (clampLimit(limit)+m)/(w+m))
		L := (n + G - 1) / G
		_, lines, per := s.scan(out)
		bad := ""
		if vertical {
			if len(lines) != L {
				bad = fmt.Sprintf("%d lines", len(lines))
			}
		} else {
			for l := 0; l < len(per); l++ {
				if l < len(per)-1 || len(per) == 1 {
					if per[l] != min(G, n) {
						bad = fmt.Sprintf("%d items on line %d", per[l], l)
					}
				}
			}
			if len(per) != L && bad == "" {
				bad = fmt.Sprintf("%d lines", len(lines))
			}
		}
		if bad != "" {
			s.log(vertical, limit, sep, false, out)
			c.Fail("%s; %d items of width %d with separators of %d fit into %d %d at a time, on %d lines", bad, n, w, m, clampLimit(limit), G, L)
		}
		c.Eval(1)
		c.Max("items that fit", min(G, n))
		if (clampLimit(limit)+m)%(w+m) == 0 {
			c.Count("limits fitting exactly", 1)
		}
		if (clampLimit(limit)+m+1)%(w+m) == 0 {
			c.Count("limits one short", 1)
		}
		countDistinct(c, s, vertical, limit, sep, false, out)
	}
	both := func(c *mon.Case, s *scen, sep string, limit int) {
		judge(c, s, false, limit, sep)
		judge(c, s, true, limit, sep)
	}
	return &mon.Check{
		ID:   "C16",
		Rule: "token tables merged without compaction, limits around every multiple of the item width, at 0, negative and above 65535; items per line (horizontal) and lines (vertical) are counted in the output and compared with the closed form. Non-trivial: distinct (shape, limit, separator, lines)",
		Need: []string{"limits fitting exactly", "limits one short", "outputs with several items per line"},
		Streams: []mon.Stream{
			{Name: "grid", Quick: gridCases, Thorough: gridCases, Run: func(c *mon.Case) {
				grid(c, func(s *scen, sep string, limit int) { both(c, s, sep, limit) })
			}},
			{Name: "random", Quick: 32000, Thorough: 400000, Run: func(c *mon.Case) {
				s := tokenScen(c, 40)
				for k := 0; k < 3; k++ {
					sep := plainSep(c.Rng)
					both(c, s, sep, s.limit(false, len(sep)))
					s.maybeChange()
				}
			}},
			{Name: "vast", Quick: 40, Thorough: 800, Run: func(c *mon.Case) {
				// lines of tens of thousands of cells, most of them empty
				r := c.Rng
				cols := []int{1, 2, 5, 9, 17, 33, 100, 257, 300, 1000}[r.Intn(10)]
				g := 65535 / (cols + 9)
				n := g + r.Intn(2*g)
				at := r.Intn(cols)
				s := newScen(c, scenOpt{n: n, cols: cols, kinds: []string{"none", "left"}, cell: func(r *rnd.Rand, i, j int) string {
					if j == at {
						return fmt.Sprintf("{#%d.%d}", i, j)
					}
					return ""
				}})
				sep := plainSep(r)
				limits := []int{65535, 65534, 60000, 32768, 30000 + r.Intn(35000)}
				both(c, s, sep, limits[r.Intn(len(limits))])
				c.Max("cells on a line", cols*(65535+len(sep))/(s.itemWidth()+len(sep)))
			}},
			{Name: "extreme", Quick: 900, Thorough: 12000, Run: func(c *mon.Case) {
				r := c.Rng
				pad := []int{0, 1, 100, 1000, 8000, 16380, 21840, 32760, 65500}[r.Intn(9)]
				s := newScen(c, scenOpt{n: 1 + r.Intn(60), cols: 1 + r.Intn(3), cell: func(r *rnd.Rand, i, j int) string {
					p := 0
					if i == 0 && j == 0 {
						p = pad
					}
					return fmt.Sprintf("{#%d.%d%s}", i, j, strings.Repeat("x", p))
				}})
				sep := plainSep(r)
				if r.Intn(3) == 0 {
					sep = strings.Repeat(".", []int{100, 255, 256, 257, 1000, 65535, 65536}[r.Intn(7)])
				}
				limits := []int{65534, 65535, 65536, 65537, 1 << 17, 1<<17 + 3, math.MaxInt32, math.MaxInt, math.MinInt, -1, 0, 1}
				both(c, s, sep, limits[r.Intn(len(limits))])
				both(c, s, sep, s.limit(true, len(sep)))
			}},
		},
	}
}

// C17

func compactCheck() *mon.Check {
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string) {
		n := len(s.rows)
		if n == 0 {
			return
		}
		m := len(sep)
		lim := clampLimit(limit)
		plain := s.merge(vertical, limit, sep, false)
		out := s.merge(vertical, limit, sep, true)
		defer func() {
			if e := recover(); e != nil {
				s.log(vertical, limit, sep, true, out)
				panic(e)
			}
		}()
		per := s.strict(vertical, out, sep)
		_, plainLines, plainPer := s.scan(plain)
		L := len(per)
		c.Eval(1)
		if L > len(plainLines) {
			c.Fail("compact takes %d lines, non-compact %d", L, len(plainLines))
		}
		G := len(per[0])
		var more bool // more items per line than without compaction
		if vertical {
			more = L < len(plainLines)
		} else {
			more = G > plainPer[0]
		}
		if more {
			c.Count("outputs compacted", 1)
			gw := s.groupWidths(vertical, G)
			cells, _, _ := s.scan(out)
			// field starts by the specified per-group widths
			for _, x := range cells {
				start := 0
				for g := 0; g < x.group; g++ {
					for _, w := range gw[g] {
						start += w
					}
					start += len(s.widths) - 1 + m
				}
				for j := 0; j < x.col; j++ {
					start += gw[x.group][j] + 1
				}
				end := start + gw[x.group][x.col]
				if x.start < start || x.end > end {
					c.Fail("cell %d of item %d occupies columns %d-%d; with fields only as wide as the widest cell of their group its field is %d-%d", x.col, x.item, x.start, x.end, start, end)
				}
			}
			c.Count("cells within per-group fields", len(cells))
		}
		// one more per line must not be possible
		g := G + 1
		if vertical && !more {
			// unoccupied groups of the uncompacted layout are not visible
			g = max(1, (lim+m)/max(1, s.itemWidth()+m)) + 1
		}
		if g > n {
			c.Count("every item on one line", 1)
			return
		}
		if vertical {
			lines := (n + g - 1) / g
			if g > (n+lines-1)/lines {
				c.Count("stopped: a group would be empty", 1)
				return
			}
		}
		if tw := s.compactWidth(vertical, g, m); tw <= lim {
			c.Fail("stops at %d items per line though %d with per-group widths take %d of %d columns", G, g, tw, lim)
		} else {
			c.Count("stopped: limit", 1)
			if tw == lim+1 {
				c.Count("stopped: limit missed by one", 1)
			}
		}
	}
	both := func(c *mon.Case, s *scen, sep string, limit int) {
		judge(c, s, false, limit, sep)
		judge(c, s, true, limit, sep)
		c.Distinct(len(s.rows), limit, sep, fmt.Sprint(s.widths, s.kinds))
	}
	return &mon.Check{
		ID:   "C17",
		Rule: "token tables with cells of very different widths merged compactly and not, limits at the exact widths of the per-group layouts and one off; the layout found in the output is compared with per-group widths computed by the oracle. Non-trivial: distinct (shape, limit, separator)",
		Need: []string{"outputs compacted", "stopped: limit", "stopped: limit missed by one", "stopped: a group would be empty", "sparse layouts compacted"},
		Streams: []mon.Stream{
			{Name: "grid", Quick: gridCases, Thorough: gridCases, Run: func(c *mon.Case) {
				grid(c, func(s *scen, sep string, limit int) { both(c, s, sep, limit) })
			}},
			{Name: "random", Quick: 24000, Thorough: 300000, Run: func(c *mon.Case) {
				s := tokenScen(c, 30)
				for k := 0; k < 3; k++ {
					sep := plainSep(c.Rng)
					both(c, s, sep, s.limit(c.Rng.Intn(2) == 0, len(sep)))
					s.maybeChange()
				}
			}},
			{Name: "sparse", Quick: 16000, Thorough: 200000, Run: func(c *mon.Case) {
				r := c.Rng
				empty := r.Intn(4)
				pool := []string{"", "", "", "a", "bb", "ccc", "世", "e\u0301", "\x1b[1mq\x1b[0m", "long text here", "x y"}
				s := newScen(c, scenOpt{n: 1 + r.Intn(24), cols: 1 + r.Intn(3), widen: true, dup: true, cell: func(r *rnd.Rand, i, j int) string {
					if r.Intn(4) < empty {
						return ""
					}
					return pool[r.Intn(len(pool))]
				}})
				for k := 0; k < 2; k++ {
					sep := plainSep(r)
					limit := s.limit(r.Intn(2) == 0, len(sep))
					sparseCompact(c, s, false, limit, sep)
					sparseCompact(c, s, true, limit, sep)
					s.maybeChange()
				}
			}},
			{Name: "skewed", Quick: 12000, Thorough: 200000, Run: func(c *mon.Case) {
				r := c.Rng
				big := 10 + r.Intn(60)
				s := newScen(c, scenOpt{n: 2 + r.Intn(40), cols: 1 + r.Intn(3), dup: true, cell: func(r *rnd.Rand, i, j int) string {
					p := 0
					if r.Intn(6) == 0 {
						p = r.Intn(big)
					}
					return fmt.Sprintf("{#%d.%d%s}", i, j, strings.Repeat("x", p))
				}})
				sep := plainSep(r)
				both(c, s, sep, s.limit(r.Intn(2) == 0, len(sep)))
			}},
			{Name: "many per line", Quick: 1600, Thorough: 30000, Run: func(c *mon.Case) {
				// from few items per line to hundreds
				r := c.Rng
				big := 20 + r.Intn(200)
				n := 60 + r.Intn(200)
				s := newScen(c, scenOpt{n: n, cols: 1 + r.Intn(2), cell: func(r *rnd.Rand, i, j int) string {
					t := fmt.Sprintf("{#%d.%d}", i, j)
					if r.Intn(n) == 0 {
						t = fmt.Sprintf("{#%d.%d%s}", i, j, strings.Repeat("x", r.Intn(big)))
					}
					return t
				}})
				w := map[string]uint16{}
				for j, nm := range s.names {
					s.byName[nm] = max(s.byName[nm], big)
					w[nm] = uint16(s.byName[nm])
					s.widths[j] = s.byName[nm]
				}
				c.Do("UpdateWidth", func() { s.t.UpdateWidth(w) })
				sep := plainSep(r)
				v := r.Intn(3) == 0
				limit := s.compactWidth(v, 1+r.Intn(n+3), len(sep)) - 1 + r.Intn(3)
				both(c, s, sep, limit)
			}},
			{Name: "vast", Quick: 32, Thorough: 600, Run: func(c *mon.Case) {
				// lines of very many cells, up to several times 65536
				r := c.Rng
				cols := []int{1, 2, 3, 4, 4, 5, 9, 33, 300}[r.Intn(9)]
				sep := []string{"", "", " ", "|"}[r.Intn(4)]
				wide := 1 + r.Intn(12)/9
				item := cols - 1 + wide
				n := 65535/(item+len(sep)) + 1 + r.Intn(30)
				at := []int{0, 0, 1, r.Intn(n), n - 1}[r.Intn(5)]
				s := newScen(c, scenOpt{n: n, cols: cols, cell: func(r *rnd.Rand, i, j int) string {
					if i == at && j == 0 {
						return "wide"[:wide]
					}
					if j == 0 && (i == n-1 || i < 8 && r.Intn(3) == 0 || r.Intn(5000) == 0) {
						return "x"
					}
					return ""
				}})
				c.Max("cells on a line", n*cols)
				sparseCompact(c, s, c.Idx%2 == 0, 65535, sep)
			}},
		},
	}
}

// layout is the specified output for g items per line with the given field
// widths per group, trailing blanks and the separator after the last item of an
// incomplete line left out.
func (s *scen) layout(vertical bool, g int, gw [][]int, sep string) []string {
	n := len(s.rows)
	L := (n + g - 1) / g
	out := make([]string, L)
	for l := range out {
		var b strings.Builder
		for k := 0; k < g; k++ {
			i := l*g + k
			if vertical {
				i = k*L + l
			}
			if i >= n {
				break
			}
			if k > 0 {
				b.WriteString(sep)
			}
			for j, cell := range s.rows[i] {
				if j > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(aligned(s.kinds[j], cell, gw[k][j], s.ea))
			}
		}
		out[l] = strings.TrimRight(b.String(), " ")
	}
	return out
}

// sameLines compares an output with a layout.
func sameLines(out string, want []string, sep string) bool {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(want) {
		return false
	}
	for i, l := range lines {
		l = strings.TrimRight(l, " ")
		if l == want[i] {
			continue
		}
		l = strings.TrimRight(strings.TrimSuffix(l, strings.TrimRight(sep, " ")), " ")
		if l != want[i] {
			return false
		}
	}
	return true
}

// sparseCompact judges compaction where cells may be empty or alike: some
// number of items per line must explain the output and be as large as allowed.
func sparseCompact(c *mon.Case, s *scen, vertical bool, limit int, sep string) {
	n := len(s.rows)
	if n == 0 {
		return
	}
	m, lim := len(sep), clampLimit(limit)
	out := s.merge(vertical, limit, sep, true)
	L := strings.Count(out, "\n")
	c.Eval(1)
	g0 := max(1, (lim+m)/max(1, s.itemWidth()+m)) // non-compact
	// whether one more item per line is possible from g on
	more := func(g int) bool {
		if g+1 > n {
			return false
		}
		if vertical {
			lines := (n + g) / (g + 1)
			if g+1 > (n+lines-1)/lines {
				return false
			}
		}
		return s.compactWidth(vertical, g+1, m) <= lim
	}
	var fits []int
	for g := 1; g <= n; g++ {
		if (n+g-1)/g != L {
			continue
		}
		wide := make([][]int, g)
		for k := range wide {
			wide[k] = s.widths
		}
		if g > g0 && sameLines(out, s.layout(vertical, g, s.groupWidths(vertical, g), sep), sep) ||
			g <= g0 && sameLines(out, s.layout(vertical, g, wide, sep), sep) {
			real := g
			if g0 > g && vertical && (n+g0-1)/g0 == L {
				real = g0 // the groups behind are empty
			}
			fits = append(fits, real)
			if g <= g0 && real < g0 && g < n || more(real) {
				continue
			}
			c.Count("sparse layouts explained", 1)
			if g > g0 {
				c.Count("sparse layouts compacted", 1)
			}
			return
		}
	}
	s.log(vertical, limit, sep, true, out)
	if fits != nil {
		c.Fail("stops at %v items per line though one more with per-group widths fits into %d", fits, lim)
	}
	c.Fail("no number of items per line explains the %d lines with fields as wide as the widest cell of their group", L)
}

// C28

func customCheck() *mon.Check {
	// explain returns the numbers of items per line that account for the output with the
	// widths of the columns and with those of the groups
	explain := func(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact bool) (byCol, byGroup []int, out string) {
		n := len(s.rows)
		out = s.merge(vertical, limit, sep, compact)
		L := strings.Count(out, "\n")
		for g := 1; g <= n; g++ {
			if (n+g-1)/g != L {
				continue
			}
			wide := make([][]int, g)
			for k := range wide {
				wide[k] = s.widths
			}
			if sameLines(out, s.layout(vertical, g, wide, sep), sep) {
				byCol = append(byCol, g)
			}
			if compact && sameLines(out, s.layout(vertical, g, s.groupWidths(vertical, g), sep), sep) {
				byGroup = append(byGroup, g)
			}
		}
		return
	}
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact bool) {
		if len(s.rows) == 0 {
			return
		}
		c.Eval(1)
		byCol, byGroup, out := explain(c, s, vertical, limit, sep, compact)
		if len(byCol)+len(byGroup) == 0 {
			s.log(vertical, limit, sep, compact, out)
			c.Fail("the lines are not the alignments' results for the cells and their fields, whatever the number of items per line")
		}
		countDistinct(c, s, vertical, limit, sep, compact, out)
		if !compact {
			c.Count("outputs with column widths explained", 1)
			return
		}
		plain, _, pout := explain(c, s, vertical, limit, sep, false)
		if len(plain) == 0 {
			s.log(vertical, limit, sep, false, pout)
			c.Fail("the lines are not the alignments' results for the cells and the column widths, whatever the number of items per line")
		}
		for _, g := range byGroup {
			if g > plain[0] {
				c.Count("compacted outputs explained", 1)
				return
			}
		}
		for _, g := range byCol {
			for _, h := range plain {
				if g == h {
					c.Count("compact outputs that stayed as wide", 1)
					return
				}
			}
		}
		s.log(vertical, limit, sep, compact, out)
		c.Fail("compaction put %v items on a line with column widths or %v with group widths; without it %v", byCol, byGroup, plain)
	}
	cell := func(r *rnd.Rand, i, j int) string {
		switch r.Intn(8) {
		case 0:
			return ""
		case 1:
			return gen.Text(r, gen.Tame)
		case 2, 3:
			return []string{"a", "b", "bb", "世"}[r.Intn(4)]
		}
		return fmt.Sprintf("%d.%d%s", i, j, strings.Repeat("x", r.Intn(6)))
	}
	return &mon.Check{
		ID:   "C28",
		Rule: "tables with user-written alignments (showing the width they were given, truncating, widening, returning nothing) next to built-in ones, merged in all four ways; the whole output must be what these functions return for the cells and the specified field widths, for some number of items per line. Non-trivial: distinct (shape, limit, separator, lines)",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "outputs with column widths explained", "compacted outputs explained", "compact outputs that stayed as wide", "outputs with several items per line", "outputs of several lines"},
		Streams: []mon.Stream{
			reentrantStream("merge", 3000, 60000),
			{Name: "random", Quick: 24000, Thorough: 400000, Run: func(c *mon.Case) {
				r := c.Rng
				s := newScen(c, scenOpt{n: 1 + r.Intn(20), cols: 1 + r.Intn(4), cell: cell, kinds: customNames, widen: true, dup: true})
				for k := 0; k < 2; k++ {
					sep := anySep(r)
					limit := s.limit(r.Intn(2) == 0, len(sep))
					for _, v := range []bool{false, true} {
						judge(c, s, v, limit, sep, r.Intn(3) > 0)
					}
					s.maybeChange()
				}
			}},
			{Name: "many lines", Quick: 32, Thorough: 600, Run: func(c *mon.Case) {
				r := c.Rng
				s := newScen(c, scenOpt{n: 300 + r.Intn(3000), cols: 1 + r.Intn(3), kinds: customNames, cell: func(r *rnd.Rand, i, j int) string {
					return fmt.Sprintf("%d.%d%s", i, j, strings.Repeat("x", r.Intn(3)))
				}})
				sep := anySep(r)
				for _, v := range []bool{false, true} {
					judge(c, s, v, s.itemWidth()*(1+r.Intn(3))+r.Intn(20), sep, r.Intn(2) == 0)
				}
				c.Max("items", len(s.rows))
			}},
			{Name: "large", Quick: 60, Thorough: 800, Run: func(c *mon.Case) {
				r := c.Rng
				s := newScen(c, scenOpt{n: 60 + r.Intn(150), cols: 1 + r.Intn(3), cell: cell, kinds: customNames, widen: true})
				sep := anySep(r)
				for _, v := range []bool{false, true} {
					judge(c, s, v, s.limit(v, len(sep)), sep, r.Intn(2) == 0)
				}
			}},
		},
	}
}

// C18

func gridAlignCheck() *mon.Check {
	// place compares cells whose groups are known and returns the number of fields
	place := func(c *mon.Case, s *scen, cells []seen, fail func(string, ...any)) int {
		type field struct{ lo, hi, at, at2 int }
		fields := map[[2]int]*field{}
		order := [][2]int{}
		for _, x := range cells {
			k := [2]int{x.group, x.col}
			f := fields[k]
			if f == nil {
				f = &field{x.start, x.end, math.MinInt, math.MinInt}
				fields[k] = f
				order = append(order, k)
			}
			f.lo, f.hi = min(f.lo, x.start), max(f.hi, x.end)
			if x.col >= len(s.kinds) {
				fail("token of column %d in a table of %d columns", x.col, len(s.kinds))
			}
			switch s.kinds[x.col] {
			case "left", "none":
				if f.at == math.MinInt {
					f.at = x.start
				}
				if f.at != x.start {
					fail("line %d: cell %d of item %d in group %d starts at column %d, above at %d", x.line, x.col, x.item, x.group, x.start, f.at)
				}
			case "right":
				if f.at == math.MinInt {
					f.at = x.end
				}
				if f.at != x.end {
					fail("line %d: cell %d of item %d in group %d ends at column %d, above at %d", x.line, x.col, x.item, x.group, x.end, f.at)
				}
			case "center":
				// start+end is twice the middle; cells of the other parity are half a column off
				mid := x.start + x.end
				if mid%2 == 0 {
					if f.at == math.MinInt {
						f.at = mid
					}
				} else if f.at2 == math.MinInt {
					f.at2 = mid
				}
				if (mid%2 == 0 && mid != f.at) || (mid%2 != 0 && mid != f.at2) {
					fail("line %d: cell %d of item %d in group %d is centred on column %d/2, above on %d/2", x.line, x.col, x.item, x.group, mid, max(f.at, f.at2))
				}
				if f.at != math.MinInt && f.at2 != math.MinInt {
					if d := f.at - f.at2; d != 1 && d != -1 {
						fail("line %d: cells of group %d column %d are centred on %d/2 and %d/2", x.line, x.group, x.col, f.at, f.at2)
					}
					c.Count("centred cells of both parities", 1)
				}
			}
		}
		// fields from left to right
		for _, k := range order {
			f := fields[k]
			var p *field
			gap := 0
			for at := k[0]*len(s.kinds) + k[1] - 1; at >= 0 && p == nil; at-- {
				g, col := at/len(s.kinds), at%len(s.kinds)
				if p = fields[[2]int{g, col}]; p != nil && g == k[0] {
					gap = 1
				}
			}
			if p == nil {
				continue
			}
			if f.lo < p.hi+gap {
				fail("the field of group %d column %d begins at column %d, inside its left neighbour, which ends at %d", k[0], k[1], f.lo, p.hi)
			}
		}
		return len(order)
	}
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact, sparse bool) {
		if len(s.rows) == 0 {
			return
		}
		out := s.merge(vertical, limit, sep, compact)
		cells, lines, _ := s.scan(out)
		fail := func(format string, a ...any) {
			s.log(vertical, limit, sep, compact, out)
			c.Fail(format, a...)
		}
		fields := 0
		if !sparse {
			fields = place(c, s, cells, fail)
		} else {
			// not every item can be seen: its group follows from its index
			n, L := len(s.rows), len(lines)
			var verdict any
			found := false
			for g := 1; g <= n; g++ {
				if (n+g-1)/g != L {
					continue
				}
				ok := true
				for i, x := range cells {
					line := x.item / g
					cells[i].group = x.item % g
					if vertical {
						line = x.item % L
						cells[i].group = x.item / L
					}
					ok = ok && line == x.line
				}
				if !ok {
					continue
				}
				found = true
				verdict = c.TryCheck(func() { fields = place(c, s, cells, fail) })
				if verdict == nil {
					break
				}
			}
			if verdict != nil {
				panic(verdict)
			}
			if !found {
				return // order or number of items is wrong: not what is judged here
			}
			c.Count("sparse outputs placed", 1)
		}
		c.Count("cells placed", len(cells))
		if len(lines) > 1 {
			c.Count("cells compared with the line above", len(cells)-fields)
		}
		c.Eval(len(cells))
		countDistinct(c, s, vertical, limit, sep, compact, out)
	}
	all := func(c *mon.Case, s *scen, sep string, limit int, sparse bool) {
		for _, v := range []bool{false, true} {
			for _, k := range []bool{false, true} {
				judge(c, s, v, limit, sep, k, sparse)
			}
		}
	}
	return &mon.Check{
		ID:   "C18",
		Rule: "token tables of mixed alignments merged in all four ways; display columns of every cell are measured with the oracle and compared over the lines. Non-trivial: distinct (shape, limit, separator, lines)",
		Need: []string{"cells compared with the line above", "outputs with several items per line", "outputs of several lines", "centred cells of both parities", "sparse outputs placed"},
		Streams: []mon.Stream{
			{Name: "grid", Quick: gridCases, Thorough: gridCases, Run: func(c *mon.Case) {
				grid(c, func(s *scen, sep string, limit int) { all(c, s, sep, limit, false) })
			}},
			{Name: "random", Quick: 24000, Thorough: 300000, Run: func(c *mon.Case) {
				s := tokenScen(c, 40)
				for k := 0; k < 2; k++ {
					sep := anySep(c.Rng)
					all(c, s, sep, s.limit(c.Rng.Intn(2) == 0, len(sep)), false)
					s.maybeChange()
				}
			}},
			{Name: "sparse", Quick: 12000, Thorough: 200000, Run: func(c *mon.Case) {
				r := c.Rng
				empty := 1 + r.Intn(5)
				gone := map[int]bool{}
				for i := 0; i < 30; i++ {
					gone[i] = r.Intn(6) == 0
				}
				s := newScen(c, scenOpt{n: r.Intn(30), cols: 1 + r.Intn(4), widen: true, dup: true, cell: func(r *rnd.Rand, i, j int) string {
					if gone[i] || r.Intn(empty+1) == 0 {
						return []string{"", "", "", " ", "-", "\x1b[0m", "世", "e\u0301"}[r.Intn(8)]
					}
					return uniq(r, i, j, gen.Tame)
				}})
				sep := anySep(r)
				all(c, s, sep, s.limit(r.Intn(2) == 0, len(sep)), true)
			}},
			{Name: "many lines", Quick: 32, Thorough: 600, Run: func(c *mon.Case) {
				r := c.Rng
				s := newScen(c, scenOpt{n: 600 + r.Intn(5000), cols: 1 + r.Intn(3), cell: func(r *rnd.Rand, i, j int) string {
					return fmt.Sprintf("{#%d.%d%s}", i, j, strings.Repeat("x", r.Intn(3)))
				}})
				sep := anySep(r)
				all(c, s, sep, s.itemWidth()*(1+r.Intn(3))+r.Intn(20), false)
				c.Max("items", len(s.rows))
			}},
			{Name: "large", Quick: 48, Thorough: 1000, Run: func(c *mon.Case) {
				s := newScen(c, scenOpt{n: 100 + c.Rng.Intn(200), cols: 1 + c.Rng.Intn(4), cell: tokenCell(gen.Tame), widen: true})
				sep := anySep(c.Rng)
				all(c, s, sep, s.limit(c.Rng.Intn(2) == 0, len(sep)), false)
			}},
			{Name: "vast", Quick: 16, Thorough: 120, Run: func(c *mon.Case) {
				// two lines of more than 65536 cells each, almost all of them empty
				r := c.Rng
				cols := 90 + r.Intn(120)
				g := (65535 - 40) / (cols - 1)
				n := 2 * g
				left := 40
				at := map[[2]int]bool{}
				for k := 0; k < 2; k++ { // a cell above, and one below further to the right
					grp, j := g-1-r.Intn(2)*r.Intn(2), cols-1-r.Intn(cols/2)
					at[[2]int{grp + g, j}] = true
					at[[2]int{grp, j - 1 - r.Intn(cols/3)}] = true
				}
				s := newScen(c, scenOpt{n: n, cols: cols, cell: func(r *rnd.Rand, i, j int) string {
					if t := fmt.Sprintf("{#%d.%d}", i, j); at[[2]int{i, j}] && len(t) <= left {
						left -= len(t)
						return t
					}
					return ""
				}})
				c.Max("cells on a line", g*cols)
				judge(c, s, false, 65535, "", true, true)
				judge(c, s, true, 65535, "", c.Idx%2 == 0, true)
			}},
		},
	}
}

// C19

func totalityCheck() *mon.Check {
	limits := []int{math.MinInt, math.MinInt32, -65536, -65535, -2, -1, 0, 1, 2, 3, 10, 79, 80, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 17, 1 << 20, math.MaxInt32, math.MaxInt - 1, math.MaxInt}
	var seps []string
	seps = append(seps, separators...)
	seps = append(seps, wideSeparators...)
	seps = append(seps, "\n", "\x00", "\x1b[", "\xff", strings.Repeat("-", 65534), strings.Repeat("-", 65535), strings.Repeat("-", 65536), strings.Repeat("=", 70000))
	judge := func(c *mon.Case, s *scen, vertical bool, limit int, sep string, compact bool) {
		out := s.merge(vertical, limit, sep, compact)
		c.Eval(1)
		if len(s.rows) == 0 || len(s.kinds) == 0 {
			if out != "" {
				s.log(vertical, limit, sep, compact, out)
				c.Fail("merging %d items of %d columns prints %s", len(s.rows), len(s.kinds), quote(out))
			}
			c.Count("empty merges", 1)
			return
		}
		if out == "" {
			s.log(vertical, limit, sep, compact, out)
			c.Fail("merging %d items of %d columns prints nothing", len(s.rows), len(s.kinds))
		}
		c.Count("non-empty merges", 1)
		w := s.itemWidth()
		if w == 0 {
			c.Count("merges of zero-width tables", 1)
		}
		if w > clampLimit(limit) {
			c.Count("merges of items wider than the limit", 1)
		}
		c.Distinct(fmt.Sprint(vertical, compact), limit, len(sep), len(s.rows), fmt.Sprint(s.widths))
	}
	all := func(c *mon.Case, s *scen, limit int, sep string) {
		for _, v := range []bool{false, true} {
			for _, k := range []bool{false, true} {
				judge(c, s, v, limit, sep, k)
			}
		}
	}
	shapes := []struct {
		n, cols int
		cells   []string
	}{
		{0, 0, nil}, {3, 0, nil}, {0, 2, []string{"a"}}, {1, 1, []string{""}}, {5, 1, []string{""}}, {7, 3, []string{""}}, {6, 2, []string{"a", ""}},
		{5, 1, []string{"a"}}, {9, 2, []string{"abc", "世界", ""}}, {4, 1, []string{strings.Repeat("x", 70000)}}, {4, 2, []string{strings.Repeat("x", 65535), "y"}},
		{3, 3, []string{strings.Repeat("x", 40000)}}, {6, 1, []string{strings.Repeat("x", 65534), "", "q"}}, {30, 1, []string{"\x1b[0m"}}, {8, 2, []string{"\u0301", "\x00"}},
	}
	return &mon.Check{
		ID:   "C19",
		Rule: "every limit of a list reaching from the smallest to the largest integer, every separator (empty, multi-byte, control characters, 65534-70000 bytes) and shapes with no items, no columns, zero-width and over-wide cells, in all four ways; list accesses are bounded, panics caught, CPU time and memory watched. Non-trivial: distinct (way, limit, separator, shape)",
		Need: []string{"empty merges", "merges of zero-width tables", "merges of items wider than the limit"},
		Streams: []mon.Stream{
			{Name: "extremes", Quick: len(shapes) * len(limits), Thorough: len(shapes) * len(limits), Run: func(c *mon.Case) {
				sh := shapes[c.Idx%len(shapes)]
				limit := limits[c.Idx/len(shapes)]
				s := newScen(c, scenOpt{n: sh.n, cols: sh.cols, cell: func(_ *rnd.Rand, i, j int) string { return sh.cells[(i+j)%len(sh.cells)] }})
				for _, sep := range seps {
					all(c, s, limit, sep)
				}
			}},
			{Name: "random", Quick: 48000, Thorough: 600000, Run: func(c *mon.Case) {
				r := c.Rng
				wild := r.Intn(2) == 0
				s := newScen(c, scenOpt{n: r.Intn(25), cols: r.Intn(5), dup: true, widen: true, cell: func(r *rnd.Rand, _, _ int) string {
					if r.Intn(4) == 0 {
						return ""
					}
					if wild {
						return gen.Text(r, gen.Wild)
					}
					return gen.Bytes(r, 6)
				}})
				sep := seps[r.Intn(len(seps))]
				if r.Intn(3) == 0 {
					sep = gen.Text(r, gen.Wild)
				}
				limit := limits[r.Intn(len(limits))]
				if len(s.kinds) > 0 && r.Intn(3) > 0 {
					limit = s.limit(r.Intn(2) == 0, len(sep))
				}
				all(c, s, limit, sep)
			}},
			{Name: "small", Quick: 11 * 7 * 4, Thorough: 11 * 7 * 4, Run: func(c *mon.Case) {
				// little or nothing to see in columns that are wider
				n, wide, kind := c.Idx%11, c.Idx/11%7, c.Idx/77
				for cols := 1; cols <= 2; cols++ {
					s := newScen(c, scenOpt{n: n, cols: cols, cell: func(_ *rnd.Rand, i, j int) string {
						switch {
						case kind == 1 && i == n/2 && j == 0, kind == 2 && i%2 == 1, kind == 3 && i == 0:
							return "a"
						}
						return ""
					}})
					for j, name := range s.names {
						if j == 0 || wide%2 == 0 {
							s.t.UpdateWidth(map[string]uint16{name: uint16(wide)})
							s.byName[name] = max(s.byName[name], wide)
						}
					}
					s.settle()
					for limit := 0; limit <= 24; limit++ {
						for _, sep := range []string{"", "|", "  "} {
							all(c, s, limit, sep)
						}
					}
				}
			}},
			{Name: "long", Quick: 32, Thorough: 400, Run: func(c *mon.Case) {
				r := c.Rng
				n := 300 + r.Intn(700)
				zero := r.Intn(2) == 0
				s := newScen(c, scenOpt{n: n, cols: 1 + r.Intn(2), cell: func(r *rnd.Rand, i, _ int) string {
					if zero {
						return ""
					}
					return strings.Repeat("a", r.Intn(4))
				}})
				all(c, s, limits[r.Intn(len(limits))], plainSep(r))
				c.Max("items in one merge", n)
			}},
		},
	}
}
