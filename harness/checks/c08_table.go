package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	table "github.com/ilius/go-table"
	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

// item is what the recording getters work on: cells by column position, and
// the columns where extraction or formatting must fail.
type item struct {
	id      int
	cells   []string
	plain   []string
	failVal map[int]bool
	failFmt map[int]bool
	failStr map[int]bool
	vals    []any // what extraction yields
	passing bool  // a failure happens only once
	std     error // a well-known error to fail with
}

// fails tells if the getter of a column must fail now.
func (x *item) fails(m map[int]bool, col int) bool {
	f := m[col]
	if f && x.passing {
		delete(m, col)
	}
	return f
}

// err is the error of a getter.
func (x *item) err(col int, what string) error {
	if x.std != nil {
		return x.std
	}
	return &getErr{x.id, col, what}
}

type value struct {
	item, col int
}

type getErr struct {
	item, col int
	what      string
}

func (e *getErr) Error() string {
	return fmt.Sprintf("%s of item %d column %d fails", e.what, e.item, e.col)
}

// Unwrap sometimes gives a well-known error.
func (e *getErr) Unwrap() error {
	if (e.item+e.col)%2 == 0 {
		return nil
	}
	return knownErrors[(e.item*9+e.col*2+len(e.what))%len(knownErrors)]
}

// recGetter checks that it gets back the value it extracted.
type recGetter struct {
	c     *mon.Case
	col   int
	name  string
	calls *int
}

func (g *recGetter) Value(it any) (any, error) {
	*g.calls++
	x, ok := it.(*item)
	if !ok {
		g.c.Fail("getter of column %d got item %T %v", g.col, it, it)
	}
	if x.fails(x.failVal, g.col) {
		return x.vals[g.col], x.err(g.col, "value")
	}
	return x.vals[g.col], nil
}

// oddValue is what a getter may well extract.
func oddValue(r *rnd.Rand, id, col int) any {
	switch r.Intn(24) {
	case 0, 1:
		return nil
	case 2:
		return (*item)(nil)
	case 3:
		return ""
	case 4:
		return 0
	case 5:
		return error(&getErr{id, col, "looks like a failure"})
	case 6:
		return []string{"a", "b"} // not comparable
	case 7:
		return "text"
	case 8:
		return false
	case 9:
		return map[string]int(nil)
	}
	return value{item: id, col: col}
}

func (g *recGetter) Format(it any, v any) (string, error) {
	*g.calls++
	x, ok := it.(*item)
	if !ok {
		g.c.Fail("getter of column %d formats item %T %v", g.col, it, it)
	}
	if !reflect.DeepEqual(v, x.vals[g.col]) {
		g.c.Fail("getter of column %d asked to format value %#v of item %d: not the value it extracted (%#v)", g.col, v, x.id, x.vals[g.col])
	}
	if x.fails(x.failFmt, g.col) {
		return x.cells[g.col], x.err(g.col, "format")
	}
	return x.cells[g.col], nil
}

func (g *recGetter) ValueString(name string, it any) (string, error) {
	*g.calls++
	x, ok := it.(*item)
	if !ok {
		g.c.Fail("getter of column %d got item %T %v", g.col, it, it)
	}
	if name != g.name {
		g.c.Fail("getter of column %d asked with column name %q, want %q", g.col, name, g.name)
	}
	if x.fails(x.failStr, g.col) {
		return x.plain[g.col], x.err(g.col, "string")
	}
	return x.plain[g.col], nil
}

// recSpec is a specification with recording getters.
type recSpec struct {
	spec   *table.TableSpec
	names  []string
	kinds  []string
	titles [][2]string
	calls  int
}

var titles = []string{"", "Name", "Size", "اندازه", "نام", "大小", "ファイル名", "Größe", "é", "Permissions", "a b c", "\x1b[1mBold\x1b[0m", "👩\u200d🍳", "#", "Last modification time", "タ", "☆☆☆", "e\u0301e\u0301"}

// the declared type of a column has no say in its formatting
var colTypes = []reflect.Type{nil, nil, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(value{})}

func (s *recSpec) add(c *mon.Case, dupOK bool) {
	r := c.Rng
	i := len(s.names)
	name := colName(r, i, s.names)
	switch r.Intn(10) {
	case 0:
		name = fmt.Sprintf("C%d\u00e9", i)
	case 1:
		if dupOK && i > 0 {
			name = s.names[r.Intn(i)]
		}
	case 2:
		name = strings.Repeat("n", i)
		for _, n := range s.names {
			if n == name && !dupOK {
				name = colName(r, i, s.names)
			}
		}
	}
	a := pickAlign(r)
	t, st := titles[r.Intn(len(titles))], titles[r.Intn(len(titles))]
	s.names = append(s.names, name)
	s.kinds = append(s.kinds, a.name)
	s.titles = append(s.titles, [2]string{t, st})
	s.spec.AddColumn(&table.Column{Name: name, Title: t, ShortTitle: st, Alignment: a.f, Getter: &recGetter{c, i, name, &s.calls}, Type: colTypes[r.Intn(len(colTypes))]})
}

func newRecSpec(c *mon.Case, n int, dupOK bool) *recSpec {
	s := &recSpec{spec: table.NewTableSpec()}
	for i := 0; i < n; i++ {
		s.add(c, dupOK)
	}
	return s
}

func (s *recSpec) item(r *rnd.Rand, id int, failing bool, o gen.Opt) *item {
	x := &item{id: id, failVal: map[int]bool{}, failFmt: map[int]bool{}, failStr: map[int]bool{}}
	for i := range s.names {
		x.cells = append(x.cells, gen.Text(r, o))
		x.plain = append(x.plain, gen.Text(r, o))
		x.vals = append(x.vals, oddValue(r, id, i))
		if failing && x.std == nil && r.Intn(12) == 0 {
			x.std = knownErrors[r.Intn(len(knownErrors))]
		}
		if failing && r.Intn(len(s.names)+1) == 0 {
			switch r.Intn(3) {
			case 0:
				x.failVal[i] = true
			case 1:
				x.failFmt[i] = true
			default:
				x.failStr[i] = true
			}
		}
	}
	return x
}

func clone(m map[int]bool) map[int]bool {
	n := map[int]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// firstFailure is the column where formatting must fail, or -1.
func (x *item) firstFailure() int {
	for i := range x.cells {
		if x.failVal[i] || x.failFmt[i] {
			return i
		}
	}
	return -1
}

// widthModel is the specified state of one table.
type widthModel struct {
	t *table.Table
	w map[string]int
}

func init() {
	register(&mon.Check{
		ID:   "C08",
		Rule: "random histories (format with and without failing getters, explicit updates, align, header, merge, plain rows, adding columns) on three tables over two specifications; after every event all widths are compared with a running-maximum model; non-trivial: an event that changed a width",
		Need: []string{"width changes", "failed formats", "updates", "updates below the current width", "read-only events"},
		Streams: []mon.Stream{
			{Name: "history", Quick: 12000, Thorough: 80000, Run: widthHistory},
			{Name: "wide", Quick: 40, Thorough: 400, Run: wideCells},
			longLifeStream("width", 160, 4000),
		},
	})
	register(&mon.Check{
		ID:   "C09",
		Rule: "random column sets and items with random getter failures (extract or format, any column); recording getters check what they are asked; non-trivial: more than one column",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "rows", "errors from extraction", "errors from formatting", "failures that pass", "rows after an error", "items formatted again"},
		Streams: []mon.Stream{
			reentrantStream("format", 6000, 100000),
			{Name: "random", Quick: 60000, Thorough: 400000, Run: formatItems},
			longLifeStream("format", 160, 4000),
			{Name: "odd items", Quick: 4000, Thorough: 100000, Run: func(c *mon.Case) { oddItems(c, false) }},
			{Name: "one getter", Quick: 4000, Thorough: 100000, Run: func(c *mon.Case) { oneGetter(c, false) }},
		},
	})
	register(&mon.Check{
		ID:   "C10",
		Rule: "random tables of formatted rows, aligned (also after further rows widened the columns), mixed with custom alignments and rows of wrong length; non-trivial: a row that got padding",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "rows aligned", "rows padded", "custom alignment calls", "rows of wrong length", "fully aligned tables"},
		Streams: []mon.Stream{
			reentrantStream("align", 4000, 80000),
			{Name: "random", Quick: 32000, Thorough: 250000, Run: alignRows},
			longLifeStream("align", 160, 4000),
		},
	})
	register(&mon.Check{
		ID:   "C11",
		Rule: "random titles in several scripts, short titles, separators and widths around the titles' widths (explicit or from rows); non-trivial: a header with a title replaced or padded",
		Need: []string{"title shown", "short title shown", "blank shown", "zero-width column", "multi-byte title shown", "headers after a change"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 80000, Thorough: 500000, Run: headers},
			longLifeStream("header", 160, 4000),
			{Name: "boundary", Quick: len(titles) * len(titles), Thorough: len(titles) * len(titles), Run: headerBoundaries},
		},
	})
	register(&mon.Check{
		ID:   "C12",
		Rule: "random column sets (0..40 columns) and widths up to saturation x margins 0..65535, and compared with the width of aligned rows joined with that many spaces; non-trivial: at least two columns",
		Need: []string{"tables", "without columns", "saturated", "compared with rows", "changes"},
		Streams: []mon.Stream{
			{Name: "random", Quick: 80000, Thorough: 500000, Run: tableWidths},
			longLifeStream("total", 160, 4000),
			{Name: "rows", Quick: 20000, Thorough: 100000, Run: tableWidthOfRows},
		},
	})
	register(&mon.Check{
		ID:   "C25",
		Rule: "random column sets, separators, plain values and failing getters, before and after tabular formatting; non-trivial: more than one column",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "rows", "errors", "failures that pass", "items formatted again"},
		Streams: []mon.Stream{
			reentrantStream("plain", 4000, 80000),
			{Name: "random", Quick: 60000, Thorough: 400000, Run: plainRows},
			longLifeStream("plain", 160, 4000),
			{Name: "odd items", Quick: 4000, Thorough: 100000, Run: func(c *mon.Case) { oddItems(c, true) }},
			{Name: "one getter", Quick: 4000, Thorough: 100000, Run: func(c *mon.Case) { oneGetter(c, true) }},
		},
	})
	register(&mon.Check{
		ID:   "C27",
		Rule: "random histories of additions (duplicate and empty names included) on several specifications with tables made before and after; model: a list of columns; non-trivial: a history with a duplicate name",
		Need: []string{"additions", "duplicate names", "absent names asked", "tables without specification", "columns added again", "long histories"},
		Streams: []mon.Stream{
			{Name: "history", Quick: 20000, Thorough: 100000, Run: specHistory},
			{Name: "many", Quick: 24, Thorough: 400, Run: specMany},
		},
	})
}

func (m *widthModel) check(c *mon.Case, what string) {
	for n, w := range m.w {
		if got := int(m.t.Width(n)); got != w {
			c.Fail("after %s the width of column %q is %d, want %d", what, n, got, w)
		}
		c.Eval(1)
	}
	if got := m.t.Width("no such column"); got != 0 {
		c.Fail("after %s the width of an unknown column is %d", what, got)
	}
}

func widthHistory(c *mon.Case) {
	r := c.Rng
	first := r.Intn(6)
	if r.Intn(300) == 0 {
		first = manyColumns(r)
		c.Count("tables of very many columns", 1)
	}
	specs := []*recSpec{newRecSpec(c, first, true), newRecSpec(c, 1+r.Intn(4), true)}
	ms := []*widthModel{}
	for i := 0; i < 3; i++ {
		ms = append(ms, &widthModel{table.NewTable(specs[i%2].spec), map[string]int{}})
	}
	specOf := func(i int) *recSpec { return specs[i%2] }
	for _, i := range []int{0, 1, 2} {
		for _, n := range specOf(i).names {
			ms[i].w[n] = 0
		}
	}
	o := gen.Wild
	if r.Intn(2) == 0 {
		o = gen.Line
	}
	steps := 5 + r.Intn(30)
	c.Do("history", func() {
		for n := 0; n < steps; n++ {
			i := r.Intn(3)
			m, s := ms[i], specOf(i)
			what := ""
			changed := false
			switch op := r.Intn(13); {
			case op < 6:
				x := s.item(r, n, r.Intn(4) == 0, o)
				if r.Intn(30) == 0 && len(x.cells) > 0 {
					x.cells[r.Intn(len(x.cells))] = strings.Repeat("w", r.Intn(2000))
				}
				ff := x.firstFailure()
				what = fmt.Sprintf("table %d: FormatItem(%+q) fail=%d", i, x.cells, ff)
				c.Logf("%s", what)
				_, err := m.t.FormatItem(x)
				if ff >= 0 {
					// whether the columns before the failing one count is left open
					c.Count("failed formats", 1)
					lo := map[string]int{}
					for k, v := range m.w {
						lo[k] = v
					}
					for j := 0; j < ff; j++ {
						lo[s.names[j]] = max(lo[s.names[j]], oracle.Cell(x.cells[j], c.EA))
					}
					for k := range m.w {
						if g := int(m.t.Width(k)); g < m.w[k] || g > lo[k] {
							c.Fail("after failed %s the width of %q is %d, was %d", what, k, g, m.w[k])
						} else {
							m.w[k] = g
						}
					}
					_ = err
				} else {
					for j, cell := range x.cells {
						if w := oracle.Cell(cell, c.EA); w > m.w[s.names[j]] {
							m.w[s.names[j]] = w
							changed = true
						}
					}
				}
			case op == 6:
				up := map[string]uint16{}
				for _, nme := range append([]string{"extra"}, s.names...) {
					if r.Intn(2) == 0 {
						w := r.Size(r.Intn(40), 65535)
						if r.Intn(20) == 0 {
							w = r.Intn(65536)
						}
						up[nme] = uint16(w)
					}
				}
				for nme, w := range up { // names can repeat
					if int(w) > m.w[nme] {
						changed = true
					} else {
						c.Count("updates below the current width", 1)
					}
					m.w[nme] = max(m.w[nme], int(w))
				}
				what = fmt.Sprintf("table %d: UpdateWidth(%v)", i, up)
				c.Logf("%s", what)
				m.t.UpdateWidth(up)
				c.Count("updates", 1)
			case op == 7:
				row := make([]string, len(s.names))
				for j := range row {
					row[j] = gen.Text(r, o)
				}
				what = fmt.Sprintf("table %d: AlignFormattedItem(%+q)", i, row)
				c.Logf("%s", what)
				m.t.AlignFormattedItem(row)
				c.Count("read-only events", 1)
			case op == 8:
				what = fmt.Sprintf("table %d: FormatHeader", i)
				c.Logf("%s", what)
				m.t.FormatHeader("|")
				m.t.TableWidth(2)
				c.Count("read-only events", 1)
			case op == 9:
				rows := make([][]string, r.Intn(6))
				for k := range rows {
					rows[k] = make([]string, len(s.names))
					for j := range rows[k] {
						rows[k][j] = gen.Text(r, o)
					}
				}
				lim, comp := r.Intn(120), r.Intn(2) == 0
				what = fmt.Sprintf("table %d: merge of %d rows limit %d compact %v", i, len(rows), lim, comp)
				c.Logf("%s", what)
				var b bytes.Buffer
				m.t.MergeRowsVertical(&b, &list{rows: rows}, lim, " ", comp)
				m.t.MergeRowsHorizontal(&b, &list{rows: rows}, lim, " ", comp)
				c.Count("read-only events", 1)
			case op == 10:
				x := s.item(r, n, r.Intn(4) == 0, o)
				what = fmt.Sprintf("table %d: FormatItemBasic", i)
				c.Logf("%s", what)
				m.t.FormatItemBasic(x, ",")
				c.Count("read-only events", 1)
			case op == 11: // another table of the specification takes its place
				what = fmt.Sprintf("table %d made anew", i)
				c.Logf("%s", what)
				for k := range m.w {
					delete(m.w, k)
				}
				for _, nm := range append([]string{"extra"}, s.names...) {
					m.w[nm] = 0
				}
				m.t = table.NewTable(s.spec)
				c.Count("tables made after others were used", 1)
			default:
				if len(s.names) < 8 {
					s.add(c, true)
					nm := s.names[len(s.names)-1]
					what = fmt.Sprintf("adding column %q", nm)
					c.Logf("%s", what)
					for k := range ms {
						if specOf(k) == s {
							if _, ok := ms[k].w[nm]; !ok {
								ms[k].w[nm] = 0
							}
						}
					}
				}
			}
			if changed {
				c.Count("width changes", 1)
				c.Distinct(what)
			}
			for _, mm := range ms {
				mm.check(c, what)
			}
		}
	})
	c.Sample("%d events on 3 tables, widths %v", steps, ms[0].w)
}

func wideCells(c *mon.Case) {
	s := newRecSpec(c, 2, false)
	t := table.NewTable(s.spec)
	want := 0
	for _, n := range []int{10, 255, 256, 65534, 65535, 65536, 65537, 70000, 131072, 5, 140000} {
		if c.Rng.Intn(3) == 0 {
			continue
		}
		x := &item{cells: []string{strings.Repeat("a", n), "b"}, vals: []any{nil, "b"}}
		c.Logf("cell of width %d", n)
		c.Do("FormatItem", func() { t.FormatItem(x) })
		if n > want {
			want = n
		}
		if want > 65535 {
			want = 65535
		}
		if g := int(t.Width(s.names[0])); g != want {
			c.Fail("after a cell of %d columns the width is %d, want %d", n, g, want)
		}
		c.Eval(1)
		c.Count("width changes", 1)
		c.Distinct("wide", n, want)
	}
}

func formatItems(c *mon.Case) {
	r := c.Rng
	n := r.Intn(7)
	if r.Intn(20) == 0 {
		n = 20 + r.Intn(60)
	}
	if r.Intn(600) == 0 {
		n = 250 + r.Intn(60)
	}
	n = r.Size(n, 400)
	s := newRecSpec(c, n, true)
	tabs := []*table.Table{table.NewTable(s.spec), table.NewTable(s.spec)}
	failed := false
	var items []*item
	var kept, copies [][]string
	c.Do("formatting", func() {
		for k := 0; k < 5; k++ {
			t := tabs[r.Intn(3)/2]
			x := s.item(r, k, r.Intn(2) == 0, gen.Wild)
			if k > 0 && r.Intn(3) == 0 { // an item seen before, changed or not
				old := items[r.Intn(len(items))]
				if r.Intn(3) > 0 {
					*old = *x
				} else {
					old.id = k
				}
				x = old
				c.Count("items formatted again", 1)
			}
			items = append(items, x)
			c.Logf("item %d %+q failing extraction %v format %v", k, x.cells, x.failVal, x.failFmt)
			if n > 0 && r.Intn(5) == 0 {
				t.UpdateWidth(map[string]uint16{s.names[0]: uint16(r.Intn(90)), s.names[n-1]: 3})
			}
			failVal, failFmt, ff := clone(x.failVal), clone(x.failFmt), x.firstFailure()
			if x.passing = r.Intn(2) == 0; x.passing && ff >= 0 {
				c.Count("failures that pass", 1)
			}
			row, err := t.FormatItem(x)
			c.Eval(1)
			if ff >= 0 {
				var ge *getErr
				if x.std != nil && errors.Is(err, x.std) && row == nil {
					c.Count("well-known errors", 1)
					failed = true
					continue
				}
				if err == nil || !errors.As(err, &ge) {
					c.Fail("formatting an item whose column %d fails returned error %v", ff, err)
				}
				if ge.item != k || !(failVal[ge.col] && ge.what == "value" || failFmt[ge.col] && ge.what == "format") {
					c.Fail("formatting an item whose column %d fails returned error %v", ff, err)
				}
				if row != nil {
					c.Fail("formatting failed with %v and returned a row %q", err, row)
				}
				if ge.what == "value" {
					c.Count("errors from extraction", 1)
				} else {
					c.Count("errors from formatting", 1)
				}
				failed = true
				continue
			}
			if err != nil {
				c.Fail("formatting a good item: %v", err)
			}
			if len(row) != n {
				c.Fail("formatted row has %d cells, want %d", len(row), n)
			}
			for j := range row {
				if row[j] != x.cells[j] {
					c.Fail("cell %d of the formatted row is %s, want %s", j, quote(row[j]), quote(x.cells[j]))
				}
			}
			c.Count("rows", 1)
			if failed {
				c.Count("rows after an error", 1)
			}
			kept, copies = append(kept, row), append(copies, append([]string(nil), row...))
			if r.Intn(4) == 0 { // the caller goes on with his row
				more := append(kept[r.Intn(len(kept))], "added", "by", "the caller")
				more[len(more)-1] = ""
			}
			if d := diffRows(copies, kept); d != "" {
				c.Fail("rows returned earlier changed: %s", d)
			}
			if n > 1 {
				c.Distinct(strings.Join(row, "\x00"))
			}
		}
	})
	c.Sample("%d columns, 5 items", n)
}

type customCall struct {
	s string
	w uint16
}

func alignRows(c *mon.Case) {
	r := c.Rng
	n := 1 + r.Intn(6)
	if r.Intn(15) == 0 {
		n = 10 + r.Intn(30)
	}
	n = max(1, r.Size(n, 200))
	spec := table.NewTableSpec()
	kinds := make([]string, n)
	names := make([]string, n)
	calls := make([][]customCall, n)
	src := make([]int, n)
	full := r.Intn(2) == 0
	o := gen.Line
	if full {
		o = gen.Tame // the joined row is measured too
	}
	for i := 0; i < n; i++ {
		i := i
		var f table.Alignment
		a := pickAlign(r)
		if full && a.f == nil {
			a = aligns[1+r.Intn(3)]
		}
		kinds[i], f = a.name, a.f
		if i > 0 && !full && r.Intn(8) == 0 {
			kinds[i] = fmt.Sprint("custom-tag", r.Intn(4))
			f = alignOf(kinds[i])
		} else if !full && r.Intn(5) == 0 {
			kinds[i] = "custom"
			f = func(s string, w uint16) string {
				calls[i] = append(calls[i], customCall{s, w})
				return fmt.Sprintf("<%s:%d>", s, w)
			}
		}
		names[i] = colName(r, i, names[:i])
		if i > 0 && r.Intn(12) == 0 {
			names[i] = names[r.Intn(i)]
		}
		if i > 0 && r.Intn(20) == 0 { // the same column again
			k := r.Intn(i)
			if kinds[k] != "custom" {
				names[i], kinds[i], src[i] = names[k], kinds[k], src[k]
				spec.AddColumn(spec.Columns[k])
				c.Count("repeated columns", 1)
				continue
			}
		}
		src[i] = i
		spec.AddColumn(&table.Column{Name: names[i], Alignment: f, Getter: strGetter{i}})
	}
	t := table.NewTable(spec)
	width := map[string]int{}
	c.Logf("columns %v alignments %v", names, kinds)
	phases := 1 + r.Intn(2)
	var rows [][]string
	c.Do("aligning", func() {
		for p := 0; p < phases; p++ {
			for k, m := 0, 1+r.Intn(8); k < m; k++ {
				row := make([]string, n)
				for j := range row {
					row[j] = gen.Text(r, o)
				}
				out, err := t.FormatItem(row)
				if err != nil {
					c.Fail("formatting: %v", err)
				}
				for j := range row {
					row[j] = row[src[j]]
				}
				for j := range row {
					width[names[j]] = max(width[names[j]], oracle.Cell(row[j], c.EA))
				}
				rows = append(rows, out)
			}
			if r.Intn(4) == 0 {
				w := r.Size(r.Intn(30), 65535)
				k := names[r.Intn(n)]
				t.UpdateWidth(map[string]uint16{k: uint16(w)})
				width[k] = max(width[k], w)
			}
			if p > 0 && r.Intn(3) == 0 { // a column gets another alignment
				i := r.Intn(n)
				if a := aligns[1+r.Intn(3)]; kinds[i] != "custom" {
					for k := range kinds {
						if spec.Columns[k] == spec.Columns[i] {
							kinds[k] = a.name
						}
					}
					spec.Columns[i].Alignment = a.f
					c.Logf("alignment of column %d becomes %s", i, a.name)
				}
			}
			joined := -1
			for _, row := range rows {
				in := append([]string(nil), row...)
				for j := range calls {
					calls[j] = nil
				}
				arg := append(append(make([]string, 0, n+3), in...), "behind", "the", "row") // may be part of something larger
				use := arg[:n]
				if r.Intn(3) == 0 { // the row itself, which may have been aligned before
					use = row
					c.Count("rows aligned in place", 1)
				}
				out, err := t.AlignFormattedItem(use)
				if behind := arg[n:]; behind[0] != "behind" || behind[1] != "the" || behind[2] != "row" {
					c.Fail("aligning %q changes what lies behind it: %q", in, behind)
				}
				if err != nil || len(out) != n {
					c.Fail("aligning %q: %q, %v", in, out, err)
				}
				padded := false
				if len(out) > 0 {
					c.Keep("an aligned cell", out[r.Intn(len(out))])
				}
				for j, cell := range in {
					w := width[names[j]]
					var want string
					switch kinds[j] {
					case "none":
						want = cell
					case "custom":
						want = fmt.Sprintf("<%s:%d>", cell, w)
						c.Count("custom alignment calls", len(calls[j]))
						if len(calls[j]) == 0 {
							c.Fail("custom alignment of column %d not called", j)
						}
					default:
						want = aligned(kinds[j], cell, w, c.EA)
						padded = padded || want != cell
					}
					if out[j] != want {
						c.Fail("cell %d (%s) %s aligned to width %d: got %s, want %s", j, kinds[j], quote(cell), w, quote(out[j]), quote(want))
					}
					c.Eval(1)
				}
				c.Count("rows aligned", 1)
				if padded {
					c.Count("rows padded", 1)
					c.Distinct(strings.Join(out, "\x00"))
				}
				if full {
					j := oracle.Width(strings.Join(out, "|"), c.EA)
					if joined >= 0 && j != joined {
						c.Fail("aligned rows differ in display width: %d and %d, row %q", joined, j, out)
					}
					joined = j
				}
			}
			if full {
				c.Count("fully aligned tables", 1)
			}
			// wrong lengths
			bad := r.Size([]int{0, n - 1, n + 1, n + 5, 2 * n, n + 256}[r.Intn(6)], 70000)
			if bad != n {
				row := make([]string, bad)
				for j := range row {
					row[j] = gen.Text(r, o) + "."
				}
				before := append([]string(nil), row...)
				out, err := t.AlignFormattedItem(row)
				if err == nil || out != nil {
					c.Fail("a row of %d cells in a table of %d columns was accepted: %q, %v", bad, n, out, err)
				}
				for j := range row {
					if row[j] != before[j] {
						c.Fail("refused row of %d cells was modified: %q, was %q", bad, row, before)
					}
				}
				c.Count("rows of wrong length", 1)
				c.Eval(1)
			}
			for k, w := range width {
				if int(t.Width(k)) != w {
					c.Fail("width of %q is %d, want %d", k, t.Width(k), w)
				}
			}
		}
	})
	c.Sample("columns %v, %d rows", kinds, len(rows))
}

func wantHeader(c *mon.Case, ttl, short []string, w []int, sep string) string {
	var b strings.Builder
	for i := range ttl {
		if w[i] == 0 {
			b.WriteString(ttl[i] + sep)
			c.Count("zero-width column", 1)
			continue
		}
		tw, sw := oracle.Cell(ttl[i], c.EA), oracle.Cell(short[i], c.EA)
		switch {
		case tw <= w[i]:
			b.WriteString(centered(ttl[i], tw, w[i]))
			c.Count("title shown", 1)
			if len(ttl[i]) > w[i] {
				c.Count("multi-byte title shown", 1)
			}
		case sw <= w[i]:
			b.WriteString(centered(short[i], sw, w[i]))
			c.Count("short title shown", 1)
		default:
			b.WriteString(spaces(w[i]))
			c.Count("blank shown", 1)
		}
		b.WriteString(sep)
	}
	return b.String() + "\n"
}

func checkHeader(c *mon.Case, t *table.Table, ttl, short []string, w []int, sep string) {
	want := wantHeader(c, ttl, short, w, sep)
	var got string
	c.Do("FormatHeader", func() { got = t.FormatHeader(sep) })
	if got != want {
		c.Fail("header is %s, want %s (titles %+q, short %+q, widths %v)", quote(got), quote(want), ttl, short, w)
	}
	c.Keep("a header", got)
	c.Eval(1)
	c.Distinct(got)
}

func headers(c *mon.Case) {
	r := c.Rng
	n := r.Size(r.Intn(7), 200)
	spec := table.NewTableSpec()
	ttl, short, names, w := make([]string, n), make([]string, n), make([]string, n), make([]int, n)
	up := map[string]uint16{}
	pickTitle := func() string {
		if r.Intn(3) == 0 {
			return gen.Text(r, gen.Line)
		}
		return titles[r.Intn(len(titles))]
	}
	for i := range ttl {
		ttl[i], short[i] = pickTitle(), pickTitle()
		names[i] = colName(r, i, names[:i])
		a := pickAlign(r) // must not matter for the header
		spec.AddColumn(&table.Column{Name: names[i], Title: ttl[i], ShortTitle: short[i], Alignment: a.f, Getter: strGetter{i}})
		switch r.Intn(5) {
		case 0:
		case 1:
			w[i] = max(0, oracle.Cell(ttl[i], c.EA)-1+r.Intn(3))
		case 2:
			w[i] = max(0, oracle.Cell(short[i], c.EA)-1+r.Intn(3))
		default:
			w[i] = r.Size(r.Intn(30), 65535)
		}
		up[names[i]] = uint16(w[i])
	}
	t := table.NewTable(spec)
	viaRows := r.Intn(2) == 0
	if viaRows {
		row := make([]string, n)
		for i := range row {
			row[i] = strings.Repeat("x", w[i])
		}
		if _, err := t.FormatItem(row); err != nil {
			c.Fail("FormatItem: %v", err)
		}
	} else {
		t.UpdateWidth(up)
	}
	sep := plainSep(r)
	if r.Intn(3) == 0 {
		sep = wideSeparators[r.Intn(len(wideSeparators))]
	}
	if r.Intn(4) == 0 {
		sep = oddSep(r)
		c.Count("odd separators", 1)
	}
	c.Logf("titles %+q short %+q widths %v sep %q", ttl, short, w, sep)
	checkHeader(c, t, ttl, short, w, sep)
	checkHeader(c, t, ttl, short, w, sep)
	for k := r.Intn(4); k > 0 && n > 0; k-- { // the header follows the table
		i := r.Intn(n)
		switch r.Intn(6) {
		case 0:
			ttl[i] = pickTitle()
			spec.Columns[i].Title = ttl[i]
			for k := range ttl {
				if names[k] == names[i] { // the same column again
					ttl[k] = ttl[i]
				}
			}
			c.Logf("title %d becomes %+q", i, ttl[i])
		case 1:
			short[i] = pickTitle()
			spec.Columns[i].ShortTitle = short[i]
			for k := range short {
				if names[k] == names[i] {
					short[k] = short[i]
				}
			}
			c.Logf("short title %d becomes %+q", i, short[i])
		case 3:
			names, ttl, short, w = append(names, names[i]), append(ttl, ttl[i]), append(short, short[i]), append(w, w[i])
			t.AddColumn(spec.Columns[i])
			c.Logf("column %d again", i)
			n++
		case 2:
			names, ttl, short, w = append(names, colName(r, n, names)), append(ttl, pickTitle()), append(short, pickTitle()), append(w, 0)
			t.AddColumn(&table.Column{Name: names[n], Title: ttl[n], ShortTitle: short[n], Getter: strGetter{n}})
			c.Logf("new column %+q %+q", ttl[n], short[n])
			n++
		default:
			x := min(65535, w[i]+r.Size(r.Intn(6), 3000))
			if r.Intn(3) == 0 {
				row := make([]string, n)
				row[spec.Columns[i].Getter.(strGetter).i] = strings.Repeat("y", x)
				if _, err := t.FormatItem(row); err != nil {
					c.Fail("FormatItem: %v", err)
				}
			} else {
				t.UpdateWidth(map[string]uint16{names[i]: uint16(x)})
			}
			for k := range w {
				if names[k] == names[i] {
					w[k] = x
				}
			}
			c.Logf("column %d becomes %d wide", i, x)
		}
		checkHeader(c, t, ttl, short, w, sep)
		c.Count("headers after a change", 1)
	}
	// the field of a column is as wide as the column's aligned cells
	if n > 0 {
		i := r.Intn(n)
		if w[i] > 0 {
			one := table.NewTableSpec()
			one.AddColumn(&table.Column{Name: "c", Title: ttl[i], ShortTitle: short[i]})
			u := table.NewTable(one)
			u.UpdateWidth(map[string]uint16{"c": uint16(w[i])})
			h := u.FormatHeader("")
			if fw := oracle.Width(strings.TrimSuffix(h, "\n"), c.EA); fw > w[i] || fw < w[i] && oracle.Class([]rune(ttl[i] + " ")[0]) == oracle.Other && !strings.ContainsAny(ttl[i]+short[i], "\x1b\u009b") && !hasJoin(ttl[i]) && !hasJoin(short[i]) {
				c.Fail("header field %s is %d wide, the column %d", quote(h), fw, w[i])
			}
		}
	}
	c.Sample("titles %+q short %+q widths %v sep %q", ttl, short, w, sep)
}

// hasJoin tells if a text may merge with a neighbouring space.
func hasJoin(s string) bool {
	for _, r := range s {
		switch oracle.Class(r) {
		case oracle.Other, oracle.ExtPict, oracle.L, oracle.V, oracle.T, oracle.LV, oracle.LVT, oracle.RI:
		default:
			return true
		}
	}
	return false
}

func headerBoundaries(c *mon.Case) {
	ttl, short := titles[c.Idx/len(titles)], titles[c.Idx%len(titles)]
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "a", Title: ttl, ShortTitle: short})
	for w := 0; w <= 30; w++ {
		t := table.NewTable(spec)
		t.UpdateWidth(map[string]uint16{"a": uint16(w)})
		checkHeader(c, t, []string{ttl}, []string{short}, []int{w}, "|")
	}
	for _, w := range []int{255, 256, 300, 65535} {
		t := table.NewTable(spec)
		t.UpdateWidth(map[string]uint16{"a": uint16(w)})
		checkHeader(c, t, []string{ttl}, []string{short}, []int{w}, "|")
	}
}

func tableWidths(c *mon.Case) {
	r := c.Rng
	n := r.Intn(8)
	if r.Intn(10) == 0 {
		n = r.Intn(40)
	}
	if r.Intn(400) == 0 {
		n = 250 + r.Intn(20)
	}
	n = r.Size(n, 2000)
	spec := table.NewTableSpec()
	up := map[string]uint16{}
	names := make([]string, n)
	for i := range names {
		names[i] = colName(r, i, names[:i])
		if i > 0 && r.Intn(10) == 0 {
			names[i] = names[i-1]
		}
		if i > 0 && r.Intn(15) == 0 { // the same column again
			k := i - 1
			if r.Intn(2) == 0 {
				k = r.Intn(i)
			}
			names[i] = names[k]
			spec.AddColumn(spec.Columns[k])
			c.Count("repeated columns", 1)
		} else {
			spec.AddColumn(&table.Column{Name: names[i], Getter: strGetter{i}})
		}
		w := r.Size(r.Intn(40), 65535)
		if r.Intn(12) == 0 {
			w = r.Intn(65536)
		}
		if uint16(w) > up[names[i]] {
			up[names[i]] = uint16(w)
		}
	}
	up["unrelated"] = 77
	t := table.NewTable(spec)
	t.UpdateWidth(up)
	margins := []int{0, 1, 2, 3, 10, 255, 256, 300, 65535, r.Size(r.Intn(65536), 65535)}
	for k := r.Intn(3); k > 0; k-- { // the width follows the table
		margins = append(margins, -1, margins[r.Intn(10)], margins[r.Intn(10)])
	}
	for _, m := range margins {
		if m < 0 {
			if n == 0 || r.Intn(4) == 0 {
				names = append(names, colName(r, n, names))
				t.AddColumn(&table.Column{Name: names[n], Getter: strGetter{n}})
				n++
			} else {
				i := r.Intn(n)
				x := up[names[i]] + uint16(r.Intn(9))
				if x >= up[names[i]] {
					up[names[i]] = x
					t.UpdateWidth(map[string]uint16{names[i]: x})
				}
			}
			c.Count("changes", 1)
			continue
		}
		want := 0
		for i, nm := range names {
			if i > 0 {
				want += m
			}
			want += int(up[nm])
		}
		if want > 65535 {
			want = 65535
			c.Count("saturated", 1)
		}
		var got int
		c.Do("TableWidth", func() { got = int(t.TableWidth(uint16(m))) })
		if got != want {
			c.Fail("table width with margin %d is %d, want %d (widths %v of columns %v)", m, got, want, up, names)
		}
		c.Eval(1)
		if n > 1 {
			c.Distinct(n, m, want)
		}
	}
	c.Count("tables", 1)
	if n == 0 {
		c.Count("without columns", 1)
	}
	c.Sample("%d columns, widths %v", n, up)
}

func tableWidthOfRows(c *mon.Case) {
	r := c.Rng
	n := 1 + r.Intn(6)
	spec := table.NewTableSpec()
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(10) == 0 {
			spec.AddColumn(spec.Columns[r.Intn(i)])
			continue
		}
		spec.AddColumn(&table.Column{Name: fmt.Sprint(i), Getter: strGetter{i}, Alignment: aligns[1+r.Intn(3)].f})
	}
	t := table.NewTable(spec)
	var rows [][]string
	c.Do("rows", func() {
		for k, m := 0, 1+r.Intn(6); k < m; k++ {
			row := make([]string, n)
			for j := range row {
				row[j] = gen.Text(r, gen.Tame)
			}
			out, err := t.FormatItem(row)
			if err != nil {
				c.Fail("FormatItem: %v", err)
			}
			rows = append(rows, out)
		}
		for m := 0; m < 5; m++ {
			tw := int(t.TableWidth(uint16(m)))
			for _, row := range rows {
				al, err := t.AlignFormattedItem(append([]string(nil), row...))
				if err != nil {
					c.Fail("AlignFormattedItem: %v", err)
				}
				line := strings.Join(al, spaces(m))
				w := oracle.Width(line, c.EA)
				if m == 0 { // neighbouring cells might join (two halves of a flag)
					w = 0
					for _, cell := range al {
						w += oracle.Width(cell, c.EA)
					}
				}
				if w != tw {
					c.Fail("table width with margin %d is %d, but the aligned row %s is %d wide", m, tw, quote(line), w)
				}
				c.Count("compared with rows", 1)
				c.Eval(1)
			}
		}
	})
	c.Distinct(fmt.Sprint(rows))
}

func plainRows(c *mon.Case) {
	r := c.Rng
	n := r.Intn(7)
	if r.Intn(20) == 0 {
		n = 20 + r.Intn(60)
	}
	s := newRecSpec(c, r.Size(n, 300), true)
	n = len(s.names)
	t := table.NewTable(s.spec)
	seps := append(append([]string{"\t", "\x00", ",", "\n", ";;"}, separators...), wideSeparators...)
	var items []*item
	c.Do("plain rows", func() {
		for k := 0; k < 5; k++ {
			x := s.item(r, k, r.Intn(3) == 0, gen.Wild)
			if k > 0 && r.Intn(3) == 0 { // an item seen before, changed or not
				old := items[r.Intn(len(items))]
				if r.Intn(3) > 0 {
					*old = *x
				} else {
					old.id = k
				}
				x = old
				c.Count("items formatted again", 1)
			}
			items = append(items, x)
			sep := seps[r.Intn(len(seps))]
			if r.Intn(4) == 0 {
				sep = oddSep(r)
				c.Count("odd separators", 1)
			}
			c.Logf("item %+q sep %q failing %v", x.plain, sep, x.failStr)
			before := map[string]uint16{}
			for _, nm := range s.names {
				before[nm] = t.Width(nm)
			}
			failStr := clone(x.failStr)
			if x.passing = r.Intn(2) == 0; x.passing && len(failStr) > 0 {
				c.Count("failures that pass", 1)
			}
			got, err := t.FormatItemBasic(x, sep)
			c.Keep("a plain row", got)
			c.Eval(1)
			for _, nm := range s.names {
				if t.Width(nm) != before[nm] {
					c.Fail("a plain row changed the width of %q", nm)
				}
			}
			if len(failStr) > 0 {
				var ge *getErr
				if x.std != nil {
					if !errors.Is(err, x.std) {
						c.Fail("a plain row with failing columns %v returned %q, %v, want the error %v", failStr, got, err, x.std)
					}
					c.Count("well-known errors", 1)
				} else if !errors.As(err, &ge) || ge.what != "string" || !failStr[ge.col] || ge.item != k {
					c.Fail("a plain row with failing columns %v returned %q, %v", failStr, got, err)
				}
				if got != "" {
					c.Fail("a plain row failed with %v and returned %s", err, quote(got))
				}
				c.Count("errors", 1)
			} else {
				if err != nil {
					c.Fail("plain row: %v", err)
				}
				if want := strings.Join(x.plain, sep); got != want {
					c.Fail("plain row is %s, want %s", quote(got), quote(want))
				}
				c.Count("rows", 1)
				if n > 1 {
					c.Distinct(got, sep)
				}
			}
			if r.Intn(2) == 0 {
				t.FormatItem(s.item(r, 100+k, false, gen.Wild))
			}
		}
	})
	c.Sample("%d columns, 5 plain rows", n)
}

func specHistory(c *mon.Case) {
	r := c.Rng
	type model struct {
		spec *table.TableSpec
		cols []*table.Column
		tabs []*table.Table
	}
	var ms []*model
	for i := 0; i < 2; i++ {
		sp := table.NewTableSpec()
		ms = append(ms, &model{spec: sp, tabs: []*table.Table{table.NewTable(sp)}})
	}
	nt := table.NewTable(nil)
	if nt == nil || nt.TableSpec == nil {
		c.Fail("NewTable(nil) has no specification")
	}
	ms = append(ms, &model{spec: nt.TableSpec, tabs: []*table.Table{nt}})
	c.Count("tables without specification", 1)
	pool := []string{"", "a", "b", "A", "a ", "name", "名前", "size"}
	for k := 0; k < 6; k++ {
		pool = append(pool, colName(r, k, pool))
	}
	for len(pool) < 18 {
		pool = append(pool, gen.Text(r, gen.Line))
	}
	c.Do("history", func() {
		steps := 4 + r.Intn(20)
		if r.Intn(500) == 0 {
			steps = 300 + r.Intn(500)
			c.Count("long histories", 1)
		}
		for n := 0; n < steps; n++ {
			m := ms[r.Intn(len(ms))]
			name := pool[r.Intn(len(pool))]
			col := &table.Column{Name: name, Getter: strGetter{len(m.cols)}}
			if o := ms[r.Intn(len(ms))]; r.Intn(6) == 0 && len(o.cols) > 0 {
				col = o.cols[r.Intn(len(o.cols))]
				name = col.Name
				c.Count("columns added again", 1)
			}
			c.Logf("add %q", name)
			if r.Intn(2) == 0 {
				m.spec.AddColumn(col)
			} else {
				m.tabs[r.Intn(len(m.tabs))].AddColumn(col)
			}
			for _, x := range m.cols {
				if x.Name == name {
					c.Count("duplicate names", 1)
					c.Distinct(c.Idx, n)
					break
				}
			}
			m.cols = append(m.cols, col)
			c.Count("additions", 1)
			if r.Intn(4) == 0 {
				m.tabs = append(m.tabs, table.NewTable(m.spec))
			}
			for _, m := range ms {
				if m.spec.ColumnCount() != len(m.cols) || len(m.spec.Columns) != len(m.cols) {
					c.Fail("specification has %d columns (counts %d), want %d", len(m.spec.Columns), m.spec.ColumnCount(), len(m.cols))
				}
				has := map[string]bool{}
				last := map[string]*table.Column{}
				for i, x := range m.cols {
					if m.spec.Columns[i] != x {
						c.Fail("column %d is %v, want %v", i, m.spec.Columns[i], x)
					}
					has[x.Name] = true
					last[x.Name] = x
				}
				for _, p := range append([]string{"absent"}, pool...) {
					if g := m.spec.HasColumn(p); g != has[p] {
						c.Fail("HasColumn(%q) = %v, want %v", p, g, has[p])
					}
					if m.spec.ColumnByName[p] != last[p] {
						c.Fail("lookup of column %q by name yields %v, want the one added last under it, %v", p, m.spec.ColumnByName[p], last[p])
					}
					if !has[p] {
						c.Count("absent names asked", 1)
					}
					c.Eval(1)
				}
				for _, t := range m.tabs {
					if t.ColumnCount() != len(m.cols) {
						c.Fail("table sees %d columns, want %d", t.ColumnCount(), len(m.cols))
					}
				}
			}
			m2 := ms[r.Intn(len(ms))]
			t := m2.tabs[r.Intn(len(m2.tabs))]
			row := make([]string, steps)
			for i := range row {
				row[i] = fmt.Sprint(i)
			}
			want := make([]string, len(m2.cols))
			for i, x := range m2.cols {
				want[i] = row[x.Getter.(strGetter).i]
			}
			if out, err := t.FormatItem(row); err != nil || strings.Join(out, ",") != strings.Join(want, ",") {
				c.Fail("FormatItem yields %q, %v, want %q", out, err, want)
			}
		}
	})
	c.Sample("%d, %d and %d columns", len(ms[0].cols), len(ms[1].cols), len(ms[2].cols))
}

// ticketGetter hands out a new ticket whenever it is asked and serves several columns.
type ticketGetter struct {
	c      *mon.Case
	item   int
	n      int
	issued map[int]int // ticket: item
}

func (g *ticketGetter) next(it any) int {
	if it != any(g.item) {
		g.c.Fail("the getter got item %v, want %v", it, g.item)
	}
	g.n++
	g.issued[g.n] = g.item
	return g.n
}

func (g *ticketGetter) Value(it any) (any, error) { return g.next(it), nil }

func (g *ticketGetter) Format(it any, v any) (string, error) {
	n, ok := v.(int)
	if it != any(g.item) || !ok || g.issued[n] != g.item {
		g.c.Fail("the getter is asked to format %v of item %v, now is item %v", v, it, g.item)
	}
	return fmt.Sprintf("%d@%d", n, g.item), nil
}

func (g *ticketGetter) ValueString(name string, it any) (string, error) {
	return fmt.Sprintf("%s:%d@%d", name, g.next(it), g.item), nil
}

// oneGetter uses the same getter, and sometimes the same column, in several places: every
// cell has its own extraction.
func oneGetter(c *mon.Case, plain bool) {
	r := c.Rng
	g := &ticketGetter{c: c, issued: map[int]int{}}
	g2 := &ticketGetter{c: c, issued: map[int]int{}, n: 1000000}
	spec := table.NewTableSpec()
	n := 1 + r.Intn(6)
	for j := 0; j < n; j++ {
		if j > 0 && r.Intn(4) == 0 {
			spec.AddColumn(spec.Columns[r.Intn(j)])
			continue
		}
		col := &table.Column{Name: fmt.Sprint("c", j), Getter: g, Alignment: pickAlign(r).f}
		if r.Intn(4) == 0 {
			col.Getter = g2
		}
		if j > 0 && r.Intn(4) == 0 {
			col.Name = spec.Columns[j-1].Name
		}
		spec.AddColumn(col)
	}
	t := table.NewTable(spec)
	used := map[string]bool{}
	for k := 0; k < 4; k++ {
		g.item = 1 + r.Intn(3) // also the same item again
		g2.item = g.item
		var row []string
		c.Do("formatting", func() {
			var err error
			if plain {
				var s string
				s, err = t.FormatItemBasic(g.item, ",")
				row = strings.Split(s, ",")
			} else {
				row, err = t.FormatItem(g.item)
			}
			if err != nil || len(row) != n {
				c.Fail("item %d formats to %q, %v", g.item, row, err)
			}
		})
		c.Logf("item %d: %q", g.item, row)
		for j, cell := range row {
			if plain {
				pre := spec.Columns[j].Name + ":"
				if !strings.HasPrefix(cell, pre) {
					c.Fail("cell %d of column %q is %q", j, spec.Columns[j].Name, cell)
				}
				cell = cell[len(pre):]
			}
			var ticket, it int
			if m, _ := fmt.Sscanf(cell, "%d@%d", &ticket, &it); m != 2 || it != g.item {
				c.Fail("cell %d of item %d is %q", j, g.item, cell)
			}
			if (spec.Columns[j].Getter == table.Getter(g2)) != (ticket > 1000000) {
				c.Fail("cell %d of item %d is %q: from another getter", j, g.item, cell)
			}
			if used[cell] {
				c.Fail("cell %d of item %d is %q: not a value extracted for this cell", j, g.item, cell)
			}
			used[cell] = true
			c.Eval(1)
		}
		c.Count("rows", 1)
		c.Count("rows from shared getters", 1)
	}
	c.Distinct("one getter", n, c.Idx%500)
}

// oddGetter takes any item and reports what it was asked for.
type oddGetter struct {
	c    *mon.Case
	item *any
	text string
	nils bool
}

func (g oddGetter) Value(it any) (any, error) {
	if !reflect.DeepEqual(it, *g.item) {
		g.c.Fail("the getter got item %#v, want %#v", it, *g.item)
	}
	if g.nils {
		return nil, nil
	}
	return it, nil
}

func (g oddGetter) Format(it any, v any) (string, error) {
	want := *g.item
	if g.nils {
		want = nil
	}
	if !reflect.DeepEqual(it, *g.item) || !reflect.DeepEqual(v, want) {
		g.c.Fail("the getter is asked to format %#v of item %#v, want %#v of %#v", v, it, want, *g.item)
	}
	return g.text, nil
}

func (g oddGetter) ValueString(_ string, it any) (string, error) {
	if !reflect.DeepEqual(it, *g.item) {
		g.c.Fail("the getter got item %#v, want %#v", it, *g.item)
	}
	return g.text, nil
}

// oddItems formats items of every kind, nil included.
func oddItems(c *mon.Case, plain bool) {
	r := c.Rng
	items := []any{nil, 0, "", struct{}{}, []int{1}, []string(nil), map[string]int{"a": 1}, (*item)(nil), errShort, [2]string{"x", ""}, &item{id: 7}, 1.5, false}
	var cur any
	spec := table.NewTableSpec()
	var want []string
	for j := 0; j < r.Intn(5); j++ {
		text := []string{"", " ", "x", gen.Text(r, gen.Wild)}[r.Intn(4)]
		want = append(want, text)
		spec.AddColumn(&table.Column{Name: fmt.Sprint(j), Getter: oddGetter{c, &cur, text, r.Intn(3) == 0}, Alignment: pickAlign(r).f, Type: colTypes[r.Intn(len(colTypes))]})
	}
	t := table.NewTable(spec)
	for k := 0; k < 5; k++ {
		cur = items[r.Intn(len(items))]
		c.Eval(1)
		if plain {
			sep := []string{",", "", "\t", " | ", "世"}[r.Intn(5)]
			c.Do("FormatItemBasic", func() {
				got, err := t.FormatItemBasic(cur, sep)
				if err != nil || got != strings.Join(want, sep) {
					c.Fail("plain row of item %#v is %s, %v, want the join of %q", cur, quote(got), err, want)
				}
			})
			c.Count("rows", 1)
			continue
		}
		c.Do("FormatItem", func() {
			got, err := t.FormatItem(cur)
			if err != nil || len(got) != len(want) || !reflect.DeepEqual(append([]string{}, got...), append([]string{}, want...)) {
				c.Fail("item %#v formats to %q, %v, want %q", cur, got, err, want)
			}
		})
		c.Count("rows", 1)
	}
	c.Distinct("odd", fmt.Sprint(want))
}
