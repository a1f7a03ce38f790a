package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	table "github.com/ilius/go-table"
	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

// Tables live long: what holds for the first rows has to hold for the hundred thousandth.

func lifetime(r *rnd.Rand) int {
	n := []int{100, 260, 300, 600, 1100, 1100, 2100, 4200, 5000}[r.Intn(9)]
	switch r.Intn(40) {
	case 0:
		n = 10500
	case 1:
		n = 66000
	}
	return n
}

// warmUp sometimes uses a table for a while; item must format to empty texts.
func warmUp(c *mon.Case, t *table.Table, item any) {
	r := c.Rng
	if r.Intn(60) != 0 {
		return
	}
	cols := t.ColumnCount()
	n := lifetime(r) / max(1, cols/4)
	kind := r.Intn(12)
	rows := [][]string{make([]string, cols)}
	l := &list{rows: rows}
	c.Logf("the table is used %d times before (%d)", n, kind)
	c.Count("tables used for long before", 1)
	for done := 0; done < n; done += 200 {
		c.Do("earlier use", func() {
			for k := 0; k < 200; k++ {
				what := kind
				if kind >= 8 {
					what = r.Intn(8)
				}
				switch what {
				case 0:
					t.FormatItem(item)
				case 1:
					t.FormatItemBasic(item, ",")
				case 2:
					t.AlignFormattedItem(make([]string, cols))
				case 3:
					t.FormatHeader("")
					t.TableWidth(uint16(k))
				case 4:
					t.MergeRowsHorizontal(io.Discard, l, 10, "|", false)
				case 5:
					t.MergeRowsVertical(io.Discard, l, 10, "|", false)
				case 6:
					t.MergeRowsHorizontal(io.Discard, l, 10, "|", true)
				case 7:
					t.MergeRowsVertical(io.Discard, l, 10, "|", true)
				}
			}
		})
	}
}

// longLife uses one table very often and judges one of its operations every time.
func longLife(c *mon.Case, judged string) {
	r := c.Rng
	n := lifetime(r)
	cols := 1 + r.Intn(4)
	if r.Intn(5) == 0 { // very wide instead
		cols = []int{400, 1001, 1030, 2050, 4097, 5000}[r.Intn(6)]
		n = 3
		c.Count("tables of thousands of columns", 1)
	}
	if judged == "merge" {
		n = min(n, 1200)
	}
	spec := table.NewTableSpec()
	kinds, names := make([]string, cols), make([]string, cols)
	ttl, short := make([]string, cols), make([]string, cols)
	for j := range names {
		a := pickAlign(r)
		names[j], kinds[j] = fmt.Sprint("n", j), a.name
		ttl[j], short[j] = titles[r.Intn(len(titles))], titles[r.Intn(len(titles))]
		spec.AddColumn(&table.Column{Name: names[j], Title: ttl[j], ShortTitle: short[j], Alignment: a.f, Getter: strGetter{j}})
	}
	t := table.NewTable(spec)
	w := make([]int, cols)
	pool := []string{"", " ", "a", " b ", "世界", "e\u0301", "\x1b[1mq\x1b[0m", "\ta", "x y", "12345", "a\n", ","}
	for len(pool) < 24 {
		if s := gen.Text(r, gen.Tame); oracle.Cell(s, c.EA) <= 20 {
			pool = append(pool, s)
		}
	}
	pw := make([]int, len(pool))
	for i, s := range pool {
		pw[i] = oracle.Cell(s, c.EA)
	}
	grow := func(j, x int) {
		w[j] = max(w[j], x)
		c.Do("UpdateWidth", func() { t.UpdateWidth(map[string]uint16{names[j]: uint16(x)}) })
	}
	c.Logf("a table of %d columns is used %d times, judged: %s", cols, n, judged)
	row, idx := make([]string, cols), make([]int, cols)
	fresh := func() {
		for j := range row {
			idx[j] = r.Intn(len(pool))
			row[j] = pool[idx[j]]
		}
	}
	header := ""
	var lists [][][]string
	var args []func(out io.Writer, t *table.Table, rows [][]string)
	var want []string
	if judged == "merge" {
		for j := range names {
			grow(j, 20+r.Intn(30))
		}
		for k := 0; k < 6; k++ {
			var rows [][]string
			for i, m := 0, 1+r.Intn(6); i < m; i++ {
				fresh()
				rows = append(rows, append([]string{}, row...))
			}
			lists = append(lists, rows)
			v, compact, limit, sep := k%2 == 0, k%4 < 2, r.Intn(cols*60), anySep(r)
			args = append(args, func(out io.Writer, t *table.Table, rows [][]string) {
				if v {
					t.MergeRowsVertical(out, &list{rows: rows}, limit, sep, compact)
				} else {
					t.MergeRowsHorizontal(out, &list{rows: rows}, limit, sep, compact)
				}
			})
			// what a new table makes of it
			u := table.NewTable(spec)
			var out bytes.Buffer
			c.Do("merge", func() {
				for j, nm := range names {
					u.UpdateWidth(map[string]uint16{nm: uint16(w[j])})
				}
				args[k](&out, u, rows)
			})
			want = append(want, out.String())
		}
	}
	one := func(k int) {
		switch judged {
		case "width", "format":
			fresh()
			var extra int
			if judged == "width" && r.Intn(100) == 0 { // a wide one at last
				extra = r.Intn(cols)
				idx[extra], row[extra] = 0, strings.Repeat("w", w[extra]+1)
				w[extra]++
			}
			for j, i := range idx {
				w[j] = max(w[j], pw[i])
			}
			item := append([]string(nil), row...)
			if judged == "format" && r.Intn(50) == 0 {
				if got, err := t.FormatItem(item[:cols-1]); got != nil || err != errShort {
					c.Fail("row %d of a table: formatting yields %q, %v, want the error of the last column", k, got, err)
				}
				return
			}
			got, err := t.FormatItem(item)
			if judged == "width" {
				for j, nm := range names {
					if g := int(t.Width(nm)); g != w[j] {
						c.Fail("after row %d the width of column %d is %d, want %d; row %+q", k, j, g, w[j], row)
					}
				}
				return
			}
			if err != nil || len(got) != cols {
				c.Fail("row %d: formatting %+q yields %+q, %v", k, row, got, err)
			}
			for j := range got {
				if got[j] != row[j] {
					c.Fail("cell %d of row %d is %s, want %s", j, k, quote(got[j]), quote(row[j]))
				}
			}
		case "plain":
			fresh()
			got, err := t.FormatItemBasic(append([]string(nil), row...), ";")
			if wants := strings.Join(row, ";"); err != nil || got != wants {
				c.Fail("plain row %d is %s, %v, want %s", k, quote(got), err, quote(wants))
			}
		case "align":
			if r.Intn(100) == 0 {
				j := r.Intn(cols)
				w[j] = max(w[j], r.Intn(40))
				t.UpdateWidth(map[string]uint16{names[j]: uint16(w[j])})
			}
			fresh()
			got, err := t.AlignFormattedItem(append([]string(nil), row...))
			if err != nil || len(got) != cols {
				c.Fail("row %d: aligning %+q yields %+q, %v", k, row, got, err)
			}
			for j := range got {
				wants := row[j]
				if kinds[j] != "none" && w[j] > pw[idx[j]] {
					wants = aligned(kinds[j], row[j], w[j], c.EA)
				}
				if got[j] != wants {
					c.Fail("cell %d (%s, width %d) of row %d is %s, want %s", j, kinds[j], w[j], k, quote(got[j]), quote(wants))
				}
			}
		case "header", "total":
			if header == "" || r.Intn(100) == 0 {
				j := r.Intn(cols)
				if k == 0 {
					for j := range names {
						w[j] = r.Intn(14)
						t.UpdateWidth(map[string]uint16{names[j]: uint16(w[j])})
					}
				}
				w[j] = max(w[j], r.Intn(30))
				t.UpdateWidth(map[string]uint16{names[j]: uint16(w[j])})
				if r.Intn(2) == 0 {
					ttl[j] = titles[r.Intn(len(titles))]
					spec.Columns[j].Title = ttl[j]
				}
				header = wantHeader(c, ttl, short, w, "|")
			}
			if judged == "header" {
				if got := t.FormatHeader("|"); got != header {
					c.Fail("header %d is %s, want %s", k, quote(got), quote(header))
				}
				return
			}
			m := r.Intn(9)
			total := m * (cols - 1)
			for _, x := range w {
				total += x
			}
			if got := int(t.TableWidth(uint16(m))); got != min(total, 65535) {
				c.Fail("the %dth table width is %d, want %d", k, got, min(total, 65535))
			}
		case "merge":
			i := r.Intn(len(args))
			var out bytes.Buffer
			args[i](&out, t, lists[i])
			if out.String() != want[i] {
				c.Logf("want %s", quote(want[i]))
				c.Logf("got  %s", quote(out.String()))
				c.Fail("the %dth merge of a table differs from the same merge by a new one", k)
			}
		}
	}
	for done := 0; done < n; {
		c.Do("long use", func() {
			for k := 0; k < 100 && done < n; k++ {
				one(done)
				done++
			}
		})
	}
	c.Eval(n)
	c.Count("uses of long-lived tables", n)
	c.Max("uses of one table", n)
	c.Distinct("long life", c.Idx, n, cols)
}

func longLifeStream(judged string, quick, thorough int) mon.Stream {
	return mon.Stream{Name: "long life", Quick: quick, Thorough: thorough, Run: func(c *mon.Case) { longLife(c, judged) }}
}

// specMany adds thousands of columns to one specification.
func specMany(c *mon.Case) {
	r := c.Rng
	n := []int{1100, 2100, 4200, 5000, 9000, 66000}[r.Intn(6)]
	spec := table.NewTableSpec()
	t := table.NewTable(spec)
	var cols []*table.Column
	dup := r.Intn(3)
	for done := 0; done < n; {
		c.Do("AddColumn", func() {
			for k := 0; k < 100; k++ {
				col := &table.Column{Name: fmt.Sprint("n", done), Getter: strGetter{0}}
				if dup > 0 && r.Intn(4) < dup && done > 0 {
					old := cols[r.Intn(done)]
					col.Name = old.Name
					if r.Intn(3) == 0 {
						col = old
					}
				}
				if r.Intn(2) == 0 {
					spec.AddColumn(col)
				} else {
					t.AddColumn(col)
				}
				cols = append(cols, col)
				done++
				if spec.ColumnCount() != done || len(spec.Columns) != done || spec.Columns[done-1] != col || t.ColumnCount() != done {
					c.Fail("after %d additions the specification has %d columns, the table %d", done, spec.ColumnCount(), t.ColumnCount())
				}
				if !spec.HasColumn(col.Name) || spec.HasColumn(fmt.Sprint("n", done)) {
					c.Fail("after %d additions column %q is not there, or the next one is", done, col.Name)
				}
			}
		})
	}
	last := map[string]*table.Column{}
	for _, col := range cols {
		last[col.Name] = col
	}
	for i, col := range cols {
		if spec.Columns[i] != col || !spec.HasColumn(col.Name) || spec.ColumnByName[col.Name] != last[col.Name] {
			c.Fail("column %d of %d is %p, want %p; by the name %q: %v", i, n, spec.Columns[i], col, col.Name, spec.ColumnByName[col.Name])
		}
	}
	c.Eval(2 * n)
	c.Count("additions", n)
	c.Max("columns", n)
	c.Distinct("many", n, dup, c.Idx)
}
