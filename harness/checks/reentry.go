package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"

	"verif/gen"
	"verif/mon"
	"verif/rnd"
)

// Everything the library calls back (getters, lists, writers, alignments) can
// itself use the library: at once, or by waiting for another goroutine that
// does. It can also give up with a panic that the caller recovers from. None of
// that may change what the interrupted call, or any later one, produces.

type reentry struct {
	r     *rnd.Rand
	fire  func() // does something else
	every int    // once in so many calls
	depth int
	boom  int // panic in so many calls (0: never)
	fired int
}

var errBoom = errors.New("the callback gives up")

func (h *reentry) hit() {
	if h.fire == nil || h.depth >= 2 {
		return
	}
	if h.boom > 0 {
		if h.boom--; h.boom == 0 {
			panic(errBoom)
		}
	}
	if h.r.Intn(h.every) > 0 {
		return
	}
	h.depth++
	defer func() { h.depth-- }()
	h.fired++
	h.fire()
}

type hitGetter struct {
	strGetter
	h *reentry
}

func (g hitGetter) Value(x any) (any, error) {
	g.h.hit()
	v, err := g.strGetter.Value(x)
	return v, err
}

func (g hitGetter) Format(x, v any) (string, error) {
	g.h.hit()
	return g.strGetter.Format(x, v)
}

func (g hitGetter) ValueString(n string, x any) (string, error) {
	g.h.hit()
	return g.strGetter.ValueString(n, x)
}

type hitList struct {
	list
	h *reentry
}

func (l *hitList) Len() int           { l.h.hit(); return l.list.Len() }
func (l *hitList) Get(i int) []string { l.h.hit(); return l.list.Get(i) }

type hitWriter struct {
	b bytes.Buffer
	h *reentry
}

func (w *hitWriter) Write(p []byte) (int, error) {
	w.h.hit()
	n, err := w.b.Write(p)
	w.h.hit() // p is still the library's
	return n, err
}

func hitAlign(h *reentry, f table.Alignment) table.Alignment {
	return func(s string, w uint16) string {
		h.hit()
		s = f(s, w)
		h.hit()
		return s
	}
}

type reOp struct {
	name string
	run  func() string
}

// reentrant compares what calls produce when their callbacks use the library,
// with what they produce otherwise. outer picks the interrupted calls.
func reentrant(c *mon.Case, outer string, async bool) {
	r := c.Rng
	h := &reentry{r: r}
	type world struct {
		spec  *table.TableSpec
		t     *table.Table
		items [][]string
		rows  [][]string
	}
	var worlds []*world
	for k := 0; k < 2; k++ {
		w := &world{spec: table.NewTableSpec()}
		cols := 1 + r.Intn(4)
		for j := 0; j < cols; j++ {
			al := pickAlign(r).f
			if al != nil && (r.Intn(2) == 0 || outer == "align") {
				al = hitAlign(h, al)
			}
			w.spec.AddColumn(&table.Column{Name: fmt.Sprint("c", j), Title: gen.Text(r, gen.Tame), ShortTitle: "s", Getter: hitGetter{strGetter{j}, h}, Alignment: al})
		}
		w.t = table.NewTable(w.spec)
		for i, n := 0, 1+r.Intn(10); i < n; i++ {
			x := make([]string, cols)
			for j := range x {
				x[j] = gen.Text(r, gen.Line)
			}
			w.items = append(w.items, x)
			row, err := w.t.FormatItem(x)
			if err != nil {
				c.Fail("FormatItem fails: %v", err)
			}
			w.rows = append(w.rows, row)
		}
		worlds = append(worlds, w)
	}
	var session func() // something on the table that is being used
	mk := func(kind string) reOp {
		w := worlds[r.Intn(2)]
		switch kind {
		case "format":
			return reOp{"formatting", func() string {
				t := table.NewTable(w.spec)
				old := session
				defer func() { session = old }()
				session = func() {
					switch r.Intn(5) {
					case 0:
						t.FormatHeader("|")
					case 1:
						t.TableWidth(1)
						t.Width("c0")
					case 2:
						t.FormatItemBasic(w.items[0], ",")
					case 3:
						t.UpdateWidth(map[string]uint16{"c0": 1})
					default:
						k := r.Intn(len(w.items))
						row, err := t.FormatItem(w.items[k])
						if err != nil || diffRows([][]string{w.items[k]}, [][]string{row}) != "" {
							c.Fail("formatting item %+q from within a getter of the same table: %+q, %v", w.items[k], row, err)
						}
					}
				}
				t.UpdateWidth(map[string]uint16{"c0": 1})
				var all []string
				for _, x := range w.items {
					row, err := t.FormatItem(x)
					all = append(all, fmt.Sprintf("%+q %v", row, err))
				}
				for _, col := range w.spec.Columns {
					all = append(all, fmt.Sprint(t.Width(col.Name)))
				}
				return strings.Join(all, "\n")
			}}
		case "plain":
			sep := anySep(r)
			return reOp{"plain formatting", func() string {
				out := ""
				for _, x := range w.items {
					s, err := w.t.FormatItemBasic(x, sep)
					out += fmt.Sprintf("%+q %v\n", s, err)
				}
				return out
			}}
		case "align":
			return reOp{"aligning", func() string {
				out := ""
				for _, x := range w.rows {
					row, err := w.t.AlignFormattedItem(append([]string{}, x...))
					out += fmt.Sprintf("%+q %v\n", row, err)
				}
				return out
			}}
		case "header":
			sep := anySep(r)
			return reOp{"header", func() string { return w.t.FormatHeader(sep) }}
		case "width":
			s := gen.Text(r, gen.Wild)
			return reOp{"measuring", func() string {
				return fmt.Sprint(runewidth.StringWidth(s), measure(s), table.AlignmentCenter(s, 30), table.AlignmentRight(s, 31))
			}}
		}
		vertical, compact := kind == "vertical", r.Intn(2) == 0
		if kind == "merge" {
			vertical = r.Intn(2) == 0
		}
		limit, sep := r.Intn(150), anySep(r)
		return reOp{fmt.Sprintf("merge (vertical %v, compact %v, limit %d, separator %s)", vertical, compact, limit, quote(sep)), func() string {
			out, l := &hitWriter{h: h}, &hitList{list: list{rows: w.rows, budget: mergeBudget(len(w.rows), 4)}, h: h}
			if vertical {
				w.t.MergeRowsVertical(out, l, limit, sep, compact)
			} else {
				w.t.MergeRowsHorizontal(out, l, limit, sep, compact)
			}
			return out.b.String()
		}}
	}
	kinds := []string{outer}
	if outer == "" {
		kinds = []string{"format", "plain", "align", "merge", "merge"}
	}
	var outs, ins []reOp
	for i := 0; i < 3; i++ {
		outs = append(outs, mk(kinds[r.Intn(len(kinds))]))
	}
	all := []string{"format", "plain", "align", "merge", "merge", "header", "width", "width"}
	for i := 0; i < 5; i++ {
		ins = append(ins, mk(all[r.Intn(len(all))]))
	}
	ins = append(ins, outs...)
	alone := map[string]string{}
	key := func(i int, inner bool) string { return fmt.Sprint(i, inner) }
	for i, o := range outs {
		c.Do(o.name, func() { alone[key(i, false)] = o.run() })
	}
	for i, o := range ins {
		c.Do(o.name, func() { alone[key(i, true)] = o.run() })
	}
	compare := func(what, got, want string) {
		c.Eval(1)
		if got != want {
			c.Logf("alone %s", quote(want))
			c.Logf("here  %s", quote(got))
			c.Fail("%s", what)
		}
	}
	rounds := 3
	for k := 0; k < rounds; k++ {
		i := r.Intn(len(outs))
		o := outs[i]
		h.every, h.fired = 1+r.Intn(6), 0
		budget := 30
		h.fire = func() {
			if budget--; budget < 0 {
				return
			}
			do := func() {
				if session != nil && r.Intn(3) == 0 {
					session()
					return
				}
				n := r.Intn(len(ins))
				got := ""
				if h.boom == 0 && r.Intn(6) == 0 { // a merge inside that fails
					h.boom = 1 + r.Intn(9)
				}
				p := c.Try(func() { got = ins[n].run() })
				h.boom = 0
				if p == errBoom {
					return
				}
				if p != nil {
					c.Fail("%s within a callback of %s panics: %v", ins[n].name, o.name, p)
				}
				compare(ins[n].name+" within a callback of "+o.name+" gives something else than alone", got, alone[key(n, true)])
			}
			if !async {
				do()
				return
			}
			// wait for another goroutine that does it
			done := make(chan any)
			go func() {
				defer func() { done <- recover() }()
				do()
			}()
			if p := <-done; p != nil {
				panic(p)
			}
		}
		got := ""
		c.Do(o.name, func() { got = o.run() })
		compare(o.name+" gives something else than alone if its callbacks use the library", got, alone[key(i, false)])
		if h.fired > 0 {
			c.Count("calls with callbacks that use the library", 1)
		}
		// a callback gives up, the caller carries on
		h.fire, h.every, h.boom = func() {}, 1, 1+r.Intn(20)
		p := c.Try(func() { o.run() })
		if p != nil && p != errBoom {
			if e, ok := p.(error); !ok || !errors.Is(e, errBoom) {
				c.Fail("%s: a callback panics with %q and the caller sees %v", o.name, errBoom, p)
			}
		}
		if p != nil {
			c.Count("calls given up by a callback", 1)
		}
		h.fire, h.boom = nil, 0
		n := r.Intn(len(ins))
		c.Do(ins[n].name, func() { got = ins[n].run() })
		compare(ins[n].name+" gives something else after a call that a callback gave up", got, alone[key(n, true)])
	}
	h.fire = nil
	c.Distinct("reentrant", outer, c.Idx)
}

func reentrantStream(outer string, quick, thorough int) mon.Stream {
	return mon.Stream{Name: "re-entrant", Quick: quick, Thorough: thorough, Run: func(c *mon.Case) { reentrant(c, outer, false) }}
}
