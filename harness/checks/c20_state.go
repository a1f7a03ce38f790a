package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

func init() {
	register(cacheCheck())
	register(pureCheck())
	register(writeCheck())
	register(memoryCheck())
}

// C20

func cacheCheck() *mon.Check {
	verify := func(c *mon.Case, s string, when string) {
		want := oracle.Cell(s, c.EA)
		got := 0
		c.Do("FormatItem", func() { got = measure(s) })
		if got != want {
			c.Fail("%s: %s is measured %d wide, it is %d", when, quote(s), got, want)
		}
		c.Eval(1)
	}
	// verifyAlign observes the width through alignment instead
	verifyAlign := func(c *mon.Case, s string, when string) {
		w := oracle.Width(s, c.EA)
		if w > 60000 {
			return
		}
		for _, a := range aligns[1:] {
			width := w + 1 + c.Rng.Intn(5)
			got := ""
			c.Do("alignment", func() { got = a.f(s, uint16(width)) })
			if want := aligned(a.name, s, width, c.EA); got != want {
				c.Fail("%s: %s aligned %s to %d gives %s, want %s", when, quote(s), a.name, width, quote(got), quote(want))
			}
		}
		c.Eval(3)
	}
	return &mon.Check{
		ID:   "C20",
		Rule: "texts are measured, then tens of thousands of others (families differing in one byte, sharing prefixes, suffixes, lengths or hashes of weak kinds, zero-width ones, very long ones), then again in other orders, through formatting and through alignment; each answer is compared with the oracle, which has no memory. Non-trivial: distinct histories",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "measured again after many others", "near-identical texts", "zero-width texts measured again"},
		Streams: []mon.Stream{
			reentrantStream("", 4000, 80000),
			{Name: "histories", Quick: 12000, Thorough: 150000, Run: func(c *mon.Case) {
				r := c.Rng
				var pool []string
				for i := 0; i < 3+r.Intn(12); i++ {
					pool = append(pool, gen.Text(r, gen.Wild))
				}
				pool = append(pool, near(r, pool[r.Intn(len(pool))])...)
				c.Count("near-identical texts", len(pool))
				pool = append(pool, "", "\u0301", "\x1b[0m", "\u200d")
				for k := 0; k < 4*len(pool); k++ {
					s := pool[r.Intn(len(pool))]
					if r.Intn(3) == 0 {
						verifyAlign(c, s, "in a random history")
					} else {
						verify(c, s, "in a random history")
					}
				}
				c.Distinct(strings.Join(pool, "\x00"))
			}},
			{Name: "churn", Quick: 16, Thorough: 320, Run: func(c *mon.Case) {
				r := c.Rng
				n := []int{9999, 10000, 10001, 10002, 12000, 20001, 25000, 30011}[c.Idx%8]
				var keep []string
				for i := 0; i < 40; i++ {
					keep = append(keep, gen.Text(r, gen.Wild))
				}
				keep = append(keep, "", "\u0301", "\x1b[31m", "a", "世")
				for _, s := range keep {
					verify(c, s, "first")
				}
				fam := r.Intn(5)
				for i := 0; i < n; i++ {
					s := family(fam, i)
					verify(c, s, "while churning")
					if i%997 == 0 {
						k := keep[r.Intn(len(keep))]
						verify(c, k, "in between")
						verifyAlign(c, k, "in between")
					}
				}
				for _, i := range r.Perm(len(keep)) {
					verify(c, keep[i], fmt.Sprintf("after %d others", n))
					verifyAlign(c, keep[i], fmt.Sprintf("after %d others", n))
					if oracle.Width(keep[i], c.EA) == 0 {
						c.Count("zero-width texts measured again", 1)
					}
				}
				c.Count("measured again after many others", len(keep))
				// the others again, oldest and newest first
				for i := 0; i < n; i += 1 + r.Intn(50) {
					verify(c, family(fam, i), "second round")
					verify(c, family(fam, n-1-i), "second round backwards")
				}
				c.Max("distinct texts in one history", n)
				c.Distinct("churn", c.Idx, fam)
			}},
			{Name: "parts", Quick: 1600, Thorough: 30000, Run: func(c *mon.Case) {
				// a long text and its beginning, end and middle of special lengths
				r := c.Rng
				base := gen.Text(r, gen.Wild) + fmt.Sprint(c.Idx)
				size := 1 << uint(3+r.Intn(11))
				if r.Intn(40) == 0 {
					size = 1 << 16
				}
				size = max(1, r.Size(size, 1<<17))
				for len(base) < size+16 {
					base += gen.Text(r, gen.Wild) + base[:min(len(base), size+16-len(base))] + "é"
				}
				var fam []string
				for d := -2; d <= 2; d++ {
					n := min(max(0, size+d), len(base))
					fam = append(fam, base[:n], base[len(base)-n:], base[(len(base)-n)/2:][:n], base[:n]+"世", "世"+base[len(base)-n:], base[:n/2]+base[len(base)-n/2:])
				}
				fam = append(fam, base, base+"世世", base[:len(base)/2]+"世"+base[len(base)/2:])
				for round := 0; round < 2; round++ {
					for _, i := range r.Perm(len(fam)) {
						verify(c, fam[i], "after texts that share a part")
					}
				}
				c.Count("near-identical texts", len(fam))
				c.Distinct(base)
			}},
			{Name: "similar", Quick: 4500, Thorough: 80000, Run: func(c *mon.Case) {
				r := c.Rng
				base := gen.Text(r, gen.Wild)
				if r.Intn(3) == 0 {
					base = strings.Repeat(base, 1+r.Intn(60))
					if len(base) > 8000 {
						base = base[:8000]
					}
				}
				fam := near(r, base)
				for round := 0; round < 2; round++ {
					for _, i := range r.Perm(len(fam)) {
						verify(c, fam[i], "among near-identical texts")
					}
				}
				c.Count("near-identical texts", len(fam))
				c.Distinct(base)
			}},
		},
	}
}

// family is an endless sequence of distinct texts of varied width.
func family(kind, i int) string {
	switch kind {
	case 0:
		return fmt.Sprintf("%d", i) + strings.Repeat("世", i%4)
	case 1: // same length, shared prefix, widths differ
		tail := []string{"éé", "世a", "ab\u0301", "\x1b[1"}[i%4]
		return "common prefix " + fmt.Sprintf("%06d", i) + tail
	case 2: // shared suffix
		return strings.Repeat("世", i%3) + fmt.Sprintf("%d common suffix of some length", i)
	case 3: // zero width but distinct
		return fmt.Sprintf("\x1b[%d;%dm", i%9999, i/9999)
	}
	return strings.Repeat(string(rune('a'+i%26)), 1+i%40) + fmt.Sprintf("\u0301%x", i)
}

// near returns texts that a lossy key would mistake for s.
func near(r *rnd.Rand, s string) []string {
	fam := []string{s, s + " ", " " + s, s + "\x00", "\x00" + s, s + s, strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), s + "世", "世" + s, s + "\x1b[0m", oracle.Strip(s), strings.ReplaceAll(s, "a", "世")}
	if len(s) > 0 {
		b := []byte(s)
		for k := 0; k < 4; k++ {
			x := append([]byte{}, b...)
			x[r.Intn(len(x))] ^= byte(1 << uint(r.Intn(8)))
			fam = append(fam, string(x))
		}
		i := r.Intn(len(b))
		fam = append(fam, s[:i], s[i:], s[i:]+s[:i], s[:len(s)-1], s[1:])
		x := append([]byte{}, b...)
		for a, z := 0, len(x)-1; a < z; a, z = a+1, z-1 {
			x[a], x[z] = x[z], x[a]
		}
		fam = append(fam, string(x))
	}
	return fam
}

// C21

type snapshot struct {
	names, titles, shorts []string
	aligns                []string
	widths                map[string]uint16
	rows                  [][]string
	order                 []*table.Column
	registered            map[string]*table.Column
	rest                  string
}

// elsewhere are names that no column has, but that a table may know a width of.
var elsewhere = []string{"no such column", "not yet there"}

func snap(t *table.Table, rows [][]string) snapshot {
	s := snapshot{widths: map[string]uint16{}, registered: map[string]*table.Column{}, rest: t.TimeFormat}
	for n, col := range t.ColumnByName {
		s.registered[n] = col
	}
	for _, col := range t.Columns {
		s.order = append(s.order, col)
		s.names = append(s.names, col.Name)
		s.titles = append(s.titles, col.Title)
		s.shorts = append(s.shorts, col.ShortTitle)
		s.aligns = append(s.aligns, fmt.Sprintf("%p", col.Alignment))
		s.rest += fmt.Sprintf(" %v:%T%v", col.Type, col.Getter, col.Getter)
		s.widths[col.Name] = t.Width(col.Name)
	}
	for _, n := range elsewhere {
		s.widths[n] = t.Width(n)
	}
	for _, r := range rows {
		s.rows = append(s.rows, append([]string{}, r...))
	}
	return s
}

func (a snapshot) diff(b snapshot) string {
	if len(a.order) != len(b.order) || len(a.registered) != len(b.registered) {
		return fmt.Sprintf("%d columns became %d", len(a.order), len(b.order))
	}
	for i := range a.order {
		if a.order[i] != b.order[i] || a.names[i] != b.names[i] || a.titles[i] != b.titles[i] || a.shorts[i] != b.shorts[i] || a.aligns[i] != b.aligns[i] {
			return fmt.Sprintf("column %d was (%q %q %q %s), is (%q %q %q %s)", i, a.names[i], a.titles[i], a.shorts[i], a.aligns[i], b.names[i], b.titles[i], b.shorts[i], b.aligns[i])
		}
	}
	for n, col := range a.registered {
		if b.registered[n] != col {
			return fmt.Sprintf("the column registered as %q was %p, is %p", n, col, b.registered[n])
		}
	}
	if a.rest != b.rest {
		return fmt.Sprintf("the time format, types and getters were %s, are %s", a.rest, b.rest)
	}
	for n, w := range a.widths {
		if b.widths[n] != w {
			return fmt.Sprintf("the width of column %q was %d, is %d", n, w, b.widths[n])
		}
	}
	return diffRows(a.rows, b.rows)
}

func diffRows(a, b [][]string) string {
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("item %d had %d cells, has %d", i, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return fmt.Sprintf("cell %d of item %d was %s, is %s", j, i, quote(a[i][j]), quote(b[i][j]))
			}
		}
	}
	return ""
}

func pureCheck() *mon.Check {
	type op struct {
		name string
		run  func(t *table.Table, rows [][]string) string
	}
	mkop := func(r *rnd.Rand, s *scen) op {
		switch k := r.Intn(5); k {
		case 0:
			sep := anySep(r)
			return op{fmt.Sprintf("header(%s)", quote(sep)), func(t *table.Table, _ [][]string) string { return t.FormatHeader(sep) }}
		default:
			sep := anySep(r)
			v, compact := k%2 == 0, r.Intn(2) == 0
			limit := s.limit(v, len(sep))
			return op{s.describe(v, limit, sep, compact), func(t *table.Table, rows [][]string) string {
				var out bytes.Buffer
				l := &list{rows: rows, budget: mergeBudget(len(rows), len(t.Columns))}
				if v {
					t.MergeRowsVertical(&out, l, limit, sep, compact)
				} else {
					t.MergeRowsHorizontal(&out, l, limit, sep, compact)
				}
				return out.String()
			}}
		}
	}
	return &mon.Check{
		ID:   "C21",
		Rule: "random sequences of renderings (all merges, headers) with deep snapshots of items, columns and widths before and after each; every rendering is repeated after others, on the same table and on a second table of the same specification; rows kept by the caller are watched while other tables format, align and merge. Non-trivial: distinct rendering sequences",
		Need: []string{"calls with callbacks that use the library", "calls given up by a callback", "renderings repeated", "snapshots compared", "rows watched during work on another table", "tables narrower than their rows", "lists in one array"},
		Streams: []mon.Stream{
			reentrantStream("merge", 6000, 100000),
			longLifeStream("merge", 160, 4000),
			{Name: "sequences", Quick: 20000, Thorough: 250000, Run: func(c *mon.Case) {
				r := c.Rng
				var s *scen
				switch r.Intn(5) {
				case 0, 1:
					s = tokenScen(c, 25)
				case 2:
					s = newScen(c, scenOpt{n: r.Intn(30), cols: 1 + r.Intn(3), dup: true, widen: true, cell: func(r *rnd.Rand, _, _ int) string {
						return []string{"", "", "", "", "a", "bb", "cccc"}[r.Intn(7)]
					}})
				default:
					s = newScen(c, scenOpt{n: r.Intn(20), cols: 1 + r.Intn(4), dup: true, widen: true, cell: func(r *rnd.Rand, _, _ int) string { return gen.Text(r, gen.Wild) }})
				}
				if r.Intn(4) == 0 { // the rows were formatted by a table that knows other widths
					s.t = table.NewTable(s.t.TableSpec)
					for _, n := range s.names {
						if r.Intn(3) > 0 {
							w := uint16(r.Intn(7))
							c.Do("UpdateWidth", func() { s.t.UpdateWidth(map[string]uint16{n: w}) })
						}
					}
					c.Count("tables narrower than their rows", 1)
				}
				for _, col := range s.t.Columns {
					if r.Intn(2) == 0 {
						col.Title, col.ShortTitle = titles[r.Intn(len(titles))], titles[r.Intn(len(titles))]
					}
					if r.Intn(6) == 0 {
						col.Title = ""
					}
					if r.Intn(6) == 0 {
						col.ShortTitle = ""
					}
					col.Type = colTypes[r.Intn(len(colTypes))]
				}
				if r.Intn(3) == 0 {
					c.Do("UpdateWidth", func() { s.t.UpdateWidth(map[string]uint16{elsewhere[1]: uint16(1 + r.Intn(9))}) })
				}
				s.t.TimeFormat = []string{"", "2006", "15:04"}[r.Intn(3)]
				// a second table of the same specification with the same widths
				t2 := table.NewTable(s.t.TableSpec)
				ws := map[string]uint16{}
				for _, n := range s.names {
					ws[n] = s.t.Width(n)
				}
				c.Do("UpdateWidth", func() { t2.UpdateWidth(ws) })
				var ops []op
				var first []string
				for i := 0; i < 3+r.Intn(3); i++ {
					ops = append(ops, mkop(r, s))
				}
				watched := func() [][]string { return append(s.rows[:len(s.rows):len(s.rows)], s.spare) }
				before := snap(s.t, watched())
				run := func(o op, t *table.Table) (out string) {
					c.Do(o.name, func() { out = o.run(t, s.rows) })
					if d := before.diff(snap(s.t, watched())); d != "" {
						c.Fail("%s changes its table or items: %s", o.name, d)
					}
					c.Count("snapshots compared", 1)
					c.Eval(1)
					return
				}
				for _, o := range ops {
					first = append(first, run(o, s.t))
				}
				for k := 0; k < 2*len(ops); k++ {
					i := r.Intn(len(ops))
					t, which := s.t, "again"
					if r.Intn(3) == 0 {
						t, which = t2, "by another table of the same specification"
					}
					if got := run(ops[i], t); got != first[i] {
						c.Logf("first %s", quote(first[i]))
						c.Logf("then  %s", quote(got))
						c.Fail("%s renders differently %s", ops[i].name, which)
					}
					c.Count("renderings repeated", 1)
				}
				var d []string
				for _, o := range ops {
					d = append(d, o.name)
				}
				c.Distinct(strings.Join(d, ";"))
			}},
			{Name: "isolation", Quick: 16000, Thorough: 200000, Run: func(c *mon.Case) {
				r := c.Rng
				a := newScen(c, scenOpt{n: 1 + r.Intn(8), cols: 1 + r.Intn(4), cell: func(r *rnd.Rand, _, _ int) string { return gen.Text(r, gen.Tame) }})
				kept := make([][]string, len(a.rows))
				for i, row := range a.rows {
					kept[i] = append([]string{}, row...)
				}
				watch := func(what string) {
					if d := diffRows(kept, a.rows); d != "" {
						c.Fail("%s on another table: %s", what, d)
					}
					c.Count("rows watched during work on another table", len(kept))
					c.Eval(1)
				}
				// another table of the same specification, then one of its own
				b := table.NewTable(a.t.TableSpec)
				src := make([]string, len(a.kinds))
				var rowsB [][]string
				for k := 0; k < 2+r.Intn(6); k++ {
					for j := range src {
						src[j] = gen.Text(r, gen.Wild)
					}
					c.Do("FormatItem", func() {
						row, err := b.FormatItem(append([]string{}, src...))
						if err != nil {
							c.Fail("FormatItem fails: %v", err)
						}
						rowsB = append(rowsB, row)
					})
					watch("formatting")
				}
				keptB := make([][]string, len(rowsB))
				for i, row := range rowsB {
					keptB[i] = append([]string{}, row...)
				}
				c.Do("AlignFormattedItem", func() {
					if _, err := b.AlignFormattedItem(rowsB[0]); err != nil {
						c.Fail("AlignFormattedItem fails: %v", err)
					}
				})
				watch("aligning")
				if d := diffRows(keptB[1:], rowsB[1:]); d != "" {
					c.Fail("aligning one row changes another: %s", d)
				}
				c.Do("merging", func() {
					var out bytes.Buffer
					b.MergeRowsHorizontal(&out, &list{rows: rowsB}, r.Intn(200), "|", r.Intn(2) == 0)
					b.MergeRowsVertical(&out, &list{rows: rowsB}, r.Intn(200), "|", r.Intn(2) == 0)
				})
				watch("merging")
				// rows formatted earlier by the same table stay as they are, too
				c.Do("FormatItem", func() { a.t.FormatItem(append([]string{}, src...)) })
				watch("formatting a further item")
				c.Distinct(fmt.Sprint(kept))
			}},
		},
	}
}

// C23

var errFull = errors.New("no space left on device")

type deviceError struct{ at int }

func (e *deviceError) Error() string { return fmt.Sprintf("write failed at byte %d", e.at) }

// passing is an error that says it will pass.
type passing struct{ what string }

func (e passing) Error() string { return e.what }
func (passing) Temporary() bool { return true }
func (passing) Timeout() bool   { return true }

var knownErrors = []error{errFull, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed,
	os.ErrDeadlineExceeded, os.ErrPermission, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EIO,
	syscall.EBADF, syscall.EINVAL, syscall.ECONNRESET, context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull,
	io.ErrNoProgress, os.ErrNotExist, os.ErrExist, errors.ErrUnsupported, strconv.ErrRange, passing{"try again"}, passing{""}, errors.New("")}

// writeError is one of the errors writers fail with, well-known or not, wrapped or not.
func writeError(n int) error {
	if n < 0 {
		n = -n
	}
	err := knownErrors[n/3%len(knownErrors)]
	switch n % 3 {
	case 0:
		return err
	case 1:
		if n%2 == 0 {
			return &os.PathError{Op: "write", Path: "|1", Err: err}
		}
		return fmt.Errorf("output: %w", err)
	}
	return &deviceError{n}
}

// faultWriter accepts a number of bytes (or calls), then fails.
type faultWriter struct {
	buf    bytes.Buffer
	budget int // bytes, -1 for unlimited
	calls  int // calls that succeed, -1 for unlimited
	// partial: a failing write keeps what fits; late: it keeps everything yet fails
	partial, late bool
	err           error
	failed        bool
	after         int // writes after the failure
	writes        int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.writes++
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.calls >= 0 && w.writes > w.calls {
		w.failed = true
		if w.late {
			w.buf.Write(p)
			return len(p), w.err
		}
		return 0, w.err
	}
	if w.budget >= 0 && w.buf.Len()+len(p) > w.budget {
		w.failed = true
		n := 0
		if w.partial {
			n = w.budget - w.buf.Len()
			w.buf.Write(p[:n])
		}
		return n, w.err
	}
	w.buf.Write(p)
	return len(p), nil
}

// badFiles are files that cannot be written.
func badFiles() (fs []*os.File) {
	if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		fs = append(fs, f)
	}
	if f, err := os.Open(os.DevNull); err == nil {
		f.Close()
		fs = append(fs, f)
	}
	if f, err := os.Open(os.DevNull); err == nil { // open for reading only
		fs = append(fs, f)
	}
	return
}

func writeCheck() *mon.Check {
	mergeTo := func(s *scen, w io.Writer, vertical bool, limit int, sep string, compact bool) {
		l := &list{rows: s.rows, budget: mergeBudget(len(s.rows), len(s.kinds))}
		if vertical {
			s.t.MergeRowsVertical(w, l, limit, sep, compact)
		} else {
			s.t.MergeRowsHorizontal(w, l, limit, sep, compact)
		}
	}
	judge := func(c *mon.Case, s *scen, w *faultWriter, full string, vertical bool, limit int, sep string, compact bool, what string) {
		kind := (w.budget + w.calls + c.Idx + 2) % 4
		p := c.Try(func() { mergeTo(s, wrapper(kind, w), vertical, limit, sep, compact) })
		what += " (" + wrapperNames[kind] + ")"
		fail := func(format string, a ...any) {
			s.log(vertical, limit, sep, compact, full)
			c.Logf("the writer accepted %s", quote(w.buf.String()))
			c.Fail(what+": "+format, a...)
		}
		c.Eval(1)
		if !w.failed {
			if p != nil {
				fail("no write failed but merging panicked with %v", p)
			}
			if w.buf.String() != full {
				fail("%d of %d bytes delivered on return", w.buf.Len(), len(full))
			}
			c.Count("complete deliveries", 1)
			return
		}
		c.Count("failures injected", 1)
		if p == nil {
			fail("the failure is swallowed: merging returned normally")
		}
		err, ok := p.(error)
		if !ok || !(err == w.err || errors.Is(err, w.err)) {
			fail("merging panicked with %v (%T), not with the writer's error %v", p, p, w.err)
		}
		if w.after > 0 {
			fail("%d more writes after the failure", w.after)
		}
		if !strings.HasPrefix(full, w.buf.String()) {
			fail("what was accepted is not a prefix of the output")
		}
	}
	return &mon.Check{
		ID:   "C23",
		Rule: "for each merged output a writer fails at every byte offset (keeping what fits, or nothing of the failing write), at every write call (keeping nothing or everything), and never; the panic value, the accepted bytes and later writes are watched. Non-trivial: distinct (output, fault point, fault kind)",
		Need: []string{"failures injected", "complete deliveries", "failures behind a buffer", "files that fail"},
		Streams: []mon.Stream{
			{Name: "buffered", Quick: 1500, Thorough: 30000, Run: func(c *mon.Case) {
				// a caller's bufio.Writer over a failing writer, and files
				r := c.Rng
				s := tokenScen(c, 12)
				sep := anySep(r)
				v, k := r.Intn(2) == 0, r.Intn(2) == 0
				limit := s.limit(v, len(sep))
				full := s.merge(v, limit, sep, k)
				for i := 0; i < 12; i++ {
					w := &faultWriter{budget: r.Intn(len(full) + 2), calls: -1, partial: r.Intn(2) == 0, err: writeError(r.Intn(1000))}
					size := []int{16, 17, 64, 100, 512, 4096, 8192}[r.Intn(7)]
					b := bufio.NewWriterSize(w, size)
					p := c.Try(func() { mergeTo(s, b, v, limit, sep, k) })
					failed := w.failed
					fail := func(format string, a ...any) {
						s.log(v, limit, sep, k, full)
						c.Logf("the writer accepted %s", quote(w.buf.String()))
						c.Fail(fmt.Sprintf("bufio.Writer of %d bytes over a writer that fails at byte %d: ", size, w.budget)+format, a...)
					}
					c.Eval(1)
					if p != nil && !failed {
						fail("nothing failed but merging panicked with %v", p)
					}
					if err, ok := p.(error); p != nil && (!ok || !errors.Is(err, w.err)) {
						fail("merging panicked with %v (%T), not with the writer's error", p, p)
					}
					if p == nil && failed {
						fail("the failure is swallowed: merging returned normally")
					}
					if p != nil {
						c.Count("failures behind a buffer", 1)
					} else if err := b.Flush(); err == nil && w.buf.String() != full {
						fail("%d of %d bytes delivered", w.buf.Len(), len(full))
					}
					if !strings.HasPrefix(full, w.buf.String()) {
						fail("what was accepted is not a prefix of the output")
					}
				}
				if full == "" {
					return
				}
				for _, f := range badFiles() {
					p := c.Try(func() { mergeTo(s, f, v, limit, sep, k) })
					c.Eval(1)
					if err, ok := p.(error); !ok || !(errors.Is(err, os.ErrClosed) || errors.Is(err, syscall.ENOSPC) || errors.Is(err, syscall.EBADF)) {
						s.log(v, limit, sep, k, full)
						c.Fail("merging to the file %s, where nothing can be written, ends with %v (%T)", f.Name(), p, p)
					}
					f.Close()
					c.Count("files that fail", 1)
				}
				c.Distinct("buffered", full)
			}},
			{Name: "every byte", Quick: 2700, Thorough: 40000, Run: func(c *mon.Case) {
				r := c.Rng
				s := tokenScen(c, 8)
				if r.Intn(4) == 0 {
					s = newScen(c, scenOpt{n: r.Intn(6), cols: 1 + r.Intn(2), cell: func(r *rnd.Rand, _, _ int) string { return []string{"", "a", "世"}[r.Intn(3)] }})
				}
				sep := anySep(r)
				v, k := c.Idx%2 == 0, c.Idx/2%2 == 0
				limit := s.limit(v, len(sep))
				if c.Idx%3 == 0 {
					limit = 0 // one item per line: as many writes as possible
				}
				full := s.merge(v, limit, sep, k)
				step := 1
				if len(full) > 600 {
					step = 1 + len(full)/600
				}
				for at := 0; at <= len(full); at += step {
					for _, partial := range []bool{true, false} {
						err := writeError(at + c.Idx)
						w := &faultWriter{budget: at, calls: -1, partial: partial, err: err}
						judge(c, s, w, full, v, limit, sep, k, fmt.Sprintf("writer failing at byte %d of %d with %v", at, len(full), err))
						c.Distinct(full, at, fmt.Sprint(partial))
					}
				}
				probe := &faultWriter{budget: -1, calls: -1}
				judge(c, s, probe, full, v, limit, sep, k, "sound writer")
				for call := 0; call < probe.writes && call < 60; call++ {
					for _, late := range []bool{false, true} {
						w := &faultWriter{budget: -1, calls: call, late: late, err: writeError(call + c.Idx/3)}
						judge(c, s, w, full, v, limit, sep, k, fmt.Sprintf("write call %d failing", call))
					}
				}
				c.Max("write calls in one merge", probe.writes)
				c.Max("bytes in one merge", len(full))
			}},
			{Name: "large", Quick: 48, Thorough: 800, Run: func(c *mon.Case) {
				r := c.Rng
				s := newScen(c, scenOpt{n: 300 + r.Intn(900), cols: 1 + r.Intn(3), cell: tokenCell(gen.Opt{MaxParts: 3})})
				v := r.Intn(2) == 0
				sep := anySep(r)
				limit := 10 + r.Intn(300)
				full := s.merge(v, limit, sep, false)
				ats := []int{0, 1, len(full) - 1, len(full), 4095, 4096, 4097, 8192, 65536}
				for k := 0; k < 30; k++ {
					ats = append(ats, r.Intn(len(full)+1))
				}
				for _, at := range ats {
					w := &faultWriter{budget: at, calls: -1, partial: r.Intn(2) == 0, err: writeError(r.Intn(1000))}
					judge(c, s, w, full, v, limit, sep, false, fmt.Sprintf("writer failing at byte %d of %d", at, len(full)))
					c.Distinct("large", c.Idx, at)
				}
				c.Max("bytes in one merge", len(full))
			}},
		},
	}
}

// C26

func liveHeap() int {
	var ms runtime.MemStats
	best := int(^uint(0) >> 1)
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&ms)
		best = min(best, int(ms.HeapAlloc))
	}
	return best
}

// refusing formats nothing.
type refusing struct{}

func (refusing) Value(item any) (any, error) { return item.([]string)[0], nil }

func (refusing) ValueString(_ string, item any) (string, error) {
	s := item.([]string)[0]
	return s, fmt.Errorf("refused: %s", s)
}

func (refusing) Format(item any, v any) (string, error) {
	s := "refused: " + v.(string)
	return s, errors.New(s)
}

func memoryCheck() *mon.Check {
	const kinds = 16
	// use feeds distinct texts in one of the ways texts get measured
	use := func(t *table.Table, kind int, from, to int) {
		pad := strings.Repeat("p", 60)
		spec := t.TableSpec
		for i := from; i < to; i++ {
			mon.Tick()
			s := fmt.Sprintf("%d-%s", i, pad)
			switch i >> 2 & 15 { // several ways step i by 2 or 4
			case 0:
				s = fmt.Sprintf("%d\x1b[3%dm%s\x1b[0m", i, i%8, pad[:20])
			case 1, 2:
				s = fmt.Sprintf("%d漢字%sカナ한글🇩🇪👩‍🚀é", i, pad[:8])
			case 3:
				s = fmt.Sprintf("%d\xff\xe6\xbc%s\x80", i, pad[:20])
			case 4:
				s += strings.Repeat("long ", 80)
			case 5: // short
				s = fmt.Sprint(i)
			case 6: // wide characters only, nothing else in common
				s = strings.Repeat(string(rune(0x4e00+i%20000))+string(rune(0xac00+i/20000)), 5)
			}
			switch kind {
			case 0:
				t.FormatItem([]string{s})
			case 1:
				width := uint16(100)
				if i%512 == 0 {
					width = 65535
				}
				table.AlignmentRight(s, width)
			case 2:
				table.AlignmentCenter(s, 3)
				if i%512 == 0 {
					t.AlignFormattedItem([]string{s})
				}
			case 3:
				var rows [][]string
				for k := 0; k < 4; k++ {
					rows = append(rows, []string{fmt.Sprintf("%d.%d-%s", i, k, pad)})
				}
				t.MergeRowsVertical(io.Discard, &list{rows: rows}, 5000, " ", true)
				t.MergeRowsHorizontal(io.Discard, &list{rows: rows}, 5000, " ", true)
				i += 3
			case 4: // zero-width ones
				t.FormatItem([]string{strings.Repeat("\u200d", 10) + fmt.Sprintf("\x1b[%d;%d;%dm", i/10000%10000, i%10000, i%7)})
			case 5: // new tables all the time
				t2 := table.NewTable(spec)
				t2.FormatItem([]string{s})
				t2.FormatHeader("|")
				t2.FormatItemBasic([]string{s}, ",")
			case 6: // new specifications too
				spec2 := table.NewTableSpec()
				spec2.AddColumn(&table.Column{Name: s, Getter: strGetter{0}, Title: s, ShortTitle: "s" + s})
				t2 := table.NewTable(spec2)
				t2.UpdateWidth(map[string]uint16{s: uint16(i % 70)})
				t2.FormatHeader(s)
				t2.TableWidth(uint16(i))
			case 7: // separators and limits
				rows := [][]string{{"a"}, {"b"}, {"c"}}
				t.MergeRowsVertical(io.Discard, &list{rows: rows}, i%200, s, i%2 == 0)
				t.MergeRowsHorizontal(io.Discard, &list{rows: rows}, i%200, s, i%2 == 0)
				t.FormatItemBasic([]string{s}, s)
				i++
			case 8: // the width functions below the table
				runewidth.StringWidth(s)
				cond := runewidth.NewCondition()
				cond.StringWidth(s)
				g := uniseg.NewGraphemes(s)
				for g.Next() {
					g.Runes()
				}
				i++
			case 9, 10: // different clusters: marks upon marks, joined pictographs
				rs := []rune{'a'}
				for k := i; k > 0; k /= 40 {
					rs = append(rs, rune(0x300+k%40))
				}
				if i%4 == 0 {
					rs = rs[:0]
					for k := i; k > 0; k /= 40 {
						rs = append(rs, rune(0x1F600+k%40), 0x200d)
					}
				}
				if kind == 9 {
					t.FormatItem([]string{string(rs)})
					break
				}
				runewidth.StringWidth(string(rs))
				(&runewidth.Condition{EastAsianWidth: i%3 == 0}).StringWidth(string(rs))
				for rest, state := string(rs), -1; rest != ""; {
					_, rest, _, state = uniseg.StepString(rest, state)
				}
				i++
			case 11: // tables that are merged once
				t2 := table.NewTable(spec)
				rows := [][]string{{s}, {"x" + s}, {"y"}}
				t2.FormatItem(rows[0])
				t2.MergeRowsVertical(io.Discard, &list{rows: rows}, 90, " ", true)
				t2.MergeRowsHorizontal(io.Discard, &list{rows: rows}, 90, " ", true)
				t2.AlignFormattedItem(rows[2])
				i += 5
			case 12: // longer ones
				s = fmt.Sprintf("%09d", i) + strings.Repeat(pad, 11)
				t.FormatItem([]string{s})
				table.AlignmentLeft(s, 700)
				i += 9
			case 13: // what cannot be formatted
				t.FormatItem([]string{s})
				t.FormatItemBasic([]string{s}, ",")
				t.AlignFormattedItem([]string{s, s, s})
			case 14: // what cannot be written
				rows := [][]string{{s}, {"x" + s}}
				for _, v := range []bool{false, true} {
					func() {
						defer func() { _ = recover() }()
						w := &faultWriter{budget: i % 90, calls: -1, partial: true, err: &deviceError{i}}
						if v {
							t.MergeRowsVertical(w, &list{rows: rows}, 300, "|", i%3 == 0)
						} else {
							t.MergeRowsHorizontal(w, &list{rows: rows}, 300, "|", i%3 == 0)
						}
					}()
				}
				i += 3
			case 15: // a title that changes, widths for names that are not used
				t.Columns[0].Title, t.Columns[0].ShortTitle = s, s+"."
				t.FormatHeader("|")
				t.FormatItem([]string{"a"})
				t.Width(s)
				t.HasColumn(s)
			}
		}
	}
	return &mon.Check{
		ID:   "C26",
		Once: true,
		Rule: "hundreds of thousands of distinct short texts are formatted, aligned and merged, and used as titles, column names and separators; the live heap after collection is read at intervals: retaining as little as 16 bytes for each further text would show as growth over the last interval beyond the 1 MB allowed. Non-trivial: distinct ways of measuring",
		Need: []string{"distinct texts measured"},
		Streams: []mon.Stream{
			{Name: "growth", Quick: kinds, Thorough: 4 * kinds, Run: func(c *mon.Case) {
				kind := c.Idx % kinds
				steps := []int{50000, 150000, 300000}
				if !c.Quick {
					steps = []int{80000, 300000, 1000000}
				}
				// one specification and one table live all the time
				spec := table.NewTableSpec()
				spec.AddColumn(&table.Column{Name: "c", Getter: strGetter{0}, Alignment: table.AlignmentLeft, Title: "t"})
				if kind == 13 {
					spec.AddColumn(&table.Column{Name: "f", Getter: refusing{}})
				}
				t := table.NewTable(spec)
				live := []int{liveHeap()}
				from := 0
				for _, to := range steps {
					c.Do("measuring", func() { use(t, kind, from, to) })
					from = to
					live = append(live, liveHeap())
					c.Eval(1)
				}
				runtime.KeepAlive(t)
				n := len(live) - 1
				c.Count("distinct texts measured", from)
				c.Max("KB live after the last step", live[n]/1024)
				c.Max("KB growth over the last step", (live[n]-live[n-1])/1024)
				c.Distinct(kind)
				c.Sample("way %d: bytes live after 0 and %v texts: %v", kind, steps, live)
				if live[n] > live[n-1]+1<<20 {
					c.Fail("way %d: bytes live after 0 and %v distinct texts: %v", kind, steps, live)
				}
			}},
		},
	}
}
