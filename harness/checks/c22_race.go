package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/gen"
	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

// job is a deterministic piece of work on a table of its own.
type job struct {
	kinds []string
	rows  [][]string
	steps []jobStep
	spec  *table.TableSpec // shared, or nil
}

type jobStep struct {
	op      int
	row     int
	limit   int
	sep     string
	compact bool
	text    string
}

func makeJob(r *rnd.Rand, pool []string) *job {
	j := &job{}
	cols := 1 + r.Intn(3)
	for k := 0; k < cols; k++ {
		j.kinds = append(j.kinds, allKinds[r.Intn(4)])
	}
	for i := 0; i < 2+r.Intn(6); i++ {
		row := make([]string, cols)
		for k := range row {
			if r.Intn(2) == 0 {
				row[k] = pool[r.Intn(len(pool))] // shared between goroutines
			} else {
				row[k] = gen.Text(r, gen.Line)
			}
		}
		j.rows = append(j.rows, row)
	}
	for i := 0; i < 12; i++ {
		j.steps = append(j.steps, jobStep{r.Intn(9), r.Intn(len(j.rows)), r.Intn(120), anySep(r), r.Intn(2) == 0, pool[r.Intn(len(pool))]})
	}
	return j
}

func (j *job) makeSpec() *table.TableSpec {
	spec := table.NewTableSpec()
	for k, kind := range j.kinds {
		spec.AddColumn(&table.Column{Name: fmt.Sprint("c", k), Title: "Title", ShortTitle: "T", Getter: strGetter{k}, Alignment: alignOf(kind)})
	}
	return spec
}

// run performs the job and returns a transcript of every result.
func (j *job) run(yield func()) string {
	var b strings.Builder
	spec := j.spec
	if spec == nil {
		spec = j.makeSpec()
	}
	t := table.NewTable(spec)
	var rows [][]string
	for _, row := range j.rows {
		f, err := t.FormatItem(row)
		fmt.Fprintln(&b, f, err)
		rows = append(rows, f)
		yield()
	}
	for _, s := range j.steps {
		stepRun(&b, t, rows, s)
		yield()
	}
	return b.String()
}

func stepRun(b *strings.Builder, t *table.Table, rows [][]string, s jobStep) {
	switch s.op {
	case 0:
		var o bytes.Buffer
		t.MergeRowsHorizontal(&o, &list{rows: rows}, s.limit, s.sep, s.compact)
		b.WriteString(o.String())
	case 1:
		var o bytes.Buffer
		t.MergeRowsVertical(&o, &list{rows: rows}, s.limit, s.sep, s.compact)
		b.WriteString(o.String())
	case 2:
		b.WriteString(t.FormatHeader(s.sep))
	case 3:
		f, err := t.AlignFormattedItem(append([]string{}, rows[s.row]...))
		fmt.Fprintln(b, f, err)
	case 4:
		b.WriteString(table.AlignmentLeft(s.text, 30) + table.AlignmentRight(s.text, 31) + table.AlignmentCenter(s.text, 32))
	case 5:
		fmt.Fprintln(b, runewidth.StringWidth(s.text))
		for _, r := range s.text {
			fmt.Fprint(b, runewidth.DefaultCondition.RuneWidth(r))
		}
	case 6:
		g := uniseg.NewGraphemes(s.text)
		for g.Next() {
			fmt.Fprint(b, g.Runes())
		}
		rest, state := s.text, -1
		for rest != "" {
			var c string
			var bd int
			c, rest, bd, state = uniseg.StepString(rest, state)
			fmt.Fprint(b, c, bd)
		}
	case 7:
		cond := runewidth.NewCondition()
		fmt.Fprintln(b, cond.StringWidth(s.text), cond.EastAsianWidth)
	case 8:
		for _, c := range t.Columns {
			fmt.Fprint(b, t.Width(c.Name), t.HasColumn(c.Name))
		}
		str, err := t.FormatItemBasic(rows[s.row], s.sep)
		fmt.Fprintln(b, str, err, t.TableWidth(1))
	}
}

func init() {
	gate := func(r *rnd.Rand) func() {
		x := r.Int63()
		return func() { // injected scheduling points
			x = x*6364136223846793005 + 1442695040888963407
			switch (x >> 40) & 7 {
			case 0, 1:
				runtime.Gosched()
			case 2:
				for i := 0; i < int((x>>33)&0xff); i++ {
					atomic.AddInt64(&spin, 1)
				}
			}
		}
	}
	// together runs the functions at the same time and waits.
	together := func(fs []func()) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				<-start
				f()
			}(f)
		}
		close(start)
		wg.Wait()
	}
	type result struct {
		out   string
		panic any
	}
	call := func(f func() string) (r result) {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 2000)
				r.panic = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
			}
		}()
		r.out = f()
		return
	}
	register(&mon.Check{
		ID:   "C22",
		Mode: "race",
		Rule: "built with the race detector: goroutines released together each run a random transcript of formatting, aligning, headers, merges and width calls on their own table, over texts shared between them, and render from a shared settled table; every transcript is compared with the one produced alone, processes of their own begin with each operation from several goroutines at once, and a goroutine count, overlap counter and cache churn are recorded. Non-trivial: distinct sets of transcripts run concurrently",
		Need: []string{"processes with a concurrent first use", "calls with callbacks that use the library", "calls given up by a callback", "tables of one specification used at the same time", "shared tables with columns of no width", "transcripts compared", "overlapping steps", "shared renderings compared", "new texts measured by several goroutines"},
		Streams: []mon.Stream{
			{Name: "first use", Quick: 30 * len(firstUses), Thorough: 1500 * len(firstUses), Run: firstUse},
			{Name: "suspended", Quick: 400, Thorough: 20000, Run: func(c *mon.Case) { reentrant(c, "", true) }},
			{Name: "own tables", Quick: 160, Thorough: 8000, Run: func(c *mon.Case) {
				r := c.Rng
				n := 2 + r.Intn(7)
				fresh := func(tag string) []string { // texts nobody has measured before
					var p []string
					for i := 0; i < 12; i++ {
						p = append(p, gen.Text(r, gen.Line)+fmt.Sprintf("%s%d.%d", tag, c.Idx, i))
					}
					return append(p, "", "a", "世界")
				}
				pool := fresh("p")
				jobs := make([]*job, n)
				for i := range jobs {
					jobs[i] = makeJob(r, pool)
				}
				if r.Intn(3) == 0 { // tables of one specification, over some of the same rows
					spec := jobs[0].makeSpec()
					for i, j := range jobs {
						if len(j.kinds) == len(jobs[0].kinds) {
							j.spec = spec
							if i > 0 {
								j.rows[0] = jobs[0].rows[0]
								c.Count("tables of one specification used at the same time", 1)
							}
						}
					}
				}
				got := make([]result, n)
				gates := make([]func(), n)
				var inside, overlap int64
				for i := range gates {
					g := gate(r)
					gates[i] = func() {
						if atomic.LoadInt64(&inside) > 1 {
							atomic.AddInt64(&overlap, 1)
						}
						g()
					}
				}
				var fs []func()
				for i := range jobs {
					i := i
					fs = append(fs, func() {
						atomic.AddInt64(&inside, 1)
						got[i] = call(func() string { return jobs[i].run(gates[i]) })
						atomic.AddInt64(&inside, -1)
					})
				}
				together(fs)
				for i, j := range jobs {
					alone := call(func() string { return j.run(func() {}) })
					if got[i].panic != nil {
						c.Fail("goroutine %d of %d panics: %v", i, n, got[i].panic)
					}
					if got[i].out != alone.out {
						c.Logf("concurrently %s", quote(got[i].out))
						c.Logf("alone        %s", quote(alone.out))
						c.Fail("goroutine %d of %d gets a different result than alone", i, n)
					}
					c.Count("transcripts compared", 1)
					c.Eval(1)
				}
				c.Count("overlapping steps", int(overlap))
				c.Max("goroutines", n)
				c.Distinct("own", c.Idx, n)
			}},
			{Name: "shared table", Quick: 120, Thorough: 6000, Run: func(c *mon.Case) {
				r := c.Rng
				s := tokenScen(c, 20)
				if len(s.rows) == 0 {
					return
				}
				if r.Intn(3) == 0 { // widths were given for some columns, or for none
					s.t = table.NewTable(s.t.TableSpec)
					for _, name := range s.names {
						if r.Intn(3) == 0 {
							s.t.UpdateWidth(map[string]uint16{name: uint16(r.Intn(9))})
						}
					}
					c.Count("shared tables with columns of no width", 1)
				}
				n := 2 + r.Intn(7)
				steps := make([][]jobStep, n)
				for i := range steps {
					for k := 0; k < 6; k++ {
						steps[i] = append(steps[i], jobStep{[]int{0, 1, 2, 3, 8, 0, 1}[r.Intn(7)], r.Intn(len(s.rows)), r.Intn(200), anySep(r), r.Intn(2) == 0, "x"})
					}
				}
				run := func(st []jobStep, y func()) string {
					var b strings.Builder
					for _, x := range st {
						stepRun(&b, s.t, s.rows, x)
						y()
					}
					return b.String()
				}
				got := make([]result, n)
				var fs []func()
				for i := range steps {
					i, g := i, gate(r)
					fs = append(fs, func() { got[i] = call(func() string { return run(steps[i], g) }) })
				}
				together(fs)
				for i := range steps {
					if got[i].panic != nil {
						c.Fail("goroutine %d of %d rendering from a shared table panics: %v", i, n, got[i].panic)
					}
					if alone := run(steps[i], func() {}); alone != got[i].out {
						c.Logf("concurrently %s", quote(got[i].out))
						c.Logf("alone        %s", quote(alone))
						c.Fail("goroutine %d of %d renders differently than alone", i, n)
					}
					c.Count("shared renderings compared", 1)
					c.Eval(1)
				}
				c.Distinct("shared", c.Idx)
			}},
			{Name: "cache churn", Quick: 6, Thorough: 120, Run: func(c *mon.Case) {
				// more distinct texts than any bounded cache keeps, from all sides
				r := c.Rng
				n := 6
				per := 3000
				kind := r.Intn(5)
				bad := make([]string, n)
				var fs []func()
				for i := 0; i < n; i++ {
					i := i
					fs = append(fs, func() {
						res := call(func() string {
							for k := 0; k < per; k++ {
								x := k*2 + i%2 // pairs of goroutines share texts
								if k%3 == 0 {
									x = k + i*per
								}
								s := family(kind, x+c.Idx*100000)
								w := raceWidth(s, c.EA)
								if got := measure(s); got != w {
									return fmt.Sprintf("%s is measured %d wide, it is %d", quote(s), got, w)
								}
								if k%64 == 0 {
									if got := len(table.AlignmentLeft(s, uint16(w+3))); got != len(s)+3 {
										return fmt.Sprintf("%s is padded by %d, not 3", quote(s), got-len(s))
									}
								}
							}
							return ""
						})
						bad[i] = res.out
						if res.panic != nil {
							bad[i] = fmt.Sprint("panic: ", res.panic)
						}
					})
				}
				together(fs)
				for i, b := range bad {
					if b != "" {
						c.Fail("goroutine %d of %d: %s", i, n, b)
					}
				}
				c.Count("new texts measured by several goroutines", n*per)
				c.Eval(n * per)
				c.Distinct("churn", c.Idx, kind)
			}},
			{Name: "conditions", Quick: 12, Thorough: 600, Run: func(c *mon.Case) {
				// every goroutine its own condition, lookup table included
				r := c.Rng
				n := 4
				texts := make([]string, 30)
				for i := range texts {
					texts[i] = gen.Text(r, gen.Line)
				}
				run := func(i int) string {
					var b strings.Builder
					cond := runewidth.NewCondition()
					cond.EastAsianWidth = i%2 == 0
					cond.StrictEmojiNeutral = i/2%2 == 0
					for k, s := range texts {
						if k == 10 {
							cond.CreateLUT()
						}
						fmt.Fprint(&b, cond.StringWidth(s), " ", runewidth.StringWidth(s), ";")
					}
					return b.String()
				}
				got := make([]result, n)
				var fs []func()
				for i := 0; i < n; i++ {
					i := i
					fs = append(fs, func() { got[i] = call(func() string { return run(i) }) })
				}
				together(fs)
				for i := range got {
					if got[i].panic != nil {
						c.Fail("goroutine %d panics: %v", i, got[i].panic)
					}
					if alone := run(i); alone != got[i].out {
						c.Fail("goroutine %d with its own condition gets %s, alone %s", i, quote(got[i].out), quote(alone))
					}
					c.Count("transcripts compared", 1)
					c.Eval(1)
				}
				c.Distinct("conditions", c.Idx)
			}},
		},
	})
}

var spin int64

func raceWidth(s string, ea bool) int { return oracle.Cell(s, ea) }
