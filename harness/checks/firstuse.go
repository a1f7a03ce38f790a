package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/gen"
	"verif/mon"
	"verif/oracle"
)

// FirstUseArg makes the monitor use the library for the first time from several
// goroutines at once, and exit.
const FirstUseArg = oracle.LightArg

// firstUses are what the goroutines of such a process begin with.
var firstUses = []struct {
	name string
	run  func(s string, t *table.Table, row []string) string
}{
	{"AlignmentLeft", func(s string, _ *table.Table, _ []string) string { return table.AlignmentLeft(s, 40) }},
	{"AlignmentRight", func(s string, _ *table.Table, _ []string) string { return table.AlignmentRight(s, 40) }},
	{"AlignmentCenter", func(s string, _ *table.Table, _ []string) string { return table.AlignmentCenter(s, 41) }},
	{"StringWidth", func(s string, _ *table.Table, _ []string) string { return fmt.Sprint(runewidth.StringWidth(s)) }},
	{"RuneWidth", func(s string, _ *table.Table, _ []string) string {
		out := ""
		for _, r := range s {
			out += fmt.Sprint(runewidth.DefaultCondition.RuneWidth(r))
		}
		return out
	}},
	{"own condition", func(s string, _ *table.Table, _ []string) string {
		c := runewidth.NewCondition()
		n := c.StringWidth(s)
		c.CreateLUT()
		return fmt.Sprint(n, c.StringWidth(s), c.EastAsianWidth)
	}},
	{"other condition", func(s string, _ *table.Table, _ []string) string {
		c := &runewidth.Condition{EastAsianWidth: len(s)%2 == 0}
		return fmt.Sprint(c.StringWidth(s))
	}},
	{"IsEastAsian", func(string, *table.Table, []string) string { return fmt.Sprint(runewidth.IsEastAsian()) }},
	{"NewGraphemes", func(s string, _ *table.Table, _ []string) string {
		out := ""
		for g := uniseg.NewGraphemes(s); g.Next(); {
			out += fmt.Sprint(g.Runes())
		}
		return out
	}},
	{"StepString", func(s string, _ *table.Table, _ []string) string {
		out := ""
		for rest, state := s, -1; rest != ""; {
			var c string
			var b int
			c, rest, b, state = uniseg.StepString(rest, state)
			out += fmt.Sprint(c, b)
		}
		return out
	}},
	{"FormatItem", func(_ string, t *table.Table, row []string) string {
		f, err := t.FormatItem(row)
		return fmt.Sprint(f, err, t.Width("c0"))
	}},
	{"FormatItemBasic", func(_ string, t *table.Table, row []string) string {
		s, err := t.FormatItemBasic(row, ",")
		return fmt.Sprint(s, err)
	}},
	{"AlignFormattedItem", func(_ string, t *table.Table, row []string) string {
		f, err := t.AlignFormattedItem(append([]string{}, row...))
		return fmt.Sprint(f, err)
	}},
	{"FormatHeader", func(_ string, t *table.Table, _ []string) string { return t.FormatHeader("|") }},
	{"FormatHeader with widths", func(_ string, t *table.Table, _ []string) string {
		t.UpdateWidth(map[string]uint16{"c0": 9, "c1": 3})
		return t.FormatHeader("|")
	}},
	{"TableWidth", func(_ string, t *table.Table, _ []string) string {
		return fmt.Sprint(t.TableWidth(2), t.HasColumn("c1"))
	}},
	{"MergeRowsHorizontal", func(_ string, t *table.Table, row []string) string {
		var o bytes.Buffer
		t.MergeRowsHorizontal(&o, &list{rows: [][]string{row, row, row}}, 70, " | ", true)
		return o.String()
	}},
	{"MergeRowsVertical", func(_ string, t *table.Table, row []string) string {
		var o bytes.Buffer
		t.MergeRowsVertical(&o, &list{rows: [][]string{row, row, row}}, 70, " | ", true)
		return o.String()
	}},
	{"MergeRowsHorizontal plain", func(_ string, t *table.Table, row []string) string {
		var o bytes.Buffer
		t.MergeRowsHorizontal(&o, &list{rows: [][]string{row, row}}, 70, " ", false)
		return o.String()
	}},
	{"MergeRowsVertical plain", func(_ string, t *table.Table, row []string) string {
		var o bytes.Buffer
		t.MergeRowsVertical(&o, &list{rows: [][]string{row, row}}, 70, " ", false)
		return o.String()
	}},
}

// firstPlan is what such a process is to do.
type firstPlan struct {
	Use   int
	Rows  [][]string // of the goroutines
	Early bool       // tables are made before the goroutines start
}

// FirstUse runs in a process of its own.
func FirstUse() {
	var p firstPlan
	if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	n := len(p.Rows)
	use := firstUses[p.Use].run
	mk := func() *table.Table {
		spec := table.NewTableSpec()
		for c := 0; c < 2; c++ {
			spec.AddColumn(&table.Column{Name: fmt.Sprint("c", c), Title: "Τίτλος", ShortTitle: "T", Getter: strGetter{c}, Alignment: table.AlignmentLeft})
		}
		return table.NewTable(spec)
	}
	tables := make([]*table.Table, n)
	for i := range tables {
		if p.Early {
			tables[i] = mk()
		}
	}
	got := make([]string, n)
	var ready int64
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt64(&ready, 1)
			for atomic.LoadInt64(&ready) < int64(n) {
				runtime.Gosched()
			}
			t := tables[i]
			if t == nil {
				t = mk()
			}
			got[i] = use(p.Rows[i][0], t, p.Rows[i])
		}(i)
	}
	wg.Wait()
	for i := range got {
		if alone := use(p.Rows[i][0], mk(), p.Rows[i]); alone != got[i] {
			fmt.Printf("DIFFERENT goroutine %d of %d: %+q, alone %+q\n", i, n, got[i], alone)
			os.Exit(1)
		}
	}
	fmt.Println("SAME", n)
}

func firstUse(c *mon.Case) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	r := c.Rng
	p := firstPlan{Use: c.Idx % len(firstUses), Early: r.Intn(2) == 0}
	for n := 2 + r.Intn(7); n > 0; n-- {
		row := []string{gen.Text(r, gen.Line) + fmt.Sprintf("\x1b[3%dm%d", n, n), gen.Text(r, gen.Line)}
		if len(p.Rows) > 0 && r.Intn(3) == 0 {
			row[0] = p.Rows[0][0]
		}
		p.Rows = append(p.Rows, row)
	}
	b, _ := json.Marshal(p)
	cmd := exec.Command(self, FirstUseArg)
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.CombinedOutput()
	s := string(out)
	name := firstUses[p.Use].name
	switch {
	case strings.Contains(s, "WARNING: DATA RACE") && strings.Contains(s, "github.com/ilius/go-table"):
		c.Fail("data race in a process that begins with %s from several goroutines\n%s", name, s)
	case strings.HasPrefix(s, "DIFFERENT"), strings.Contains(s, "\nDIFFERENT"):
		c.Fail("a process that begins with %s from several goroutines: %s", name, s)
	case err != nil && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) && strings.Contains(s, "github.com/ilius/go-table"):
		c.Fail("a process that begins with %s from several goroutines crashes: %s", name, s)
	case err != nil || !strings.Contains(s, "SAME"):
		panic(fmt.Sprintf("first use: %v %s", err, s))
	}
	c.Count("processes with a concurrent first use", 1)
	c.Eval(1)
	c.Distinct("first", c.Idx)
}
