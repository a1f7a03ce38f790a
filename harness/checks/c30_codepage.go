package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/mon"
	"verif/winsys"
)

// C30: the Windows files of the library, with the calls to Windows answered by winsys.

var cjkPages = []uint32{932, 936, 949, 950, 51932}

// code pages of Windows, and numbers near the East Asian ones
var otherPages = []uint32{0, 1, 37, 437, 500, 708, 720, 737, 775, 850, 852, 855, 857, 858, 860, 861, 862, 863, 864, 865, 866, 869, 870, 874, 875,
	1026, 1047, 1140, 1200, 1201, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1361, 10000, 10001, 10002, 10003, 10008, 12000, 12001,
	20000, 20001, 20002, 20127, 20261, 20269, 20290, 20833, 20866, 20932, 20936, 20949, 21027, 21866, 28591, 28592, 28605, 29001, 38598,
	50220, 50221, 50222, 50225, 50227, 50229, 50930, 50931, 50933, 50935, 50936, 50937, 50939, 51936, 51949, 51950, 52936, 54936, 57002, 57011,
	65000, 65001, 930, 931, 933, 934, 935, 937, 938, 940, 941, 942, 943, 947, 948, 951, 952, 51931, 51933, 5932, 1932, 93, 95, 9320, 9490,
	65535, 65536, 65536 + 932, 65536 + 936, 1 << 31, 1<<32 - 1}

func isCJKPage(n uint32) bool {
	for _, p := range cjkPages {
		if p == n {
			return true
		}
	}
	return false
}

func winPage(c *mon.Case) uint32 {
	switch c.Rng.Intn(6) {
	case 0, 1:
		return cjkPages[c.Rng.Intn(len(cjkPages))]
	case 2, 3:
		return otherPages[c.Rng.Intn(len(otherPages))]
	case 4:
		return uint32(900 + c.Rng.Intn(100))
	}
	return uint32(c.Rng.Intn(66000))
}

func judgePages(c *mon.Case, p winsys.Pages, set []string) {
	var env []string
	for _, e := range os.Environ() {
		switch e[:strings.IndexByte(e, '=')] {
		case "RUNEWIDTH_EASTASIAN", "LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE", winsys.Env:
			continue
		}
		env = append(env, e)
	}
	set = append(set, fmt.Sprintf("%s=%d,%d,%d,%d", winsys.Env, p.Out, p.In, p.Ansi, p.Oem))
	is := isCJKPage(p.Out)
	want := is
	for _, e := range set {
		if v, ok := strings.CutPrefix(e, "RUNEWIDTH_EASTASIAN="); ok && v != "" {
			want = v == "1"
			c.Count("decided by RUNEWIDTH_EASTASIAN", 1)
		}
	}
	judgeProcess(c, env, set, want, is)
	c.Count("processes started", 1)
	if is {
		c.Count("East Asian code pages", 1)
	} else {
		c.Count("other code pages", 1)
	}
	c.Eval(1)
	c.Distinct(strings.Join(set, ","))
	c.Sample("%q: East Asian %v", set, want)
}

func init() {
	register(&mon.Check{
		ID:   "C30",
		Mode: "windows",
		Rule: "the files that a Windows build selects are built here with package syscall replaced by a simulated kernel32; processes are started under output code pages (the East Asian ones, the other code pages of Windows, numbers near them, random ones, none), with unrelated input, ANSI and OEM code pages, locale variables and RUNEWIDTH_EASTASIAN, and report the mode seen by the default condition, new conditions, text width, column width, alignment and header. Non-trivial: distinct environments",
		Need: []string{"processes started", "East Asian code pages", "other code pages", "decided by RUNEWIDTH_EASTASIAN", "code page queries"},
		Streams: []mon.Stream{
			{Name: "systems", Quick: 2400, Thorough: 60000, Run: func(c *mon.Case) {
				r := c.Rng
				var set []string
				if r.Intn(3) == 0 {
					set = append(set, "RUNEWIDTH_EASTASIAN="+[]string{"", "1", "0", "2", "true", "01", "10", "1 ", "yes", "-1", "no"}[r.Intn(11)])
				}
				for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG"} {
					if r.Intn(3) == 0 {
						set = append(set, k+"="+randLoc(r).String())
					}
				}
				p := winsys.Pages{Out: winPage(c), In: winPage(c), Ansi: winPage(c), Oem: winPage(c)}
				if r.Intn(8) == 0 { // no console
					p.Out, p.In = 0, 0
				}
				judgePages(c, p, set)
			}},
			{Name: "known pages", Quick: len(otherPages) + len(cjkPages) + 200, Thorough: len(otherPages) + len(cjkPages) + 200, Run: func(c *mon.Case) {
				n := uint32(0)
				switch k := c.Idx - len(otherPages); {
				case k < 0:
					n = otherPages[c.Idx]
				case k < len(cjkPages):
					n = cjkPages[k]
				default:
					n = uint32(850 + k - len(cjkPages))
				}
				judgePages(c, winsys.Pages{Out: n, In: winPage(c), Ansi: winPage(c), Oem: winPage(c)}, nil)
			}},
			{Name: "all pages", Quick: 0, Thorough: 65536, Run: func(c *mon.Case) {
				judgePages(c, winsys.Pages{Out: uint32(c.Idx), In: winPage(c), Ansi: winPage(c), Oem: winPage(c)}, nil)
			}},
		},
	})
}
