package checks

import (
	"runtime"
	"sort"
	"strings"

	"github.com/ilius/go-table/runewidth"

	"verif/mon"
)

// C29: the workloads and oracles of the other properties, in builds for other platforms.

// cost in microseconds of WebAssembly is several times that of native code, so each
// stream is thinned out
const thin = 24

func platformCheck() *mon.Check {
	ch := &mon.Check{
		ID:   "C29",
		Mode: "platforms",
		Rule: "one in 24 of the cases of the other checks (not C22, C24, C26), with the same oracles, in a 32-bit build (half of the workers), an App Engine build and WebAssembly under node. Non-trivial: as in the check the case comes from",
		Need: []string{"cases on 386", "cases on wasm", "cases on amd64 appengine", "cases in East-Asian mode", "cases in the other mode"},
	}
	ids := []string{}
	for id := range registry {
		switch id {
		case "C22", "C24", "C26", "C29", "C30":
			continue
		}
		ids = append(ids, id)
	}
	sort.Strings(ids)
	on := "cases on " + strings.TrimSpace(runtime.GOARCH+buildTag)
	for _, id := range ids {
		for _, st := range registry[id].Streams {
			d := thin
			if st.Quick <= 100 { // few and large cases
				d = 4
			}
			s := st.Every(id+" "+st.Name, d)
			run := s.Run
			s.Run = func(c *mon.Case) {
				if runewidth.DefaultCondition.EastAsianWidth != c.EA {
					c.Fail("RUNEWIDTH_EASTASIAN=1 is %v but the width mode at start-up is %v", c.EA, !c.EA)
				}
				c.Count(on, 1)
				if c.EA {
					c.Count("cases in East-Asian mode", 1)
				} else {
					c.Count("cases in the other mode", 1)
				}
				run(c)
			}
			ch.Streams = append(ch.Streams, s)
		}
	}
	return ch
}
