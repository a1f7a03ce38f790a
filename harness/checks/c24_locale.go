package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"

	"verif/mon"
	"verif/oracle"
	"verif/rnd"
	"verif/winsys"
)

// LocaleProbeArg makes the monitor print what mode it started in, and exit.
const LocaleProbeArg = "-locale-probe"

// ambiguous characters: 1 or 2 wide by mode
const probeText = "☆α■"

type probe struct {
	Is, Var, Default, New bool
	Text, Cond, Column    int
	Left                  string
	Header                string
	Strict                bool
	Later                 string // what changed with the environment after the start
	Queries               int64
}

// LocaleProbe runs in a process of its own, with the environment in question.
func LocaleProbe() {
	p := probe{
		Is:      runewidth.IsEastAsian(),
		Var:     runewidth.EastAsianWidth,
		Default: runewidth.DefaultCondition.EastAsianWidth,
		New:     runewidth.NewCondition().EastAsianWidth,
		Text:    runewidth.StringWidth(probeText),
		Cond:    runewidth.NewCondition().StringWidth(probeText),
		Column:  measure(probeText),
		Left:    table.AlignmentLeft(probeText, 10),
		Strict:  runewidth.NewCondition().StrictEmojiNeutral && runewidth.DefaultCondition.StrictEmojiNeutral,
	}
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Title: probeText, Getter: strGetter{0}})
	t := table.NewTable(spec)
	t.UpdateWidth(map[string]uint16{"c": 4})
	p.Header = t.FormatHeader("|")
	p.Queries, _ = winsys.Calls()
	// the mode was decided at the start; the program changes its environment for others
	texts := []string{"■☆", "α■α", "☆☆α", "α■☆α", "■■■α"}
	per := p.Text / 3
	for i, set := range []string{"RUNEWIDTH_EASTASIAN=0", "RUNEWIDTH_EASTASIAN=1", "RUNEWIDTH_EASTASIAN=", "LC_ALL=ja_JP.UTF-8", "LC_ALL=C"} {
		k, v, _ := strings.Cut(set, "=")
		os.Setenv(k, v)
		s := texts[i] // not measured before
		n := per * len([]rune(s))
		for _, x := range []struct {
			what string
			ok   bool
		}{
			{"EastAsianWidth", runewidth.EastAsianWidth == p.Var},
			{"the default condition", runewidth.DefaultCondition.EastAsianWidth == p.Default},
			{"new conditions", runewidth.NewCondition().EastAsianWidth == p.New && runewidth.NewCondition().StringWidth(s) == n},
			{"StringWidth", runewidth.StringWidth(s) == n},
			{"column widths", measure(s) == n},
			{"alignment", table.AlignmentLeft(s, 12) == s+spaces(12-n)},
		} {
			if !x.ok && p.Later == "" {
				p.Later = x.what + " after setting " + set
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(p)
}

// judgeProcess starts a process with the environment and compares what it reports about
// the width mode: the mode at start-up and what the locale alone says.
func judgeProcess(c *mon.Case, env, set []string, want, isWant bool) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, LocaleProbeArg)
	cmd.Env = append(append([]string{}, env...), set...)
	out, err := cmd.CombinedOutput()
	var p probe
	if err != nil || json.Unmarshal(out, &p) != nil {
		if strings.Contains(string(out), "panic") && strings.Contains(string(out), "go-table") {
			c.Fail("starting under %q crashes: %s", set, out)
		}
		panic(fmt.Sprintf("probe: %v %s", err, out))
	}
	n := oracle.TextWidth(probeText, want, true)
	title := probeText
	if n > 4 {
		title = ""
	}
	if p.Queries > 0 {
		c.Count("code page queries", int(p.Queries))
	}
	p.Queries = 0
	exp := probe{isWant, want, want, want, n, n, n, probeText + spaces(10-n), aligned("center", title, 4, want) + "|\n", true, "", 0}
	if p != exp {
		c.Logf("expected %+v", exp)
		c.Logf("reported %+v", p)
		c.Fail("environment %q: the mode should be East Asian: %v (locale: %v)", set, want, isWant)
	}
}

// loc is a locale in the documented form.
type loc struct {
	lang, terr, charset, mod string
	special                  string // C and POSIX forms
}

func (l loc) String() string {
	if l.special != "" {
		return l.special
	}
	s := ""
	if l.lang != "" {
		s = l.lang
		if l.terr != "" {
			s += "_" + l.terr
		}
		s += "."
	}
	s += l.charset
	if l.mod != "" {
		s += "@" + l.mod
	}
	return s
}

func (l loc) ea() bool {
	return l.special == "" && oracle.LocaleEA(l.lang, l.charset, l.mod)
}

var (
	cjkSets   = []string{"JIS", "eucJP", "eucKR", "eucCN", "SJIS", "CP932", "CP51932", "CP936", "CP949", "CP950", "Big5", "GBK", "GB2312"}
	otherSets = []string{"ISO-8859-1", "ISO-8859-15", "KOI8-R", "CP1252", "ASCII", "US-ASCII", "ANSI_X3.4-1968", "TIS-620", "iso885915", "CP1251", "UTF-16", "ISO8859-1", "Big5-HKSCS", "Big5HKSCS", "GB18030", "eucTW", "EUC-TW", "EUC-JP", "EUC-KR", "Shift_JIS", "ISO-2022-JP", "UTF-7", "UTF-32", "utf", "CP1361", "UHC", "CP1258", "KOI8-U", "ARMSCII-8", "gb", "big", "cp"}
	utfSets   = []string{"UTF-8", "utf8", "UTF8", "utf-8"}
	mods      = []string{"", "", "", "cjk_narrow", "euro", "latin", "cjk", "narrow", "cjk_wide", "valencia"}
	terrs     = []string{"", "JP", "KR", "CN", "TW", "US", "IN", "HK", "DE"}
	specials  = []string{"C", "POSIX", "C.UTF-8", "C.utf8", "C.eucJP", "C.UTF-8@cjk", "C-UTF-8"}
	manyMods  = []string{"euro@cjk", "a@b", "stroke@euro@x"}
	langs     = []string{"ja", "ko", "zh", "en", "de", "fr", "ru", "jv", "kk", "kn", "za", "zu", "kok", "fil", "ast", "is", "ka", "km", "ku", "ky", "vi", "th", "uk"}
)

func randCase(r *rnd.Rand, s string) string {
	switch r.Intn(4) {
	case 3:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(s)[i]
			} else {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func randLoc(r *rnd.Rand) loc {
	if r.Intn(8) == 0 {
		return loc{special: specials[r.Intn(len(specials))]}
	}
	l := loc{lang: langs[r.Intn(len(langs))], terr: terrs[r.Intn(len(terrs))], mod: mods[r.Intn(len(mods))]}
	switch r.Intn(4) {
	case 0:
		l.charset = randCase(r, cjkSets[r.Intn(len(cjkSets))])
	case 1:
		l.charset = otherSets[r.Intn(len(otherSets))]
	default:
		l.charset = utfSets[r.Intn(len(utfSets))]
	}
	if r.Intn(3) == 0 {
		l.terr = string([]byte{'A' + byte(r.Intn(26)), 'A' + byte(r.Intn(26))})
	}
	if r.Intn(10) == 0 {
		l.lang, l.terr = "", ""
	}
	if w, ok := r.Word(alnum); ok { // no text has a meaning but those documented
		switch r.Intn(3) {
		case 0:
			if l.lang != "" && len(w) == 2 && variable(w) {
				l.terr = w
			}
		case 1:
			l.mod = w
		default:
			if w = strings.ToLower(w); len(w) >= 2 && len(w) < 4 && !strings.ContainsAny(w, "0123456789") && w != "jpn" && w != "kor" && w != "zho" {
				l.lang = w
			}
		}
	}
	return l
}

func alnum(s string) bool {
	return s != "" && !strings.ContainsFunc(s, func(c rune) bool { return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') })
}

func variable(s string) bool {
	switch s {
	case "RUNEWIDTH_EASTASIAN", "LC_ALL", "LC_CTYPE", "LANG", "PATH", "HOME", "GOCOVERDIR", rnd.Env:
		return false
	}
	return len(s) > 1 && !strings.HasPrefix(s, "GO") && !strings.ContainsFunc(s, func(c rune) bool { return !(c >= 'A' && c <= 'Z' || c == '_') })
}

// judgeLocale asks the library about a locale in one of the three variables.
func judgeLocale(c *mon.Case, l loc) {
	for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG"} {
		old, had := os.LookupEnv(k)
		os.Unsetenv(k)
		if had {
			defer os.Setenv(k, old)
		}
	}
	s := l.String()
	v := []string{"LC_ALL", "LC_CTYPE", "LANG"}[c.Rng.Intn(3)]
	os.Setenv(v, s)
	got := false
	c.Do("IsEastAsian", func() { got = runewidth.IsEastAsian() })
	os.Unsetenv(v)
	if got != l.ea() {
		c.Fail("locale %s (in %s) is East Asian: %v, want %v", s, v, got, l.ea())
	}
	c.Eval(1)
	c.Count("locales judged", 1)
	if got {
		c.Count("East Asian locales", 1)
	} else {
		c.Count("other locales", 1)
	}
	c.Distinct(s)
}

func init() {
	register(&mon.Check{
		ID:   "C24",
		Once: true,
		Rule: "processes are started under combinations of RUNEWIDTH_EASTASIAN, LC_ALL, LC_CTYPE and LANG (unset, empty, C forms, every documented charset and languages around the East Asian ones) and report the mode seen by the default condition, new conditions, text width, column width, alignment and header; the locale function is called for every two-letter language with every charset and modifier. Non-trivial: distinct environments and locales",
		Need: []string{"processes started", "locales judged", "East Asian locales", "other locales", "decided by RUNEWIDTH_EASTASIAN"},
		Streams: []mon.Stream{
			{Name: "processes", Quick: 1600, Thorough: 60000, Run: func(c *mon.Case) {
				r := c.Rng
				var env []string
				for _, e := range os.Environ() {
					k := e[:strings.IndexByte(e, '=')]
					switch k {
					case "RUNEWIDTH_EASTASIAN", "LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE":
						continue
					}
					env = append(env, e)
				}
				var set []string
				want, decided := false, false
				if r.Intn(2) == 0 {
					v := []string{"", "1", "0", "2", "true", "01", "10", "1 ", "yes", "-1", "no"}[r.Intn(11)]
					set = append(set, "RUNEWIDTH_EASTASIAN="+v)
					if v != "" {
						want, decided = v == "1", true
						c.Count("decided by RUNEWIDTH_EASTASIAN", 1)
					}
				}
				isWant, isDecided := false, false
				for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG"} {
					switch r.Intn(4) {
					case 0: // unset
					case 1:
						set = append(set, k+"=")
					default:
						l := randLoc(r)
						set = append(set, k+"="+l.String())
						if !isDecided {
							isWant, isDecided = l.ea(), true
						}
					}
				}
				if r.Intn(3) == 0 { // variables that do not matter
					set = append(set, "LC_MESSAGES=ja_JP.UTF-8", "LANGUAGE=ja:zh")
				}
				if w, ok := r.Word(variable); ok {
					set = append(set, w+"="+[]string{"1", "0", "ja_JP.UTF-8", "C", "xterm"}[r.Intn(5)])
				}
				if !decided {
					want = isWant
				}
				judgeProcess(c, env, set, want, isWant)
				c.Count("processes started", 1)
				if want {
					c.Count("East Asian processes", 1)
				}
				c.Eval(1)
				c.Distinct(strings.Join(set, ","))
				c.Sample("%q: East Asian %v", set, want)
			}},
			{Name: "territories", Quick: 676, Thorough: 676, Run: func(c *mon.Case) {
				r := c.Rng
				terr := string(rune('A'+c.Idx%26)) + string(rune('A'+c.Idx/26))
				for _, lang := range []string{"ja", "ko", "zh", "en", "vi"} {
					for _, cs := range []string{"UTF-8", "utf8", "UTF8", cjkSets[r.Intn(len(cjkSets))], otherSets[r.Intn(len(otherSets))]} {
						for _, m := range []string{"", "cjk_narrow", mods[r.Intn(len(mods))], []string{"stroke", "pinyin", "radical", "hira", "tc", "collation=phonebook", "currency", "posix", "a"}[r.Intn(9)], manyMods[r.Intn(len(manyMods))]} {
							judgeLocale(c, loc{lang: lang, terr: terr, charset: cs, mod: m})
						}
					}
				}
			}},
			{Name: "locales", Quick: 26 * 27, Thorough: 26 * 27 * 4, Run: func(c *mon.Case) {
				r := c.Rng
				x := c.Idx % (26 * 27)
				lang := string(rune('a'+x%26)) + string(rune('a'+x/26%26))
				if x >= 26*26 { // three-letter ones around the East Asian codes
					lang = []string{"jab", "jac", "jaa", "koi", "kok", "kos", "kox", "zha", "zhx", "zhn", "fil", "ast", "nds", "haw", "yue", "kod", "jax", "kob", "zhb", "wuu", "nan", "hak", "jak", "koa", "zhd", "zhi"}[x-26*26]
				}
				judge := func(l loc) { judgeLocale(c, l) }
				var sets []string
				sets = append(sets, cjkSets...)
				sets = append(sets, otherSets...)
				sets = append(sets, utfSets...)
				for _, cs := range sets {
					for _, m := range []string{"", "cjk_narrow", "euro"} {
						judge(loc{lang: lang, terr: terrs[r.Intn(len(terrs))], charset: randCase(r, cs), mod: m})
						judge(loc{lang: lang, charset: cs, mod: m})
					}
				}
				for _, cs := range sets {
					judge(loc{charset: cs, mod: mods[r.Intn(len(mods))]})
				}
				for _, s := range specials {
					judge(loc{special: s})
				}
			}},
		},
	})
}
