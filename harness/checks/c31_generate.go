//go:build regen

package checks

import (
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/mon"
	"verif/oracle"
	"verif/rnd"
)

// C31 and C32: the programs behind the go:generate lines of the repository are
// run in a copy of the tree, with the files of the Unicode consortium served
// by a proxy of our own.

// GenEnv names the file that describes the generators.
const GenEnv = "VERIF_GENERATORS"

// GenPlan is made by the driver.
type GenPlan struct {
	Repo, Harness, Go, Cache, Tmp string
	Gens                          []Generator
	Error                         string // the generators cannot be built
}

// Generator is one go:generate line.
type Generator struct {
	Dir  string // relative to the repository
	Line string
	Bin  string
	Args []string
}

var (
	genPlan  *GenPlan
	genSite  *site
	genSetup sync.Once
)

func generators(c *mon.Case) (*GenPlan, *site) {
	genSetup.Do(func() {
		b, err := os.ReadFile(os.Getenv(GenEnv))
		if err != nil {
			panic(err)
		}
		genPlan = &GenPlan{}
		if err := json.Unmarshal(b, genPlan); err != nil {
			panic(err)
		}
		genSite = newSite(genPlan.Tmp)
		realChars = newChars(oracle.Real())
	})
	if genPlan.Error != "" {
		c.Fail("the table generators do not build:\n%s", genPlan.Error)
	}
	return genPlan, genSite
}

// site answers for unicode.org: a proxy for https with a certificate of its own.
type site struct {
	proxy string
	ca    string // file

	mu    sync.Mutex
	files map[string]string // by "version/name"
	fault fault
	seen  []string // files asked for
	other []string // anything else asked for
	hits  int      // times the fault was shown
	how   int      // how files are delivered
}

type fault struct {
	file string
	kind string
	at   int
	code int
	body string
}

func newSite(tmp string) *site {
	s := &site{}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(10 * 365 * 24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames:    []string{"unicode.org", "www.unicode.org", "*.unicode.org"},
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp(tmp, "ca*.pem")
	if err != nil {
		panic(err)
	}
	pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: der})
	f.Close()
	s.ca = f.Name()
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.proxy = "http://" + l.Addr().String()
	inner := &http.Server{Handler: http.HandlerFunc(s.serve), ErrorLog: nil}
	inner.ErrorLog = quietLog
	conns := &connListener{ch: make(chan net.Conn), addr: l.Addr()}
	go inner.Serve(conns)
	outer := &http.Server{ErrorLog: quietLog, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method != http.MethodConnect {
			s.serve(w, r)
			return
		}
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		conns.ch <- tls.Server(c, conf)
	})}
	go outer.Serve(l)
	return s
}

type connListener struct {
	ch   chan net.Conn
	addr net.Addr
}

func (l *connListener) Accept() (net.Conn, error) { return <-l.ch, nil }
func (l *connListener) Close() error              { return nil }
func (l *connListener) Addr() net.Addr            { return l.addr }

// name maps a URL to a file: the version and the name in the database.
func siteFile(r *http.Request) string {
	host := r.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	if host != "unicode.org" && !strings.HasSuffix(host, ".unicode.org") {
		return ""
	}
	p := strings.TrimPrefix(r.URL.Path, "/Public/")
	version, rest, _ := strings.Cut(p, "/ucd/")
	return version + "/" + rest
}

func (s *site) serve(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	name := siteFile(r)
	text, ok := s.files[name]
	f, how := s.fault, s.how
	if ok {
		s.seen = append(s.seen, name)
	} else {
		s.other = append(s.other, r.Host+r.URL.Path)
	}
	if f.file != name {
		f = fault{}
	}
	if f.kind != "" {
		s.hits++
	}
	s.mu.Unlock()
	drop := func() {
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
	}
	switch {
	case !ok:
		http.NotFound(w, r)
	case f.kind == "status":
		w.Header().Set("Content-Type", "text/html")
		w.WriteHeader(f.code)
		io.WriteString(w, f.body)
	case f.kind == "no answer":
		drop()
	case f.kind == "truncated":
		w.Header().Set("Content-Length", fmt.Sprint(len(text)))
		io.WriteString(w, text[:f.at])
		w.(http.Flusher).Flush()
		drop()
	case f.kind == "broken chunks":
		io.WriteString(w, text[:f.at])
		w.(http.Flusher).Flush()
		drop()
	case how == 1 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip"):
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		io.WriteString(z, text)
		z.Close()
	case how == 2: // in pieces
		for len(text) > 0 {
			n := min(len(text), 1000+len(text)%977)
			io.WriteString(w, text[:n])
			w.(http.Flusher).Flush()
			text = text[n:]
		}
	default:
		w.Header().Set("Content-Length", fmt.Sprint(len(text)))
		io.WriteString(w, text)
	}
}

// copyTree copies the Go files and go.mod of the repository.
func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || fi.Name() == "go.mod" || fi.Name() == "go.sum") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			err = os.WriteFile(filepath.Join(to, rel), b, 0o644)
		}
		return err
	})
}

func goFiles(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// run runs one generator in the copy of the tree.
func (s *site) run(g Generator, tree string, files map[string]string, f fault, how int) (out string, err error, seen []string, hits int) {
	s.mu.Lock()
	s.files, s.fault, s.how = files, f, how
	s.seen, s.other, s.hits = nil, nil, 0
	s.mu.Unlock()
	cmd := exec.Command(g.Bin, g.Args...)
	cmd.Dir = filepath.Join(tree, g.Dir)
	for _, e := range os.Environ() {
		k := strings.ToUpper(e[:strings.IndexByte(e, '=')])
		if !strings.HasSuffix(k, "_PROXY") && !strings.HasPrefix(k, "SSL_CERT") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "HTTPS_PROXY="+s.proxy, "HTTP_PROXY="+s.proxy, "NO_PROXY=", "SSL_CERT_FILE="+s.ca, "SSL_CERT_DIR=/nonexistent")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	mon.Tick()
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.other) > 0 {
		b.WriteString("\nasked for " + strings.Join(s.other, ", "))
	}
	return b.String(), err, s.seen, s.hits
}

// chars is the character data by code point.
type chars struct {
	eaw13, eaw14 []uint8 // index of eawName
	comb, pict13 []bool
	class        []uint8
	pres         []bool
}

var eawName = []string{"", "N", "Na", "A", "W", "F", "H"}

const (
	eaNone = iota
	eaN
	eaNa
	eaA
	eaW
	eaF
	eaH
)

var realChars *chars

const lastRune = 0x10ffff

func newChars(d oracle.Data) *chars {
	n := lastRune + 1
	x := &chars{make([]uint8, n), make([]uint8, n), make([]bool, n), make([]bool, n), make([]uint8, n), make([]bool, n)}
	for r := 0; r < n; r++ {
		x.eaw13[r], x.eaw14[r] = eaN, eaN
	}
	put := func(iv []int32, a []uint8, v uint8) { oracle.Each(iv, func(r int32) { a[r] = v }) }
	mark := func(iv []int32, a []bool) { oracle.Each(iv, func(r int32) { a[r] = true }) }
	put(d.Narrow, x.eaw13, eaNa)
	put(d.Ambiguous, x.eaw13, eaA)
	put(d.Wide, x.eaw13, eaW)
	put(d.Wide14, x.eaw14, eaW)
	for c, iv := range d.Break {
		put(iv, x.class, uint8(c))
	}
	mark(d.Combining, x.comb)
	mark(d.Emoji, x.pict13)
	mark(d.Pres, x.pres)
	x.pict13[0xa9], x.pict13[0xae] = true, true
	return x
}

func (x *chars) clone() *chars {
	return &chars{append([]uint8{}, x.eaw13...), append([]uint8{}, x.eaw14...), append([]bool{}, x.comb...), append([]bool{}, x.pict13...),
		append([]uint8{}, x.class...), append([]bool{}, x.pres...)}
}

func ranges(in func(r int32) bool) []int32 {
	var iv []int32
	for r := int32(0); r <= lastRune; r++ {
		if !in(r) {
			continue
		}
		lo := r
		for r < lastRune && in(r+1) {
			r++
		}
		iv = append(iv, lo, r)
	}
	return iv
}

// data is what the library must do with these characters.
func (x *chars) data() oracle.Data {
	d := oracle.Data{
		Combining: ranges(func(r int32) bool { return x.comb[r] }),
		Wide:      ranges(func(r int32) bool { return x.eaw13[r] == eaW || x.eaw13[r] == eaF }),
		Ambiguous: ranges(func(r int32) bool { return x.eaw13[r] == eaA }),
		Narrow:    ranges(func(r int32) bool { return x.eaw13[r] == eaNa }),
		Emoji:     ranges(func(r int32) bool { return x.pict13[r] && r >= 0x100 }),
		Wide14:    ranges(func(r int32) bool { return x.eaw14[r] == eaW || x.eaw14[r] == eaF }),
		Pres:      ranges(func(r int32) bool { return x.pres[r] }),
	}
	for c := oracle.CR; c <= oracle.ExtPict; c++ {
		d.Break[c] = ranges(func(r int32) bool { return x.class[r] == c })
	}
	return d
}

// untouched characters have a fixed role in the code or in the texts of the probe
func untouchable(r int32) bool {
	switch {
	case r < 0x300, r >= 0xd800 && r <= 0xdfff, r == 0xfe0e, r == 0xfe0f, r == 0x200d, r == 0x2e3a, r == 0x2e3b:
		return true
	}
	return false
}

// span picks a range of code points.
func (x *chars) span(r *rnd.Rand) (lo, hi int32) {
	switch r.Intn(6) {
	case 0:
		lo = []int32{0x300, 0xfff, 0x1000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1fffe, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}[r.Intn(12)]
	case 1, 2: // next to where something changes
		lo = 0x300 + int32(r.Intn(0x1f000))
		for k := 0; k < 20000 && lo < lastRune && x.eaw13[lo] == x.eaw13[lo+1] && x.class[lo] == x.class[lo+1] && x.comb[lo] == x.comb[lo+1]; k++ {
			lo++
		}
		lo += int32(r.Intn(4)) - 1
	case 3:
		lo = int32(r.Intn(lastRune))
	default:
		lo = 0x300 + int32(r.Intn(0x20000))
	}
	n := int32(1)
	switch r.Intn(5) {
	case 0:
		n = 2
	case 1:
		n = 1 + int32(r.Intn(20))
	case 2:
		n = 1 + int32(r.Intn(5000))
	}
	hi = lo + n - 1
	if hi > lastRune {
		hi = lastRune
	}
	return
}

// mutate changes the data at random; it stays well-formed.
func (x *chars) mutate(r *rnd.Rand, n int) {
	for ; n > 0; n-- {
		lo, hi := x.span(r)
		what := r.Intn(7)
		v := uint8(r.Intn(6) + 1)
		c := uint8(r.Intn(int(oracle.ExtPict) + 1))
		if c == oracle.CR || c == oracle.LF {
			c = oracle.Other
		}
		on := r.Intn(3) > 0
		for k := lo; k <= hi; k++ {
			if untouchable(k) {
				if k >= 0xa1 && k < 0x300 && what == 0 && x.eaw13[k] != eaNa { // these may become ambiguous
					x.eaw13[k] = eaA
				}
				continue
			}
			switch what {
			case 0, 1:
				x.eaw13[k] = v
			case 2:
				x.comb[k] = on
			case 3:
				x.pict13[k] = on && k < 0x100000 // emoji have at most five digits
			case 4:
				x.class[k] = c
			case 5:
				x.eaw14[k] = v
			case 6:
				x.pres[k] = on
			}
			if x.eaw13[k] == eaNa && (x.comb[k] || oracle.Nonprint(k)) { // there is no such character
				x.eaw13[k] = eaN
			}
		}
	}
}

var wordsOfNames = []string{"LATIN", "SMALL", "LETTER", "A", "WITH", "GRAVE", "SIGN", "MARK", "CJK UNIFIED IDEOGRAPH", "ARABIC", "DIGIT", "TAG", "W", "N", "AND", "VARIATION", "SELECTOR-17", "(BLACK)", "HEART", "<reserved>", "No", "YES"}

func charName(r *rnd.Rand) string {
	s := wordsOfNames[r.Intn(len(wordsOfNames))]
	for r.Intn(2) == 0 {
		s += " " + wordsOfNames[r.Intn(len(wordsOfNames))]
	}
	return s
}

func codes(lo, hi int32) string {
	if lo == hi {
		return fmt.Sprintf("%04X", lo)
	}
	return fmt.Sprintf("%04X..%04X", lo, hi)
}

// split cuts a list of ranges into the lines of a file.
func split(r *rnd.Rand, iv []int32, line func(lo, hi int32)) {
	for i := 0; i < len(iv); i += 2 {
		lo := iv[i]
		for lo <= iv[i+1] {
			hi := iv[i+1]
			if n := hi - lo; n > 0 && r.Intn(3) == 0 {
				hi = lo + r.Int31n(n+1)
				if r.Intn(4) == 0 {
					hi = lo
				}
			}
			line(lo, hi)
			lo = hi + 1
		}
	}
}

func (x *chars) eawFile(r *rnd.Rand, version string, eaw []uint8, comb []bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "# EastAsianWidth-%s.txt\n# Date: 2020-01-21, 18:14:00 GMT [KW, LI]\n# COMBINING, 0000..001F;W  # in a comment\n#\n# @missing: 0000..10FFFF; N\n\n", version)
	key := func(k int32) int {
		n := int(eaw[k])
		if comb != nil && comb[k] {
			n += 100
		}
		return n
	}
	for k := int32(0); k <= lastRune; k++ {
		lo, v := k, key(k)
		for k < lastRune && key(k+1) == v {
			k++
		}
		if v%100 == eaNone || v == eaN && r.Intn(4) == 0 { // left out: neutral
			continue
		}
		split(r, []int32{lo, k}, func(lo, hi int32) {
			name, last := charName(r), ""
			if v >= 100 {
				name = "COMBINING " + name
				if r.Intn(4) == 0 {
					name = charName(r) + " " + name
				}
			}
			gc := []string{"Mn", "Lo", "So", "Po", "L&", "Cn"}[r.Intn(6)]
			if hi > lo {
				last = fmt.Sprintf("..%s", charName(r))
				if v >= 100 && r.Intn(2) == 0 {
					last = "..COMBINING " + charName(r)
				}
				fmt.Fprintf(&b, "%s;%-2s # %s%7s %s%s\n", codes(lo, hi), eawName[v%100], gc, fmt.Sprintf("[%d]", hi-lo+1), name, last)
			} else {
				fmt.Fprintf(&b, "%s;%-2s # %s         %s\n", codes(lo, hi), eawName[v%100], gc, name)
			}
		})
		if r.Intn(400) == 0 {
			b.WriteString("\n")
		}
	}
	b.WriteString("\n# EOF\n")
	return b.String()
}

func (x *chars) breakFile(r *rnd.Rand) string {
	var b strings.Builder
	b.WriteString("# GraphemeBreakProperty-14.0.0.txt\n# Date: 2021-08-12, 23:13:02 GMT\n#\n\n")
	names := [oracle.ExtPict + 1]string{oracle.CR: "CR", oracle.LF: "LF", oracle.Control: "Control", oracle.Extend: "Extend", oracle.ZWJ: "ZWJ",
		oracle.RI: "Regional_Indicator", oracle.Prepend: "Prepend", oracle.SpacingMark: "SpacingMark", oracle.L: "L", oracle.V: "V", oracle.T: "T", oracle.LV: "LV", oracle.LVT: "LVT"}
	order := []uint8{oracle.Prepend, oracle.CR, oracle.LF, oracle.Control, oracle.Extend, oracle.RI, oracle.SpacingMark, oracle.L, oracle.V, oracle.T, oracle.LV, oracle.LVT, oracle.ZWJ}
	for _, c := range order {
		n := 0
		fmt.Fprintf(&b, "# ================================================\n\n# %s ; No\n\n", names[c])
		split(r, ranges(func(k int32) bool { return x.class[k] == c }), func(lo, hi int32) {
			n += int(hi - lo + 1)
			last, count := "", ""
			if hi > lo {
				last, count = ".."+charName(r), fmt.Sprintf("[%d]", hi-lo+1)
			}
			fmt.Fprintf(&b, "%-14s; %s # %s %6s %s%s\n", codes(lo, hi), names[c], []string{"Mn", "Lo", "Cf"}[r.Intn(3)], count, charName(r), last)
		})
		fmt.Fprintf(&b, "\n# Total code points: %d\n\n", n)
	}
	b.WriteString("# EOF\n")
	return b.String()
}

func (x *chars) emojiFile(r *rnd.Rand, version string, pres, pict func(k int32) bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "# emoji-data-%s.txt\n# Emoji Data for UTS #51\n# Extended_Pictographic, Emoji_Presentation: see below\n\n", version)
	junk := func(k int32) bool { return (k>>4)%701 == int32(len(version))+3 && k > 0x2000 && k < 0x20000 }
	for _, sec := range []struct {
		name string
		gap  string
		in   func(k int32) bool
	}{
		{"Emoji", "                ", junk}, {"Emoji_Presentation", "   ", pres}, {"Emoji_Modifier", "       ", junk},
		{"Emoji_Modifier_Base", "  ", junk}, {"Emoji_Component", "      ", junk}, {"Extended_Pictographic", "", pict},
	} {
		fmt.Fprintf(&b, "# ================================================\n\n# All omitted code points have %s=No \n# @missing: 0000..10FFFF  ; %s ; No\n\n", sec.name, sec.name)
		n := 0
		split(r, ranges(sec.in), func(lo, hi int32) {
			n += int(hi - lo + 1)
			last := ""
			if hi > lo {
				last = ".." + charName(r)
			}
			fmt.Fprintf(&b, "%-14s; %s%s# E%d.%d  [%d] (%c..%c)       %s%s\n", codes(lo, hi), sec.name, sec.gap, r.Intn(15), r.Intn(8), hi-lo+1, safeRune(lo), safeRune(hi), strings.ToLower(charName(r)), last)
		})
		fmt.Fprintf(&b, "\n# Total elements: %d\n\n", n)
	}
	b.WriteString("#EOF\n")
	return b.String()
}

// safeRune replaces characters that would break the line, or that no Go source may contain.
func safeRune(r int32) rune {
	if r < 0x20 || r >= 0x7f && r < 0xa0 || r == 0xfeff || r == 0x2028 || r == 0x2029 || r >= 0xd800 && r <= 0xdfff {
		return '.'
	}
	return r
}

func (x *chars) files(r *rnd.Rand) map[string]string {
	return map[string]string{
		"13.0.0/EastAsianWidth.txt":                  x.eawFile(r, "13.0.0", x.eaw13, x.comb),
		"14.0.0/EastAsianWidth.txt":                  x.eawFile(r, "14.0.0", x.eaw14, nil),
		"13.0.0/emoji/emoji-data.txt":                x.emojiFile(r, "13.0", func(k int32) bool { return k > 0x3000 && k%97 == 0 && k < 0x8000 }, func(k int32) bool { return x.pict13[k] }),
		"14.0.0/emoji/emoji-data.txt":                x.emojiFile(r, "14.0", func(k int32) bool { return x.pres[k] }, func(k int32) bool { return x.class[k] == oracle.ExtPict }),
		"14.0.0/auxiliary/GraphemeBreakProperty.txt": x.breakFile(r),
	}
}

// regenerate runs all generators in tree; it reports whether they could be watched.
func regenerate(c *mon.Case, p *GenPlan, s *site, tree string, files map[string]string) bool {
	for _, g := range p.Gens {
		out, err, seen, _ := s.run(g, tree, files, fault{}, c.Rng.Intn(3))
		if len(seen) == 0 && err != nil && !strings.Contains(out, "asked for") {
			c.Count("generators that did not use the proxy", 1)
			return false
		}
		if err != nil {
			c.Fail("%s in %s fails (%v) although all files are there: %s", g.Line, g.Dir, err, out)
		}
		c.Count("generators run", 1)
		c.Count("files served", len(seen))
	}
	return true
}

func scratch(c *mon.Case, p *GenPlan) (dir, tree string, done func()) {
	dir, err := os.MkdirTemp(p.Tmp, "tree")
	if err != nil {
		panic(err)
	}
	tree = filepath.Join(dir, "repo")
	if err := copyTree(p.Repo, tree); err != nil {
		panic(err)
	}
	return dir, tree, func() {
		if os.Getenv("VERIF_KEEP") == "" {
			os.RemoveAll(dir)
		}
	}
}

func init() {
	register(&mon.Check{
		ID:   "C31",
		Mode: "generate",
		Rule: "the go:generate programs of the repository are run in a copy of it against a local https proxy that serves East Asian width, emoji and grapheme break files (first the data of Unicode 13 and 14, then data with up to 80 changed ranges, in the format of those files, with lines split at random); the copy is built with the new tables and its widths of all code points, clusters and stepping widths at all range ends and of random texts are compared with the specification under that data. Non-trivial: distinct data sets",
		Need: []string{"generators run", "files served", "libraries built from new tables", "clusters compared"},
		Streams: []mon.Stream{
			{Name: "data", Quick: 120, Thorough: 1200, Run: func(c *mon.Case) {
				p, s := generators(c)
				x := realChars.clone()
				n := 0
				if c.Idx >= 4 {
					n = 1 + c.Rng.Intn(80)
					x.mutate(c.Rng, n)
				}
				dir, tree, done := scratch(c, p)
				defer done()
				files := x.files(c.Rng)
				c.Logf("%d changes of the data", n)
				if !regenerate(c, p, s, tree, files) {
					return
				}
				d := x.data()
				b, _ := json.Marshal(d)
				df := filepath.Join(dir, "data.json")
				if err := os.WriteFile(df, b, 0o644); err != nil {
					panic(err)
				}
				// build
				mod, err := os.ReadFile(filepath.Join(p.Harness, "go.mod"))
				if err != nil {
					panic(err)
				}
				modfile := filepath.Join(dir, "probe.mod")
				os.WriteFile(modfile, []byte(strings.Replace(string(mod), "=> /repo", "=> "+tree, 1)), 0o644)
				sum, _ := os.ReadFile(filepath.Join(tree, "go.sum"))
				os.WriteFile(filepath.Join(dir, "probe.sum"), sum, 0o644)
				bin := filepath.Join(dir, "probe")
				cmd := exec.Command(p.Go, "build", "-modfile="+modfile, "-o", bin, "./genprobe")
				cmd.Dir = p.Harness
				cmd.Env = append(os.Environ(), "GOCACHE="+p.Cache, "GOMAXPROCS=2")
				if out, err := cmd.CombinedOutput(); err != nil {
					if strings.Contains(string(out), "# github.com/ilius/go-table") {
						c.Fail("the library does not compile with the new tables: %s", out)
					}
					panic(fmt.Sprintf("%v %s", err, out))
				}
				c.Count("libraries built from new tables", 1)
				mon.Tick()
				out, err := exec.Command(bin, df, fmt.Sprint(c.Seed*1000+int64(c.Idx))).Output()
				var rep struct {
					Evals, Clusters, Edges int
					Fail                   string
				}
				if err != nil || json.Unmarshal(out, &rep) != nil {
					panic(fmt.Sprintf("probe: %v %s", err, out))
				}
				if rep.Fail != "" {
					c.Fail("with tables generated from data with %d changes: %s", n, rep.Fail)
				}
				c.Eval(rep.Evals)
				c.Count("clusters compared", rep.Clusters)
				c.Count("range ends", rep.Edges)
				c.Max("changes of the data", n)
				c.Distinct(c.Seed, c.Idx)
				c.Sample("%d changes of the data, %d range ends, %d clusters compared", n, rep.Edges, rep.Clusters)
			}},
		},
	})

	kinds := []string{"status", "no answer", "truncated", "broken chunks"}
	register(&mon.Check{
		ID:   "C32",
		Mode: "generate",
		Rule: "the go:generate programs are run in a copy of the repository against a local https proxy that fails one of the files (error statuses with various bodies, no answer, a body cut off at any byte with and without an announced length); a program that asked for that file must report failure and leave every Go file as it was, the others must succeed. Non-trivial: distinct faults",
		Need: []string{"generators run", "faults shown", "fault: status", "fault: no answer", "fault: truncated", "fault: broken chunks", "generators that succeeded", "Go files compared"},
		Streams: []mon.Stream{
			{Name: "faults", Quick: 2000, Thorough: 40000, Run: func(c *mon.Case) {
				p, s := generators(c)
				r := c.Rng
				dir, tree, done := scratch(c, p)
				defer done()
				_ = dir
				files := smallFiles(r)
				var names []string
				for n := range files {
					names = append(names, n)
				}
				sortStrings(names)
				f := fault{file: names[r.Intn(len(names))], kind: kinds[r.Intn(len(kinds))]}
				text := files[f.file]
				switch f.kind {
				case "status":
					f.code = []int{400, 401, 403, 404, 404, 410, 418, 429, 451, 500, 500, 502, 503, 503, 504, 509}[r.Intn(16)]
					f.body = []string{"", "<html><body>Not Found</body></html>\n", text, text[:r.Intn(len(text))], "# gone\n"}[r.Intn(5)]
				case "truncated", "broken chunks":
					f.at = r.Intn(len(text))
					switch r.Intn(4) {
					case 0: // between two lines
						f.at = strings.LastIndexByte(text[:f.at], '\n') + 1
					case 1:
						f.at = len(text) - 1 - r.Intn(min(len(text), 40))
					}
				}
				for _, g := range p.Gens {
					before := goFiles(tree)
					out, err, seen, hits := s.run(g, tree, files, f, r.Intn(3))
					if len(seen) == 0 && err != nil && !strings.Contains(out, "asked for") {
						c.Count("generators that did not use the proxy", 1)
						return
					}
					c.Count("generators run", 1)
					c.Logf("%s in %s: %v: %s", g.Line, g.Dir, err, out)
					if hits == 0 {
						if err != nil {
							c.Fail("%s in %s fails (%v) although all its files are there: %s", g.Line, g.Dir, err, out)
						}
						c.Count("generators that succeeded", 1)
						c.Eval(1)
						continue
					}
					c.Count("faults shown", 1)
					c.Count("fault: "+f.kind, 1)
					after := goFiles(tree)
					for n, old := range before {
						now, ok := after[n]
						if !ok {
							c.Fail("%s in %s deletes %s when the download of %s fails (%s)", g.Line, g.Dir, n, f.file, f)
						}
						if now != old {
							c.Fail("%s in %s rewrites %s (%d bytes before, %d after) although the download of %s fails (%s)", g.Line, g.Dir, n, len(old), len(now), f.file, f)
						}
						c.Count("Go files compared", 1)
					}
					for n := range after {
						if _, ok := before[n]; !ok {
							c.Fail("%s in %s writes %s although the download of %s fails (%s)", g.Line, g.Dir, n, f.file, f)
						}
					}
					if err == nil {
						c.Fail("%s in %s reports success although the download of %s fails (%s)", g.Line, g.Dir, f.file, f)
					}
					c.Eval(1)
				}
				c.Distinct(f.String())
				c.Sample("%s: %s", f.file, f)
			}},
		},
	})
}

func (f fault) String() string {
	switch f.kind {
	case "status":
		return fmt.Sprintf("status %d with %d bytes", f.code, len(f.body))
	case "no answer":
		return f.kind
	}
	return fmt.Sprintf("%s after %d bytes", f.kind, f.at)
}
