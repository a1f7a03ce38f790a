// Command monitor drives the code in /repo under watch and judges what it saw.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/checks"
	"verif/mon"
	"verif/rnd"
)

var goroot, dict, repoDir string

func main() {
	if len(os.Args) > 1 && os.Args[1] == checks.LocaleProbeArg {
		checks.LocaleProbe()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == checks.FirstUseArg {
		checks.FirstUse()
		return
	}
	var (
		mode   = flag.String("mode", "drive", "drive, worker, replay")
		prop   = flag.String("prop", "", "property id")
		tier   = flag.String("tier", "quick", "")
		seed   = flag.Int64("seed", 1, "")
		tmp    = flag.String("tmp", "", "scratch directory")
		root   = flag.String("root", "/verif", "")
		shard  = flag.Int("shard", -1, "")
		out    = flag.String("out", "", "")
		stream = flag.String("stream", "", "")
		index  = flag.Int("index", -1, "")
		file   = flag.String("file", "", "replay file")
		gocmd  = flag.String("go", "go", "")
		repo   = flag.String("repo", "/repo", "source of the library")
	)
	flag.Parse()
	if *mode == "worker" {
		ch := checks.Get(*prop)
		if ch == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(2)
		}
		ea := os.Getenv("RUNEWIDTH_EASTASIAN") == "1"
		os.Exit(mon.RunShard(ch, *shard, ea, *seed, *tier, *out, *stream, *index))
	}
	if *mode == "literals" {
		printLiterals(*repo)
		return
	}
	if d := newLiterals(*repo); len(d.Ints)+len(d.Strs) > 0 {
		b, _ := json.Marshal(d)
		dict = string(b)
	}
	if b, err := exec.Command(*gocmd, "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(b))
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	repoDir = *repo
	if err := prepareGenerators(*repo, *tmp, *gocmd); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *mode == "replay" {
		os.Exit(replay(self, *file, *tmp))
	}
	os.Exit(drive(self, *prop, *tier, *seed, *tmp, *root, *gocmd))
}

func workerEnv(ea bool, covdir, racelog string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "RUNEWIDTH_EASTASIAN", "LANG", "LC_ALL", "LC_CTYPE", "GOCOVERDIR", "GORACE", rnd.Env:
			continue
		}
		env = append(env, e)
	}
	v := "0"
	if ea {
		v = "1"
	}
	env = append(env, "LANG=C.UTF-8", "RUNEWIDTH_EASTASIAN="+v, "GOCOVERDIR="+covdir, "GOTRACEBACK=all")
	if dict != "" {
		env = append(env, rnd.Env+"="+dict)
	}
	env = append(env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3")
	return env
}

type run struct {
	shard  int
	code   int
	stderr string
	res    *mon.Result
	err    error
}

func runWorker(self, prop, tier string, seed int64, tmp string, shard int, ea bool, stream string, index int) run {
	out := filepath.Join(tmp, fmt.Sprintf("out%d.json", shard))
	os.Remove(out)
	cov := filepath.Join(tmp, "cov")
	os.MkdirAll(cov, 0o755)
	args := []string{"-mode", "worker", "-prop", prop, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-shard", strconv.Itoa(shard), "-out", out}
	if stream != "" {
		args = append(args, "-stream", stream, "-index", strconv.Itoa(index))
	}
	cmd := exec.Command(self, args...)
	limit := 6 * time.Hour
	if ch := checks.Get(prop); ch != nil && ch.Mode == "platforms" {
		switch mon.Platform(shard) {
		case "wasm":
			js := filepath.Join(goroot, "lib/wasm/wasm_exec_node.js")
			cmd = exec.Command("node", append([]string{"--stack-size=4096", js, filepath.Join(tmp, "monitor.wasm")}, args...)...)
			if tier == "quick" {
				limit = 10 * time.Minute
			}
		case "386":
			cmd = exec.Command(filepath.Join(tmp, "monitor386"), args...)
		default:
			cmd = exec.Command(filepath.Join(tmp, "monitor_"+mon.Platform(shard)), args...)
		}
	}
	cmd.Env = workerEnv(ea, cov, "")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	r := run{shard: shard}
	if err := cmd.Start(); err != nil {
		r.err = err
		return r
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r.stderr = stderr.String()
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
	}
	if b, e := os.ReadFile(out); e == nil {
		var res mon.Result
		if json.Unmarshal(b, &res) == nil {
			r.res = &res
		}
	}
	return r
}

// died turns the death of a worker into a failure if the runtime blames the code under test.
func died(prop, tier string, seed int64, r run, ea bool) *mon.Failure {
	msg := ""
	switch {
	case strings.Contains(r.stderr, "WARNING: DATA RACE"):
		msg = "data race"
	case strings.Contains(r.stderr, "fatal error:"), strings.Contains(r.stderr, "panic:"), strings.Contains(r.stderr, "SIGSEGV"):
		msg = "crash"
	}
	if msg == "" || !strings.Contains(r.stderr, "github.com/ilius/go-table") {
		return nil
	}
	s := r.stderr
	if len(s) > 6000 {
		s = s[:6000]
	}
	return &mon.Failure{Property: prop, Stream: "", Index: -1, Seed: seed, Tier: tier, Shard: r.shard, EA: ea, Message: msg + "\n" + s}
}

func drive(self, prop, tier string, seed int64, tmp, root, gocmd string) int {
	start := time.Now()
	ch := checks.Get(prop)
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	shards := mon.Shards
	runs := make([]run, shards)
	var wg sync.WaitGroup
	sem := make(chan struct{}, mon.Shards)
	if ch.Mode == "race" { // each worker is itself concurrent
		sem = make(chan struct{}, 3)
	}
	if _, err := os.Stat(filepath.Join(tmp, "builds.log")); err == nil {
		shards = 0
	}
	unobservable := os.Getenv("VERIF_UNOBSERVABLE")
	if unobservable != "" { // nothing can be said, so no alarm
		shards = 0
		runs = nil
	}
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sem <- struct{}{}
			runs[s] = runWorker(self, prop, tier, seed, tmp, s, mon.ShardEA(s), "", -1)
			<-sem
		}(s)
	}
	wg.Wait()
	var fails []*mon.Failure
	broken := false
	if b, err := os.ReadFile(filepath.Join(tmp, "builds.log")); err == nil {
		msg := string(b)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		if !strings.Contains(msg, "# github.com/ilius/go-table") {
			fmt.Fprintln(os.Stderr, "cannot build for the other platforms")
			return 2
		}
		fails = append(fails, &mon.Failure{Property: prop, Index: -1, Seed: seed, Tier: tier, Message: "the library does not compile for another platform\n" + msg})
		runs = nil
	}
	for _, r := range runs {
		switch {
		case r.res != nil && r.res.Failure != nil:
			fails = append(fails, r.res.Failure)
		case r.code == 0 && r.res != nil:
		default:
			if f := died(prop, tier, seed, r, mon.ShardEA(r.shard)); f != nil {
				fails = append(fails, f)
			} else {
				broken = true
				fmt.Fprintf(os.Stderr, "worker %d ended with %d %v\n%s\n", r.shard, r.code, r.err, r.stderr)
			}
		}
	}
	// merge
	counts, maxes := map[string]int64{}, map[string]int64{}
	var evals, cases int64
	hashes := map[uint64]struct{}{}
	samples := []string{}
	for _, r := range runs {
		if r.res == nil {
			continue
		}
		for k, v := range r.res.Counts {
			counts[k] += v
		}
		for k, v := range r.res.Maxes {
			if v > maxes[k] {
				maxes[k] = v
			}
		}
		evals += r.res.Evals
		cases += r.res.Cases
		for _, h := range r.res.Hashes {
			hashes[h] = struct{}{}
		}
		if len(samples) < 12 {
			samples = append(samples, r.res.Samples...)
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule":                ch.Rule,
		"samples":             samples,
		"cases":               cases,
		"observed":            counts,
		"observed_max":        maxes,
		"workers":             shards,
	}
	if dict != "" {
		cov["constants_of_the_code_drawn_on"] = dict
	}
	if unobservable != "" {
		cov["not_observed"] = unobservable
	}
	if ch.Exhaustive {
		cov["exhaustive"] = true
	}
	if c := codeCoverage(gocmd, filepath.Join(tmp, "cov"), tmp); c != nil {
		cov["statements_reached_in_repo"] = c
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": checks.Level(prop),
		"coverage":    cov,
		"assumptions": checks.Assumptions(prop),
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Message) < len(fails[j].Message) })
		f := fails[0]
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.json", prop, seed, tier))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s#%d (shard %d, EA=%v): %s\n", prop, f.Stream, f.Index, f.Shard, f.EA, f.Message)
		for _, l := range f.Log {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if broken {
		return 2
	}
	if unobservable != "" {
		fmt.Printf("%s: not observed: %s\n", prop, unobservable)
		return 0
	}
	if n := counts["generators that did not use the proxy"]; n > 0 {
		fmt.Printf("%s: not observed: a generator does not download through the proxy (%d times)\n", prop, n)
		return 0
	}
	for _, n := range ch.Need {
		if counts[n] <= 0 {
			fmt.Fprintf(os.Stderr, "%s: inconclusive, the monitors observed no %q\n", prop, n)
			return 2
		}
	}
	if evals == 0 {
		fmt.Fprintf(os.Stderr, "%s: inconclusive, nothing evaluated\n", prop)
		return 2
	}
	fmt.Printf("%s: held on %d cases, %d evaluations, %d distinct non-trivial (%.1fs)\n", prop, cases, evals, len(hashes), time.Since(start).Seconds())
	keys := make([]string, 0, len(counts))
	for k := range counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("    %s: %d\n", k, counts[k])
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// codeCoverage reports the statements of /repo the workload reached, per file.
func codeCoverage(gocmd, dir, tmp string) map[string]string {
	prof := filepath.Join(tmp, "cover.txt")
	if err := exec.Command(gocmd, "tool", "covdata", "textfmt", "-i="+dir, "-o="+prof).Run(); err != nil {
		return nil
	}
	f, err := os.Open(prof)
	if err != nil {
		return nil
	}
	defer f.Close()
	total, hit := map[string]int{}, map[string]int{}
	blocks := map[string][2]int{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if rel, ok := strings.CutPrefix(l, repoDir+"/"); ok { // a generator
			l = "github.com/ilius/go-table/" + rel
		}
		if !strings.HasPrefix(l, "github.com/ilius/go-table/") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) != 3 {
			continue
		}
		n, _ := strconv.Atoi(fs[1])
		h, _ := strconv.Atoi(fs[2])
		b := blocks[fs[0]]
		b[0] = n
		if h > 0 {
			b[1] = 1
		}
		blocks[fs[0]] = b
	}
	for k, b := range blocks {
		name := strings.TrimPrefix(k[:strings.IndexByte(k, ':')], "github.com/ilius/go-table/")
		total[name] += b[0]
		if b[1] > 0 {
			hit[name] += b[0]
		}
	}
	out := map[string]string{}
	for n := range total {
		if hit[n] > 0 {
			out[n] = fmt.Sprintf("%d/%d", hit[n], total[n])
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

func replay(self, file, tmp string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f mon.Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	show := func(r run) int {
		g := (*mon.Failure)(nil)
		if r.res != nil {
			g = r.res.Failure
		}
		if g == nil && r.code != 0 {
			g = died(f.Property, f.Tier, f.Seed, r, f.EA)
		}
		if g == nil {
			return 0
		}
		fmt.Printf("%s#%d: %s\n", g.Stream, g.Index, g.Message)
		for _, l := range g.Log {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		return 1
	}
	if f.Stream != "" {
		if show(runWorker(self, f.Property, f.Tier, f.Seed, tmp, f.Shard, f.EA, f.Stream, f.Index)) == 1 {
			return 1
		}
		fmt.Println("the case alone does not fail; running the whole shard")
	}
	if show(runWorker(self, f.Property, f.Tier, f.Seed, tmp, f.Shard, f.EA, "", -1)) == 1 {
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
