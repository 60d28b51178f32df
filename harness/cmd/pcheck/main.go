// The signing keys of HBCI have 768 bits.
//go:debug rsa1024min=0

// Command pcheck decides one property: it runs every facet of the property in
// worker processes, merges what they report, confirms failures by replay, and
// writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"cmp"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/mitch000001/go-hbci/verif/pbt"
	_ "github.com/mitch000001/go-hbci/verif/props"
)

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 3
	exitHang      = 7 // worker only
)

// A case of this harness takes milliseconds. A worker that spends this much CPU
// time on one case, or sits blocked inside it, is reported as not terminating.
const (
	hangCPU  = 30 * time.Second
	hangWall = 40 * time.Second
	giveUp   = 400 * time.Second
)

var (
	fProp   = flag.String("property", "", "property to decide")
	fReplay = flag.String("replay", "", "replay file to run instead of searching")
	fRoot   = flag.String("root", "/verif", "root of the verification tree")
	fOnly   = flag.String("facet", "", "only this facet")
	fScale  = flag.Float64("scale", 1, "multiply case counts")
	fList   = flag.Bool("list", false, "list facets")

	fWorker  = flag.Bool("worker", false, "internal")
	fOut     = flag.String("out", "", "internal")
	fSeed    = flag.Uint64("wseed", 1, "internal")
	fChecks  = flag.Int("wchecks", 1, "internal")
	fJournal = flag.String("journal", "", "internal")
	fThor    = flag.Bool("thorough", false, "internal")
	fCase    = flag.String("case", "", "internal")
)

func main() {
	testing.Init()
	flag.Parse()
	switch {
	case *fList:
		for _, p := range pbt.Props() {
			for _, f := range pbt.Facets(p) {
				fmt.Printf("%s\t%s\t%d\t%d\n", p, f.Name, f.Quick, f.Thorough)
			}
		}
	case *fWorker:
		os.Exit(worker())
	case *fReplay != "":
		os.Exit(replay())
	default:
		os.Exit(parent())
	}
}

// ---------------------------------------------------------------- worker

func limitMemory() {
	// A decoder that allocates by a declared (not actual) length must fail here
	// and not take the sandbox down.
	if pbt.Race { // its shadow memory is larger
		debug.SetMemoryLimit(3 << 30)
		return
	}
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMaxStack(128 << 20)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog(w *pbt.Worker, write func()) {
	var last int64 = -1
	var startWall time.Time
	var startCPU time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		seq, cur := w.Current()
		if seq != last || cur == nil {
			last, startWall, startCPU = seq, time.Now(), cpuTime()
			continue
		}
		wall := time.Since(startWall)
		if wall > hangWall && (cpuTime()-startCPU > hangCPU || caseBlocked()) {
			w.Res.FailCase = cur
			w.Res.FailErr = fmt.Sprintf("does not terminate (%v CPU on one case)", cpuTime()-startCPU)
			write()
			os.Exit(exitHang)
		}
		if wall > giveUp {
			w.Res.HarnessError = "one case took too long without a verdict: " + string(cur)
			write()
			os.Exit(exitError)
		}
	}
}

// caseBlocked reports whether the goroutine evaluating the case is parked on a
// channel or lock (the case is single threaded, so nobody will wake it).
func caseBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "/repo/") {
			continue
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i > 0 {
			head = g[:i]
		}
		for _, s := range []string{"[chan send", "[chan receive", "[sync.", "[semacquire", "[select"} {
			if strings.Contains(head, s) {
				return true
			}
		}
	}
	return false
}

func worker() int {
	limitMemory()
	f := pbt.Lookup(*fProp, *fOnly)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such facet", *fProp, *fOnly)
		return exitError
	}
	w := pbt.NewWorker(f.Name, *fThor, *fJournal)
	write := func() {
		w.Finish()
		raw, err := json.Marshal(w.Res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitError)
		}
		if err := os.WriteFile(*fOut, raw, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitError)
		}
	}
	go watchdog(w, write)
	if *fCase != "" {
		raw, err := os.ReadFile(*fCase)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		if err := w.One(f, raw); err != nil {
			w.Res.FailCase, w.Res.FailErr = raw, err.Error()
		}
		write()
		return exitOK
	}
	flag.Set("rapid.seed", strconv.FormatUint(*fSeed, 10))
	flag.Set("rapid.checks", strconv.Itoa(*fChecks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", cmp.Or(os.Getenv("PCHECK_SHRINKTIME"), "20s"))
	f.Run(w)
	write()
	return exitOK
}

// ---------------------------------------------------------------- parent

type job struct {
	facet  *pbt.Facet
	seed   uint64
	checks int
}

type outcome struct {
	job
	res  pbt.Result
	code int
	err  string
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func runWorker(dir string, n int, facet string, args ...string) (pbt.Result, int, string) {
	out := filepath.Join(dir, fmt.Sprintf("out%d.json", n))
	logf := filepath.Join(dir, fmt.Sprintf("log%d.txt", n))
	os.Remove(out)
	lf, err := os.Create(logf)
	if err != nil {
		return pbt.Result{}, exitError, err.Error()
	}
	defer lf.Close()
	bin := self()
	if f := pbt.Lookup(*fProp, facet); f != nil && f.Race {
		bin = os.Getenv("PCHECK_RACE")
		if bin == "" {
			return pbt.Result{}, exitError, "no binary with the race detector"
		}
	}
	cmd := exec.Command(bin, append([]string{"-worker", "-property", *fProp, "-facet", facet, "-out", out, "-root", *fRoot}, args...)...)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GOGC=400", "GOMEMLIMIT=3GiB", "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66")
	err = cmd.Run()
	code := 0
	if err != nil {
		code = 255
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
			code = ee.ExitCode()
		}
	}
	var res pbt.Result
	raw, rerr := os.ReadFile(out)
	if rerr == nil {
		if jerr := json.Unmarshal(raw, &res); jerr != nil {
			return res, exitError, jerr.Error()
		}
	} else if code == 0 {
		return res, exitError, "worker wrote no result"
	}
	msg := ""
	if code != 0 {
		l, _ := os.ReadFile(logf)
		if len(l) > 3000 {
			l = l[:3000]
		}
		msg = string(l)
	}
	return res, code, msg
}

func parent() int {
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			h := fnv.New64a()
			h.Write([]byte(s))
			v = int64(h.Sum64() >> 1)
		}
		seed = uint64(v)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	*fThor = tier == "thorough"
	fs := pbt.Facets(*fProp)
	if len(fs) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", *fProp)
		return exitError
	}
	dir, err := os.MkdirTemp("", "pcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(dir)

	var jobs []job
	for _, f := range fs {
		if *fOnly != "" && f.Name != *fOnly {
			continue
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d", f.Prop, f.Name, seed)
		base := h.Sum64()>>1 | 1
		n := f.Quick
		split := 1
		if *fThor {
			n = f.Thorough
			split = 8
		} else if n > 1000 {
			split = 3
		} else if f.Race {
			split = 4
		}
		if f.Enumerated {
			split = 1
		}
		n = int(float64(n) * *fScale)
		if n < split {
			n = split
		}
		for i := 0; i < split; i++ {
			jobs = append(jobs, job{f, base + uint64(i)*0x9E3779B97F4A7C15>>1, n / split})
		}
	}
	results := make([]outcome, len(jobs))
	sem := make(chan struct{}, 7)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			j := jobs[i]
			args := []string{"-wseed", fmt.Sprint(j.seed | 1), "-wchecks", fmt.Sprint(j.checks)}
			if *fThor {
				args = append(args, "-thorough")
			}
			jf := filepath.Join(dir, fmt.Sprintf("journal%d.json", i))
			if j.facet.Race { // a race may not show a second time
				args = append(args, "-journal", jf)
			}
			res, code, msg := runWorker(dir, i, j.facet.Name, args...)
			if code != 0 && j.facet.Race && strings.Contains(msg, "DATA RACE") {
				if raw, err := os.ReadFile(jf); err == nil {
					res.FailCase, res.FailErr = raw, died(msg)
				}
			} else if code != 0 && code != exitHang && code != exitError {
				// The process died (stack overflow, out of memory, ...). Run it
				// again with a journal to learn which case killed it.
				_, code2, msg2 := runWorker(dir, 1000+i, j.facet.Name, append(args, "-journal", jf)...)
				if raw, err := os.ReadFile(jf); err == nil && code2 != 0 && code2 != exitHang && code2 != exitError {
					res.FailCase = raw
					res.FailErr = died(msg2)
				}
			}
			results[i] = outcome{j, res, code, msg}
		}(i)
	}
	wg.Wait()

	// Merge.
	type agg struct {
		Facet      string         `json:"facet"`
		Rule       string         `json:"rule"`
		Eval       int            `json:"evaluations"`
		Nontrivial int            `json:"distinct_nontrivial"`
		Enumerated bool           `json:"enumerated,omitempty"`
		Classes    map[string]int `json:"classes,omitempty"`
		Notes      map[string]int `json:"observed,omitempty"`
	}
	var aggs []agg
	var samples []any
	totalEval, totalNT := 0, 0
	exit := exitOK
	violations := 0
	reported := map[string]bool{}
	for _, f := range fs {
		a := agg{Facet: f.Name, Rule: f.Rule, Classes: map[string]int{}, Notes: map[string]int{}, Enumerated: f.Enumerated}
		set := map[uint64]struct{}{}
		ns := 0
		for _, r := range results {
			if r.facet == nil || r.facet.Name != f.Name {
				continue
			}
			a.Eval += r.res.Evaluations
			for _, k := range r.res.Nontrivial {
				set[k] = struct{}{}
			}
			for k, v := range r.res.Classes {
				a.Classes[k] += v
			}
			for k, v := range r.res.Notes {
				a.Notes[k] += v
			}
			for _, s := range r.res.Samples {
				if ns < 2 {
					samples = append(samples, map[string]any{"facet": f.Name, "case": s})
					ns++
				}
			}
			if r.res.FailCase != nil {
				if reported[f.Name] {
					continue
				}
				ok, why := confirm(dir, f, r.res)
				if ok {
					if strings.HasPrefix(why, "process died") { // rapid could not shrink it
						r.res.FailCase = shrink(dir, f, r.res.FailCase, why)
					}
					path := saveReplay(f, r.res, why)
					fmt.Printf("facet %s: %s\n", f.Name, why)
					fmt.Printf("case: %s\n", clip(string(r.res.FailCase), 2000))
					fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
					reported[f.Name] = true
					violations++
					continue
				}
				fmt.Printf("ERROR facet %s: a failure did not reproduce from its case: %s\ncase: %s\n", f.Name, r.res.FailErr, clip(string(r.res.FailCase), 2000))
				if exit == exitOK {
					exit = exitError
				}
				continue
			}
			if r.code != 0 || r.res.HarnessError != "" {
				fmt.Printf("ERROR facet %s: worker exit %d: %s %s\n", f.Name, r.code, r.res.HarnessError, clip(r.err, 3000))
				if exit == exitOK {
					exit = exitError
				}
			}
		}
		a.Nontrivial = len(set)
		totalEval += a.Eval
		totalNT += a.Nontrivial
		if a.Eval > 0 {
			aggs = append(aggs, a)
		}
	}
	kf := probeKnown(dir)
	if violations > 0 {
		exit = exitViolation
	}
	var rules []string
	for _, a := range aggs {
		rules = append(rules, a.Facet+": "+a.Rule)
	}
	ev := map[string]any{
		"property": *fProp, "tier": tier, "seed": seedInt(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": totalEval, "distinct_nontrivial": totalNT,
			"rule":    "Cases come from seeded rapid generators (or a complete enumeration where marked), one set per facet; a case is non-trivial when it falls into at least one of the facet's labelled classes, and distinct when its JSON differs. " + strings.Join(rules, " | "),
			"samples": samples, "facets": aggs,
			"known_findings_probed": kf,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(*fRoot, "evidence", *fProp+".json"), append(raw, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("ERROR writing evidence:", err)
		if exit == exitOK {
			exit = exitError
		}
	}
	sort.Slice(aggs, func(i, j int) bool { return aggs[i].Facet < aggs[j].Facet })
	for _, a := range aggs {
		fmt.Printf("%s/%s: %d cases, %d distinct non-trivial, classes %v, observed %v\n", *fProp, a.Facet, a.Eval, a.Nontrivial, a.Classes, a.Notes)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", *fProp, tier, totalEval, totalNT, violations, time.Since(start).Seconds())
	return exit
}

func seedInt() int64 {
	v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return v
}

// died says why a process died, given what it printed.
func died(msg string) string {
	if i := strings.Index(msg, "WARNING: DATA RACE"); i >= 0 {
		what := "process died: data race"
		n := 0
		for _, l := range strings.Split(msg[i:], "\n") {
			if l = strings.TrimSpace(l); strings.Contains(l, "/repo/") && n < 2 {
				what += " " + l
				n++
			}
		}
		return what
	}
	return "process died: " + firstLine(msg)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runCase evaluates one saved case in a fresh process.
func runCase(dir string, n int, facet string, raw []byte) (failed bool, why string, harness string) {
	cf := filepath.Join(dir, fmt.Sprintf("case%d.json", n))
	if err := os.WriteFile(cf, raw, 0o644); err != nil {
		return false, "", err.Error()
	}
	res, code, msg := runWorker(dir, n, facet, "-case", cf)
	switch {
	case res.HarnessError != "":
		return false, "", res.HarnessError
	case res.FailCase != nil:
		return true, res.FailErr, ""
	case code == exitError:
		return false, "", msg
	case code != 0:
		return true, died(msg), ""
	}
	return false, "", ""
}

// confirm replays a failing case in fresh processes.
func confirm(dir string, f *pbt.Facet, res pbt.Result) (bool, string) {
	for i := 0; i < 5; i++ {
		failed, why, _ := runCase(dir, 5000+i, f.Name, res.FailCase)
		if failed {
			return true, why
		}
	}
	return false, ""
}

// shrink leaves out elements of the lists of a case as long as the process
// still dies of it in the same way.
func shrink(dir string, f *pbt.Facet, raw json.RawMessage, why string) json.RawMessage {
	deadline := time.Now().Add(40 * time.Second)
	kind := why[:min(len(why), 20)]
	n := 0
	for again := true; again; {
		again = false
		var v any
		d := json.NewDecoder(bytes.NewReader(raw))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return raw
		}
		for _, smaller := range without(v) {
			if time.Now().After(deadline) {
				return raw
			}
			c, err := json.Marshal(smaller)
			if err != nil || len(c) >= len(raw) {
				continue
			}
			n++
			if failed, w, _ := runCase(dir, 7000+n, f.Name, c); failed && strings.HasPrefix(w, kind) {
				raw, again = c, true
				break
			}
		}
	}
	return raw
}

// without returns all values that lack one element of one list of v, the
// outermost lists first.
func without(v any) []any {
	var out []any
	switch x := v.(type) {
	case []any:
		for i := range x {
			out = append(out, append(append([]any{}, x[:i]...), x[i+1:]...))
		}
		for i := range x {
			for _, e := range without(x[i]) {
				y := append([]any{}, x...)
				y[i] = e
				out = append(out, y)
			}
		}
	case map[string]any:
		for _, k := range slices.Sorted(maps.Keys(x)) {
			for _, e := range without(x[k]) {
				y := maps.Clone(x)
				y[k] = e
				out = append(out, y)
			}
		}
	}
	return out
}

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Why      string          `json:"why"`
	Case     json.RawMessage `json:"case"`
}

func saveReplay(f *pbt.Facet, res pbt.Result, why string) string {
	dir := filepath.Join(*fRoot, "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write(res.FailCase)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", f.Prop, f.Name, h.Sum32()))
	raw, _ := json.MarshalIndent(replayFile{f.Prop, f.Name, why, res.FailCase}, "", " ")
	os.WriteFile(p, raw, 0o644)
	return p
}

func replay() int {
	raw, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println("ERROR", err)
		return exitError
	}
	var r replayFile
	if err := json.Unmarshal(raw, &r); err != nil {
		fmt.Println("ERROR", err)
		return exitError
	}
	*fProp = r.Property
	f := pbt.Lookup(r.Property, r.Facet)
	if f == nil {
		fmt.Println("ERROR no such facet")
		return exitError
	}
	dir, err := os.MkdirTemp("", "pcheck")
	if err != nil {
		fmt.Println("ERROR", err)
		return exitError
	}
	defer os.RemoveAll(dir)
	failed, why, harness := runCase(dir, 0, r.Facet, r.Case)
	if harness != "" {
		fmt.Println("ERROR", harness)
		return exitError
	}
	if failed {
		fmt.Println(why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *fReplay)
		return exitViolation
	}
	fmt.Println("holds on this case")
	return exitOK
}

// probeKnown evaluates the findings listed for this property in
// known-findings.txt and prints a line for each that is still there.
func probeKnown(dir string) int {
	fh, err := os.Open(filepath.Join(*fRoot, "known-findings.txt"))
	if err != nil {
		return 0
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<20)
	n := 0
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k struct {
			Property, Facet, What string
			Case                  json.RawMessage
		}
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			fmt.Println("ERROR known-findings.txt:", err)
			continue
		}
		if k.Property != *fProp || pbt.Lookup(k.Property, k.Facet) == nil {
			continue
		}
		failed, _, _ := runCase(dir, 9000+n, k.Facet, k.Case)
		n++
		if failed {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	return n
}
