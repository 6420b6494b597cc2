// Command mon runs the monitors. As a parent (mon -prop ID) it runs every unit
// of a property in child processes, so that a crash or a hang of the code under
// test is observed and attributed to a case; as a child (mon -child ...) it runs
// one shard of one unit.
package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Unit is one workload with its monitor.
type Unit struct {
	Name string
	// number of shards (child processes) per tier
	Quick, Thorough int
	Run             func(t *T)
	// only in the binary built with the race detector
	Race bool
	// next to those, but in a binary built without it
	Plain bool
	// Finish judges what the shards of the unit collected together
	Finish func(bag map[string][][]uint64) []string
	// what the unit generates and what counts as a distinct observation
	Rule string
}

// plainBin is the harness built without the race detector, for the units which want it.
var plainBin = os.Getenv("VERIF_PLAIN")

// runs reports whether this process runs the unit.
func (u *Unit) runs() bool {
	if u.Plain {
		return raceEnabled && plainBin != ""
	}
	return u.Race == raceEnabled
}

var units = map[string]*Unit{}
var props = map[string][]string{}

// more holds units which several properties share.
var more [][2]string

func unit(name, rule string, quick, thorough int, run func(t *T)) {
	if units[name] != nil {
		panic("unit twice: " + name)
	}
	units[name] = &Unit{Name: name, Quick: quick, Thorough: thorough, Run: run, Rule: rule}
}

// T is the state of one shard.
type T struct {
	*rand.Rand
	Shard, Shards int
	Tier          string
	unit          string
	seed          uint64
	dir           string

	mu         sync.Mutex
	evals      int64
	caseStart  atomic.Int64
	curCase    string
	distinct   map[uint64]struct{}
	events     map[string]int64
	samples    []string
	auto       []string
	violations []Violation
	known      map[string]string
	bag        map[string][]uint64
}

// Collect hands a value to the unit's Finish.
func (t *T) Collect(key string, v ...uint64) {
	t.mu.Lock()
	if t.bag == nil {
		t.bag = map[string][]uint64{}
	}
	t.bag[key] = append(t.bag[key], v...)
	t.mu.Unlock()
}

// Violation is a refuting observation.
type Violation struct {
	Unit  string `json:"unit"`
	Shard int    `json:"shard"`
	Case  string `json:"case"`
	What  string `json:"what"`
}

// Report is what a child hands to its parent.
type Report struct {
	Evals      int64               `json:"evals"`
	Distinct   []uint64            `json:"distinct"`
	Events     map[string]int64    `json:"events"`
	Samples    []string            `json:"samples"`
	Violations []Violation         `json:"violations"`
	Known      map[string]string   `json:"known"`
	Bag        map[string][]uint64 `json:"bag"`
}

const maxViolations = 5

type tooMany struct{}

// N scales the number of cases with the tier.
func (t *T) N(quick, thorough int) int {
	if t.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Case runs f as one case: a panic in it is a violation.
func (t *T) Case(desc string, f func()) {
	t.mu.Lock()
	t.curCase = desc
	t.events["cases"]++
	t.mu.Unlock()
	t.caseStart.Store(cpuNow())
	if t.dir != "" {
		// for the parent, in case this process dies in f
		_ = os.WriteFile(filepath.Join(t.dir, "case"), []byte(desc), 0o644)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooMany); ok {
				panic(r)
			}
			t.Violate("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Seen records an observation for the evidence: kind is an event class, key
// identifies the observation (equal keys are the same observation).
func (t *T) Seen(kind string, key ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, t.unit, "|", kind)
	for _, k := range key {
		switch x := k.(type) {
		case []byte:
			h.Write(x)
		default:
			fmt.Fprint(h, "|", x)
		}
	}
	t.mu.Lock()
	if t.events[kind] == 0 && len(t.auto) < 6 {
		var w strings.Builder
		fmt.Fprintf(&w, "%s: [%s] %s", t.unit, t.curCase, kind)
		for _, k := range key {
			switch x := k.(type) {
			case []byte:
				fmt.Fprintf(&w, " %s", hx(x))
			default:
				fmt.Fprintf(&w, " %v", x)
			}
			if w.Len() > 400 {
				break
			}
		}
		t.auto = append(t.auto, fmt.Sprintf("%.500s", w.String()))
	}
	t.events[kind]++
	t.evals++
	t.distinct[h.Sum64()] = struct{}{}
	t.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (t *T) Sample(format string, a ...any) {
	t.mu.Lock()
	if len(t.samples) < 3 {
		t.samples = append(t.samples, fmt.Sprintf("%s: ", t.unit)+fmt.Sprintf(format, a...))
	}
	t.mu.Unlock()
}

// Violate records a violation of the property.
func (t *T) Violate(format string, a ...any) {
	t.mu.Lock()
	t.violations = append(t.violations, Violation{t.unit, t.Shard, t.curCase, fmt.Sprintf(format, a...)})
	n := len(t.violations)
	t.mu.Unlock()
	if n >= maxViolations {
		panic(tooMany{})
	}
}

// Known records that a known finding was observed.
func (t *T) Known(id, what string) {
	t.mu.Lock()
	t.known[id] = what
	t.mu.Unlock()
}

// Check is Violate unless ok.
func (t *T) Check(ok bool, format string, a ...any) bool {
	if !ok {
		t.Violate(format, a...)
	}
	return ok
}

// NoPanic reports whether f returned normally; a panic is a violation.
func (t *T) NoPanic(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isMany := r.(tooMany); isMany {
				panic(r)
			}
			ok = false
			t.Violate("%s panics: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
	return true
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return (ru.Utime.Nano() + ru.Stime.Nano())
}

// drbg is the deterministic stand-in for the system's random source.
type drbg struct {
	mu   sync.Mutex
	c    *rand.ChaCha8
	n    int64
	tape *bytes.Buffer // when set, keeps what was handed out
}

func newDRBG(seed ...any) *drbg {
	return &drbg{c: rand.NewChaCha8(seed32(seed...))}
}

func seed32(parts ...any) (s [32]byte) {
	for i := 0; i < 4; i++ {
		h := fnv.New64a()
		fmt.Fprint(h, i, parts)
		binary.LittleEndian.PutUint64(s[8*i:], mix(h.Sum64()))
	}
	return
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (d *drbg) Read(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	_, _ = d.c.Read(b)
	d.n += int64(len(b))
	if d.tape != nil {
		d.tape.Write(b)
	}
	return len(b), nil
}

func (d *drbg) count() int64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.n
}

func runChild(unitName string, shard, shards int, tier string, seed uint64, dir string) {
	u := units[unitName]
	debug.SetTraceback("all")
	t := &T{
		Rand:  rand.New(rand.NewChaCha8(seed32("work", unitName, shard, seed))),
		Shard: shard, Shards: shards, Tier: tier, unit: unitName, seed: seed, dir: dir,
		distinct: map[uint64]struct{}{}, events: map[string]int64{}, known: map[string]string{},
	}
	crand.Reader = newDRBG("entropy", unitName, shard, seed)
	t.caseStart.Store(cpuNow())
	budget := int64(90 * time.Second)
	if raceEnabled {
		budget *= 8
	}
	go func() { // a single case that burns this much CPU, or none at all, does not terminate
		stop := func(what string) {
			t.mu.Lock()
			t.violations = append(t.violations, Violation{t.unit, t.Shard, t.curCase, what})
			t.mu.Unlock()
			t.write()
			os.Exit(0)
		}
		const window = 120
		var cpu, still [window]int64 // of the last minute
		for tick := 0; ; tick++ {
			time.Sleep(500 * time.Millisecond)
			now := cpuNow()
			if now-t.caseStart.Load() > budget {
				stop("the operation does not terminate (90 s of CPU time in one case, which normally takes well under a second)")
			}
			then := cpu[tick%window]
			cpu[tick%window], still[tick%window] = now, 0
			if waiting.Load() == 0 && asleep() {
				still[tick%window] = 1
			}
			n := int64(0)
			for _, s := range still {
				n += s
			}
			if n >= window*9/10 && now-then < int64(time.Second) {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				stop("the operation does not terminate: every thread of the process has been waiting for a minute\n" + trimStack(buf))
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooMany); !ok {
					t.mu.Lock()
					t.violations = append(t.violations, Violation{t.unit, t.Shard, t.curCase, fmt.Sprintf("panic outside a case: %v\n%s", r, trimStack(debug.Stack()))})
					t.mu.Unlock()
				}
			}
		}()
		u.Run(t)
	}()
	t.write()
}

// waiting is not zero while the process waits for another one.
var waiting atomic.Int64

// asleep reports whether all threads of the process but the calling one wait for something.
func asleep() bool {
	files, _ := filepath.Glob("/proc/self/task/*/stat")
	awake := 0
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if i := bytes.LastIndexByte(b, ')'); i < 0 || i+2 >= len(b) || b[i+2] != 'S' {
			awake++
		}
	}
	return len(files) > 0 && awake <= 1
}

func (t *T) write() {
	t.mu.Lock()
	defer t.mu.Unlock()
	r := Report{Evals: t.evals, Events: t.events, Samples: append(t.auto, t.samples...), Violations: t.violations, Known: t.known, Bag: t.bag}
	for k := range t.distinct {
		r.Distinct = append(r.Distinct, k)
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	tmp := filepath.Join(t.dir, "report.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	_ = os.Rename(tmp, filepath.Join(t.dir, "report.json"))
}

type job struct {
	unit   *Unit
	shard  int
	shards int
}

type jobResult struct {
	job
	rep      *Report
	inconcl  string
	crashed  bool
	skipped  bool
	crashLog string
}

func runJob(j job, tier string, seed uint64, scratch string, procs int) jobResult {
	res := jobResult{job: j}
	dir, err := os.MkdirTemp(scratch, "shard")
	if err != nil {
		res.inconcl = err.Error()
		return res
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	if j.unit.Plain {
		self = plainBin
	}
	cmd := exec.Command(self, "-child", "-unit", j.unit.Name, "-shard", strconv.Itoa(j.shard),
		"-shards", strconv.Itoa(j.shards), "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-dir", dir, "-data", dataDir)
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs), "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, "race"))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		res.inconcl = err.Error()
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		res.inconcl = "wall-clock watchdog"
		return res
	}
	races := raceReports(dir)
	b, rerr := os.ReadFile(filepath.Join(dir, "report.json"))
	if rerr == nil {
		var r Report
		if json.Unmarshal(b, &r) == nil {
			res.rep = &r
			for _, text := range races {
				r.Violations = append(r.Violations, Violation{j.unit.Name, j.shard, "race detector", text})
			}
			return res
		}
	}
	cur, _ := os.ReadFile(filepath.Join(dir, "case"))
	log := out.String()
	if len(log) > 4000 {
		log = log[:4000]
	}
	res.crashed = true
	res.crashLog = fmt.Sprintf("the process died (%v) in case %q\n%s", err, cur, log)
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Exited() && ws.ExitStatus() == 3 {
			res.crashed = false
			res.inconcl = log
		}
	}
	return res
}

func raceReports(dir string) []string {
	var texts []string
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "DATA RACE") {
				texts = append(texts, strings.TrimSpace(blk))
			}
		}
	}
	if len(texts) > maxViolations {
		texts = texts[:maxViolations]
	}
	return texts
}

func runParent(prop, tier string, seed uint64, outDir, replay string, findings string) int {
	start := time.Now()
	names := props[prop]
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "mon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	var jobs []job
	for _, n := range names {
		u := units[n]
		if u == nil {
			fmt.Fprintln(os.Stderr, "unknown unit", n)
			return 2
		}
		if !u.runs() {
			continue
		}
		k := u.Quick
		if tier == "thorough" {
			k = u.Thorough
		}
		for s := 0; s < k && (lite == 0 || s < lite); s++ {
			jobs = append(jobs, job{u, s, k})
		}
	}
	all := lite == 0
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var r struct {
			Seed   uint64 `json:"seed"`
			Tier   string `json:"tier"`
			Unit   string `json:"unit"`
			Shard  int    `json:"shard"`
			Shards int    `json:"shards"`
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		seed, tier = r.Seed, r.Tier
		if r.Shard >= 0 {
			jobs = []job{{units[r.Unit], r.Shard, r.Shards}}
		} else { // a verdict over all shards of the unit
			jobs = nil
			for s := 0; s < r.Shards; s++ {
				jobs = append(jobs, job{units[r.Unit], s, r.Shards})
			}
		}
		all = r.Shard < 0
	}
	workers := runtime.NumCPU()
	procs := 2
	if raceEnabled {
		workers = (workers + 1) / 2
		procs = 8
	}
	if lite > 0 {
		workers = 1
	}
	results := make([]jobResult, len(jobs))
	var wg sync.WaitGroup
	next := int64(-1)
	var hung atomic.Bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(jobs) {
					return
				}
				if hung.Load() { // others would hang as well
					results[i] = jobResult{job: jobs[i], skipped: true}
					continue
				}
				results[i] = runJob(jobs[i], tier, seed, scratch, procs)
				if r := results[i].rep; r != nil {
					for _, v := range r.Violations {
						if strings.Contains(v.What, "does not terminate") {
							hung.Store(true)
						}
					}
				}
				if lite > 0 && len(results[i].rep.Violations) > 0 {
					results = results[:i+1]
					return
				}
			}
		}()
	}
	wg.Wait()

	var evals int64
	distinct := map[uint64]struct{}{}
	events := map[string]int64{}
	perUnit := map[string]int64{}
	samplesBy := map[string][]string{}
	known := map[string]string{}
	var viol []Violation
	var inconcl []string
	shardsOf := map[string]int{}
	bags := map[string]map[string][][]uint64{}
	for i := range results {
		r := &results[i]
		if r.skipped {
			continue
		}
		if r.crashed { // once more, alone: a process can be ended for lack of memory
			again := runJob(r.job, tier, seed, scratch, procs)
			*r = again
		}
		shardsOf[r.unit.Name] = r.shards
		if r.crashed {
			viol = append(viol, Violation{r.unit.Name, r.shard, "process", r.crashLog})
			continue
		}
		if r.inconcl != "" {
			inconcl = append(inconcl, fmt.Sprintf("%s/%d: %s", r.unit.Name, r.shard, r.inconcl))
			continue
		}
		evals += r.rep.Evals
		perUnit[r.unit.Name] += r.rep.Evals
		for _, d := range r.rep.Distinct {
			distinct[d] = struct{}{}
		}
		for k, v := range r.rep.Events {
			events[r.unit.Name+"/"+k] += v
		}
		if len(samplesBy[r.unit.Name]) < 2 {
			samplesBy[r.unit.Name] = append(samplesBy[r.unit.Name], r.rep.Samples...)
		}
		viol = append(viol, r.rep.Violations...)
		for k, v := range r.rep.Known {
			known[k] = v
		}
		if bags[r.unit.Name] == nil {
			bags[r.unit.Name] = map[string][][]uint64{}
		}
		for k, v := range r.rep.Bag {
			bags[r.unit.Name][k] = append(bags[r.unit.Name][k], v)
		}
	}
	for n, bag := range bags {
		if f := units[n].Finish; f != nil && all {
			for _, what := range f(bag) {
				viol = append(viol, Violation{n, -1, "all shards together", what})
			}
		}
	}
	// known findings have to be listed
	listed, _ := os.ReadFile(findings)
	for id, what := range known {
		if strings.Contains(string(listed), fmt.Sprintf("known: property=%s %s ", prop, id)) {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, what)
		} else {
			viol = append(viol, Violation{"known-finding", 0, id, "not listed: " + what})
		}
	}
	for _, n := range names {
		if u := units[n]; u.runs() && perUnit[n] == 0 && replay == "" && len(viol) == 0 {
			inconcl = append(inconcl, n+": observed nothing")
		}
	}

	var samples []string
	var rules []string
	unitNames := append([]string{}, names...)
	sort.Strings(unitNames)
	for _, n := range unitNames {
		if !units[n].runs() {
			continue
		}
		s := samplesBy[n]
		if len(s) > 5 {
			s = s[:5]
		}
		samples = append(samples, s...)
		rules = append(rules, n+": "+units[n].Rule)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule":         strings.Join(rules, " || "),
			"samples":      samples,
			"events":       events,
			"per_unit":     perUnit,
			"processes":    len(jobs),
			"inconclusive": inconcl,
		},
		"assumptions": []string{"bn256 and go-ristretto group arithmetic", "Go runtime and standard library"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	if replay == "" {
		eb, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(outDir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(viol) > 0 {
		rdir := filepath.Join(outDir, "replay")
		_ = os.MkdirAll(rdir, 0o755)
		for i, v := range viol {
			if i >= 3 {
				break
			}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "seed": seed, "tier": tier, "unit": v.Unit,
				"shard": v.Shard, "shards": shardsOf[v.Unit], "case": v.Case, "what": v.What,
				"rerun": fmt.Sprintf("bash check.sh %s %s --replay %s", prop, tier, path)}, "", " ")
			_ = os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("%s [%s/%d] case %s: %s\n", prop, v.Unit, v.Shard, v.Case, firstLines(v.What, 6))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		return 1
	}
	if len(inconcl) > 0 {
		fmt.Println("INCONCLUSIVE", prop, inconcl)
		return 2
	}
	fmt.Printf("%s held on %d evaluations, %d distinct observations, %d processes, %.1f s\n", prop, evals, len(distinct), len(jobs), time.Since(start).Seconds())
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n   ")
}

func main() {
	for _, m := range more {
		props[m[0]] = append(props[m[0]], m[1])
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	replay := flag.String("replay", "", "replay file")
	findings := flag.String("findings", "/verif/known_findings.txt", "known findings")
	child := flag.Bool("child", false, "run one shard")
	unitName := flag.String("unit", "", "unit")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	dir := flag.String("dir", "", "report directory")
	data := flag.String("data", "/verif/data", "golden vectors")
	flag.IntVar(&lite, "lite", 0, "for trying out the monitors: only so many shards of each unit, one after the other, until one reports something")
	helper := flag.String("helper", "", "helper process")
	flag.Parse()
	dataDir = *data
	if *helper != "" {
		helpers[*helper](flag.Args())
		return
	}
	if *child {
		runChild(*unitName, *shard, *shards, *tier, *seed, *dir)
		return
	}
	os.Exit(runParent(*prop, *tier, *seed, *out, *replay, *findings))
}

// helpers are entry points for fresh processes started by units.
var helpers = map[string]func(args []string){}
var dataDir string
var lite int
