// Command driver runs the check of one property: it instruments and builds the
// library as it is in the repository, runs the workers, minimises what they find
// and writes the evidence.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/instr"
	"verifsim/rt"
	"verifsim/sim"
)

type report struct {
	Runs       int64
	Stats      sim.RunStats
	Distinct   int
	Nontrivial int64
	Sites      []int32
	Strategies map[string]int64
	Linear     int64
	Samples    []string
	Other      int64
	OtherMsg   string
}

type finding struct {
	Index int64
	Msg   string
	race  string
}

// The module file replaces the library by this directory.
const repo = "/repo"

var (
	root    string
	scratch string
)

func cleanup() {
	if scratch != "" && strings.Contains(scratch, "verifsim-") {
		os.RemoveAll(scratch)
	}
}

// fail ends the check with an error that is not a verdict.
func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

func main() {
	root, _ = os.Getwd()
	var err error
	scratch, err = os.MkdirTemp("", "verifsim-")
	if err != nil {
		fail("%v", err)
	}
	sig := make(chan os.Signal, 2)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		fail("interrupted")
	}()
	if len(os.Args) < 3 {
		fail("usage: driver check PROPERTY | replay FILE | determinism PROPERTY RUNS | build DIR")
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "determinism":
		code = determinism(os.Args[2], os.Args[3])
	case "build":
		build(os.Args[2], false)
		build(os.Args[2], true)
	default:
		fail("unknown command %q", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

// build instruments the library and builds the worker.
func build(dir string, race bool) (string, *instr.Result) {
	src := filepath.Join(dir, "src")
	if err := os.MkdirAll(src, 0o755); err != nil {
		fail("%v", err)
	}
	res, err := instr.Package(repo, src)
	if err != nil {
		fail("instrumentation: %v", err)
	}
	bin := filepath.Join(dir, "worker")
	args := []string{"build", "-overlay", res.Overlay}
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	if race {
		bin += "-race"
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "-o", bin, "./cmd/worker")
	c := exec.Command("go", args...)
	c.Dir = root
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		fail("building the library with the simulator failed: %v\n%s", err, out)
	}
	return bin, res
}

func seedEnv() int64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return int64(sim.HashString(s) >> 2)
	}
	return n
}

type worker struct {
	id   int
	cmd  *exec.Cmd
	last int64
	seen time.Time
	rep  *report
	find *finding
	err  error
	tail []string
}

const watchdog = 120 * time.Second

func check(prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := seedEnv()
	pl, ok := plans[prop]
	if !ok {
		fail("unknown property %q", prop)
	}
	race := prop == "C14"
	bin, ins := build(scratch, race)
	runs, secs := pl.quick, quickSecs
	if tier == "thorough" {
		runs, secs = pl.thorough, thoroughSecs
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		runs, _ = strconv.ParseInt(s, 10, 64)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ws := make([]*worker, n)
	var mu sync.Mutex
	var wg sync.WaitGroup
	stopAll := func(except int) {
		for _, w := range ws {
			if w != nil && w.id != except && w.cmd.Process != nil {
				w.cmd.Process.Kill()
			}
		}
	}
	found := false
	explore := time.Now()
	for i := range ws {
		w := &worker{id: i, seen: time.Now(), last: -1}
		args := []string{"-prop", prop, "-seed", fmt.Sprint(uint64(seed)), "-w", fmt.Sprint(i), "-n", fmt.Sprint(n), "-runs", fmt.Sprint(runs), "-secs", fmt.Sprint(secs),
			"-out", filepath.Join(scratch, fmt.Sprintf("hashes.%d", i))}
		if race {
			args = append(args, "-race")
		}
		w.cmd = exec.Command(bin, append(args, "run")...)
		w.cmd.Env = append(os.Environ(), raceEnv(fmt.Sprintf("race.%d", i)))
		ws[i] = w
	}
	for _, w := range ws {
		w := w
		stdout, err := w.cmd.StdoutPipe()
		if err != nil {
			fail("%v", err)
		}
		stderr, err := w.cmd.StderrPipe()
		if err != nil {
			fail("%v", err)
		}
		if err := w.cmd.Start(); err != nil {
			fail("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var eg sync.WaitGroup
			eg.Add(1)
			go func() {
				defer eg.Done()
				sc := bufio.NewScanner(stderr)
				sc.Buffer(make([]byte, 1<<16), 1<<22)
				for sc.Scan() {
					if len(w.tail) < 40 {
						w.tail = append(w.tail, sc.Text())
					}
				}
				io.Copy(io.Discard, stderr)
			}()
			sc := bufio.NewScanner(stdout)
			sc.Buffer(make([]byte, 1<<16), 1<<26)
			for sc.Scan() {
				l := sc.Text()
				mu.Lock()
				w.seen = time.Now()
				switch {
				case strings.HasPrefix(l, "P "):
					w.last, _ = strconv.ParseInt(l[2:], 10, 64)
				case strings.HasPrefix(l, "V "):
					f := &finding{}
					if json.Unmarshal([]byte(l[2:]), f) == nil {
						w.find = f
					}
				case strings.HasPrefix(l, "S "):
					r := &report{}
					if err := json.Unmarshal([]byte(l[2:]), r); err != nil {
						w.err = err
					} else {
						w.rep = r
					}
				}
				mu.Unlock()
			}
			eg.Wait()
			err := w.cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			var ee *exec.ExitError
			if race && errors.As(err, &ee) && ee.ExitCode() == 66 {
				w.find = &finding{Index: w.last, race: readRace(fmt.Sprintf("race.%d", w.id))}
				err = nil
			}
			if w.find != nil && !found {
				found = true
				stopAll(w.id)
			}
			if err != nil && !found {
				w.err = err
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(500 * time.Millisecond)
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			mu.Lock()
			for _, w := range ws {
				if w.rep == nil && w.find == nil && w.err == nil && time.Since(w.seen) > watchdog {
					last := w.last
					stopAll(-1)
					mu.Unlock()
					fail("worker %d makes no progress after run %d", w.id, last)
				}
			}
			mu.Unlock()
		}
	}
	wallExplore := time.Since(explore)
	for _, w := range ws {
		if w.err != nil && !found {
			fail("worker %d: %v (last run %d)\n%s", w.id, w.err, w.last, strings.Join(w.tail, "\n"))
		}
	}
	tot := &report{Strategies: map[string]int64{}}
	sites := map[int32]bool{}
	hashes := map[uint64]bool{}
	for _, w := range ws {
		if w.rep == nil {
			continue
		}
		merge(tot, w.rep, sites)
		readHashes(filepath.Join(scratch, fmt.Sprintf("hashes.%d", w.id)), hashes)
	}
	var first *finding
	for _, w := range ws {
		if w.find != nil && (first == nil || w.find.Index < first.Index) {
			first = w.find
		}
	}
	ev := &evidence{prop: prop, tier: tier, seed: seed, tot: tot, sites: len(sites), distinct: len(hashes), ins: ins, race: race, explore: wallExplore, workers: n, planned: runs}
	if first == nil {
		ev.write(start, nil)
		fmt.Printf("%s held: %d runs, %d distinct interleavings, %d steps, %.1fs\n", prop, tot.Runs, len(hashes), tot.Stats.Steps, time.Since(start).Seconds())
		if tot.Other > 0 {
			fmt.Printf("note: %d mismatches belonging to other properties were seen, e.g. %s\n", tot.Other, tot.OtherMsg)
		}
		return 0
	}
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, first.Index))
	limit := 60.0
	var msg string
	if race {
		msg = shrinkRace(bin, ins, prop, seed, first, path)
	} else {
		msg = shrinkModel(bin, prop, seed, first, path, limit)
	}
	ev.write(start, []map[string]any{{"message": msg, "replay": path, "run_index": first.Index}})
	fmt.Printf("%s\n", msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func raceEnv(name string) string {
	return "GORACE=halt_on_error=1 exitcode=66 log_path=" + filepath.Join(scratch, name)
}

func readRace(name string) string {
	fs, _ := filepath.Glob(filepath.Join(scratch, name+".*"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
			return string(b)
		}
	}
	return ""
}

// libraryRace tells whether one of the two accesses of a race report was made by
// the library.
func libraryRace(rep string) bool {
	i := strings.Index(rep, "Goroutine ")
	if i > 0 {
		rep = rep[:i]
	}
	return strings.Contains(rep, "go-immutable-adaptive-radix")
}

func shrinkModel(bin, prop string, seed int64, f *finding, path string, limit float64) string {
	c := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(uint64(seed)), "-index", fmt.Sprint(f.Index), "-secs", fmt.Sprint(limit),
		"-out", path, "-sites", filepath.Join(scratch, "src", "sites.json"), "shrink")
	if out, err := runTimeout(c, 5*time.Minute); err != nil {
		fail("run %d reported %q but it could not be reproduced: %v\n%s", f.Index, f.Msg, err, out)
	}
	// a separate process has to reproduce it exactly
	c = exec.Command(bin, "-file", path, "-times", "2", "replay")
	out, err := runTimeout(c, 5*time.Minute)
	var ee *exec.ExitError
	if !errors.As(err, &ee) || ee.ExitCode() != 1 {
		fail("run %d reported %q but its minimised replay does not reproduce: %v\n%s", f.Index, f.Msg, err, out)
	}
	rp := load(path)
	return rp.Message
}

func load(path string) *sim.Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var rp sim.Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fail("%s: %v", path, err)
	}
	return &rp
}

func store(path string, rp *sim.Replay) {
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail("%v", err)
	}
}

func runTimeout(c *exec.Cmd, d time.Duration) ([]byte, error) {
	t := time.AfterFunc(d, func() {
		if c.Process != nil {
			c.Process.Kill()
		}
	})
	defer t.Stop()
	return c.CombinedOutput()
}

var raceN int

// tryRace executes a replay under the race detector.
func tryRace(bin string, rp *sim.Replay) (string, bool) {
	raceN++
	name := fmt.Sprintf("try.%d", raceN)
	file := filepath.Join(scratch, name+".json")
	store(file, rp)
	c := exec.Command(bin, "-file", file, "replay")
	c.Env = append(os.Environ(), raceEnv(name))
	_, err := runTimeout(c, time.Minute)
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 66 {
		l := readRace(name)
		return l, libraryRace(l)
	}
	return "", false
}

func shrinkRace(bin string, ins *instr.Result, prop string, seed int64, f *finding, path string) string {
	if !libraryRace(f.race) {
		fail("race report of run %d does not involve the library:\n%s", f.Index, f.race)
	}
	// The plain worker follows the same schedule and lives to tell it.
	plain, _ := build(scratch, false)
	c := exec.Command(plain, "-prop", prop, "-seed", fmt.Sprint(uint64(seed)), "-index", fmt.Sprint(f.Index), "-out", path, "trace")
	if out, err := runTimeout(c, time.Minute); err != nil {
		fail("run %d raced but its schedule could not be recorded: %v\n%s", f.Index, err, out)
	}
	rp := load(path)
	log, ok := tryRace(bin, rp)
	if !ok {
		fail("run %d raced but its recorded schedule does not:\n%s", f.Index, f.race)
	}
	p, ds := sim.Shrink(rp.Program, rp.Decisions, 60*time.Second, func(p *sim.Program, ds []rt.Decision) ([]rt.Decision, bool) {
		q := *rp
		q.Program, q.Decisions = p, ds
		l, ok := tryRace(bin, &q)
		if ok {
			log = l
		}
		return ds, ok
	})
	rp.Program, rp.Decisions = p, ds
	// record the schedule actually followed
	store(path, rp)
	c = exec.Command(plain, "-file", path, "replay")
	out, err := runTimeout(c, time.Minute)
	if err == nil {
		if fs := strings.SplitN(strings.TrimSpace(string(out)), " ", 3); len(fs) == 3 && fs[0] == "R" {
			var nd []rt.Decision
			if json.Unmarshal([]byte(fs[2]), &nd) == nil {
				q := *rp
				q.Decisions = nd
				if l, ok := tryRace(bin, &q); ok {
					rp.Decisions = nd
					rp.TraceHash = fs[1]
					log = l
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		if _, ok := tryRace(bin, rp); !ok {
			fail("minimised race of run %d does not reproduce", f.Index)
		}
	}
	rp.RaceLog = log
	rp.Message = raceMessage(log)
	rp.Readable = sim.Readable(rp.Program, rp.Decisions, ins.Sites)
	store(path, rp)
	return rp.Message
}

var frameRe = regexp.MustCompile(`(?m)^  (\S*go-immutable-adaptive-radix\S*?)\(\)\n\s+(\S+)`)

func raceMessage(log string) string {
	if i := strings.Index(log, "Goroutine "); i > 0 {
		log = log[:i]
	}
	m := frameRe.FindAllStringSubmatch(log, -1)
	s := "data race"
	seen := map[string]bool{}
	for _, x := range m {
		fn := x[1][strings.LastIndex(x[1], "/")+1:]
		if !seen[fn] && len(seen) < 4 {
			seen[fn] = true
			s += " " + fn
		}
	}
	return s
}

func replay(path string) int {
	rp := load(path)
	bin, _ := build(scratch, rp.Race)
	if rp.Race {
		log, ok := tryRace(bin, rp)
		if !ok {
			fmt.Println("not reproduced")
			return 0
		}
		fmt.Print(log)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		return 1
	}
	c := exec.Command(bin, "-file", path, "-times", "3", "replay")
	out, err := runTimeout(c, 5*time.Minute)
	os.Stdout.Write(out)
	for _, l := range rp.Readable {
		fmt.Println("  " + l)
	}
	if err == nil {
		return 0
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && (ee.ExitCode() == 1 || ee.ExitCode() == 4) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		return 1
	}
	return 3
}

// determinism executes the same runs in several processes and compares.
func determinism(prop, runs string) int {
	bin, _ := build(scratch, false)
	var outs []string
	for i := 0; i < 3; i++ {
		c := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(seedEnv()), "-runs", runs, "determinism")
		c.Env = append(os.Environ(), fmt.Sprintf("GOGC=%d", []int{20, 100, 1000}[i]))
		out, err := c.CombinedOutput()
		if err != nil {
			fail("%v\n%s", err, out)
		}
		outs = append(outs, string(out))
	}
	if outs[0] != outs[1] || outs[1] != outs[2] {
		fmt.Println("NOT DETERMINISTIC")
		return 1
	}
	bad := strings.Count(outs[0], " false ")
	fmt.Printf("%s: %s runs identical in 3 processes, %d replays from the recorded schedule differ\n", prop, runs, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func merge(t, r *report, sites map[int32]bool) {
	t.Runs += r.Runs
	t.Nontrivial += r.Nontrivial
	t.Linear += r.Linear
	t.Other += r.Other
	if t.OtherMsg == "" {
		t.OtherMsg = r.OtherMsg
	}
	t.Samples = append(t.Samples, r.Samples...)
	for k, v := range r.Strategies {
		t.Strategies[k] += v
	}
	for _, s := range r.Sites {
		sites[s] = true
	}
	a, b := &t.Stats, &r.Stats
	a.Ops += b.Ops
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.Inside += b.Inside
	a.Checks += b.Checks
	a.Watches += b.Watches
	a.Woken += b.Woken
	a.Released += b.Released
	a.Versions += b.Versions
	a.Blocks += b.Blocks
	for i := range b.Faults {
		a.Faults[i] += b.Faults[i]
	}
	for i := range b.Kinds {
		a.Kinds[i] += b.Kinds[i]
	}
	if b.MaxOp > a.MaxOp {
		a.MaxOp = b.MaxOp
	}
	if b.MaxKeys > a.MaxKeys {
		a.MaxKeys = b.MaxKeys
	}
}

func readHashes(file string, m map[uint64]bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = true
	}
}

type evidence struct {
	prop, tier      string
	seed            int64
	tot             *report
	sites, distinct int
	ins             *instr.Result
	race            bool
	explore         time.Duration
	workers         int
	planned         int64
}

func (e *evidence) write(start time.Time, viol []map[string]any) {
	s := &e.tot.Stats
	faults := map[string]int64{}
	for i, n := range s.Faults {
		if n > 0 {
			faults[sim.FaultNames[i]] = n
		}
	}
	kinds := map[string]int64{}
	for i, n := range s.Kinds {
		if n > 0 {
			kinds[sim.Kind(i).String()] = n
		}
	}
	oracle := "reference model (sorted map per version, write sets per transaction); see DESIGN.md"
	if e.race {
		oracle = "happens-before race detector; the scheduler adds no synchronisation of its own"
	}
	samples := e.tot.Samples
	if len(samples) > 3 {
		samples = samples[:3]
	}
	if samples == nil {
		samples = []string{}
	}
	sort.Strings(e.ins.Files)
	hours := e.explore.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	cov := map[string]any{
		"evaluations":         e.tot.Runs,
		"distinct_nontrivial": e.distinct,
		"rule": "one evaluation is one simulated run: a generated program of 1-5 tasks over shared versions, executed under one seeded schedule and checked by the oracle. " +
			"Non-trivial: at least one context switch inside a library operation. Distinct: different sequence of context switches, each identified by the operation, the statement, the number of yields into the operation and the task switched to.",
		"samples":                   samples,
		"planned_runs":              e.planned,
		"runs_with_inner_switch":    e.tot.Nontrivial,
		"seeds_per_hour":            int64(float64(e.tot.Runs) / hours),
		"simulated_steps":           s.Steps,
		"simulated_operations":      s.Ops,
		"operations_by_kind":        kinds,
		"context_switches":          s.Switches,
		"switches_inside_ops":       s.Inside,
		"yield_sites":               e.ins.Stmts,
		"yield_sites_preempted":     e.sites,
		"schedule_strategies":       e.tot.Strategies,
		"faults_fired":              faults,
		"linear_history_runs":       e.tot.Linear,
		"oracle_checks":             s.Checks,
		"versions_created":          s.Versions,
		"watches_registered":        s.Watches,
		"watches_fired":             s.Woken,
		"values_released":           s.Released,
		"largest_version_keys":      s.MaxKeys,
		"longest_operation_steps":   s.MaxOp,
		"lock_waits":                s.Blocks,
		"worker_processes":          e.workers,
		"exploration_wall_s":        e.explore.Seconds(),
		"components_real":           e.ins.Files,
		"components_stubbed":        []string{"goroutine scheduling (one task at a time, switched at yield points)", "package sync and the clock, if the library uses them"},
		"mismatches_of_other_props": e.tot.Other,
		"oracle":                    oracle,
	}
	doc := map[string]any{
		"property": e.prop,
		"tier":     e.tier,
		"seed":     e.seed,
		"level":    "exploration",
		"coverage": cov,
		"wall_s":   time.Since(start).Seconds(),
		"assumptions": []string{
			"tasks are switched between statements of the library, so interleavings inside one statement are covered only by the race detector (property C14)",
			"the runs are a sample of programs and schedules; nothing is claimed about the ones not run",
		},
	}
	if viol != nil {
		doc["violations"] = viol
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", e.prop+".json"), b, 0o644); err != nil {
		fail("%v", err)
	}
}
