// Command worker executes simulated runs. It is built against the instrumented
// library by the driver.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/rt"
	"verifsim/sim"
)

// Report is what a worker prints at the end of its share.
type Report struct {
	Runs       int64
	Stats      sim.RunStats
	Distinct   int
	Nontrivial int64
	Sites      []int32
	Strategies map[string]int64
	Linear     int64
	Frozen     int64
	Samples    []string
	MaxKeys    int
	Other      int64 // violations of other properties seen on the way
	OtherMsg   string
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	w := flag.Int64("w", 0, "share")
	n := flag.Int64("n", 1, "shares")
	runs := flag.Int64("runs", 1000, "runs in all shares")
	secs := flag.Float64("secs", 10, "time cap")
	race := flag.Bool("race", false, "no oracle, the race detector decides")
	index := flag.Int64("index", -1, "")
	out := flag.String("out", "", "")
	sites := flag.String("sites", "", "")
	file := flag.String("file", "", "")
	times := flag.Int("times", 1, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(3 << 30)
	switch flag.Arg(0) {
	case "run":
		share(*prop, *seed, *w, *n, *runs, *secs, *race, *out)
	case "shrink":
		shrink(*prop, *seed, *index, *secs, *out, *sites)
	case "trace":
		trace(*prop, *seed, *index, *out)
	case "replay":
		replay(*file, *times)
	case "determinism":
		determinism(*prop, *seed, *runs)
	default:
		fatal("unknown mode")
	}
}

func runSeed(seed uint64, prop string, i int64) uint64 {
	return sim.Mix(sim.Mix(seed, sim.HashString(prop)), uint64(i))
}

func share(prop string, seed uint64, w, n, runs int64, secs float64, race bool, out string) {
	start := time.Now()
	rep := &Report{Strategies: map[string]int64{}}
	hashes := map[uint64]bool{}
	siteSet := map[int32]bool{}
	last := time.Now()
	buf := bufio.NewWriter(os.Stdout)
	for i := w; i < runs; i += n {
		if time.Since(start).Seconds() > secs {
			break
		}
		if race || time.Since(last) > time.Second {
			fmt.Fprintf(buf, "P %d\n", i)
			buf.Flush()
			last = time.Now()
		}
		rs := runSeed(seed, prop, i)
		p := sim.Generate(prop, rs)
		var res *sim.Result
		var v *sim.Violation
		if race {
			res = sim.Exec(p, rs, nil, true)
		} else {
			v, res = sim.Judge(p, rs, nil)
		}
		add(rep, p, rs, res)
		if res.Stats.Inside > 0 {
			hashes[res.Stats.TraceHash] = true
		}
		for _, d := range res.Trace {
			if d.At > 0 {
				siteSet[d.Site] = true
			}
		}
		if len(rep.Samples) < 2 && res.Stats.Inside > 0 && w == 0 {
			rep.Samples = append(rep.Samples, sample(p, rs, i, res))
		}
		if v != nil {
			j, _ := json.Marshal(map[string]any{"index": i, "msg": v.Msg})
			fmt.Fprintf(buf, "V %s\n", j)
			break
		}
		for _, o := range res.Viol {
			rep.Other++
			if rep.OtherMsg == "" {
				rep.OtherMsg = fmt.Sprintf("run %d: %v %s", i, o.Tags, o.Msg)
			}
		}
	}
	rep.Distinct = len(hashes)
	for s := range siteSet {
		rep.Sites = append(rep.Sites, s)
	}
	if out != "" {
		f, err := os.Create(out)
		if err != nil {
			fatal("%v", err)
		}
		b := bufio.NewWriter(f)
		for h := range hashes {
			binary.Write(b, binary.LittleEndian, h)
		}
		b.Flush()
		f.Close()
	}
	j, _ := json.Marshal(rep)
	fmt.Fprintf(buf, "S %s\n", j)
	buf.Flush()
}

func add(rep *Report, p *sim.Program, rs uint64, res *sim.Result) {
	rep.Runs++
	s := &rep.Stats
	t := &res.Stats
	s.Ops += t.Ops
	s.Steps += t.Steps
	s.Switches += t.Switches
	s.Inside += t.Inside
	s.Checks += t.Checks
	s.Watches += t.Watches
	s.Woken += t.Woken
	s.Released += t.Released
	s.Versions += t.Versions
	s.Blocks += t.Blocks
	for i := range t.Faults {
		s.Faults[i] += t.Faults[i]
	}
	for i := range t.Kinds {
		s.Kinds[i] += t.Kinds[i]
	}
	if t.MaxOp > s.MaxOp {
		s.MaxOp = t.MaxOp
	}
	if t.MaxKeys > s.MaxKeys {
		s.MaxKeys = t.MaxKeys
	}
	if t.Inside > 0 {
		rep.Nontrivial++
	}
	if p.Linear {
		rep.Linear++
	}
	_, name := sim.NewRandStrat(rs, p)
	rep.Strategies[name]++
}

func sample(p *sim.Program, rs uint64, i int64, res *sim.Result) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "run %d seed %d: %d initial steps, tasks ", i, rs, len(p.Init))
	for _, t := range p.Tasks {
		sb.WriteString("[")
		for j, o := range t {
			if j > 0 {
				sb.WriteString(" ")
			}
			if j >= 12 {
				sb.WriteString("...")
				break
			}
			sb.WriteString(o.Short())
		}
		sb.WriteString("] ")
	}
	fmt.Fprintf(&sb, "; %d switches, %d inside operations", res.Stats.Switches, res.Stats.Inside)
	return sb.String()
}

func loadSites(file string) []string {
	var s []string
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &s)
	}
	return s
}

func shrink(prop string, seed uint64, index int64, secs float64, out, sitesFile string) {
	rs := runSeed(seed, prop, index)
	p := sim.Generate(prop, rs)
	v, res := sim.Judge(p, rs, nil)
	if v == nil {
		fatal("run %d does not fail again", index)
	}
	ds := res.Trace
	v2, res2 := sim.Judge(p, 0, ds)
	if v2 == nil || v2.Msg != v.Msg || res2.Stats.TraceHash != res.Stats.TraceHash {
		if v2 == nil {
			fatal("schedule of run %d does not reproduce %q", index, v.Msg)
		}
	}
	q, qd := sim.Shrink(p, ds, time.Duration(secs*float64(time.Second)), func(p *sim.Program, ds []rt.Decision) ([]rt.Decision, bool) {
		v, r := sim.Judge(p, 0, ds)
		return r.Trace, v != nil
	})
	fv, fr := sim.Judge(q, 0, qd)
	if fv == nil {
		fatal("minimised schedule of run %d does not fail", index)
	}
	rp := &sim.Replay{Property: prop, Message: fv.Msg, Seed: rs, Index: index, Program: q, Decisions: fr.Trace,
		TraceHash: fmt.Sprintf("%016x", fr.Stats.TraceHash), Steps: fr.Stats.Steps, Original: v.Msg}
	rp.Readable = sim.Readable(q, fr.Trace, loadSites(sitesFile))
	write(out, rp)
}

// trace writes the complete, unminimised execution of a run of the race mode.
func trace(prop string, seed uint64, index int64, out string) {
	rs := runSeed(seed, prop, index)
	p := sim.Generate(prop, rs)
	res := sim.Exec(p, rs, nil, true)
	write(out, &sim.Replay{Property: prop, Seed: rs, Index: index, Race: true, Program: p, Decisions: res.Trace,
		TraceHash: fmt.Sprintf("%016x", res.Stats.TraceHash), Steps: res.Stats.Steps})
}

func write(out string, rp *sim.Replay) {
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func replay(file string, times int) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rp sim.Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	if rp.Race {
		// the race detector ends the process with its own exit code
		res := sim.Exec(rp.Program, 0, rp.Decisions, true)
		j, _ := json.Marshal(res.Trace)
		fmt.Printf("R %016x %s\n", res.Stats.TraceHash, j)
		return
	}
	for i := 0; i < times; i++ {
		v, res := sim.Judge(rp.Program, 0, rp.Decisions)
		if v == nil {
			fmt.Println("not reproduced")
			os.Exit(0)
		}
		h := fmt.Sprintf("%016x", res.Stats.TraceHash)
		if v.Msg != rp.Message || h != rp.TraceHash {
			fmt.Printf("reproduced differently: %s (schedule %s, recorded %s)\n", v.Msg, h, rp.TraceHash)
			os.Exit(4)
		}
	}
	fmt.Printf("reproduced: %s\n", rp.Message)
	os.Exit(1)
}

// determinism prints a digest of every run, for comparison between processes.
func determinism(prop string, seed uint64, runs int64) {
	for i := int64(0); i < runs; i++ {
		rs := runSeed(seed, prop, i)
		p := sim.Generate(prop, rs)
		res := sim.Exec(p, rs, nil, prop == "C14")
		p2 := sim.Generate(prop, rs)
		r2 := sim.Exec(p2, 0, res.Trace, prop == "C14")
		msg := ""
		for _, v := range res.Viol {
			msg += v.Msg + ";"
		}
		r2.Stats.Faults[sim.FStall] = res.Stats.Faults[sim.FStall]
		same := r2.Stats == res.Stats
		if !same && os.Getenv("DBG") != "" {
			fmt.Printf("%+v\n%+v\n%d cut %v\n", res.Stats, r2.Stats, len(res.Trace), res.Cut)
		}
		fmt.Printf("%d %016x %d %d %d %d %v %s\n", i, res.Stats.TraceHash, res.Stats.Steps, res.Stats.Ops, res.Stats.Checks, res.Stats.Woken, same, msg)
	}
}
