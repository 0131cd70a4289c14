package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-restruct/restruct"
)

const (
	exitOK      = 0
	exitFail    = 1
	exitHarness = 5
	exitHang    = 6
)

// replayFile is what a VIOLATION line points at.
type replayFile struct {
	Property string   `json:"property"`
	Message  string   `json:"message"`
	Mode     string   `json:"mode"` // draws, seed, prefix, sweep
	Draws    []uint64 `json:"draws,omitempty"`
	Seed     uint64   `json:"seed"`
	Shard    int      `json:"shard"`
	Case     int      `json:"case"`
	Thorough bool     `json:"thorough"`
	Notes    []string `json:"case_text"`
	Output   string   `json:"output,omitempty"`
}

type workerResult struct {
	Cases      int                 `json:"cases"`
	Discards   map[string]int      `json:"discards"`
	Classes    map[string]int      `json:"classes"`
	Nontrivial int                 `json:"nontrivial"`
	Sigs       []uint64            `json:"sigs"`
	Samples    []map[string]string `json:"samples"`
	Known      map[string]int      `json:"known"`
	KnownText  map[string]string   `json:"known_text"`
	Swept      int                 `json:"swept"`
	TimedOut   bool                `json:"timed_out"`
	Error      string              `json:"error"`
	Fail       *replayFile         `json:"fail"`
	Wall       float64             `json:"wall"`
}

func caseSeed(seed uint64, shard, i int) uint64 { return mix(seed, uint64(shard), uint64(i)) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(exitHarness)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		for _, id := range sortedProps() {
			fmt.Println(id + "\t" + props[id].Tech)
		}
	default:
		os.Exit(exitHarness)
	}
}

func sortedProps() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func setupProcess(p *Prop) {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(2500 << 20)
	if p.ID != "C20" {
		// Every layout leaves types behind that the collector has to walk
		// over, and eight workers run at a time.
		debug.SetGCPercent(400)
		runtime.GOMAXPROCS(2)
	}
	if !p.NoExpr {
		restruct.EnableExprBeta()
	}
}

// watchdog ends the process when one case runs for too long or memory runs away.
func watchdog(start *int64, limit time.Duration) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(start)
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG: case exceeded %v\n%s\n", limit, buf)
				os.Exit(exitHang)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 5<<30 {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG: heap %d bytes\n%s\n", m.HeapAlloc, buf)
				os.Exit(exitHang)
			}
		}
	}()
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	thor := fs.Bool("thor", false, "")
	state := fs.String("state", "", "")
	out := fs.String("out", "", "")
	deadline := fs.Float64("deadline", 60, "")
	caseLimit := fs.Float64("caselimit", 40, "")
	shrinkBudget := fs.Int("shrink", 4000, "")
	sweep := fs.Bool("sweep", false, "")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		return exitHarness
	}
	setupProcess(p)
	res := &workerResult{Discards: map[string]int{}, Classes: map[string]int{}, Known: map[string]int{}, KnownText: map[string]string{}}
	t0 := time.Now()
	var stateF *os.File
	if *state != "" {
		stateF, _ = os.Create(*state)
	}
	var start int64
	watchdog(&start, time.Duration(*caseLimit*float64(time.Second)))
	finish := func(code int) int {
		atomic.StoreInt64(&start, 0)
		res.Wall = time.Since(t0).Seconds()
		b, err := json.Marshal(res)
		if err != nil || ioutil.WriteFile(*out, b, 0644) != nil {
			return exitHarness
		}
		return code
	}
	mark := func(i int) {
		atomic.StoreInt64(&start, time.Now().UnixNano())
		if stateF != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(int64(i)))
			stateF.WriteAt(b[:], 0)
		}
	}
	fail := func(o outcome, mode string, i int, draws []uint64) {
		rf := &replayFile{Property: p.ID, Message: o.msg, Mode: mode, Seed: *seed, Shard: *shard, Case: i, Thorough: *thor, Draws: draws}
		res.Fail = rf
	}
	if *sweep && p.Sweep != nil {
		mark(-1)
		c := newSeeded(mix(*seed, 777), *thor)
		c.verbose = true
		var n int
		sp := &Prop{ID: p.ID, Run: func(c *C) { n = p.Sweep(c, *thor) }}
		o := runCase(sp, c)
		res.Swept = n
		for _, k := range c.classes {
			res.Classes[k]++
		}
		for _, k := range c.known {
			res.Known[k]++
		}
		if o.status == "harness" {
			res.Error = o.msg
			return finish(exitHarness)
		}
		if o.status == "fail" {
			fail(o, "sweep", -1, nil)
			res.Fail.Notes = c.notes
			return finish(exitFail)
		}
	}
	sigs := map[uint64]bool{}
	for i := *from; i < *to; i++ {
		if time.Since(t0).Seconds() > *deadline {
			res.TimedOut = true
			break
		}
		mark(i)
		cs := caseSeed(*seed, *shard, i)
		c := newSeeded(cs, *thor)
		c.verbose = p.NoExpr // such a case runs only once per process
		o := runCase(p, c)
		switch o.status {
		case "ok":
			res.Cases++
			if c.nontriv {
				res.Nontrivial++
				sigs[c.sig()] = true
				if len(res.Samples) < 3 && !p.NoExpr {
					v := newSeeded(cs, *thor)
					v.verbose = true
					if runCase(p, v).status == "ok" {
						res.Samples = append(res.Samples, map[string]string{"case": fmt.Sprintf("seed %d shard %d case %d", *seed, *shard, i), "text": clip(strings.Join(v.notes, "\n"), 2500)})
					}
				} else if len(res.Samples) < 1 {
					res.Samples = append(res.Samples, map[string]string{"case": fmt.Sprintf("seed %d shard %d case %d", *seed, *shard, i), "text": clip(strings.Join(c.notes, "\n"), 2500)})
				}
			}
			for _, k := range c.classes {
				res.Classes[k]++
			}
			for _, k := range c.known {
				res.Known[k]++
			}
		case "discard":
			res.Discards[o.msg]++
		case "harness":
			res.Error = fmt.Sprintf("case %d: %s", i, o.msg)
			fmt.Fprintln(os.Stderr, res.Error)
			return finish(exitHarness)
		case "fail":
			res.Cases++
			draws := c.log
			if *shrinkBudget > 0 && !p.NoExpr {
				stop := time.Now().Add(25 * time.Second)
				draws = shrink(p, c.log, *thor, *shrinkBudget, func() {
					mark(i)
					if time.Now().After(stop) {
						*shrinkBudget = 0
					}
				})
			}
			if p.NoExpr {
				fail(o, "draws", i, draws)
				res.Fail.Notes = c.notes
				return finish(exitFail)
			}
			// final run for the text
			v := newReplay(draws, *thor)
			v.verbose = true
			o2 := runCase(p, v)
			if o2.status == "fail" {
				o = o2
			}
			fail(o, "draws", i, draws)
			res.Fail.Notes = v.notes
			return finish(exitFail)
		}
	}
	for s := range sigs {
		res.Sigs = append(res.Sigs, s)
	}
	return finish(exitOK)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runReplay executes a replay file in this process.
func runReplay(rf *replayFile, verbose bool) outcome {
	p := props[rf.Property]
	switch rf.Mode {
	case "draws":
		c := newReplay(rf.Draws, rf.Thorough)
		c.verbose = verbose
		o := runCase(p, c)
		if verbose {
			fmt.Println(strings.Join(c.notes, "\n"))
		}
		return o
	case "seed":
		c := newSeeded(caseSeed(rf.Seed, rf.Shard, rf.Case), rf.Thorough)
		c.verbose = verbose
		o := runCase(p, c)
		if verbose {
			fmt.Println(strings.Join(c.notes, "\n"))
		}
		return o
	case "sweep":
		c := newSeeded(mix(rf.Seed, 777), rf.Thorough)
		c.verbose = verbose
		o := runCase(&Prop{ID: p.ID, Run: func(c *C) { p.Sweep(c, rf.Thorough) }}, c)
		if verbose {
			fmt.Println(strings.Join(c.notes, "\n"))
		}
		return o
	case "prefix":
		var o outcome
		for i := 0; i <= rf.Case; i++ {
			c := newSeeded(caseSeed(rf.Seed, rf.Shard, i), rf.Thorough)
			c.verbose = verbose && i == rf.Case
			o = runCase(p, c)
			if verbose && i == rf.Case {
				fmt.Println(strings.Join(c.notes, "\n"))
			}
			if o.status == "fail" {
				return o
			}
		}
		return o
	}
	return outcome{"harness", "unknown replay mode"}
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	out := fs.String("out", "", "write the draws and the text of the case to this file")
	fs.Parse(args)
	b, err := ioutil.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || props[rf.Property] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return exitHarness
	}
	p := props[rf.Property]
	setupProcess(p)
	start := time.Now().UnixNano()
	watchdog(&start, 120*time.Second)
	if *out != "" {
		c := newReplay(rf.Draws, rf.Thorough)
		c.verbose = true
		o := runCase(p, c)
		b, _ := json.Marshal(replayFile{Message: o.msg, Draws: c.log, Notes: c.notes})
		if o.status != "fail" || ioutil.WriteFile(*out, b, 0644) != nil {
			return exitOK
		}
		return exitFail
	}
	o := runReplay(&rf, !*quiet)
	if !*quiet {
		fmt.Println(o.status, o.msg)
	}
	switch o.status {
	case "ok", "discard":
		return exitOK
	case "fail":
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
		return exitFail
	}
	return exitHarness
}

type proc struct {
	code int
	out  []byte
}

func runSelf(limit time.Duration, args ...string) proc {
	cmd := exec.Command(os.Args[0], args...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return proc{-1, []byte(err.Error())}
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return proc{code, buf.Bytes()}
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "")
	ncases := fs.Int("n", 0, "cases per shard (0: the tier's number)")
	nshards := fs.Int("shards", 0, "")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return exitHarness
	}
	if *seed == 0 {
		*seed = 0x5eed
	}
	os.Setenv("VERIF_HOME", *verif)
	t0 := time.Now()
	thor := *tier == "thorough"
	shards, n, deadline := 12, p.Quick, 90.0
	if thor {
		shards, n, deadline = 8, p.Thor, 1500.0
	}
	if p.Shards > 0 {
		shards = p.Shards
		if thor {
			shards *= 10
		}
	}
	if *nshards > 0 {
		shards = *nshards
	}
	if *ncases > 0 {
		n = *ncases
	}
	caseLimit := "40"
	results := make([]*workerResult, shards)
	procs := make([]proc, shards)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var failed int32
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if atomic.LoadInt32(&failed) != 0 && (p.Shards > 0 || !thor) {
				procs[s].code = exitOK
				return
			}
			out := filepath.Join(*work, fmt.Sprintf("out%d", s))
			state := filepath.Join(*work, fmt.Sprintf("state%d", s))
			a := []string{"worker", "-prop", p.ID, "-seed", fmt.Sprint(*seed), "-shard", fmt.Sprint(s), "-to", fmt.Sprint(n),
				"-state", state, "-out", out, "-deadline", fmt.Sprint(deadline), "-caselimit", caseLimit}
			if thor {
				a = append(a, "-thor")
			}
			if s == 0 {
				a = append(a, "-sweep")
			}
			procs[s] = runSelf(time.Duration(deadline+300)*time.Second, a...)
			if procs[s].code != exitOK {
				atomic.StoreInt32(&failed, 1)
			}
			if b, err := ioutil.ReadFile(out); err == nil {
				r := &workerResult{}
				if json.Unmarshal(b, r) == nil {
					results[s] = r
				}
			}
		}(s)
	}
	wg.Wait()

	// Decide.
	var viol *replayFile
	harnessErr := ""
	for s := 0; s < shards; s++ {
		switch procs[s].code {
		case exitOK:
		case exitFail:
			if results[s] != nil && results[s].Fail != nil && viol == nil {
				viol = results[s].Fail
			} else if results[s] == nil {
				harnessErr = fmt.Sprintf("shard %d: exit 1 without result\n%s", s, procs[s].out)
			}
		case exitHarness:
			msg := string(procs[s].out)
			if results[s] != nil {
				msg = results[s].Error
			}
			harnessErr = fmt.Sprintf("shard %d: %s", s, msg)
		default: // crash or hang
			i := -2
			if b, err := ioutil.ReadFile(filepath.Join(*work, fmt.Sprintf("state%d", s))); err == nil && len(b) == 8 {
				i = int(int64(binary.LittleEndian.Uint64(b)))
			}
			rf := &replayFile{Property: p.ID, Seed: *seed, Shard: s, Case: i, Thorough: thor, Output: clip(string(procs[s].out), 8000)}
			if i == -1 {
				rf.Mode = "sweep"
			} else {
				rf.Mode = "seed"
			}
			if p.Race && raceIn(procs[s].out) {
				rf.Message = "data race or unsynchronised map access reported by the race detector / runtime"
				if viol == nil {
					viol = rf
				}
				continue
			}
			if i == -2 {
				harnessErr = fmt.Sprintf("shard %d ended with %d before its first case\n%s", s, procs[s].code, clip(string(procs[s].out), 4000))
				continue
			}
			if viol != nil {
				continue
			}
			path := filepath.Join(*work, "confirm.json")
			confirmed := false
			for _, mode := range []string{rf.Mode, "prefix"} {
				if mode == "prefix" && i < 0 {
					continue
				}
				rf.Mode = mode
				b, _ := json.Marshal(rf)
				ioutil.WriteFile(path, b, 0644)
				pr := runSelf(200*time.Second, "replay", "-q", path)
				// 1: the oracle fails; 2: Go runtime fatal error; 6: watchdog
				if pr.code == exitFail || pr.code == 2 || pr.code == exitHang {
					confirmed = true
					rf.Message = "the process died or hung in this case (and again in a fresh process)"
					rf.Output = clip(string(pr.out), 8000)
					break
				}
			}
			if confirmed {
				viol = rf
			} else {
				harnessErr = fmt.Sprintf("shard %d died in case %d (code %d), not reproduced\n%s", s, i, procs[s].code, clip(string(procs[s].out), 4000))
			}
		}
	}
	if viol != nil && p.NoExpr && viol.Mode == "draws" {
		shrinkInProcesses(viol, *work)
	}
	if viol != nil {
		rdir := filepath.Join(*verif, "replays")
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-seed%d-%s.json", p.ID, *seed, *tier))
		write := func() {
			b, _ := json.MarshalIndent(viol, "", " ")
			ioutil.WriteFile(path, b, 0644)
		}
		write()
		if viol.Mode == "draws" && !p.Race && viol.Output == "" {
			pr := runSelf(200*time.Second, "replay", "-q", path)
			if pr.code != exitFail {
				// depends on the history of the process: keep the whole prefix
				viol.Mode = "seed"
				write()
				if pr = runSelf(200*time.Second, "replay", "-q", path); pr.code != exitFail {
					viol.Mode = "prefix"
					write()
				}
			}
		}
		fmt.Printf("%s\n", clip(viol.Message, 3000))
		for _, l := range viol.Notes {
			fmt.Printf("  | %s\n", clip(l, 1500))
		}
		if viol.Output != "" {
			fmt.Printf("%s\n", clip(viol.Output, 3000))
		}
		writeEvidence(p, *tier, *seed, *verif, results, time.Since(t0).Seconds(), 1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return exitFail
	}
	if harnessErr != "" {
		fmt.Printf("CHECK ERROR property=%s: %s\n", p.ID, clip(harnessErr, 6000))
		return exitHarness
	}
	writeEvidence(p, *tier, *seed, *verif, results, time.Since(t0).Seconds(), 0)
	tot := 0
	for _, r := range results {
		if r != nil {
			tot += r.Cases + r.Swept
		}
	}
	for _, l := range knownLines(*verif, p.ID, results) {
		fmt.Println(l)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d wall=%.1fs\n", p.ID, *tier, *seed, tot, time.Since(t0).Seconds())
	return exitOK
}

// shrinkInProcesses shrinks a case of a property whose cases need a fresh process.
func shrinkInProcesses(viol *replayFile, work string) {
	path := filepath.Join(work, "shrink.json")
	out := path + ".out"
	var last replayFile
	run := func(d []uint64) (bool, []uint64) {
		rf := *viol
		rf.Draws = d
		b, _ := json.Marshal(rf)
		ioutil.WriteFile(path, b, 0644)
		os.Remove(out)
		pr := runSelf(60*time.Second, "replay", "-q", "-out", out, path)
		if pr.code != exitFail {
			return false, nil
		}
		b, err := ioutil.ReadFile(out)
		if err != nil || json.Unmarshal(b, &last) != nil {
			return false, nil
		}
		return true, last.Draws
	}
	budget := 1500
	stop := time.Now().Add(40 * time.Second)
	d := shrinkBy(viol.Draws, budget, func() {}, func(d []uint64) (bool, []uint64) {
		if time.Now().After(stop) {
			return false, nil
		}
		return run(d)
	})
	if ok, _ := run(d); ok {
		viol.Draws, viol.Notes, viol.Message = d, last.Notes, last.Message
	}
}

func raceIn(out []byte) bool {
	return (bytes.Contains(out, []byte("WARNING: DATA RACE")) || bytes.Contains(out, []byte("concurrent map"))) &&
		bytes.Contains(out, []byte("go-restruct/restruct"))
}

func writeEvidence(p *Prop, tier string, seed uint64, verif string, results []*workerResult, wall float64, viol int) {
	cases, nontriv, swept := 0, 0, 0
	classes, discards, known := map[string]int{}, map[string]int{}, map[string]int{}
	sigs := map[uint64]bool{}
	samples := []map[string]string{}
	timed := 0
	for _, r := range results {
		if r == nil {
			continue
		}
		cases += r.Cases
		nontriv += r.Nontrivial
		swept += r.Swept
		for k, v := range r.Classes {
			classes[k] += v
		}
		for k, v := range r.Discards {
			discards[k] += v
		}
		for k, v := range r.Known {
			known[k] += v
		}
		for _, s := range r.Sigs {
			sigs[s] = true
		}
		if len(samples) < 4 && len(r.Samples) > 0 {
			samples = append(samples, r.Samples[0])
		}
		if r.TimedOut {
			timed++
		}
	}
	cov := map[string]interface{}{
		"evaluations":                   cases + swept,
		"distinct_nontrivial":           len(sigs),
		"rule":                          p.Rule,
		"samples":                       samples,
		"nontrivial":                    nontriv,
		"classes":                       classes,
		"discarded":                     discards,
		"shards":                        len(results),
		"shards_stopped_by_time_budget": timed,
	}
	if swept > 0 {
		cov["swept_exhaustively"] = swept
	}
	if len(known) > 0 {
		cov["known_finding_hits"] = known
	}
	if len(samples) == 0 {
		cov["samples"] = []map[string]string{{"text": "no non-trivial case completed before the run stopped"}}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{"the Go toolchain and the reference model in /verif/harness are right; the search samples an unbounded space"}, p.Assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644)
}
