// Command simcheck decides the properties of the library by seeded search over
// simulated executions.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

var out = os.Stdout

func main() {
	fs := flag.NewFlagSet("simcheck", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "base seed")
	runs := fs.Int("runs", 0, "number of runs (0: default of the tier)")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	wall := fs.Duration("wall", 0, "wall time cap")
	worker := fs.Bool("worker", false, "internal")
	from := fs.Int("from", 0, "worker: first run")
	step := fs.Int("step", 1, "worker: distance of runs")
	replay := fs.String("replay", "", "replay file")
	one := fs.Int("one", -1, "execute one run with trace")
	evdir := fs.String("evidence", "", "evidence directory")
	repdir := fs.String("replays", "", "directory for replay files")
	known := fs.String("known", "", "known findings file")
	hashes := fs.Bool("hashes", false, "print hashes of runs (determinism test)")
	trace := fs.Bool("trace", false, "print the trace when replaying")
	list := fs.Bool("list", false, "list properties")
	fs.Parse(os.Args[1:])
	raceSetup()
	if f := os.Getenv("SIM_SCEN"); f != "" && props[*prop] != nil { // development: one scenario only
		for i := range props[*prop].Scens {
			if s := &props[*prop].Scens[i]; s.Name != f {
				s.Weight = 0
			}
		}
	}
	if f := os.Getenv("SIM_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	out = os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_RDWR, 0); err == nil {
		os.Stdout = dn
		os.Stdin = dn
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Fprintln(out, id)
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay, *trace))
	}
	pr := props[*prop]
	if pr == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(3)
	}
	n := *runs
	if n == 0 {
		n = pr.Quick
		if *tier == "thorough" {
			n = pr.Thorough
		}
	}
	if *wall == 0 {
		*wall = 60 * time.Second
		if *tier == "thorough" {
			*wall = 12 * time.Minute
		}
	}
	switch {
	case *one >= 0:
		p := makePlan(pr, *tier, *seed, *one)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Fprintln(out, string(b))
		t := time.Now()
		r := execute(p, nil, false, true, true)
		for _, l := range r.Trace {
			fmt.Fprintln(out, l)
		}
		r.WallMs = float64(time.Since(t).Microseconds()) / 1000
		b, _ = json.Marshal(r)
		fmt.Fprintln(out, string(b), "decisions", len(r.Dec))
	case *worker:
		doWorker(pr, *tier, *seed, *from, *step, n, *wall)
	case *hashes:
		for i := 0; i < n; i++ {
			r := execute(makePlan(pr, *tier, *seed, i), nil, false, false, false)
			fmt.Fprintf(out, "%d %x %d %d %d %v\n", i, r.Hash, r.SimNs, r.Stats.StmtPoints, r.Net.Sent, r.Viol)
		}
	default:
		os.Exit(drive(pr, *tier, *seed, n, *workers, *wall, *evdir, *repdir, *known))
	}
}

// doWorker executes runs from, from+step, ... and prints one line per run.
func doWorker(pr *Prop, tier string, seed uint64, from, step, n int, wall time.Duration) {
	bw := bufio.NewWriter(out)
	t0 := time.Now()
	for i := from; i < n && time.Since(t0) < wall; i += step {
		fmt.Fprintf(bw, "S %d\n", i)
		bw.Flush()
		t := time.Now()
		p := makePlan(pr, tier, seed, i)
		r := execute(p, nil, false, false, false)
		r.Index = i
		r.WallMs = float64(time.Since(t).Microseconds()) / 1000
		r.Faults = faultCounts(p, r)
		b, _ := json.Marshal(r)
		bw.WriteString("R ")
		bw.Write(b)
		bw.WriteByte('\n')
		bw.Flush()
		if i%64 == 0 {
			runtime.GC()
		}
	}
	fmt.Fprintln(bw, "E")
	bw.Flush()
}

func faultCounts(p *Plan, r *Result) map[string]int64 {
	m := map[string]int64{}
	add := func(k string, n int64) {
		if n != 0 {
			m[k] += n
		}
	}
	add("datagrams lost", r.Net.Lost)
	add("datagrams duplicated", r.Net.Duped)
	add("datagrams reordered", r.Net.Reordered)
	add("datagrams blocked by partition", r.Net.Blocked)
	add("receive buffer overflows", r.Net.Overflow)
	add("send errors", r.Net.SendErr)
	add("read errors", r.Net.ReadErr)
	add("oversized datagrams refused", r.Net.TooBig)
	add("datagrams injected", r.Net.Injected)
	add("datagrams altered", r.Net.Tampered)
	add("goroutine preemptions", r.Stats.Preempts)
	add("goroutine stalls", r.Stats.Stalls)
	add("node stalls", r.Stats.NodeStalls)
	add("crashes", r.Stats.Crashes)
	add("restarts", r.Stats.Restarts)
	add("wall clock jumps", r.Stats.Jumps)
	for _, f := range p.Faults {
		add("window:"+f.K, 1)
	}
	for _, n := range p.Nodes {
		if n.Rate != 0 && n.Rate != 1000 {
			add("drifting clocks", 1)
		}
	}
	return m
}

type agg struct {
	sync.Mutex
	runs, inconc      int
	simNs             int64
	hashes            map[uint64]bool
	nontrivial        int
	faults            map[string]int64
	notes             map[string]int64
	scen              map[string]int
	msgs, sent, deliv int64
	stmts             uint64
	switches, gor     int64
	samples           []string
	viol              *Result
	halts             map[string]int
	crashed           []int
	stop              bool
	known             map[string]int
}

func drive(pr *Prop, tier string, seed uint64, n, workers int, wall time.Duration, evdir, repdir, known string) int {
	t0 := time.Now()
	kf := loadKnown(known, pr.ID)
	a := &agg{hashes: map[uint64]bool{}, faults: map[string]int64{}, notes: map[string]int64{}, scen: map[string]int{}, halts: map[string]int{}, known: map[string]int{}}
	exe, _ := os.Executable()
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	for k := 0; k < workers; k++ {
		cmd := exec.Command(exe, "-worker", "-prop", pr.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
			"-runs", strconv.Itoa(n), "-from", strconv.Itoa(k), "-step", strconv.Itoa(workers), "-wall", wall.String())
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
		so, err := cmd.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var eb strings.Builder
		cmd.Stderr = &limited{b: &eb, n: 20000}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cur := -1
			ended := false
			var mu sync.Mutex
			last := time.Now()
			fin := make(chan struct{})
			go func() { // a run that does not end
				for {
					select {
					case <-fin:
						return
					case <-time.After(time.Second):
						mu.Lock()
						over := time.Since(last) > 150*time.Second
						mu.Unlock()
						if over {
							cmd.Process.Kill()
							return
						}
					}
				}
			}()
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 64<<20)
			for sc.Scan() {
				l := sc.Text()
				mu.Lock()
				last = time.Now()
				mu.Unlock()
				switch {
				case strings.HasPrefix(l, "S "):
					cur, _ = strconv.Atoi(l[2:])
				case strings.HasPrefix(l, "R "):
					var r Result
					if json.Unmarshal([]byte(l[2:]), &r) != nil {
						continue
					}
					a.add(pr, tier, seed, &r, kf)
					cur = -1
				case l == "E":
					ended = true
				}
			}
			close(fin)
			cmd.Wait()
			a.Lock()
			if !ended && !a.stop && cur >= 0 {
				a.crashed = append(a.crashed, cur)
				fmt.Fprintf(os.Stderr, "worker died in run %d: %s\n", cur, eb.String())
			}
			a.Unlock()
		}()
	}
	// stop everybody at the first violation
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			a.Lock()
			v := a.viol != nil
			if v {
				a.stop = true
			}
			a.Unlock()
			if v {
				for _, c := range cmds {
					c.Process.Kill()
				}
				return
			}
		}
	}()
	wg.Wait()
	code := 0
	if a.viol == nil && len(a.crashed) > 0 {
		// the process died: stack overflow, memory exhaustion, real deadlock
		sort.Ints(a.crashed)
		i := a.crashed[0]
		p := makePlan(pr, tier, seed, i)
		f := filepath.Join(repdir, fmt.Sprintf("%s-%x.json", pr.ID, p.Seed))
		writeReplay(f, &Replay{Plan: p, FromSeed: true, Violation: "the process running the code died or hung"})
		if confirmCrash(exe, f) {
			fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", pr.ID, f)
			fmt.Fprintf(out, "  run %d: the process running the code died or hung\n", i)
			code = 1
		} else {
			fmt.Fprintf(os.Stderr, "run %d died once but not again\n", i)
			code = 2
		}
	}
	if a.viol != nil {
		a.Lock()
		v := a.viol
		a.Unlock()
		f := minimise(pr, tier, seed, v, repdir, exe)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", pr.ID, f)
		for _, m := range v.Viol {
			fmt.Fprintf(out, "  run %d (seed %d, scenario %s): %s\n", v.Index, v.Seed, v.Scen, m)
		}
		code = 1
	}
	for _, k := range kf {
		if k.fixed {
			continue
		}
		fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s (met in %d runs)\n", pr.ID, k.text, a.known[k.text])
	}
	if code == 0 && a.runs == 0 {
		fmt.Fprintln(os.Stderr, "no runs")
		code = 2
	}
	if code == 0 && a.inconc*5 > a.runs {
		fmt.Fprintf(os.Stderr, "%d of %d runs inconclusive: %v\n", a.inconc, a.runs, a.halts)
		code = 2
	}
	writeEvidence(evdir, pr, tier, seed, a, time.Since(t0), code)
	fmt.Fprintf(out, "%s: %d runs, %d distinct non-trivial, %.0f simulated seconds, %.1f s wall, exit %d\n", pr.ID, a.runs, a.nontrivial, float64(a.simNs)/1e9, time.Since(t0).Seconds(), code)
	return code
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func (a *agg) add(pr *Prop, tier string, seed uint64, r *Result, kf []knownFinding) {
	a.Lock()
	defer a.Unlock()
	if a.stop {
		return
	}
	a.runs++
	a.simNs += r.SimNs
	a.scen[r.Scen]++
	a.msgs += r.Msgs
	a.sent += r.Net.Sent
	a.deliv += r.Net.Delivered
	a.stmts += r.Stats.StmtPoints
	a.switches += r.Stats.Switches
	a.gor += r.Stats.Goroutines
	nf := int64(0)
	for k, v := range r.Faults {
		a.faults[k] += v
		if !strings.HasPrefix(k, "window:") && k != "drifting clocks" {
			nf += v
		}
	}
	for k, v := range r.Notes {
		a.notes[k] += v
	}
	if r.Inconc {
		a.inconc++
		a.halts[r.Halt]++
	}
	h := r.Hash ^ uint64(r.Net.Sent)*0x9e3779b97f4a7c15 ^ uint64(r.SimNs)
	if !a.hashes[h] {
		a.hashes[h] = true
		if nf > 0 && r.Net.Delivered+r.Notes["keys"] > 3 {
			a.nontrivial++
		}
	}
	if len(a.samples) < 3 && nf > 0 {
		p := makePlan(pr, tier, seed, r.Index)
		s := fmt.Sprintf("run %d seed %d scenario %s: %d nodes, %d actors, %d ops, scheduler mode %d gap %d, faults %v; %d datagrams sent, %d messages delivered, %.3f simulated s, schedule hash %x",
			r.Index, r.Seed, r.Scen, len(p.Nodes), len(p.Actors), len(p.Ops), p.Cfg.Mode, p.Cfg.PreemptGap, p.Faults, r.Net.Sent, r.Msgs, float64(r.SimNs)/1e9, r.Hash)
		a.samples = append(a.samples, s)
	}
	if len(r.Viol) > 0 && a.viol == nil {
		for _, k := range kf {
			if !k.fixed && k.match(r.Viol[0]) {
				a.known[k.text]++
				return
			}
		}
		a.viol = r
	}
}

func writeEvidence(dir string, pr *Prop, tier string, seed uint64, a *agg, d time.Duration, code int) {
	if dir == "" {
		return
	}
	os.MkdirAll(dir, 0o755)
	viol := 0
	if code == 1 {
		viol = 1
	}
	hours := d.Hours()
	if len(a.samples) == 0 {
		a.samples = []string{"no run with faults was completed"}
	}
	rule := "One evaluation is one simulated execution of the instrumented working tree: the seed draws nodes, workload, link parameters, fault windows, scheduler mode and every scheduling, delivery and fault decision. Counted as distinct and non-trivial when its context-switch sequence hash (combined with datagram count and simulated time) was not seen before in this check, at least one fault or preemption was actually injected, and more than 3 datagrams were delivered (or keys pressed). " + pr.Rule
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": d.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"evaluations": a.runs, "distinct_nontrivial": a.nontrivial, "rule": rule, "samples": a.samples,
			"runs_per_hour": float64(a.runs) / hours, "simulated_seconds": float64(a.simNs) / 1e9,
			"faults_injected": a.faults, "scenarios": a.scen, "notes": a.notes,
			"distinct_schedules": len(a.hashes), "context_switches": a.switches, "statements_executed": a.stmts, "goroutines": a.gor,
			"datagrams_sent": a.sent, "datagrams_delivered": a.deliv, "messages_delivered": a.msgs,
			"inconclusive": a.inconc, "inconclusive_reasons": a.halts, "known_findings_met": a.known,
			"real_code": "root package and hotkey of the working tree (instrumented source, every statement), teolog, term, uuid, stable, crypto/*",
			"stubbed":   "UDP sockets and address resolution, clock, timers, goroutine scheduler, channels, sync primitives, random sources, RSA key generation (fixed keys), map order, terminal keys",
		},
		"assumptions": []string{
			"Interleavings are explored at statement granularity with sequentially consistent memory (field updates and assignments from calls are split in two steps).",
			"Executing a statement takes no simulated time; injected stalls stand for slow execution.",
			"Go's runtime primitives are modelled: mutexes may barge, RWMutex prefers waiting writers, select picks any ready case, UDP keeps datagram boundaries and drops on receive-buffer overflow.",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, pr.ID+".json"), append(b, '\n'), 0o644)
}

// --- replay -------------------------------------------------------------------------

// Replay is the content of a replay file.
type Replay struct {
	Note      string           `json:"note"`
	Violation string           `json:"violation"`
	Plan      *Plan            `json:"plan"`
	FromSeed  bool             `json:"from_seed"` // all decisions drawn from the seed
	Decisions []simrt.Decision `json:"decisions"` // non default decisions otherwise
	Hash      uint64           `json:"schedule_hash"`
	Trace     []string         `json:"trace,omitempty"`
}

func writeReplay(f string, r *Replay) {
	os.MkdirAll(filepath.Dir(f), 0o755)
	r.Note = "replay with: check.sh " + r.Plan.Prop + " --replay FILE"
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(f, b, 0o644)
}

func doReplay(f string, trace bool) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	r := execute(rp.Plan, rp.Decisions, !rp.FromSeed, false, true)
	if trace {
		for _, l := range r.Trace {
			fmt.Fprintln(out, l)
		}
	}
	if len(r.Viol) == 0 {
		fmt.Fprintf(out, "no violation (halt %q, schedule hash %d)\n", r.Halt, r.Hash)
		return 0
	}
	for _, v := range r.Viol {
		fmt.Fprintln(out, "  "+v)
	}
	same := "same execution"
	if r.Hash != rp.Hash && !rp.FromSeed {
		same = "execution differs from the recorded one"
	}
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n(%s, schedule hash %d)\n", rp.Plan.Prop, f, same, r.Hash)
	return 1
}

func confirmCrash(exe, f string) bool {
	cmd := exec.Command(exe, "-replay", f)
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return false
		}
		return true
	case <-time.After(150 * time.Second):
		cmd.Process.Kill()
		return true
	}
}
