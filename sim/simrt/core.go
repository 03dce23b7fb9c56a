// Package simrt is the deterministic simulator the instrumented copy of the
// code under test runs on: goroutine scheduler, virtual clock, timers, locks,
// channels, UDP network, randomness and per-process globals.
//
// Exactly one simulated goroutine (G) runs at any moment; all simulator state
// is protected by that rule.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// S is the simulation that is running (nil outside a run).
var S *Sim

// Preemption counters; package level to keep P cheap.
var (
	pcount uint64
	pnext  uint64 = math.MaxUint64
)

// Config are the scheduler knobs of one run.
type Config struct {
	Mode         int    // 0 fifo, 1 random, 2 sticky, 3 priorities (PCT)
	PreemptGap   uint64 // mean number of statements between preemption points, 0 off
	StallPct     int    // percentage of preemption points that become goroutine stalls
	MaxStall     int64  // longest goroutine stall (ns)
	NestPct      int    // percentage of nested lock operations that yield or stall
	SkipPreempt  uint64 // statements executed before the first preemption
	HangSteps    uint64 // statements without time advance that count as a hang
	Horizon      int64  // simulated time limit (ns)
	MaxSwitches  uint64 // hard cap on context switches of the run
	OneProcess   bool   // all nodes belong to one process: they share package variables
	HangSwitches uint64 // context switches without time advance that count as a hang
	TraceSched   bool
	StallCeiling int64  // total stall budget of the run (ns)
	SiteEvery    uint64 // one of so many statements is a focus of the run, 0 none
	SitePct      int    // percentage of executions of a focus that yield or stall
}

// G is a simulated goroutine.
type G struct {
	ID      int
	Node    *Node
	Name    string
	wake    chan struct{}
	running bool
	killed  bool
	dead    bool
	quiet   bool // harness goroutine whose block is not interesting
	prio    uint64
	what    string
	since   int64
	fn      func()
	held    int // locks held
	kops    int
	inrunq  bool
	raceB   uint64
	tok     *raceTok // happens-before edge of the start (timers)
}

// Node is a simulated process (with its host).
type Node struct {
	ID         int
	Name       string
	IP4, IP6   string
	epoch      int
	globals    []unsafe.Pointer
	started    bool  // package initialisation done
	rateNum    int64 // local clock rate in 1/1000 (1000 = nominal)
	wallOff    int64 // wall clock offset
	stallUntil int64
	StallTotal int64 // sum of all injected delays (node and goroutine)
	Dead       bool
	Exited     bool
	socks      []*Sock
	nextPort   int
	timersLive int
	funcArms   int
	rng        *Rng
	rngEp      int
	keys       [][]byte
	keyWait    []*G
}

// Sim is one simulated run.
type Sim struct {
	Now      int64
	Cfg      Config
	Ch       *Chooser
	Nodes    []*Node
	gs       []*G
	runq     []*G
	cur      *G
	ev       evHeap
	seq      uint64
	gid      int
	halted   bool
	Halt     string // reason of an abnormal halt
	Panic    *PanicInfo
	done     chan struct{}
	ack      chan struct{}
	loaded   *Node
	chans    chanTab
	Net      *Net
	Stats    Stats
	starting bool // a process is being started
	lastAdv  uint64
	lastSw   uint64
	// wallStart is the real time at which the run was created (only for
	// wallCap; no decision of the simulation depends on it)
	wallStart time.Time
	sticky    uint64
	free      []*G
	schedH    uint64
	stallB    int64
	OnEvent   func(string)
	crand     *Rng
	rsaNext   int // last used key of the pool
}

// Stats of one run.
type Stats struct {
	Switches, Preempts, Stalls, NodeStalls, Crashes, Restarts int64
	Timers, Goroutines, Jumps                                 int64
	StmtPoints                                                uint64
}

// PanicInfo describes a panic of code under test.
type PanicInfo struct {
	Node  string
	G     string
	Msg   string
	Stack string
}

// wallCap ends a single run that takes very long in real time.
const wallCap = 100 * time.Second

// New creates a simulation.
func New(cfg Config, ch *Chooser) *Sim {
	if cfg.HangSteps == 0 {
		cfg.HangSteps = 30_000_000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = int64(3600e9)
	}
	if cfg.HangSwitches == 0 {
		cfg.HangSwitches = 3_000_000
	}
	if cfg.MaxSwitches == 0 {
		cfg.MaxSwitches = 20_000_000
	}
	s := &Sim{Cfg: cfg, Ch: ch, done: make(chan struct{}, 1), ack: make(chan struct{})}
	s.wallStart = time.Now()
	s.Now = int64(1e9)
	s.Net = newNet(s)
	s.schedH = 14695981039346656037
	s.stallB = cfg.StallCeiling
	s.crand = NewRng(ch.Seed ^ 0xc0ffee)
	return s
}

// AddNode adds a process.
func (s *Sim) AddNode(name string) *Node {
	n := &Node{ID: len(s.Nodes), Name: name, rateNum: 1000}
	n.IP4 = fmt.Sprintf("10.0.0.%d", n.ID+1)
	n.IP6 = fmt.Sprintf("fd00::%x", n.ID+1)
	n.nextPort = 40000 + n.ID*100
	n.globals = nil // initial values
	s.Nodes = append(s.Nodes, n)
	return n
}

// SetClock sets rate (1000 = nominal) and wall offset of a node's clock.
func (n *Node) SetClock(rate int64, wallOff int64) { n.rateNum = rate; n.wallOff = wallOff }

// JumpWall moves the wall clock of the node (monotonic time is unaffected).
func (n *Node) JumpWall(d int64) { n.wallOff += d; S.Stats.Jumps++ }

// Run executes main as the scenario goroutine and returns when it returned or
// the run was halted. All goroutines are gone afterwards.
func (s *Sim) Run(main func()) {
	if S != nil {
		panic("simrt: nested run")
	}
	S = s
	pcount, pnext = 0, 0
	s.armPreempt()
	s.armFocus()
	runEdge.releaseMerge()
	g := s.newG(nil, "scenario", func() { runEdge.acquire(); main(); s.halt("") })
	s.ready(g)
	raceDisable()
	n := s.pick()
	if n != nil {
		s.switchTo(n)
		<-s.done
	}
	// unwind everything that is left
	s.halted = true
	for i := 0; i < len(s.gs); i++ {
		s.kill(s.gs[i])
	}
	for _, g := range s.free {
		g.fn = nil
		g.wake <- struct{}{}
		<-s.ack
	}
	raceEnable()
	runEdge.acquire()
	s.Stats.StmtPoints = pcount
	pcount, pnext = 0, math.MaxUint64
	S = nil
}

func (s *Sim) newG(n *Node, name string, fn func()) *G {
	s.gid++
	s.Stats.Goroutines++
	var g *G
	if l := len(s.free); l > 0 {
		g = s.free[l-1]
		s.free = s.free[:l-1]
		*g = G{wake: g.wake}
	} else {
		g = &G{wake: make(chan struct{}, 1)}
		carrier(func() { g.loop(s) })
	}
	g.ID, g.Node, g.Name, g.fn = s.gid, n, name, fn
	if s.Cfg.Mode == 3 {
		g.prio = s.Ch.Fork(uint64(s.gid)).Uint64()
	}
	s.gs = append(s.gs, g)
	if len(s.gs) > 64 && len(s.gs) > 2*s.liveCount() {
		s.compact()
	}
	return g
}

func (s *Sim) liveCount() (n int) {
	for _, g := range s.gs {
		if !g.dead {
			n++
		}
	}
	return
}

func (s *Sim) compact() {
	w := 0
	for _, g := range s.gs {
		if !g.dead {
			s.gs[w] = g
			w++
		}
	}
	for i := w; i < len(s.gs); i++ {
		s.gs[i] = nil
	}
	s.gs = s.gs[:w]
}

// loop is the body of the real goroutine carrying simulated goroutines; it is
// reused for many of them (unless one ends by Goexit or a panic).
func (g *G) loop(s *Sim) {
	raceDisable()
	wake := g.wake
	for {
		<-wake
		if g.fn == nil { // end of the run
			s.ack <- struct{}{}
			return
		}
		if g.killed { // killed before it started
			g.dead = true
			s.ack <- struct{}{}
			return
		}
		raceEnable()
		ok := g.once(s)
		if ok {
			runEdge.releaseMerge()
		}
		raceDisable()
		if !ok {
			return
		}
		// g ended normally: hand over, then wait for reuse
		g.dead = true
		s.exitSwitch(g, !RaceEnabled)
		if RaceEnabled {
			return
		}
	}
}

// once runs the function of g; false if the goroutine is unwinding.
func (g *G) once(s *Sim) (normal bool) {
	defer func() {
		if normal {
			return
		}
		r := recover()
		runEdge.releaseMerge()
		raceDisable()
		g.dead = true
		if g.killed {
			s.ack <- struct{}{}
		} else {
			if r != nil {
				s.recordPanic(g, r)
			}
			// Goexit by code under test or panic: this real goroutine ends
			s.exitSwitch(g, false)
		}
		raceEnable()
	}()
	raceAcquireG(g)
	takeTok(g.tok)
	g.fn()
	normal = true
	if g.killed { // killed while unwinding ended normally (deferred recover)
		normal = false
	}
	return
}

func (s *Sim) recordPanic(g *G, r any) {
	if s.Panic == nil {
		n := "harness"
		if g.Node != nil {
			n = g.Node.Name
		}
		s.Panic = &PanicInfo{Node: n, G: g.Name, Msg: fmt.Sprint(r), Stack: trimStack(string(debug.Stack()))}
	}
	s.halt("panic")
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "simrt.") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic") || l == "" {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, " < ")
}

// halt stops the run; the caller continues until its next scheduling point.
func (s *Sim) halt(reason string) {
	if !s.halted {
		s.halted = true
		s.Halt = reason
	}
}

// HaltNow stops the run from harness code.
func (s *Sim) HaltNow(reason string) { s.halt(reason) }

func (s *Sim) kill(g *G) {
	if g.dead {
		return
	}
	prev := s.cur
	g.killed = true
	if g.inrunq {
		for i, x := range s.runq {
			if x == g {
				s.runq = append(s.runq[:i], s.runq[i+1:]...)
				break
			}
		}
		g.inrunq = false
	}
	s.cur = g
	g.wake <- struct{}{}
	<-s.ack
	s.cur = prev
}

// ready makes g runnable.
func (s *Sim) ready(g *G) {
	if g.dead || g.inrunq || g.killed {
		return
	}
	g.inrunq = true
	s.runq = append(s.runq, g)
}

// pick chooses the next G, advancing time as needed; nil when the run is over.
func (s *Sim) pick() *G {
	for {
		if s.halted {
			return nil
		}
		if s.Stats.Switches++; uint64(s.Stats.Switches) > s.Cfg.MaxSwitches {
			s.halt("switch-cap")
			return nil
		}
		if s.Stats.Switches&8191 == 0 && time.Since(s.wallStart) > wallCap {
			// a run that is merely slow (a loaded machine, a window of a
			// million packets) is inconclusive, not hung
			s.halt("wall-cap")
			return nil
		}
		if uint64(s.Stats.Switches)-s.lastSw > s.Cfg.HangSwitches {
			s.halt("livelock")
			return nil
		}
		if g := s.choose(); g != nil {
			return g
		}
		// nothing runnable: advance the clock
		e := s.ev.pop()
		for e != nil && e.dead {
			e = s.ev.pop()
		}
		if e == nil {
			s.halt("deadlock")
			return nil
		}
		if e.at > s.Cfg.Horizon {
			s.halt("horizon")
			return nil
		}
		if e.at > s.Now {
			s.Now = e.at
			s.lastAdv = pcount
			s.lastSw = uint64(s.Stats.Switches)
			s.armHang()
		}
		e.dead = true
		e.fn()
	}
}

// choose picks among the runnable goroutines of nodes that are not stalled.
func (s *Sim) choose() *G {
	n := len(s.runq)
	if n == 0 {
		return nil
	}
	idx := -1
	// fast path: no stalled node
	stalled := false
	for _, nd := range s.Nodes {
		if nd.stallUntil > s.Now {
			stalled = true
		}
	}
	var cand []int
	if stalled {
		for i, g := range s.runq {
			if g.Node == nil || g.Node.stallUntil <= s.Now {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		n = len(cand)
	}
	k := 0
	if n > 1 {
		k = int(s.Ch.Draw(StSched, func(r *Rng) uint64 {
			switch s.Cfg.Mode {
			case 1:
				return r.N(uint64(n))
			case 2:
				if r.N(10) < 7 {
					return 0
				}
				return r.N(uint64(n))
			case 3:
				best := 0
				for i := 1; i < n; i++ {
					a, b := i, best
					if stalled {
						a, b = cand[i], cand[best]
					}
					if s.runq[a].prio > s.runq[b].prio {
						best = i
					}
				}
				return uint64(best)
			}
			return 0
		}))
		if k >= n {
			k = n - 1
		}
	}
	idx = k
	if stalled {
		idx = cand[k]
	}
	g := s.runq[idx]
	if idx == 0 {
		s.runq = s.runq[1:]
	} else {
		s.runq = append(s.runq[:idx:idx], s.runq[idx+1:]...)
	}
	g.inrunq = false
	s.schedH = (s.schedH ^ uint64(g.ID)) * 1099511628211
	return g
}

func (s *Sim) switchTo(g *G) {
	s.cur = g
	s.load(g.Node)
	g.wake <- struct{}{}
}

// park blocks the current goroutine until ready is called for it.
func (s *Sim) park(g *G, what string) {
	g.what, g.since = what, s.Now
	s.reschedule(g)
	g.what = ""
}

// reschedule gives up the processor; g is already queued or registered.
func (s *Sim) reschedule(g *G) {
	raceDisable()
	n := s.pick()
	if n == g {
		s.cur = g
		raceEnable()
		return
	}
	if n == nil {
		s.done <- struct{}{}
	} else {
		s.switchTo(n)
	}
	<-g.wake
	raceEnable()
	if g.killed {
		runtime.Goexit()
	}
}

func (s *Sim) exitSwitch(g *G, reuse bool) {
	// keep the finished G as a tombstone; reuse its carrier
	n := s.pickAfterExit(g, reuse)
	if n == nil {
		s.done <- struct{}{}
	} else {
		s.switchTo(n)
	}
}

// load makes the package variables those of process n.
func (s *Sim) load(n *Node) {
	if n == nil || n == s.loaded {
		return
	}
	if s.loaded != nil && s.Cfg.OneProcess {
		s.loaded, n.started = n, true
		return
	}
	if s.loaded != nil {
		s.loaded.globals = saveGlobals(s.loaded.globals)
	}
	s.loaded = n
	if n.started {
		loadGlobals(n.globals)
		return
	}
	n.started = true
	prev := s.cur
	s.cur = &G{Node: n, Name: "init"}
	s.starting = true
	initGlobals()
	s.starting = false
	s.cur = prev
}

func (s *Sim) pickAfterExit(g *G, reuse bool) *G {
	n := s.pick()
	if reuse {
		// g is marked dead; make the struct reusable only after removing it
		// from the list of goroutines.
		for i := len(s.gs) - 1; i >= 0; i-- {
			if s.gs[i] == g {
				s.gs[i] = s.gs[len(s.gs)-1]
				s.gs[len(s.gs)-1] = nil
				s.gs = s.gs[:len(s.gs)-1]
				break
			}
		}
		s.free = append(s.free, g)
	}
	return n
}

// killedOp is called at the top of simulator operations by unwinding
// goroutines; true means: do nothing.
func (g *G) killedOp() bool {
	if !g.killed {
		return false
	}
	g.kops++
	if g.kops > 20000 {
		runtime.Goexit()
	}
	return true
}

// P is the preemption point inserted before every statement.
func P(site uint32) {
	pcount++
	if pcount >= pnext || focus[site%sitesMax] {
		slowP()
	}
}

const sitesMax = 1 << 14

// focus tells which statements the run focuses on: a few places at which
// goroutines are held up again and again show what is rarely seen if all places
// have the same small chance.
var focus [sitesMax]bool

func (s *Sim) armFocus() {
	clear(focus[:])
	if s.Cfg.SiteEvery == 0 || s.Ch.Replaying {
		return
	}
	for i := range focus {
		focus[i] = s.Ch.prng.N(s.Cfg.SiteEvery) == 0
	}
}

func (s *Sim) armHang() { s.setNext() }

func (s *Sim) armPreempt() {
	s.Ch.armPreempt(&s.Cfg)
	s.setNext()
}

func (s *Sim) setNext() {
	pnext = s.lastAdv + s.Cfg.HangSteps
	if p := s.Ch.preemptAt; p < pnext {
		pnext = p
	}
}

func slowP() {
	s := S
	if s == nil {
		pnext = math.MaxUint64
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	if pcount-s.lastAdv >= s.Cfg.HangSteps {
		s.halt("livelock")
		s.ready(g)
		s.reschedule(g)
		return
	}
	if s.starting {
		return
	}
	var act uint64
	if pcount < s.Ch.preemptAt {
		if s.Ch.Replaying {
			return
		}
		act = s.Ch.siteAction(&s.Cfg)
	} else {
		act = s.Ch.preemptAction(&s.Cfg)
		s.setNext()
	}
	if g.Node == nil {
		return
	}
	s.pause(g, act)
}

// pause makes g yield (1) or stall for that many ns.
func (s *Sim) pause(g *G, act uint64) {
	if act == 0 {
		return
	}
	if act == 1 || s.stallB < int64(act) {
		// yield
		s.Stats.Preempts++
		if s.Cfg.Mode == 3 {
			g.prio >>= 8
		}
		s.ready(g)
		s.reschedule(g)
		return
	}
	// stall for act ns
	s.Stats.Stalls++
	s.stallB -= int64(act)
	g.Node.StallTotal += int64(act)
	s.sleep(g, int64(act), "stall")
}

// Yield lets others run (runtime.Gosched).
func Yield() {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	s.ready(g)
	s.reschedule(g)
}

// Go starts a goroutine on the node of the caller.
func Go(fn func()) {
	s := S
	if s == nil {
		go fn()
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	ng := s.newG(g.Node, g.Name+"/go", fn)
	raceReleaseG(ng)
	s.ready(ng)
}

// GoOn starts a goroutine on a node (nil: harness).
func (s *Sim) GoOn(n *Node, name string, fn func()) *G {
	g := s.newG(n, name, fn)
	raceReleaseG(g)
	s.ready(g)
	return g
}

// Cur returns the node of the running goroutine.
func (s *Sim) CurNode() *Node {
	if s.cur == nil {
		return nil
	}
	return s.cur.Node
}

// SchedHash is a hash over the sequence of scheduling decisions.
func (s *Sim) SchedHash() uint64 { return s.schedH }

// --- events ---------------------------------------------------------------

type event struct {
	at   int64
	tie  uint64
	seq  uint64
	fn   func()
	dead bool
	node *Node // timers
}

type evHeap struct{ a []*event }

func (h *evHeap) less(i, j int) bool {
	x, y := h.a[i], h.a[j]
	if x.at != y.at {
		return x.at < y.at
	}
	if x.tie != y.tie {
		return x.tie < y.tie
	}
	return x.seq < y.seq
}

func (h *evHeap) push(e *event) {
	h.a = append(h.a, e)
	i := len(h.a) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		h.a[i], h.a[p] = h.a[p], h.a[i]
		i = p
	}
}

func (h *evHeap) pop() *event {
	if len(h.a) == 0 {
		return nil
	}
	e := h.a[0]
	l := len(h.a) - 1
	h.a[0] = h.a[l]
	h.a[l] = nil
	h.a = h.a[:l]
	i := 0
	for {
		c := 2*i + 1
		if c >= l {
			break
		}
		if c+1 < l && h.less(c+1, c) {
			c++
		}
		if !h.less(c, i) {
			break
		}
		h.a[i], h.a[c] = h.a[c], h.a[i]
		i = c
	}
	return e
}

func (s *Sim) after(d int64, fn func()) *event {
	if d < 0 {
		d = 0
	}
	s.seq++
	at := s.Now + d
	if at < s.Now { // overflow
		at = math.MaxInt64
	}
	e := &event{at: at, seq: s.seq, fn: fn}
	s.ev.push(e)
	return e
}

// After schedules a harness event (must not block).
func (s *Sim) After(d int64, fn func()) { s.after(d, fn) }

// SleepNs blocks a harness goroutine for d simulated (global) nanoseconds.
func (s *Sim) SleepNs(d int64) {
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	s.sleep(g, d, "sleep")
}

// sleep parks g for d ns; stray wake-ups do not end it.
func (s *Sim) sleep(g *G, d int64, what string) {
	over := false
	s.after(d, func() { over = true; s.ready(g) })
	for !over {
		s.park(g, what)
	}
}

// --- faults on nodes -------------------------------------------------------

// StallNode freezes all goroutines of n for d ns; timers still expire but
// nothing runs until the stall is over.
func (s *Sim) StallNode(n *Node, d int64) {
	if u := s.Now + d; u > n.stallUntil {
		n.StallTotal += u - max(n.stallUntil, s.Now)
		n.stallUntil = u
	}
	s.Stats.NodeStalls++
	s.after(d, func() {})
}

// Crash kills the process on node n: all goroutines, timers and sockets are
// gone, nothing is sent. Must be called from a goroutine of another node.
func (s *Sim) Crash(n *Node) {
	if s.cur != nil && s.cur.Node == n {
		panic("simrt: node crashes itself")
	}
	if s.Cfg.OneProcess {
		panic("simrt: crash of one of several nodes of a process")
	}
	s.Stats.Crashes++
	s.endProcess(n)
}

func (s *Sim) endProcess(n *Node) {
	n.Dead = true
	n.epoch++
	for _, so := range n.socks {
		so.closed = true
	}
	n.socks = nil
	me := s.cur
	var victims []*G
	for _, g := range s.gs {
		if g.Node == n && !g.dead && g != me {
			victims = append(victims, g)
		}
	}
	sort.Slice(victims, func(i, j int) bool { return victims[i].ID < victims[j].ID })
	s.load(n)
	for _, g := range victims {
		s.kill(g)
	}
	n.started = false
	n.globals = nil
	s.loaded = nil
	n.timersLive = 0
	n.stallUntil = 0
	n.keys, n.keyWait = nil, nil
}

// Restart makes node n usable again (fresh process, empty memory).
func (s *Sim) Restart(n *Node) {
	n.Dead = false
	n.Exited = false
	s.Stats.Restarts++
}

// Exit is os.Exit of the code under test.
func Exit(code int) {
	s := S
	if s == nil {
		panic(fmt.Sprintf("os.Exit(%d) outside a run", code))
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	n := g.Node
	if n == nil {
		panic("os.Exit in harness")
	}
	n.Exited = true
	s.after(0, func() { s.exitNode(n) })
	for {
		s.park(g, "exit")
	}
}

func (s *Sim) exitNode(n *Node) {
	// runs in scheduler context; s.cur may be any goroutine, possibly of n
	if s.cur != nil && s.cur.Node == n {
		// let a harness goroutine do it
	}
	s.GoOn(nil, "exit", func() { s.endProcess(n) })
}

// LiveGoroutines returns the names and states of goroutines of n.
func (s *Sim) LiveGoroutines(n *Node) (out []string) {
	for _, g := range s.gs {
		if g.Node == n && !g.dead {
			out = append(out, g.Name+": "+g.what)
		}
	}
	sort.Strings(out)
	return
}

// Blocked lists goroutines of n waiting for a lock or channel since before t.
func (s *Sim) Blocked(n *Node, t int64, prefix string) (out []string) {
	for _, g := range s.gs {
		if g.Node == n && !g.dead && g.what != "" && g.since <= t && strings.HasPrefix(g.what, prefix) {
			out = append(out, g.Name+": "+g.what)
		}
	}
	sort.Strings(out)
	return
}

// TimersLive returns the number of armed timers of node n.
func (n *Node) TimersLive() int { return n.timersLive }

// FuncArms returns how many times a timer that calls a function was started or
// restarted on the node.
func (n *Node) FuncArms() int { return n.funcArms }

// Event lets harness goroutines wait for something.
type Event struct {
	set  bool
	wait []*G
	ra   raceAddr
}

// Set sets the event.
func (e *Event) Set() {
	e.ra.releaseMerge()
	e.set = true
	for _, g := range e.wait {
		S.ready(g)
	}
	e.wait = nil
}

// IsSet tells whether the event is set.
func (e *Event) IsSet() bool { return e.set }

// Wait waits up to d ns (0: forever).
func (e *Event) Wait(d int64) bool {
	s := S
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	if e.set {
		e.ra.acquire()
		return true
	}
	expired := false
	var ev *event
	if d > 0 {
		ev = s.after(d, func() { expired = true; s.ready(g) })
	}
	for !e.set && !expired {
		e.wait = append(e.wait, g)
		s.park(g, "harness wait")
	}
	if ev != nil {
		ev.dead = true
	}
	if e.set {
		e.ra.acquire()
	}
	return e.set
}

// NextTimer is the time at which the next timer of n expires, at most max.
func (s *Sim) NextTimer(n *Node, max int64) int64 {
	for _, e := range s.ev.a {
		if e.node == n && !e.dead && e.at < max {
			max = e.at
		}
	}
	return max
}

// Preload initialises the package variables of n on behalf of the caller, so
// that goroutines started by it are ordered after the initialisation.
func (s *Sim) Preload(n *Node) { s.load(n) }
