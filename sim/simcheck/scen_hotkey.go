package main

import (
	"fmt"
	"strings"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
	"verifsim/simrt"
)

// Hotkey menus (C23).

func init() {
	reg(&Prop{ID: "C23", Quick: 80000, Thorough: 400000, Scens: []Scenario{
		{"menu-steps", 4, genMenuSteps, runMenuSteps},
		{"menu-concurrent", 4, genMenuConc, runMenuConc},
		{"tru-menu", 3, genTruMenu, runTruMenu},
	}})
}

var menuKeys = [][]byte{[]byte("a"), []byte("b"), []byte("c"), {27, 91, 65}, {27}, {13}, []byte("ü"), []byte("z")}

const registeredKeys = 6 // the others are unknown (at first)

func genMenu(g *Gen) {
	p := g.p
	g.nodes(1)
	g.schedKnobs()
	p.Link = simrt.Link{Base: 1 * ms}
}

func genMenuSteps(g *Gen) {
	genMenu(g)
	p := g.p
	kinds := []string{"key", "key", "key", "key", "key", "key", "key", "key", "next", "clear", "stop", "stop", "run", "run", "add", "stopaction", "string", "burst"}
	for k := int(g.LogRange(3, 60)); k > 0; k-- {
		p.Ops = append(p.Ops, Op{K: kinds[g.Intn(len(kinds))], N: int64(g.Intn(len(menuKeys))), M: g.Range(0, 1<<40)})
	}
	g.set("acts", int64(g.Intn(100)))
	if g.Pct(20) {
		g.set("nounknown", 1)
	}
}

// menuModel is the reference model of a menu.
type menuModel struct {
	running bool
	stopped bool // Stop was called while running: one more key may be consumed
	next    int  // pending next-key action, 0 none
	acts    map[string]int
	stops   int // registered stop actions
	unknown bool
	want    []string
	queue   []int // typed keys that are not consumed yet
}

// menuRun is a menu and what happened in it.
type menuRun struct {
	w      *World
	h      *hotkey.Hotkey
	hist   []string
	nextID int
	actID  int
	m      menuModel
	seed   uint64
	runs   map[string]int // invocations
}

// behave tells what invocation k of an action does.
func (r *menuRun) behave(name string, k int) (string, uint64) {
	x := simrt.NewRng(r.seed ^ fnv([]byte(fmt.Sprint(name, " ", k))))
	if int(x.Uint64()%100) >= int(r.w.Plan.get("acts")) {
		return "", 0
	}
	kinds := []string{"next", "next", "next", "clear", "stop", "gostop", "add", "run", "sleep", "string"}
	return kinds[x.Intn(len(kinds))], x.Uint64() >> 1
}

// do runs what an action does, on the real menu.
func (r *menuRun) do(name string) {
	k := r.runs[name]
	r.runs[name]++
	b, n := r.behave(name, k)
	switch b {
	case "next":
		r.setNext(int(n%100000) + 1)
	case "clear":
		r.h.NextKeyAction(nil)
	case "stop":
		r.h.Stop()
	case "gostop":
		var ev simrt.Event
		r.w.S.GoOn(r.w.Peers[0].N, "stop", func() { r.h.Stop(); ev.Set() })
		ev.Wait(0)
	case "add":
		r.add(int(n)%len(menuKeys), int(n%100000)+1)
	case "run":
		r.h.Run()
	case "sleep":
		r.w.S.SleepNs(int64(n % 20_000_000))
	case "string":
		_ = r.h.String()
	}
}

// model applies the same to the reference model.
func (r *menuRun) model(name string, ran map[string]int) {
	k := ran[name]
	ran[name]++
	m := &r.m
	switch b, n := r.behave(name, k); b {
	case "next":
		m.next = int(n%100000) + 1
	case "clear":
		m.next = 0
	case "stop", "gostop":
		m.stop()
	case "add":
		m.acts[string(menuKeys[int(n)%len(menuKeys)])] = int(n%100000) + 1
	case "run":
		m.running, m.stopped = true, false
	}
}

func (m *menuModel) stop() {
	for i := 0; i < m.stops; i++ {
		m.want = append(m.want, fmt.Sprintf("stopaction %d", i))
	}
	if m.running {
		m.stopped = true
	}
}

func (r *menuRun) setNext(id int) {
	r.h.NextKeyAction(func(ch []byte) {
		r.hist = append(r.hist, fmt.Sprintf("next %d %x", id, ch))
		r.do(fmt.Sprint("next ", id))
	})
}

func (r *menuRun) add(key, id int) {
	k := menuKeys[key]
	var par any = k
	switch id % 4 {
	case 0:
		par = string(k)
	case 1:
		par = []string{string(k)}
	case 2:
		par = hotkey.KeyCode{Code: k, Name: "key"}
	}
	r.h.Add(par, fmt.Sprint("action ", id), func(h *hotkey.Hotkey) {
		r.hist = append(r.hist, fmt.Sprintf("action %d", id))
		if h != r.h {
			r.w.fail("an action got another menu")
		}
		r.do(fmt.Sprint("action ", id))
	})
}

// consume is one key in the model.
func (r *menuRun) consume(key int, ran map[string]int) {
	m := &r.m
	k := menuKeys[key]
	if m.next != 0 {
		id := m.next
		m.next = 0
		m.want = append(m.want, fmt.Sprintf("next %d %x", id, k))
		r.model(fmt.Sprint("next ", id), ran)
	}
	if id, ok := m.acts[string(k)]; ok {
		m.want = append(m.want, fmt.Sprintf("action %d", id))
		r.model(fmt.Sprint("action ", id), ran)
	} else if m.unknown {
		m.want = append(m.want, fmt.Sprintf("unknown %x", k))
	}
}

func (w *World) newMenu() *menuRun {
	r := &menuRun{w: w, seed: w.Plan.Seed, runs: map[string]int{}}
	r.m.acts = map[string]int{}
	return r
}

func runMenuSteps(w *World) {
	pl := w.Plan
	p := w.newPeer(pl.Nodes[0])
	r := w.newMenu()
	ran := map[string]int{}
	node := func(name string, f func()) bool {
		if !p.on(name, 5*sec, f) {
			w.fail("%s does not return; blocked: %v", name, w.S.Blocked(p.N, w.S.Now-sec, ""))
			return false
		}
		return true
	}
	if !node("New", func() {
		r.h = hotkey.New()
		for i := 0; i < registeredKeys; i++ {
			r.add(i, 100+i)
		}
		if pl.get("nounknown") == 1 {
			r.h.AddUnknown(nil)
		} else {
			r.h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { r.hist = append(r.hist, fmt.Sprintf("unknown %x", ch)) })
		}
	}) {
		return
	}
	for i := 0; i < registeredKeys; i++ {
		r.m.acts[string(menuKeys[i])] = 100 + i
	}
	r.m.unknown = pl.get("nounknown") != 1
	settle := func(step string) bool {
		m := &r.m
		w.sleep(100*ms + 2*pl.Cfg.StallCeiling)
		for prev := -1; prev != len(r.hist); { // slow actions
			prev = len(r.hist)
			w.sleep(100*ms + 2*pl.Cfg.StallCeiling)
		}
		consumed := len(m.queue) - p.N.KeysPending()
		for i := 0; i < consumed; i++ {
			switch {
			case !m.running:
				w.fail("%s: a key was consumed although the menu is stopped", step)
				return false
			case m.stopped: // the one more key
				r.consume(m.queue[i], ran)
				if m.stopped { // an action may have run it again
					m.running, m.stopped = false, false
				}
				w.note("key-after-stop", 1)
			default:
				r.consume(m.queue[i], ran)
			}
			w.note("keys", 1)
		}
		m.queue = m.queue[consumed:]
		if m.running && !m.stopped && len(m.queue) > 0 {
			w.fail("%s: %d typed keys are not consumed although the menu runs", step, len(m.queue))
			return false
		}
		if m.stopped && len(m.queue) > 0 {
			m.running, m.stopped = false, false // ended without another key
		}
		for i := 0; i < len(m.want) || i < len(r.hist); i++ {
			a, b := "nothing", "nothing"
			if i < len(m.want) {
				a = m.want[i]
			}
			if i < len(r.hist) {
				b = r.hist[i]
			}
			if a != b {
				w.fail("%s: event %d of the menu is %q, it must be %q; events: %s", step, i, b, a, strings.Join(r.hist[max(0, i-5):min(len(r.hist), i+3)], ", "))
				return false
			}
		}
		m.want, r.hist = nil, nil
		return true
	}
	for i, op := range pl.Ops {
		step := fmt.Sprintf("step %d (%s)", i, op.K)
		w.tr("%s %d", step, op.N)
		switch op.K {
		case "key", "burst":
			n := 1
			if op.K == "burst" {
				n = 1 + int(op.M%5)
			}
			for j := 0; j < n; j++ {
				k := (int(op.N) + j) % len(menuKeys)
				r.m.queue = append(r.m.queue, k)
				w.S.Type(p.N, menuKeys[k])
			}
		case "next":
			id := int(op.M%100000) + 1
			r.m.next = id
			if !node("NextKeyAction", func() { r.setNext(id) }) {
				return
			}
		case "clear":
			r.m.next = 0
			if !node("NextKeyAction", func() { r.h.NextKeyAction(nil) }) {
				return
			}
		case "stop":
			r.m.stop()
			if !node("Stop", func() { r.h.Stop() }) {
				return
			}
			w.note("stops", 1)
		case "run":
			if len(r.m.queue) > 0 && r.m.stopped {
				continue
			}
			r.m.running, r.m.stopped = true, false
			if !node("Run", func() { r.h.Run() }) {
				return
			}
			w.note("menu-runs", 1)
		case "add":
			id := int(op.M%100000) + 1
			r.m.acts[string(menuKeys[op.N])] = id
			if !node("Add", func() { r.add(int(op.N), id) }) {
				return
			}
		case "stopaction":
			n := r.m.stops
			r.m.stops++
			if !node("SetStopAction", func() {
				r.h.SetStopAction(func() { r.hist = append(r.hist, fmt.Sprintf("stopaction %d", n)) })
			}) {
				return
			}
		case "string":
			var s string
			if !node("String", func() { s = r.h.String() }) {
				return
			}
			seen := map[int]bool{}
			for _, id := range r.m.acts {
				if !seen[id] && strings.Count(s, fmt.Sprintf("action %d\n", id)) < 1 {
					w.fail("%s: the help text misses action %d", step, id)
					return
				}
				seen[id] = true
			}
		}
		if !settle(step) {
			return
		}
	}
	// the menu can always be run again
	if !node("Run", func() { r.h.Run() }) {
		return
	}
	r.m.running, r.m.stopped = true, false
	if !settle("Run at the end") || !r.m.running {
		return
	}
	k := 0
	r.m.queue = append(r.m.queue, k)
	w.S.Type(p.N, menuKeys[k])
	settle("key at the end")
}

// --- concurrent use ---------------------------------------------------------------

func genMenuConc(g *Gen) {
	genMenu(g)
	p := g.p
	gap := g.LogRange(1*us, 50*ms)
	for i := int(g.LogRange(3, 80)); i > 0; i-- {
		op := Op{A: 0, K: "key", D: g.Range(0, gap), N: int64(g.Intn(len(menuKeys)))}
		if g.Pct(30) {
			op.D = 0
		}
		p.Ops = append(p.Ops, op)
	}
	for a := 1; a <= 1+g.Intn(3); a++ {
		gap := g.LogRange(1*us, 50*ms)
		kinds := []string{"next", "next", "add", "string", "clear"}
		if a == 1 {
			kinds = []string{"stop", "run", "stop", "run", "run"}
		}
		for i := int(g.LogRange(1, 30)); i > 0; i-- {
			p.Ops = append(p.Ops, Op{A: a, K: kinds[g.Intn(len(kinds))], D: g.Range(0, gap), N: int64(g.Intn(len(menuKeys)))})
		}
	}
	g.set("slow", g.LogRange(1, 100))
}

// nextReg is a registration (or removal) of a next-key action.
type nextReg struct {
	from, to int64 // positions in the order of events
	f        bool
	ran      int
	at       int64
	key      string
}

func runMenuConc(w *World) {
	pl := w.Plan
	p := w.newPeer(pl.Nodes[0])
	var h *hotkey.Hotkey
	slow := int(pl.get("slow"))
	pos := int64(0) // event order
	tick := func() int64 { pos++; return pos }
	var typed []int
	typedAt := []int64{}
	var events []int // consumed keys in order
	var eventAt []int64
	inKey := "" // key given to a next-key action before its own action
	var regs []*nextReg
	stopcalls, stopacts := 0, 0
	rng := simrt.NewRng(pl.Seed ^ 0x23)
	consumed := func(key []byte) {
		i := len(events)
		if i >= len(typed) {
			w.fail("action %d ran for key %x but only %d keys were typed", i, key, len(typed))
			return
		}
		if string(menuKeys[typed[i]]) != string(key) {
			w.fail("the action of key %x ran as number %d, that key typed was %x", key, i, menuKeys[typed[i]])
			return
		}
		if inKey != "" && inKey != string(key) {
			w.fail("the next-key action got %x but the key was %x", inKey, key)
			return
		}
		inKey = ""
		events = append(events, typed[i])
		eventAt = append(eventAt, tick())
		if slow > 1 && rng.Intn(100) < slow {
			w.S.SleepNs(rng.Range(0, 3*ms))
		}
	}
	h0 := func() {
		h = hotkey.New()
		for i := 0; i < registeredKeys; i++ {
			k := menuKeys[i]
			h.Add(k, "action", func(h *hotkey.Hotkey) { consumed(k) })
		}
		h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { consumed(ch) })
		h.SetStopAction(func() { stopacts++ })
	}
	if !p.on("New", 5*sec, h0) {
		w.fail("New does not return")
		return
	}
	var evs []*simrt.Event
	running := false
	stopAt := int64(-1) // position of the return of the last Stop without a Run since
	var after []int64   // events that began after it
	_ = after
	nafter := func() int {
		n := 0
		for _, t := range eventAt {
			if stopAt >= 0 && t > stopAt {
				n++
			}
		}
		return n
	}
	for a := 0; a < 10; a++ {
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		evs = append(evs, p.spawn(fmt.Sprint("user", a), func() {
			for _, op := range ops {
				w.S.SleepNs(op.D)
				w.note("menu-"+op.K, 1)
				switch op.K {
				case "key":
					typed = append(typed, int(op.N))
					typedAt = append(typedAt, tick())
					w.S.Type(p.N, menuKeys[op.N])
				case "next", "clear":
					x := &nextReg{from: tick(), f: op.K == "next"}
					regs = append(regs, x)
					if !x.f {
						h.NextKeyAction(nil)
					} else {
						h.NextKeyAction(func(ch []byte) {
							x.ran++
							x.at = tick()
							if inKey != "" {
								w.fail("two next-key actions ran for the key %x", ch)
							}
							inKey = string(ch)
							if i := len(events); i >= len(typed) || string(menuKeys[typed[i]]) != string(ch) {
								w.fail("a next-key action got %x as key number %d", ch, i)
							}
						})
					}
					x.to = tick()
				case "add":
					k := menuKeys[op.N]
					h.Add(k, "added", func(h *hotkey.Hotkey) { consumed(k) })
				case "string":
					_ = h.String()
				case "stop":
					stopcalls++
					h.Stop()
					if stopacts != stopcalls {
						w.fail("stop actions ran %d times for %d calls of Stop", stopacts, stopcalls)
					}
					if stopAt < 0 {
						stopAt = tick()
					}
					running = false
				case "run":
					if stopAt >= 0 && nafter() > 1 {
						w.fail("%d keys were consumed after Stop", nafter())
					}
					stopAt = -1
					h.Run()
					running = true
				}
			}
		}))
	}
	if !w.until(60*sec, func() bool {
		for _, ev := range evs {
			if !ev.IsSet() {
				return false
			}
		}
		return true
	}) {
		w.fail("operations on a menu do not return; blocked: %v", w.S.Blocked(p.N, w.S.Now-5*sec, ""))
		return
	}
	quiet := func() {
		for prev := -1; prev != len(events); {
			prev = len(events)
			w.sleep(100*ms + 2*pl.Cfg.StallCeiling)
		}
	}
	quiet()
	if running && (p.N.KeysPending() > 0 || len(events) != len(typed)) {
		w.fail("the menu runs, %d keys were typed, %d consumed", len(typed), len(events))
		return
	}
	if n := nafter(); n > 1 {
		w.fail("%d keys were consumed after Stop", n)
		return
	}
	for i, x := range regs {
		if !x.f || x.ran > 1 {
			if x.ran > 1 {
				w.fail("next-key action %d ran %d times", i, x.ran)
				return
			}
			continue
		}
		if x.ran == 1 {
			if x.at < x.from {
				w.fail("next-key action %d ran before it was set", i)
			}
			continue
		}
		// it must have been replaced before a key was consumed
		first := int64(1) << 62
		for j := range events {
			if typedAt[j] > x.to { // typed after it was set
				first = eventAt[j]
				break
			}
		}
		replaced := false
		for _, y := range regs {
			if y != x && y.to > x.from && y.from < first {
				replaced = true
			}
		}
		if first < 1<<62 && !replaced {
			w.fail("next-key action %d never ran although a key was pressed after it was set", i)
			return
		}
	}
	// run again: every key left is consumed
	if !p.on("Run", 5*sec, func() { stopAt = -1; h.Run() }) {
		w.fail("Run does not return")
		return
	}
	for i := 0; i < 3; i++ {
		typed = append(typed, i)
		typedAt = append(typedAt, tick())
		w.S.Type(p.N, menuKeys[i])
	}
	quiet()
	if len(events) != len(typed) {
		w.fail("the menu was run again, %d keys were typed, %d consumed", len(typed), len(events))
	}
	if n := w.S.LiveGoroutines(p.N); len(n) > 1 {
		w.fail("the menu has %d goroutines: %v", len(n), n)
	}
	w.note("keys", int64(len(events)))
}

// --- the menu of tru --------------------------------------------------------------

func genTruMenu(g *Gen) {
	genMenu(g)
	p := g.p
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000})
	keys := []string{"u", "U", "l", "L", "h", "?", "\r", "x", "u", "L", "h", "\x1b[A"}
	for k := int(g.LogRange(3, 40)); k > 0; k-- {
		p.Ops = append(p.Ops, Op{K: "key", N: int64(keys[g.Intn(len(keys))][0]), D: g.Range(0, 700*ms)})
	}
	if g.Pct(50) {
		i := g.Intn(len(p.Ops))
		p.Ops = append(p.Ops[:i:i], append([]Op{{K: "ctrlc"}}, p.Ops[i:]...)...)
	}
	if g.Pct(60) {
		p.Ops = append(p.Ops, Op{K: "quit"})
	}
}

func runTruMenu(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	p := w.newPeer(pl.Nodes[0])
	q := w.newPeer(pl.Nodes[1])
	l := teolog.New()
	shadow := teolog.New()
	if p.start(7070, tru.Hotkey(true), l, "CONNECT", teolog.Filter{}) != nil || q.start(0) != nil {
		w.fail("tru.New failed")
		return
	}
	var e *End
	if e = w.establish(q, p); e == nil {
		return
	}
	settle := func() { w.sleep(100*ms + 2*pl.Cfg.StallCeiling) }
	settle()
	shadow.SetLevel(l.Level())
	printing, mini, running := false, false, true
	saved := teolog.LogLevel(-1) // while a screen waits for a key
	for i, op := range pl.Ops {
		step := fmt.Sprintf("step %d", i)
		w.sleep(op.D)
		switch op.K {
		case "ctrlc":
			w.S.Type(p.N, []byte{3})
			settle()
			if p.N.KeysPending() > 0 {
				w.fail("%s: Ctrl+C was not consumed", step)
				return
			}
			if saved >= 0 {
				shadow.SetLevel(saved)
				saved = -1
			}
			w.S.Type(p.N, []byte("\r"))
			settle()
			w.S.Type(p.N, []byte("\r"))
			settle()
			if p.N.KeysPending() == 0 {
				w.fail("%s: keys are still consumed after Ctrl+C", step)
				return
			}
			if !p.on("Run", 5*sec, func() { p.T.Hotkey().Run() }) {
				w.fail("Run does not return")
				return
			}
			settle()
			if p.N.KeysPending() > 0 {
				w.fail("%s: the menu does not run again after Ctrl+C", step)
				return
			}
		case "quit":
			w.S.Type(p.N, []byte("q"))
			running = false
			if !w.until(10*sec, func() bool { return p.N.Exited }) {
				w.fail("the process has not exited after q; blocked: %v", w.S.Blocked(p.N, w.S.Now-5*sec, ""))
				return
			}
			if len(p.closed) != 1 {
				w.fail("the reader was told %d times that the node is closed by q", len(p.closed))
			}
			w.sleep(sec)
			if len(e.Ended) == 0 {
				w.fail("the peer was not told about the end of the channel by q")
			}
			w.note("quits", 1)
		default:
			key := []byte{byte(op.N)}
			if op.N == 27 {
				key = []byte("\x1b[A")
			}
			w.S.Type(p.N, key)
			settle()
			if p.N.KeysPending() > 0 {
				w.fail("%s: key %q was not consumed", step, key)
				return
			}
			if saved >= 0 {
				shadow.SetLevel(saved)
				saved = -1
			}
			switch key[0] {
			case 'u':
				printing = !printing
			case 'U':
				mini = !mini
			case 'l':
				shadow.SwitchLevel()
			case 'L', 'h', '?':
				saved = shadow.Level()
				shadow.SetLevel(0)
			}
		}
		if !running {
			break
		}
		w.note("keys", 1)
		var pr, mi bool
		if !p.on("state", 5*sec, func() {
			pr = p.T.StatisticPrintRunning()
			mi = !p.T.StatisticMinilog()
			p.T.StatisticMinilog()
		}) {
			w.fail("%s: reading the state does not return", step)
			return
		}
		if pr != printing {
			w.fail("%s (key %q): printing statistics is %v, it must be %v", step, rune(op.N), pr, printing)
			return
		}
		if mi != mini {
			w.fail("%s (key %q): the minilog is %v, it must be %v", step, rune(op.N), mi, mini)
			return
		}
		if l.Level() != shadow.Level() {
			w.fail("%s (key %q): the log level is %v, it must be %v", step, rune(op.N), l.Level(), shadow.Level())
			return
		}
	}
	if running && !w.exchange(e) {
		return
	}
	if !running {
		return
	}
	if !w.exchange(e.pair()) {
		return
	}
	w.S.Type(q.N, []byte("x")) // a node without a menu reads no keys
	settle()
	if q.N.KeysPending() != 1 {
		w.fail("a node without a menu reads keys")
	}
}
