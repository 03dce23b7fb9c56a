package main

import (
	"verifsim/simrt"
)

// crowdProps have a scenario with one node and many peers at the same time.
var crowdProps = map[string]int{"C07": 150, "C10": 80, "C11": 200, "C13": 60, "C16": 150, "C17": 250, "C18": 150, "C20": 60}

func init() {
	for id := range crowdProps {
		crowd := Scenario{"crowd", 0, genCrowd, runCrowd}
		if id == "C16" || id == "C17" {
			crowd = Scenario{"crowd", 0, genConnCrowd, runConnCrowd}
		}
		crowdScens[id] = &crowd
	}
}

var crowdScens = map[string]*Scenario{}

func genCrowd(g *Gen) {
	p := g.p
	n := int(g.LogRange(4, 40))
	if g.Pct(10) {
		n = int(g.Range(60, 150))
	}
	g.nodes(n + 1)
	g.schedKnobs()
	p.Cfg.StallPct, p.Cfg.NestPct = 0, 0
	p.Cfg.PreemptGap = max(p.Cfg.PreemptGap, 500)
	p.Link = simrt.Link{Base: g.LogRange(20*us, 60*ms)}
	if g.Pct(60) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	g.set("gap", g.Range(0, 1)*g.LogRange(1*us, 100*ms)) // between connects
	g.set("msgs", g.LogRange(1, 12))
	g.set("size", g.LogRange(8, 3000))
	g.set("idle", g.LogRange(10*ms, 30*sec))
	g.set("leave", g.Range(0, int64(n-1)))
	g.set("how", g.Range(0, 3))
	g.set("hosts", g.Range(0, 3))
	if p.Prop == "C10" {
		g.set("idle", g.LogRange(5*sec, 300*sec))
	}
}

// runCrowd serves many peers at once on a working network: every one of them
// is served, and nobody is forgotten at the end.
func runCrowd(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	clients := w.Peers[1:]
	ends := make([]*End, len(clients))
	errs := make([]error, len(clients))
	var evs []*simrt.Event
	for i, p := range clients {
		i, p := i, p
		evs = append(evs, p.spawn("connect", func() { ends[i], errs[i] = p.connect(srv) }))
		if d := pl.get("gap"); d > 0 {
			w.sleep(d)
		}
	}
	for i, ev := range evs {
		if !ev.Wait(7 * sec) {
			w.fail("%d peers connect: Connect of %s has not returned in 7 s", len(clients), clients[i].N.Name)
			return
		}
		if errs[i] != nil {
			w.fail("%d peers connect on a working network: Connect of %s: %v", len(clients), clients[i].N.Name, errs[i])
			return
		}
	}
	gone := map[*Peer]bool{}
	// everybody has a channel of its own
	listed := func(label string) bool {
		n := 0
		for i, e := range ends {
			if gone[clients[i]] {
				continue
			}
			n++
			if o := e.pair(); o == nil || len(e.Ended)+len(o.Ended) > 0 {
				w.fail("%s: %s has no live channel at the node of %d peers", label, e, len(clients))
				return false
			}
		}
		var chs int
		if !srv.on("ForEachChannel", 10*sec, func() { chs = len(srv.channels()) }) {
			w.fail("ForEachChannel did not return")
			return false
		}
		if chs != n {
			w.fail("%s: the node has %d channels listed, %d peers are connected", label, chs, n)
			return false
		}
		st, ok := w.takeStat(srv)
		if !ok {
			return false
		}
		if len(st) != n {
			w.fail("%s: the statistics have %d rows, %d peers are connected", label, len(st), n)
			return false
		}
		return true
	}
	if !w.until(2*sec, func() bool {
		for _, e := range ends {
			if e.pair() == nil {
				return false
			}
		}
		return true
	}) {
		w.fail("not every connected peer of %d has a channel at the node", len(clients))
		return
	}
	w.sleep(20 * ms)
	if !listed("connected") {
		return
	}
	if srv.connects != len(clients) {
		w.fail("connect callback called %d times for %d peers", srv.connects, len(clients))
		return
	}
	wid := 0
	talk := func() bool {
		var evs []*simrt.Event
		wid++
		k := wid
		for i, e := range ends {
			if gone[clients[i]] {
				continue
			}
			for _, x := range []*End{e, e.pair()} {
				x := x
				r := simrt.NewRng(pl.Seed ^ uint64(x.id*7+k))
				evs = append(evs, x.P.spawn("writer", func() {
					for i := pl.get("msgs"); i > 0; i-- {
						x.write(k, int(r.Range(8, pl.get("size"))), -1)
						w.S.SleepNs(r.Range(0, 50*ms))
					}
				}))
			}
		}
		t := w.S.Now
		for _, ev := range evs {
			if !ev.Wait(t + 60*sec - w.S.Now) {
				w.fail("a write has not returned in 60 s on a working network")
				return false
			}
		}
		w.checkDrained(10 * sec)
		return len(w.Viol) == 0
	}
	if !talk() {
		return
	}
	for _, e := range ends {
		for _, x := range []*End{e, e.pair()} {
			for _, st := range x.writers() {
				for _, m := range st.Msgs {
					if m.State != 1 {
						w.fail("%s: write failed: %s", x, m.Err)
						return
					}
				}
			}
		}
	}
	w.sleep(pl.get("idle"))
	if !listed("after a rest") {
		return
	}
	if pl.Prop == "C20" {
		w.sleep(4*sec + w.stalls())
		if !w.statQuiet("crowd", true, map[*End]int64{}) {
			return
		}
	}
	// some leave
	n := int(pl.get("leave"))
	r := simrt.NewRng(pl.Seed ^ 0xc20d)
	var evc []*simrt.Event
	for i, e := range ends {
		if n == 0 {
			break
		}
		if len(ends)-i > n && !r.Pct(50) {
			continue
		}
		n--
		gone[clients[i]] = true
		e := e
		switch pl.get("how") {
		case 0:
			evc = append(evc, e.P.spawn("close", func() { e.Ch.Close() }))
		case 1:
			evc = append(evc, srv.spawn("close", func() { e.pair().Ch.Close() }))
		case 2:
			w.S.Crash(e.P.N)
		case 3:
			tr := e.P.T
			evc = append(evc, e.P.spawn("Tru.Close", func() { tr.Close() }))
		}
	}
	for _, ev := range evc {
		if !ev.Wait(10 * sec) {
			w.fail("a Close has not returned in 10 s")
			return
		}
	}
	if pl.get("how") == 2 {
		w.sleep(7200 * ms)
	} else {
		w.sleep(sec)
	}
	for i, e := range ends {
		if !gone[clients[i]] {
			continue
		}
		for _, x := range []*End{e, e.pair()} {
			want := 1
			if x.Own {
				want = 2
			}
			if !x.P.N.Dead && len(x.Ended) != want {
				w.fail("%s: its readers were told %d times that it ended, want %d", x, len(x.Ended), want)
				return
			}
		}
	}
	if !listed("after some have left") || !talk() {
		return
	}
	// the node goes
	tr := srv.T
	t := w.S.Now
	if !srv.on("Tru.Close", 10*sec, func() { tr.Close() }) {
		w.fail("Tru.Close with %d channels has not returned in 10 s", len(ends))
		return
	}
	closed := w.S.Now
	w.sleep(pl.Link.Base + pl.Link.Jitter + 400*ms)
	for i, e := range ends {
		if gone[clients[i]] {
			continue
		}
		for _, x := range []*End{e, e.pair()} {
			want := 1
			if x.Own {
				want = 2
			}
			if len(x.Ended) != want {
				w.fail("%s: its readers were told %d times that it ended after the node closed, want %d", x, len(x.Ended), want)
				return
			}
			if x.Ended[0].at < t {
				w.fail("%s ended before the node closed", x)
				return
			}
		}
	}
	if !w.until(closed+2*sec-w.S.Now, func() bool { return srv.N.TimersLive() == 0 && len(w.S.LiveGoroutines(srv.N)) == 0 }) {
		w.fail("the closed node still has %d timers and goroutines %v", srv.N.TimersLive(), w.S.LiveGoroutines(srv.N))
		return
	}
	w.recheck()
}
