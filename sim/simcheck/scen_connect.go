package main

import (
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Establishing channels: bounded and all-or-nothing (C07), handshake datagrams
// out of place (C08), reconnecting (C12).

func init() {
	reg(&Prop{ID: "C07", Quick: 15000, Thorough: 60000, Scens: []Scenario{
		{"connects", 6, genConnects, runConnects},
	}})
	reg(&Prop{ID: "C08", Quick: 6000, Thorough: 60000, Scens: []Scenario{
		{"handshake-replay", 6, genReplay, runReplay},
		{"handshake-dup", 3, genHandshakeDup, runHandshakeDup},
		{"handshake-past", 2, genPast, runPast},
	}})
	reg(&Prop{ID: "C12", Quick: 5000, Thorough: 60000, Scens: []Scenario{
		{"reconnect", 10, genReconnect, runReconnect},
		{"stale", 1, genStale, runStale},
	}})
}

// connectBound is how long Connect may take on node p.
func (w *World) connectBound() int64 { return 5*sec + 60*ms + 400*ms + w.stalls() }

// --- C07 ------------------------------------------------------------------------

func genConnects(g *Gen) {
	p := g.p
	ns, nc := 1, 1
	if g.Pct(25) {
		ns = 2
	}
	if g.Pct(35) {
		nc = 2 + g.Intn(2)
	}
	g.nodes(ns + nc)
	g.cleanLink()
	g.schedKnobs()
	g.set("servers", int64(ns))
	span := g.LogRange(200*ms, 15*sec)
	fifo := g.Pct(40)
	if fifo {
		p.Link.Jitter = 0
	}
	for c := ns; c < ns+nc; c++ {
		for s := 0; s < ns; s++ {
			if s > 0 && g.Pct(40) {
				continue
			}
			a := len(p.Actors)
			p.Actors = append(p.Actors, Actor{c, s, 0})
			n := 1 + g.Intn(4)
			for i := 0; i < n; i++ {
				op := Op{A: a, K: "connect", N: int64(1 + g.Intn(4)), M: g.Range(0, 3000)}
				if g.Pct(70) {
					op.D = g.LogRange(1*us, 2*sec)
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	for k := g.Intn(6); k > 0; k-- {
		f := Fault{At: g.Range(0, span), Dur: g.LogRange(10*ms, span), A: -1, B: -1}
		if g.Pct(50) {
			f.At, f.Dur = 0, span
		}
		if g.Pct(60) { // one direction
			s, c := g.Intn(ns), ns+g.Intn(nc)
			f.A, f.B = s, c
			if g.Pct(50) {
				f.A, f.B = c, s
			}
		}
		kinds := []string{"loss", "loss", "block", "senderr", "dup", "late", "jitter"}
		if fifo {
			kinds = kinds[:4]
		}
		f.K = kinds[g.Intn(len(kinds))]
		switch f.K {
		case "loss":
			f.V = g.LogRange(30, 1000)
		case "block":
			f.Dur = g.LogRange(10*ms, 8*sec)
		case "senderr":
			f.V = g.LogRange(30, 1000)
		case "dup":
			f.V, f.W = g.LogRange(100, 1000), g.LogRange(10*us, 3*sec)
		case "late":
			f.V, f.W = g.LogRange(50, 900), g.LogRange(10*ms, 3*sec)
		case "jitter":
			f.V = g.LogRange(1*ms, 900*ms)
		}
		p.Faults = append(p.Faults, f)
	}
	for k := g.Intn(3); k > 0; k-- {
		p.Faults = append(p.Faults, Fault{K: "stall", At: g.Range(0, span), Dur: g.LogRange(1*ms, 400*ms), A: g.Intn(len(p.Nodes)), B: -1})
	}
	if g.Pct(20) {
		p.Faults = append(p.Faults, Fault{K: "wall", At: g.Range(0, span), A: g.Intn(len(p.Nodes)), B: -1, V: g.Range(-3600, 3600) * sec})
	}
	if g.Pct(20) {
		p.Faults = append(p.Faults, Fault{K: "readerr", At: 0, Dur: span, A: -1, B: -1, V: g.LogRange(5, 300)})
	}
	// server life: absent at first, crashed, restarted
	switch g.Intn(6) {
	case 0:
		g.set("late", g.LogRange(1*ms, 8*sec))
	case 1:
		g.set("crash", g.LogRange(1*ms, 6*sec))
	case 2:
		g.set("crash", g.LogRange(1*ms, 6*sec))
		g.set("restart", g.LogRange(1*ms, 6*sec))
	}
	g.set("greet", int64(g.Intn(4)))
	if g.Pct(25) { // an answer comes when Connect gives up
		g.set("edge", 1+int64(g.Intn(4)))
		if g.Pct(60) {
			p.Cfg.SiteEvery = uint64(g.LogRange(10, 200))
			p.Cfg.SitePct = int(g.LogRange(10, 90))
		}
		if g.Pct(60) {
			p.Faults = nil
		}
	}
	if !fifo {
		g.set("minsize", 65)
	}
}

func runConnects(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	w.wantIntegrity = true
	ns := int(pl.get("servers"))
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	greet := func(p *Peer) {
		n := int(pl.get("greet"))
		if n == 0 {
			return
		}
		p.onConnect = func(e *End) {
			for i := 0; i < n; i++ {
				e.write(0, max(int(pl.get("minsize")), (37*i*e.id)%700), -1)
			}
		}
	}
	var crashed [][2]int64 // life breaks of server 0
	for i, p := range w.Peers {
		if i == 0 && pl.get("late") > 0 {
			continue
		}
		port := 0
		if i < ns {
			port = 7070 + i
			greet(p)
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	if pl.get("late") > 0 {
		w.Peers[0].Port = 7070
		w.S.GoOn(nil, "late server", func() {
			w.sleep(pl.get("late"))
			greet(w.Peers[0])
			w.Peers[0].start(7070)
		})
	}
	base := map[*Peer][2]int{}
	for _, p := range w.Peers {
		base[p] = [2]int{len(w.S.LiveGoroutines(p.N)), p.N.TimersLive()}
	}
	ok0 := false // a channel to server 0 exists
	if t := pl.get("crash"); t > 0 {
		w.S.GoOn(nil, "crash server", func() {
			w.sleep(t)
			if ok0 {
				return
			}
			w.S.Crash(w.Peers[0].N)
			br := [2]int64{w.S.Now, 1 << 62}
			crashed = append(crashed, br)
			if r := pl.get("restart"); r > 0 {
				w.sleep(r)
				w.restart(w.Peers[0])
				crashed[0][1] = w.S.Now
				w.Peers[0].start(7070)
			}
		})
	}
	w.schedule()
	type actor struct {
		ev   *simrt.Event
		p, q *Peer
		e    *End
		end  int64 // end of the last attempt
		idle int64 // the last attempt failed then, there is no other one yet
		skip bool  // connected to a server that died meanwhile
	}
	var as []*actor
	began := map[[2]string]int64{} // last Connect datagram of a node to an address
	rng := simrt.NewRng(pl.Seed ^ 0x7ed6e)
	w.tapSend = append(w.tapSend, func(x *simrt.Pkt) {
		if st, _, _ := parse(x.Data); st == stConnect {
			began[[2]string{x.Src.String(), x.Dst.String()}] = w.S.Now
		}
		for _, y := range as {
			if y.p.N == x.From && y.q.addr() == x.Dst.String() && y.idle > 0 && w.S.Now > y.idle+500*ms+w.stalls() {
				w.fail("%s: %s sent to %s %.3f s after Connect returned an error", y.p.N.Name, pktName(x.Data), y.q.N.Name, f9(w.S.Now-y.idle))
				y.idle = 0
			}
		}
	})
	if pl.get("edge") > 0 {
		held := map[string]bool{}
		w.S.Net.Drop = func(x *simrt.Pkt) bool {
			st, _, ok := parse(x.Data)
			if x.From == nil || x.To == nil || !ok || st != stDone && (st != stServerAnswer || pl.get("edge") < 4) || held[string(x.Data)] {
				return false
			}
			t, ok := began[[2]string{x.Dst.String(), x.Src.String()}]
			if !ok || rng.Intn(100) < 20 {
				return false
			}
			held[string(x.Data)] = true
			t += 5 * sec
			switch rng.Intn(4) {
			case 0:
				t += int64(rng.Intn(int(2*ms))) - ms
			case 1:
				t += int64(rng.Intn(4000)) - 2000
			case 2:
				t -= int64(rng.Intn(100))
			default:
				t += int64(rng.Intn(int(200*us))) - 150*us
			}
			if t <= w.S.Now {
				return false
			}
			src, to, port, data := x.Src, x.To, x.Dst.Port, append([]byte(nil), x.Data...)
			w.note("edge", 1)
			w.S.After(t-w.S.Now, func() { w.S.Net.Inject(src, to, port, data, 0) })
			return true
		}
	}
	for a, ac := range pl.Actors {
		a := a
		x := &actor{p: w.Peers[ac.P], q: w.Peers[ac.T]}
		as = append(as, x)
		x.ev = x.p.spawn(sprintf("connector%d", a), func() {
			for _, op := range pl.Ops {
				if op.A != a || op.K != "connect" {
					continue
				}
				w.S.SleepNs(op.D)
				t0 := w.S.Now
				x.idle = 0
				e, err := x.p.connect(x.q)
				d := w.S.Now - t0
				x.end = w.S.Now
				if d > w.connectBound() {
					w.fail("Connect from %s to %s took %.3f s", x.p.N.Name, x.q.N.Name, f9(d))
					return
				}
				if err != nil {
					w.note("connect-error", 1)
					x.idle = w.S.Now
					x.p.T.ForEachChannel(func(ch *tru.Channel) {
						if ch.Addr().String() == x.q.addr() {
							w.fail("%s: Connect to %s returned %q but left a channel", x.p.N.Name, x.q.N.Name, err)
						}
					})
					for _, e := range x.p.ends {
						if e.Addr == x.q.addr() {
							w.fail("%s: Connect to %s returned %q but a reader was called for its channel", x.p.N.Name, x.q.N.Name, err)
						}
					}
					continue
				}
				if d <= 0 {
					w.note("instant", 1)
				}
				w.note("connect-ok", 1)
				lost := false
				for _, c := range crashed {
					if x.q.ID == 0 && c[1] >= t0 {
						lost = true // the server died during the attempt
					}
				}
				if x.q.N.Dead || lost {
					x.skip = true
					return
				}
				if x.q.ID == 0 {
					ok0 = true
				}
				w.healPair(x.p, x.q)
				for i := int64(0); i < op.N; i++ {
					e.write(0, int(max(pl.get("minsize"), (op.M*(i+1))%3001)), -1)
				}
				x.e = e
				return
			}
		})
	}
	all := func() bool {
		for _, x := range as {
			if !x.ev.IsSet() {
				return false
			}
		}
		return true
	}
	// every success is checked 10 s (and slack) after it
	if !w.until(200*sec, all) {
		w.fail("a Connect or write did not return")
		return
	}
	last := int64(0)
	for _, x := range as {
		last = max(last, x.end)
		if x.e == nil {
			continue
		}
		x := x
		fine := func() bool {
			o := x.e.pair()
			if o == nil {
				return false
			}
			a, _ := x.e.undelivered()
			b, _ := o.undelivered()
			return a+b == 0 && o.streamLen(0) >= int(pl.get("greet"))
		}
		bound := x.end + 10*sec + w.stalls() - w.S.Now
		if w.until(max(bound, 0), fine) {
			// the server can answer on it
			o := x.e.Pair
			if len(o.Ended) == 0 && len(x.e.Ended) == 0 {
				before := len(x.e.Recv)
				o.P.on("answer", 20*sec, func() { o.write(0, 100, -1) })
				if !w.until(10*sec+w.stalls(), func() bool { return len(x.e.Recv) > before }) {
					w.fail("%s: a message written by the peer after the connect did not arrive", x.e)
				}
			} else {
				w.fail("%s ended right after a successful Connect (the peer's end: %d events)", x.e, len(o.Ended))
			}
			continue
		}
		o := x.e.pair()
		if o == nil {
			w.fail("Connect from %s to %s succeeded but the peer has no channel", x.p.N.Name, x.q.N.Name)
			return
		}
		a, _ := x.e.undelivered()
		b, _ := o.undelivered()
		w.fail("Connect from %s to %s succeeded, but %d messages to the peer and %d from it did not arrive within 10 s on a healed network (peer wrote %d of %d greetings)",
			x.p.N.Name, x.q.N.Name, a, b, o.streamLen(0), pl.get("greet"))
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	// failed attempts leave nothing behind
	w.sleepUntil(max(last, w.faultsEnd) + 8500*ms + w.stalls())
	want := map[*Peer]int{}
	for _, x := range as {
		if x.e != nil || x.skip {
			want[x.p]++
			want[x.q]++
		}
	}
	for _, p := range w.Peers {
		if p.N.Dead || p.T == nil {
			continue
		}
		for _, ch := range p.channels() {
			used := false
			for _, x := range as {
				used = used || (x.e != nil || x.skip) && (x.p == p && ch.Addr().String() == x.q.addr() || x.q == p && ch.Addr().String() == x.p.addr())
			}
			if !used {
				w.fail("%s still lists a channel to %s, 8.5 s after the last failed Connect", p.N.Name, ch.Addr())
			}
		}
		if n := reachable(p.T); n > len(p.ends) {
			w.fail("%s keeps %d channels in memory 8.5 s after the last failed Connect, %d were ever established", p.N.Name, n, len(p.ends))
		}
		if b, ok := base[p]; ok && want[p] == 0 && p.epoch == 0 && pl.get("late") == 0 {
			if n := p.N.TimersLive(); n > b[1] {
				w.fail("%s still has %d timers (%d before) 8.5 s after the last failed Connect", p.N.Name, n, b[1])
			}
			if n := w.S.LiveGoroutines(p.N); len(n) > b[0] {
				w.fail("%s still has %d goroutines (%d before) 8.5 s after the last failed Connect: %v", p.N.Name, len(n), b[0], n)
			}
		}
	}
	w.recheck()
}

// --- C08 ------------------------------------------------------------------------

type handPkt struct {
	src  *net.UDPAddr
	to   *simrt.Node
	port int
	data []byte
	st   int
	at   int64
}

// record collects the handshake datagrams of the run.
func (w *World) record() *[]handPkt {
	var r []handPkt
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		if st, _, ok := parse(p.Data); ok && st <= stDone && p.To != nil {
			r = append(r, handPkt{p.Src, p.To, p.Dst.Port, append([]byte(nil), p.Data...), st, w.S.Now})
		}
	})
	return &r
}

func genReplay(g *Gen) {
	genStream(g, streamOpt{clients: 2, writers: 1, msgs: 100, span: 10 * sec, faultPct: 40, frag: true})
	p := g.p
	delete(p.P, "ff")
	n := int(g.LogRange(1, 40))
	span := g.LogRange(100*ms, 12*sec)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: -1, K: "inject", D: g.Range(0, span), N: g.Range(0, 1<<40), M: int64(g.Intn(10))})
	}
	if g.Pct(50) {
		g.set("failed", int64(1+g.Intn(2))) // failed attempts before
	}
	if g.Pct(10) {
		g.set("wait", g.Range(1, 200)*sec) // injections start later
	}
}

func runReplay(w *World) {
	rec := w.record()
	pl := w.Plan
	w.wantIntegrity = true
	failed := int(pl.get("failed"))
	if failed > 0 {
		// clients try in vain; what they sent is delivered much later
		w.S.Net.Drop = func(p *simrt.Pkt) bool { return failed > 0 && p.From != nil && p.From.ID > 0 }
	}
	pl2 := *pl
	_ = pl2
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	for failed > 0 {
		for _, p := range w.Peers[1:] {
			p := p
			p.on("connect", 30*sec, func() {
				if _, err := p.connect(w.Peers[0]); err == nil {
					w.fail("Connect succeeded without network")
				}
			})
		}
		failed--
	}
	w.S.Net.Drop = nil
	for _, p := range w.Peers[1:] {
		if w.establish(p, w.Peers[0]) == nil {
			return
		}
	}
	ends := w.allEnds()
	connects := w.Peers[0].connects
	w.sleep(pl.get("wait"))
	if w.Viol != nil {
		return
	}
	w.schedule()
	last := w.S.Now
	for _, op := range pl.Ops {
		if op.K != "inject" {
			continue
		}
		op := op
		last = max(last, w.S.Now+op.D)
		w.S.After(op.D, func() { w.injectHandshake(*rec, op) })
	}
	done := w.runActors(nil)
	if !w.until(w.faultsEnd-w.S.Now+180*sec, done) {
		w.fail("a write did not return")
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.sleepUntil(last)
	w.checkDrained(10 * sec)
	w.sleep(8500*ms + w.stalls())
	w.checkEstablished(ends, connects)
	w.checkAlive(ends)
	w.recheck()
}

// checkEstablished verifies that the channels are the ones established before.
func (w *World) checkEstablished(ends []*End, connects int) {
	for _, e := range ends {
		if e.cut() {
			w.note("cut-by-faults", 1)
			w.cutOff = true
			return
		}
	}
	for _, e := range ends {
		if len(e.Ended) > 0 {
			w.fail("%s was ended at %.3fs", e, f9(e.Ended[0].at))
			return
		}
	}
	if n := w.Peers[0].connects; n != connects {
		w.fail("connect callback called %d times for %d connects", n, connects)
		return
	}
	for _, p := range w.Peers {
		var mine []*tru.Channel
		for _, e := range ends {
			if e.P == p {
				mine = append(mine, e.Ch)
			}
		}
		got := p.channels()
		if len(got) != len(mine) {
			w.fail("%s lists %d channels, %d were established", p.N.Name, len(got), len(mine))
			return
		}
		for _, ch := range got {
			ok := false
			for _, m := range mine {
				ok = ok || m == ch
			}
			if !ok {
				w.fail("%s: the channel to %s was replaced", p.N.Name, ch.Addr())
				return
			}
		}
	}
}

// checkAlive sends one message in each direction of every channel.
func (w *World) checkAlive(ends []*End) {
	if w.cutOff {
		return
	}
	for _, e := range ends {
		e := e
		if !e.P.on("write", 20*sec, func() { e.write(70, 80, -1) }) {
			w.fail("%s: write did not return", e)
			return
		}
	}
	w.checkDrained(10 * sec)
	for _, e := range ends {
		for _, m := range e.W[70].Msgs {
			if m.State != 1 {
				w.fail("%s: write failed: %s", e, m.Err)
			}
		}
	}
}

// injectHandshake delivers a handshake datagram out of place.
func (w *World) injectHandshake(rec []handPkt, op Op) {
	if len(rec) == 0 {
		return
	}
	r := rec[int(op.N)%len(rec)]
	rng := simrt.NewRng(uint64(op.N))
	d := append([]byte(nil), r.data...)
	kind := "replay"
	switch op.M {
	case 0, 1, 2, 3, 4: // as it was
	case 5: // belongs to no connect: other uuid
		if r.st != stConnect && len(d) > 10 {
			d[5+rng.Intn(min(36, len(d)-5))] ^= byte(1 + rng.Intn(255))
			kind = "unknown uuid"
		}
	case 6: // answer with damaged contents
		if r.st != stConnect && len(d) > 45 {
			d[41+rng.Intn(len(d)-41)] ^= byte(1 + rng.Intn(255))
			kind = "damaged"
		}
	case 7: // truncated
		if r.st != stConnect {
			d = d[:4+rng.Intn(len(d)-3)]
			kind = "truncated"
		}
	case 8: // answer of another kind
		if r.st != stConnect && len(d) > 4 {
			d[3] = byte(1 + rng.Intn(3))
			kind = "retyped"
		}
	case 9: // to the other side of the same channel
		for _, p := range w.Peers {
			if p.N != r.to && p.addr() == r.src.String() {
				o := r
				o.to, o.port = p.N, p.Port
				for _, q := range w.Peers {
					if q.N == r.to {
						if a, err := net.ResolveUDPAddr("udp", q.addr()); err == nil {
							o.src = a
						}
					}
				}
				r = o
				kind = "reflected"
				break
			}
		}
		if r.st == stConnect {
			return // would be a connect in the opposite direction
		}
	}
	w.tr("inject %s %s from %s to %s", kind, pktName(d), r.src, r.to.Name)
	w.note("inject-"+kind+"-"+statusNames[r.st], 1)
	w.S.Net.Inject(r.src, r.to, r.port, d, 0)
}

func genHandshakeDup(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 1, msgs: 80, span: 8 * sec, faultPct: 50, frag: true})
	delete(g.p.P, "ff")
	d := g.LogRange(10*us, 6*sec)
	g.p.Faults = append([]Fault{{K: "dup", At: 0, Dur: 10 * sec, A: -1, B: -1, V: g.Range(300, 1000), W: d}}, g.p.Faults...)
	g.set("triple", int64(g.Intn(2)))
}

func runHandshakeDup(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	dup := pl.Faults[0]
	w.apply(dup, true)
	if pl.get("triple") == 1 { // and every handshake datagram once more
		w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
			if st, _, ok := parse(p.Data); ok && st <= stDone && p.To != nil {
				d := int64(simrt.NewRng(p.Seq^pl.Seed).LogRange(10*us, 3*sec))
				w.S.Net.Inject(p.Src, p.To, p.Dst.Port, p.Data, pl.Link.Base+d)
			}
		})
	}
	var evs []*simrt.Event
	for _, p := range w.Peers[1:] {
		p := p
		evs = append(evs, p.spawn("connect", func() {
			e, err := p.connect(w.Peers[0])
			if err != nil {
				w.fail("Connect from %s failed on a network that only duplicates: %v", p.N.Name, err)
				return
			}
			e.write(0, 40, -1)
		}))
	}
	for _, ev := range evs {
		if !ev.Wait(30 * sec) {
			w.fail("Connect did not return")
			return
		}
	}
	if !w.until(2*sec+w.stalls(), func() bool {
		for _, p := range w.Peers[1:] {
			for _, e := range p.ends {
				if e.pair() == nil {
					return false
				}
			}
		}
		return true
	}) {
		w.fail("Connect succeeded but the peer has no channel for it")
		return
	}
	ends := w.allEnds()
	connects := len(w.Peers) - 1
	w.schedule()
	done := w.runActors(nil)
	if !w.until(w.faultsEnd-w.S.Now+180*sec, done) {
		w.fail("a write did not return")
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.checkDrained(10 * sec)
	w.sleep(8500*ms + w.stalls())
	w.checkEstablished(ends, connects)
	w.checkAlive(ends)
	w.recheck()
}

// --- C12 ------------------------------------------------------------------------

func genReconnect(g *Gen) {
	p := g.p
	g.nodes(2)
	g.cleanLink()
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Link.Jitter = 0 // nothing of a predecessor is delivered after its successor was made
	if g.Pct(40) {
		for i := range p.Nodes {
			p.Nodes[i].MaxData = int(g.LogRange(20, 2000))
		}
	}
	n := 2 + g.Intn(4)
	kinds := []string{"client-close", "server-close", "both-close", "client-crash", "server-crash", "partition", "partition-close", "client-tru", "server-tru", "oneway-close", "replace"}
	for i := 0; i < n; i++ {
		k := kinds[g.Intn(len(kinds))]
		op := Op{A: i, K: k, D: g.LogRange(1*us, 12*sec), N: g.LogRange(1, 30), M: g.LogRange(1*us, 5*sec)}
		if g.Pct(40) {
			op.D = g.LogRange(1*us, 10*ms)
		}
		if g.Pct(40) {
			op.M = 0
		}
		p.Ops = append(p.Ops, op)
	}
	if g.Pct(50) {
		p.Faults = append(p.Faults, Fault{K: "loss", At: 0, Dur: 1000 * sec, A: -1, B: -1, V: g.LogRange(5, 200)})
	}
	g.set("live", g.LogRange(sec, 30*sec))
	g.set("cb", int64(g.Intn(2)))
}

// runReconnect makes the two nodes connect again and again; every channel must
// be as good as the first.
func runReconnect(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv, cli := w.Peers[0], w.Peers[1]
	ports := []int{7070, 8080}
	for i, p := range w.Peers {
		if err := p.start(ports[i]); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	rng := simrt.NewRng(pl.Seed ^ 0x77)
	traffic := func(e *End, n int, span int64) func() bool {
		var evs []*simrt.Event
		for _, x := range []*End{e, e.pair()} {
			x := x
			k := int(rng.Range(0, int64(n)))
			r := simrt.NewRng(rng.Uint64())
			evs = append(evs, x.P.spawn("writer", func() {
				for i := 0; i < k; i++ {
					cb := int64(-1)
					if pl.get("cb") == 1 {
						cb = r.LogRange(10*ms, 9*sec)
					}
					x.write(0, int(r.LogRange(1, 1500)), cb)
					if r.Pct(50) {
						w.S.SleepNs(r.Range(0, 2*span/int64(k)))
					}
				}
			}))
		}
		return func() bool {
			for i, v := range evs {
				x := []*End{e, e.Pair}[i]
				if !v.IsSet() && !x.P.N.Dead && x.epoch == x.P.epoch {
					return false
				}
			}
			return true
		}
	}
	loss := func(on bool) {
		for _, f := range pl.Faults {
			if f.K == "loss" {
				w.apply(f, on)
			}
		}
	}
	connects := 0
	var old []*End
	cur := func() *End {
		e := w.establish(cli, srv)
		if e == nil {
			return nil
		}
		connects++
		return e
	}
	checkOld := func() {
		for _, e := range old {
			if e.epoch != e.P.epoch || e.P.N.Dead {
				continue // died with its process
			}
			want := 1
			if e.Own {
				want = 2
			}
			if len(e.Ended) != want {
				w.fail("%s: its readers were told %d times that it ended, want %d", e, len(e.Ended), want)
				return
			}
			if !e.Ch.Destroyed() {
				w.fail("%s: not destroyed although it was replaced", e)
				return
			}
		}
	}
	for i := 0; i < len(pl.Ops); i++ {
		op := pl.Ops[i]
		loss(false)
		e := cur()
		if e == nil {
			return
		}
		o := e.pair()
		w.sleep(w.stalls() + 50*ms)
		checkOld()
		if len(w.Viol) > 0 {
			return
		}
		loss(true)
		w.tr("cycle %d: %s", i, op.K)
		done := traffic(e, int(op.N), op.D)
		// a channel at rest takes the loss of a few pings for a dead peer
		w.sleep(min(op.D, 3*sec))
		if op.D > 3*sec {
			loss(false)
			w.sleep(op.D - 3*sec)
			loss(true)
		}
		if len(e.Ended)+len(o.Ended) > 0 {
			w.fail("%s ended at once after the connect", e)
			return
		}
		cls := func(x *End) *simrt.Event {
			x.closeAt = w.S.Now
			return x.P.spawn("close", func() { x.Ch.Close() })
		}
		switch op.K {
		case "client-close":
			cls(e).Wait(5 * sec)
		case "server-close":
			loss(false)
			cls(o).Wait(5 * sec)
			// the client notices when the datagram is there
		case "both-close":
			a, b := cls(e), cls(o)
			a.Wait(5 * sec)
			b.Wait(5 * sec)
		case "client-crash":
			w.S.Crash(cli.N)
			w.restart(cli)
			if err := cli.start(8080); err != nil {
				w.fail("tru.New after a crash: %v", err)
				return
			}
		case "server-crash":
			w.S.Crash(srv.N)
			w.restart(srv)
			if err := srv.start(7070); err != nil {
				w.fail("tru.New after a crash: %v", err)
				return
			}
			cls(e).Wait(5 * sec)
		case "partition":
			// until one or both sides notice
			w.apply(Fault{K: "block", A: -1, B: -1}, true)
			w.until(8*sec+w.stalls(), func() bool { return len(e.Ended) > 0 })
			w.apply(Fault{K: "block", A: -1, B: -1}, false)
			if len(e.Ended) == 0 {
				cls(e).Wait(5 * sec)
			}
		case "partition-close", "oneway-close":
			f := Fault{K: "block", A: -1, B: -1}
			if op.K == "oneway-close" {
				f.A, f.B = 1, 0
			}
			w.apply(f, true)
			cls(e).Wait(5 * sec)
			w.apply(f, false)
		case "client-tru":
			tr := cli.T
			if !cli.on("Tru.Close", 10*sec, func() { tr.Close() }) {
				w.fail("Tru.Close did not return")
				return
			}
			if err := cli.start(8080); err != nil {
				w.fail("tru.New on the port of a closed Tru: %v", err)
				return
			}
			cli.epoch++
		case "server-tru":
			tr := srv.T
			if !srv.on("Tru.Close", 10*sec, func() { tr.Close() }) {
				w.fail("Tru.Close did not return")
				return
			}
			if err := srv.start(7070); err != nil {
				w.fail("tru.New on the port of a closed Tru: %v", err)
				return
			}
			srv.epoch++
		}
		old = append(old, e, o)
		if op.K == "replace" { // the client connects again although its channel is alive
			loss(false)
			if !w.until(60*sec, done) || !w.until(20*sec, w.drained) {
				w.fail("%s: not at rest before it is replaced", e)
				return
			}
			w.sleep(4*sec + op.M%(2*sec)) // acknowledged, too
			w.note("cycle-"+op.K, 1)
			continue
		}
		w.sleep(op.M)
		// the caller's side must be free to connect: its own channel has ended
		if e.epoch == cli.epoch && len(e.Ended) == 0 {
			if !w.until(8*sec+w.stalls(), func() bool { return len(e.Ended) > 0 }) {
				w.fail("%s did not end after %s", e, op.K)
				return
			}
		}
		if !w.until(30*sec, done) {
			w.fail("a writer of a channel that has ended is still blocked")
			return
		}
		// nothing of the old channel may be under way: the links keep order,
		// so a short pause on the sending nodes is enough
		w.note("cycle-"+op.K, 1)
	}
	loss(false)
	e := cur()
	if e == nil {
		return
	}
	o := e.pair()
	w.sleep(w.stalls() + 50*ms)
	checkOld()
	done := traffic(e, 40, 3*sec)
	w.until(60*sec, done)
	w.checkDrained(10 * sec)
	w.sleep(pl.get("live"))
	if len(w.Viol) > 0 {
		return
	}
	for _, x := range []*End{e, o} {
		if len(x.Ended) > 0 {
			w.fail("%s, made by a reconnect, ended at %.3fs on a working network", x, f9(x.Ended[0].at))
			return
		}
	}
	w.checkEstablished2(e, o)
	done = traffic(e, 20, 2*sec)
	w.until(60*sec, done)
	w.checkDrained(10 * sec)
	w.sleep(9500 * ms)
	checkOld()
	for _, x := range w.allEnds() {
		for _, st := range x.writers() {
			for _, m := range st.Msgs {
				if m.HasCb && m.State == 1 && x.epoch == x.P.epoch && len(m.Cbs) != 1 {
					w.fail("%s: callback of message %d called %d times", x, m.Seq, len(m.Cbs))
					return
				}
			}
		}
	}
	w.recheck()
}

func (w *World) checkEstablished2(ends ...*End) {
	for _, e := range ends {
		got := e.P.channels()
		if len(got) != 1 || got[0] != e.Ch {
			w.fail("%s: the node lists %d channels instead of exactly this one", e, len(got))
			return
		}
	}
}

// genStale: one datagram of the predecessor is delivered to the new channel.
func genStale(g *Gen) {
	genReconnect(g)
	g.p.Ops = []Op{{A: 0, K: []string{"client-close", "server-crash", "client-crash"}[g.Intn(3)], N: 10, D: sec}}
	g.p.Faults = nil
	g.set("kind", int64(g.Intn(8)))
	g.set("toserver", int64(g.Intn(2)))
}

func runStale(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv, cli := w.Peers[0], w.Peers[1]
	for i, p := range w.Peers {
		if err := p.start([]int{7070, 8080}[i]); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	kinds := []int{stData, stData, stAck, stDisconnect, stPing, stPong, stDataNext, stDone}
	want := kinds[pl.get("kind")]
	long := pl.get("kind") == 1 || want == stDataNext
	dst := cli
	if pl.get("toserver") == 1 {
		dst = srv
	}
	if want == stPing {
		dst = srv
	}
	if want == stPong || want == stDone {
		dst = cli
	}
	var stale *simrt.Pkt
	old := true
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		st, id, ok := parse(p.Data)
		if !ok || !old || p.To != dst.N || st != want || stale != nil {
			return
		}
		if isData(st) && long != (len(p.Data) > 96) {
			return
		}
		_ = id
		stale = p
	})
	e := w.establish(cli, srv)
	if e == nil {
		return
	}
	o := e.pair()
	for _, x := range []*End{e, o} {
		x := x
		x.P.on("write", 20*sec, func() {
			x.write(0, 30, -1)
			x.write(0, 200, -1)
			x.write(0, 3000, -1)
		})
	}
	w.checkDrained(10 * sec)
	w.sleep(6 * sec) // pings
	switch pl.Ops[0].K {
	case "client-close":
		x := e
		if dst == cli {
			x = o
		}
		x.P.on("close", 5*sec, func() { x.Ch.Close() })
		w.sleep(sec)
	case "server-crash":
		w.S.Crash(srv.N)
		w.restart(srv)
		srv.start(7070)
		cli.on("close", 5*sec, func() { e.Ch.Close() })
	case "client-crash":
		w.S.Crash(cli.N)
		w.restart(cli)
		cli.start(8080)
	}
	w.sleep(sec)
	old = false
	e = w.establish(cli, srv)
	if e == nil {
		return
	}
	o = e.pair()
	if stale == nil {
		w.note("stale-none", 1)
		return
	}
	w.note("stale-"+statusNames[want], 1)
	x, y := e, o // x gets the stale datagram
	if dst == srv {
		x, y = o, e
	}
	name := statusNames[want]
	if isData(want) {
		name = "short " + name
		if long {
			name = "long " + statusNames[want]
		}
	}
	w.failPrefix = "stale " + name + " datagram of the previous channel: "
	if want == stAck {
		// the new channel's packet with the same number is under way
		l := w.S.Net.Link(x.P.N, y.P.N)
		l.Loss = 1000
		x.P.on("write", 20*sec, func() { x.write(0, 100, -1) })
		w.S.Net.Inject(stale.Src, x.P.N, x.P.Port, stale.Data, 0)
		w.sleep(50 * ms)
		l.Loss = 0
	} else {
		w.wantIntegrity = false
		w.S.Net.Inject(stale.Src, x.P.N, x.P.Port, stale.Data, 0)
		w.sleep(50 * ms)
		if n := len(x.Recv); n > 0 {
			w.fail("%s got %d bytes that the peer never wrote as a message", x, len(x.Recv[0].data))
			return
		}
		w.wantIntegrity = true
	}
	if len(x.Ended) > 0 {
		w.fail("%s was ended", x)
		return
	}
	for _, z := range []*End{e, o} {
		z := z
		z.P.on("write", 20*sec, func() { z.write(0, 90, -1); z.write(0, 10, -1) })
	}
	if !w.until(10*sec+w.stalls(), func() bool { return len(e.Ended)+len(o.Ended) > 0 || w.drained() }) || len(e.Ended)+len(o.Ended) > 0 {
		n1, _ := x.undelivered()
		n2, _ := y.undelivered()
		w.fail("messages of the new channel are lost (%d and %d undelivered)", n1, n2)
		return
	}
}
