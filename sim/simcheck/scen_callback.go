package main

import (
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// One callback takes its time (it connects to somebody, waits for a connect that
// fails, or just works): the node serves its other peers meanwhile, and what the
// callback does with the network succeeds (C19).

// callbacks that run on the goroutine that hands messages to the application;
// some messages wait for them
func onReaderGoroutine(kind string) bool {
	return kind == "msg" || kind == "conn" || kind == "end-replaced"
}

var callbackKinds = []string{"msg", "conn", "punch", "deliv", "deliv-timeout", "end-peer", "end-self", "end-lost", "end-replaced", "foreach"}

func genCallback(g *Gen) {
	p := g.p
	g.nodes(4)
	g.cleanLink()
	p.Link.Base = min(p.Link.Base, 50*ms)
	p.Link.Jitter = min(p.Link.Jitter, p.Link.Base)
	g.schedKnobs()
	p.Cfg.StallCeiling = 200 * ms
	g.set("kind", int64(g.Intn(len(callbackKinds))))
	g.set("act", int64(g.Intn(4))) // connect (twice as often), connect to nobody, hold
	g.set("hold", g.LogRange(1*ms, 4*sec))
	g.set("server", int64(g.Intn(2)))
	g.set("gap", g.LogRange(1*ms, 300*ms))
	g.set("nested", int64(g.Intn(3)/2))
}

func runCallback(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	x, p, q, t := w.Peers[0], w.Peers[1], w.Peers[2], w.Peers[3]
	for i, y := range w.Peers {
		if err := y.start(7070 + i); err != nil {
			w.fail("tru.New on %s: %v", y.N.Name, err)
			return
		}
	}
	kind := callbackKinds[pl.get("kind")]
	server := pl.get("server") == 1 || kind == "conn" || kind == "end-replaced"
	rtt := 2 * (pl.Link.Base + pl.Link.Jitter)
	other := w.establish(q, x)
	if other == nil {
		return
	}
	var pe *End // the end of x
	if kind != "conn" {
		from, to := p, x
		if !server {
			from, to = x, p
		}
		e := w.establish(from, to)
		if e == nil {
			return
		}
		if pe = e; e.P != x {
			pe = e.pair()
		}
	}
	w.note("callback-"+kind, 1)

	started, finished := int64(-1), int64(-1)
	var made *End
	act := func() {
		if started >= 0 {
			return
		}
		started = w.S.Now
		w.tr("callback %s starts", kind)
		switch pl.get("act") {
		case 0, 1:
			over := w.S.Net.Stats.Overflow // a handshake is not repeated
			e, err := x.connect(t)
			if w.S.Net.Stats.Overflow != over {
				// slower or failed
			} else if err != nil {
				w.fail("%s: Connect called from a callback (%s) failed on a working network: %v", x.N.Name, kind, err)
			} else if d := w.S.Now - started; d > sec+3*rtt+w.stalls() {
				w.fail("%s: Connect called from a callback (%s) took %.3f s on a working network", x.N.Name, kind, f9(d))
			}
			made = e
		case 2:
			if e, err := x.connectTo("10.7.7.7:7"); err == nil {
				w.fail("%s: Connect to nobody succeeded: %s", x.N.Name, e)
			}
		default:
			w.S.SleepNs(pl.get("hold"))
		}
		if pl.get("nested") == 1 { // and uses its node
			x.T.Statistic()
			x.T.ForEachChannel(func(ch *tru.Channel) { ch.Triptime() })
			x.T.WriteToPunch([]byte("punch"), q.addr())
		}
		finished = w.S.Now
		w.tr("callback %s ends", kind)
	}
	x.onMsg = func(e *End, data []byte, _ *tru.Packet) {
		if kind == "msg" && e == pe {
			act()
		}
	}
	x.onConnect = func(e *End) {
		if kind == "conn" && e.Addr == p.addr() {
			act()
		}
	}
	x.onEnd = func(e *End) {
		if e == pe {
			act()
		} else if e.Pair != nil && e.Pair.P == q {
			w.fail("%s ended", e)
		}
	}
	q.onEnd = func(e *End) { w.fail("%s ended", e) }
	w.onCb = func(m *Msg) {
		if m.E == pe && (kind == "deliv" || kind == "deliv-timeout") {
			act()
		}
	}
	if !x.on("punchcb", 10*sec, func() {
		x.T.SetPunchCb(func(a net.Addr, b []byte) {
			if kind == "punch" {
				act()
			}
		})
	}) {
		w.fail("SetPunchCb did not return")
		return
	}

	w.schedule()
	limit := 3 * sec
	switch kind {
	case "msg":
		pe.pair().P.spawn("w", func() { pe.pair().write(0, 40, -1) })
	case "conn":
		p.spawn("connect", func() { p.connect(x) })
	case "punch":
		p.spawn("punch", func() { p.T.WriteToPunch([]byte("hello"), x.addr()) })
	case "deliv":
		x.spawn("w", func() { pe.write(0, 40, 0) })
	case "deliv-timeout":
		w.S.Net.Link(x.N, p.N).Block = true
		x.spawn("w", func() { pe.write(0, 40, 100*ms) })
		w.S.After(300*ms, func() { w.S.Net.Link(x.N, p.N).Block = false })
	case "end-peer":
		pe.pair().P.spawn("close", func() { pe.pair().Ch.Close() })
	case "end-self":
		x.spawn("close", func() { pe.Ch.Close() })
	case "end-lost":
		limit = 10 * sec
		w.S.Net.Link(p.N, x.N).Block = true
	case "end-replaced": // the peer comes again
		w.crash(p)
		w.sleep(10 * ms)
		w.restart(p)
		if p.start(7071) != nil {
			return
		}
		p.spawn("connect", func() { p.connect(x) })
	case "foreach":
		x.spawn("foreach", func() {
			x.T.ForEachChannel(func(ch *tru.Channel) {
				if ch == pe.Ch {
					act()
				}
			})
		})
	}
	if !w.until(limit+2*rtt+w.stalls(), func() bool { return started >= 0 }) {
		w.fail("%s: the callback (%s) was not called", x.N.Name, kind)
		return
	}

	// the others meanwhile
	most := 40
	if onReaderGoroutine(kind) {
		most = 8 // the rest would wait for the callback
	}
	pair := other.pair()
	var ms []*Msg
	var evs []*simrt.Event
	for i := 0; i < most && finished < 0; i++ {
		evs = append(evs,
			q.spawn("w", func() { ms = append(ms, other.write(100+i, 30+i, 0)) }),
			x.spawn("w", func() { ms = append(ms, pair.write(100+i, 30+i, 0)) }))
		w.sleep(pl.get("gap"))
	}
	if !w.until(8*sec+w.stalls(), func() bool { return finished >= 0 }) {
		w.fail("%s: what the callback (%s) calls does not return: blocked: %v", x.N.Name, kind, w.S.Blocked(x.N, 0, ""))
		return
	}
	w.sleep(2*sec + rtt + w.stalls())
	for _, ev := range evs {
		if !ev.IsSet() {
			w.fail("a write to another peer does not return")
			return
		}
	}
	bound := 1500*1_000_000 + 2*rtt + w.stalls()
	for _, m := range ms {
		if m.State != 1 || len(m.Cbs) != 1 || m.Cbs[0].err != "" {
			w.fail("%s: message %d of writer %d, written while a callback (%s) was running, was not acknowledged", m.E, m.Seq, m.W, kind)
			return
		}
		if d := m.Cbs[0].at - m.T0; d > bound {
			w.fail("%s: a message written while a callback (%s) was running was acknowledged after %.3f s", m.E, kind, f9(d))
			return
		}
		if m.DelAt == 0 {
			w.fail("%s: a message written while a callback (%s) was running was not delivered", m.E, kind)
			return
		}
		if d := m.DelAt - m.T0; d > bound && !(m.E == other && onReaderGoroutine(kind)) {
			w.fail("%s: a message written while a callback (%s) was running was delivered after %.3f s", m.E, kind, f9(d))
			return
		}
	}
	w.note("callback-served", int64(len(ms)))
	if made != nil && len(w.Viol) == 0 {
		w.until(sec, func() bool { return made.pair() != nil })
		if made.pair() == nil {
			w.fail("%s: no connect callback on the other side", made)
			return
		}
		w.wantIntegrity = false
		if w.exchange(made) {
			w.exchange(made.pair())
		}
	}
}
