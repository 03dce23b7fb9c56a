package main

import "verifsim/simrt"

// Recovery from the loss of one kind of datagrams (C02): long outages of Data
// or Ack on slow links while the channel is kept alive, and the loss of single
// datagrams written at the moments when timers expire.

func genOutage(g *Gen) {
	p := g.p
	g.nodes(2)
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Link = simrt.Link{Base: g.LogRange(1*ms, 600*ms)}
	if g.Pct(40) {
		p.Link.Base = g.LogRange(150*ms, 600*ms)
	}
	if g.Pct(60) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	for i := range p.Nodes {
		p.Nodes[i].Rate = 1000
		if g.Pct(40) {
			p.Nodes[i].MaxData = int(g.LogRange(60, 2000))
		}
	}
	dir := g.Intn(2)
	p.Actors = []Actor{{dir, 1 - dir, 0}}
	if g.Pct(30) {
		p.Actors = append(p.Actors, Actor{1 - dir, dir, 0})
	}
	before := g.Range(0, 4*sec)
	dur := g.LogRange(500*ms, 110*sec)
	g.set("before", before)
	g.set("dur", dur)
	g.set("kinds", 1+int64(g.Intn(3))) // 1 Data, 2 Ack, 3 both
	g.set("dir", int64(dir))
	g.set("pct", []int64{100, 100, 100, 95, 80}[g.Intn(5)])
	for a := range p.Actors {
		n := g.LogRange(1, 25)
		for i := int64(0); i < n; i++ {
			op := Op{A: a, K: "send", M: -1, N: g.size(p.Nodes[p.Actors[a].P].MaxData, 0)}
			op.N = min(op.N, 3000)
			switch {
			case g.Pct(40):
			case g.Pct(50):
				op.D = g.Range(0, sec)
			default:
				op.D = g.Range(0, 2*(before+dur)/n)
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

func runOutage(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	from, to := w.Peers[pl.get("dir")], w.Peers[1-pl.get("dir")]
	t0 := w.S.Now + pl.get("before")
	t1 := t0 + pl.get("dur")
	rng := simrt.NewRng(pl.Seed ^ 0x0a7)
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		if w.S.Now < t0 || w.S.Now >= t1 {
			return false
		}
		st, _, ok := parse(p.Data)
		if !ok || int64(rng.Intn(100)) >= pl.get("pct") {
			return false
		}
		k := pl.get("kinds")
		return isData(st) && k&1 != 0 && p.From == from.N || st == stAck && k&2 != 0 && p.From == to.N
	}
	done := w.runActors(nil)
	w.sleepUntil(t1)
	alive := 0
	for _, e := range w.allEnds() {
		if e.alive() {
			alive++
		}
	}
	w.note("alive-after-outage", int64(alive))
	// writes go on after the outage: wait for those of the outage only
	var late []*Msg
	for _, e := range w.allEnds() {
		for _, st := range e.writers() {
			for _, m := range st.Msgs {
				if m.State == 1 && m.DelAt == 0 {
					late = append(late, m)
				}
			}
		}
	}
	w.note("backlog", int64(len(late)))
	pending := func() *Msg {
		for _, m := range late {
			if m.DelAt == 0 && m.E.alive() {
				return m
			}
		}
		return nil
	}
	if !w.until(10*sec+w.stalls(), func() bool { return pending() == nil }) {
		m := pending()
		w.fail("%s: message %d (%d bytes) written at %.3fs is not delivered 10 s after the outage of %.1f s ended", m.E, m.Seq, m.Size, f9(m.T0), f9(pl.get("dur")))
		return
	}
	if !w.until(200*sec, done) {
		w.fail("a write did not return after the outage")
		return
	}
	w.checkDrained(10 * sec)
	w.atRest()
	w.recheck()
}

// atRest checks that nothing is queued or sent any more.
func (w *World) atRest() {
	if len(w.Viol) > 0 {
		return
	}
	if w.restless(func() (n int64) {
		for _, e := range w.allEnds() {
			n += e.wire().DataSent
		}
		return
	}) {
		w.fail("data still sent although every message was delivered and acknowledged long ago")
	}
	for _, e := range w.allEnds() {
		if !e.alive() {
			return
		}
	}
	for _, p := range w.Peers {
		p := p
		p.on("stat", 10*sec, func() {
			for _, s := range p.T.Statistic() {
				if s.SQ != 0 || s.RQ != 0 {
					w.fail("%s: channel %s still has %d packets in the send queue and %d in the receive queue at rest", p.N.Name, s.Addr, s.SQ, s.RQ)
				}
			}
		})
	}
}

// restless tells whether data is still sent when everything was delivered. The
// acknowledgements lost so far are repaired by one more round of retransmission;
// where it is so large that it overflows receive buffers by more rounds.
func (w *World) restless(sent func() int64) bool {
	over := func() int64 { return w.S.Net.Stats.Overflow }
	w.sleep(4*sec + w.stalls())
	left := 0
	if over() > 0 {
		left = 2
	}
	for k := 0; ; k++ {
		n, o := sent(), over()
		w.sleep(3500 * ms)
		for _, e := range w.allEnds() {
			if !e.alive() {
				return false
			}
		}
		switch {
		case len(w.Viol) > 0 || sent() == n:
			return false
		case over() > o && k < 40:
			left = 2
		case left == 0:
			return true
		default:
			left--
		}
	}
}

func genOneLoss(g *Gen) {
	p := g.p
	g.nodes(2)
	g.cleanLink()
	p.Link.Base = min(p.Link.Base, 20*ms)
	p.Link.Jitter = min(p.Link.Jitter, p.Link.Base)
	g.schedKnobs()
	if g.Pct(70) {
		p.Cfg.SiteEvery = uint64(g.LogRange(5, 100))
		p.Cfg.SitePct = int(g.LogRange(10, 90))
	}
	g.set("dir", int64(g.Intn(2)))
	for i := 10 + g.Intn(50); i > 0; i-- {
		op := Op{A: 0, K: "round", N: g.Range(0, 1<<30), M: g.Range(1, 3), D: g.LogRange(1*us, 300*ms)}
		p.Ops = append(p.Ops, op)
	}
}

// runOneLoss: the messages of each round are written when a timer of the
// sender expires, and the first transmission of each packet, or the first
// acknowledgements, are lost.
func runOneLoss(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	e := w.endOf(int(pl.get("dir")), 1-int(pl.get("dir")))
	o := e.pair()
	if e == nil || o == nil {
		return
	}
	dropData, dropAck := 0, 0
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		st, _, ok := parse(p.Data)
		if ok && dropData > 0 && isData(st) && p.From == e.P.N {
			dropData--
			return true
		}
		if ok && dropAck > 0 && st == stAck && p.From == o.P.N {
			dropAck--
			return true
		}
		return false
	}
	for i := range pl.Ops {
		op := pl.Ops[i]
		w.sleep(op.D)
		n := int(op.M)
		dropData, dropAck = 0, 0
		switch op.N & 3 {
		case 0:
			dropAck = n
		case 1:
			dropData, dropAck = n, n
		default:
			dropData = n
		}
		ev := e.P.spawn("round", func() {
			t := w.S.NextTimer(e.P.N, w.S.Now+100*ms)
			switch op.N >> 2 & 3 {
			case 0:
			case 1:
				t += (op.N>>4)%400 - 200
			default:
				t += (op.N>>4)%20000 - 2000
			}
			if t > w.S.Now {
				w.S.SleepNs(t - w.S.Now)
			}
			for k := 0; k < n; k++ {
				e.write(0, 8+int(op.N>>4)%60, -1)
			}
		})
		if !w.until(12*sec+w.stalls(), func() bool {
			k, _ := e.undelivered()
			return ev.IsSet() && k == 0 || !e.alive()
		}) {
			k, m := e.undelivered()
			if m == nil {
				w.fail("%s: a write did not return", e)
				return
			}
			w.fail("%s: one transmission was lost and %d messages are not delivered in 12 s; first: message %d written at %.3fs", e, k, m.Seq, f9(m.T0))
			return
		}
		w.note("rounds", 1)
		if !e.alive() {
			return
		}
	}
	w.atRest()
	w.recheck()
}
