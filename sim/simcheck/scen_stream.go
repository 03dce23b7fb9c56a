package main

import (
	"fmt"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// genStream draws a workload of messages between one server and clients over
// channels established on a working network, with faults afterwards.
func genStream(g *Gen, o streamOpt) {
	p := g.p
	nc := 1
	if o.clients > 1 && g.Pct(40) {
		nc = 2 + g.Intn(o.clients-1)
	}
	g.nodes(1 + nc)
	g.cleanLink()
	g.schedKnobs()
	if o.frag {
		for i := range p.Nodes {
			switch g.Intn(6) {
			case 0:
				p.Nodes[i].MaxData = 0
			case 5: // Not usable, so it is as if it was not set
				p.Nodes[i].MaxData = [...]int{-1, -1000, 65508, 70000, 1 << 30}[g.Intn(5)]
			case 1:
				p.Nodes[i].MaxData = int(g.Range(1, 70))
			case 2:
				p.Nodes[i].MaxData = int(g.LogRange(30, 1500))
			default:
				p.Nodes[i].MaxData = int(g.LogRange(60, 9000))
			}
		}
	}
	for i := range p.Nodes {
		if g.Pct(30) {
			p.Nodes[i].Delay = int(g.LogRange(15, 3000))
		}
	}
	span := g.LogRange(20*ms, o.span)
	writers := 1
	if o.writers > 1 {
		writers = 2 + g.Intn(o.writers-1)
	}
	dirs := 1 + g.Intn(3) // 1 up, 2 down, 3 both
	total := int(g.LogRange(3, o.msgs))
	bulk := int64(0)
	for c := 1; c <= nc; c++ {
		for d := 1; d <= 2; d++ {
			if dirs&d == 0 {
				continue
			}
			from, to := c, 0
			if d == 2 {
				from, to = 0, c
			}
			for wr := 0; wr < writers; wr++ {
				a := len(p.Actors)
				p.Actors = append(p.Actors, Actor{from, to, wr})
				k := 1 + total/(writers*nc)
				gap := span / int64(k+1)
				burst := g.Pct(40)
				for i := 0; i < k; i++ {
					op := Op{A: a, K: "send", M: -1}
					op.N = g.size(p.Nodes[from].Frag(), o.minSize)
					if p.Nodes[from].Frag() == 0 && o.huge && bulk < 1_500_000 && g.Pct(15) {
						op.N = 65475 + g.Range(-60, 60)
						if g.Pct(40) {
							op.N = 65475*g.Range(1, 3) + g.Range(-30, 30)
						}
						bulk += op.N
					}
					if p.Nodes[from].Frag() > 0 && p.Nodes[from].Frag() < 20 && op.N > 600 {
						op.N = g.Range(o.minSize, 600)
					}
					if burst && g.Pct(85) {
						op.D = 0
					} else {
						op.D = g.Range(0, 2*gap)
					}
					if o.cb {
						switch {
						case g.Pct(15):
						case g.Pct(40):
							op.M = 0
						case o.shortCb:
							op.M = g.LogRange(1*ms, 2*p.Link.Base+300*ms)
						case o.longCb && g.Pct(5):
							op.M = g.LogRange(9*sec, 100*sec)
						default:
							op.M = g.LogRange(1*ms, 9*sec)
						}
					}
					p.Ops = append(p.Ops, op)
				}
			}
		}
	}
	if o.huge && g.Pct(5) { // messages of thousands of fragments
		p.Ops = p.Ops[:min(len(p.Ops), 30)]
		for k := 1 + g.Intn(2); k > 0; k-- {
			op := &p.Ops[g.Intn(len(p.Ops))]
			f := int64(p.Nodes[p.Actors[op.A].P].Frag())
			if f == 0 {
				f = 65475
			}
			op.N = min(f*g.LogRange(41, 2500), 8<<20) + g.Range(-1, 1)
		}
		g.set("many", 1)
	}
	if o.cbWriter && g.Pct(60) {
		g.set("cbwriter", g.Range(1, 8))
	}
	if o.echo && g.Pct(50) {
		g.set("echo", g.Range(1, 8))
	}
	if g.Pct(o.faultPct) {
		g.netFaults(span, o.heavy)
	}
	if o.closes && g.Pct(60) {
		for k := 1 + g.Intn(2); k > 0 && len(p.Ops) > 0; k-- {
			i := g.Intn(len(p.Ops))
			p.Ops = append(p.Ops[:i:i], append([]Op{{A: p.Ops[i].A, K: "close", D: g.Range(0, 100*ms)}}, p.Ops[i:]...)...)
		}
	}
	if o.crashes && g.Pct(40) {
		p.Faults = append(p.Faults, Fault{K: "crash", At: g.Range(0, span), A: g.Intn(len(p.Nodes)), B: -1})
	}
	if o.crashes && g.Pct(30) {
		p.Faults = append(p.Faults, Fault{K: "block", At: g.Range(0, span), Dur: g.LogRange(sec, 12*sec), A: -1, B: -1})
	}
	if g.Pct(20) {
		g.set("ff", int64(0x100000)-g.Range(1, int64(total)+2))
	}
	g.set("huge", bulk)
}

type streamOpt struct {
	clients  int
	writers  int
	msgs     int64
	span     int64
	frag     bool
	huge     bool
	heavy    bool
	cb       bool
	cbWriter bool
	echo     bool
	minSize  int64
	faultPct int
	live     bool
	integ    bool
	quiet    bool
	want     func(w *World)
	closes   bool
	crashes  bool
	shortCb  bool
	longCb   bool
}

// setup starts all nodes and connects every client to node 0 over the clean
// network. Returns false if that failed (already reported).
func (w *World) setup(params ...any) bool {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port, params...); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return false
		}
	}
	for i := 1; i < len(w.Peers); i++ {
		if w.establish(w.Peers[i], w.Peers[0]) == nil {
			return false
		}
	}
	return true
}

// establish connects p to q on a working network and waits for both ends.
func (w *World) establish(p, q *Peer) *End {
	var e *End
	var err error
	if !p.on("connect", 30*sec, func() { e, err = p.connect(q) }) {
		w.fail("Connect from %s to %s did not return", p.N.Name, q.N.Name)
		return nil
	}
	if err != nil {
		w.fail("Connect from %s to %s failed on a working network: %v", p.N.Name, q.N.Name, err)
		return nil
	}
	if !w.until(2*sec+w.stalls(), func() bool { return e.pair() != nil }) {
		w.fail("Connect from %s succeeded but %s has no channel for it", p.N.Name, q.N.Name)
		return nil
	}
	return e
}

// endOf returns the end of peer p towards q (the first one).
func (w *World) endOf(p, q int) *End {
	for _, e := range w.Peers[p].ends {
		if e.Addr == w.Peers[q].addr() {
			return e
		}
	}
	return nil
}

// runActors starts all actors of the plan; the returned function tells whether
// all of them are done.
func (w *World) runActors(step func(a int, e *End, op Op)) func() bool {
	type actor struct {
		*simrt.Event
		p *Peer
	}
	var evs []actor
	for a, ac := range w.Plan.Actors {
		a, ac := a, ac
		e := w.endOf(ac.P, ac.T)
		var ops []Op
		for _, op := range w.Plan.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if e == nil || len(ops) == 0 {
			continue
		}
		evs = append(evs, actor{w.Peers[ac.P].spawn(fmt.Sprintf("actor%d", a), func() {
			for _, op := range ops {
				if op.D > 0 {
					w.S.SleepNs(op.D)
				}
				switch op.K {
				case "send":
					e.write(ac.W, int(op.N), op.M)
				case "close":
					if e.closeAt == 0 {
						e.closeAt = w.S.Now
					}
					w.tr("%s: Close of #%d", e.P.N.Name, e.id)
					e.Ch.Close()
				default:
					step(a, e, op)
				}
			}
		}), w.Peers[ac.P]})
	}
	return func() bool {
		for _, e := range evs {
			if !e.IsSet() && !e.p.N.Dead {
				return false
			}
		}
		return true
	}
}

func (w *World) allEnds() (r []*End) {
	for _, p := range w.Peers {
		r = append(r, p.ends...)
	}
	return
}

// alive tells whether neither side of the channel of e has ended.
func (e *End) alive() bool {
	o := e.pair()
	return o != nil && len(e.Ended) == 0 && len(o.Ended) == 0 && !e.P.N.Dead && !o.P.N.Dead
}

// drained tells whether every accepted message on live channels was delivered.
func (w *World) drained() bool {
	for _, e := range w.allEnds() {
		if e.alive() {
			if n, _ := e.undelivered(); n > 0 {
				return false
			}
		}
	}
	return true
}

func (w *World) checkDrained(bound int64) {
	for {
		o := w.S.Net.Stats.Overflow
		if w.until(bound+w.stalls(), w.drained) {
			return
		}
		if w.S.Net.Stats.Overflow == o || w.S.Now > w.faultsEnd+300*sec {
			break
		}
		// so much is retransmitted at once that it overflows receive buffers
	}
	for _, e := range w.allEnds() {
		if n, m := e.undelivered(); n > 0 && e.alive() {
			w.fail("%s: %d accepted messages not delivered %.1f s after the network healed; first: writer %d message %d (%d bytes) written at %.3fs",
				e, n, float64(bound)/1e9, m.W, m.Seq, m.Size, float64(m.T0)/1e9)
		}
	}
}

// runStream executes a stream workload.
func runStream(w *World, o streamOpt) {
	w.wantIntegrity = o.integ
	lastData, dataSent := int64(0), int64(0)
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		if st, _, ok := parse(p.Data); ok && isData(st) {
			lastData = w.S.Now
			dataSent++
		}
	})
	if !w.setup() {
		return
	}
	if ff := w.Plan.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			if fastForward(e, e.pair(), uint32(ff)) {
				w.note("fastforward", 1)
			}
		}
	}
	if k := w.Plan.get("echo"); k > 0 { // writes from message callbacks
		for _, p := range w.Peers {
			p.onMsg = func(e *End, data []byte, _ *tru.Packet) {
				if len(e.Recv)%int(k) == 0 && e.streamLen(90) < 50 && e.last != nil && e.last.W < 90 {
					e.write(90, 8+int(fnv(data)%500), -1)
				}
			}
		}
	}
	if k := w.Plan.get("cbwriter"); k > 0 { // writes from delivery callbacks
		w.onCb = func(m *Msg) {
			// each callback runs on a goroutine of its own: a writer each
			if m.W < 90 && w.ncb%int(k) == 0 && len(m.E.W) < 60 {
				m.E.write(100+len(m.E.W), 8+int(w.ncb%300), -1)
			}
		}
	}
	w.schedule()
	done := w.runActors(nil)
	if !w.until(w.faultsEnd-w.S.Now+180*sec, done) {
		if o.live {
			w.fail("a write did not return for 180 s after the faults ended")
		}
		w.note("writers-stuck", 1)
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	if o.live {
		w.checkDrained(10 * sec)
	} else {
		w.until(10*sec+w.stalls(), w.drained)
	}
	if o.want != nil {
		o.want(w)
	}
	if o.huge { // a message of any size is taken
		for _, e := range w.allEnds() {
			for _, st := range e.writers() {
				for _, m := range st.Msgs {
					if e.alive() && m.State > 1 {
						w.fail("%s: write of %d bytes to a live channel failed: %s", e, m.Size, m.Err)
					}
				}
			}
		}
	}
	if o.quiet && len(w.Viol) == 0 {
		busy := w.restless(func() int64 { return dataSent })
		alive := false
		for _, e := range w.allEnds() {
			if e.alive() {
				alive = true
			}
		}
		dead := false
		for _, e := range w.allEnds() {
			if !e.alive() {
				dead = true
			}
		}
		if alive && !dead {
			if busy {
				w.fail("data still sent at %.3fs although every message was delivered and acknowledged long ago", float64(lastData)/1e9)
			}
			for _, p := range w.Peers {
				p := p
				if p.N.Dead {
					continue
				}
				p.on("stat", 10*sec, func() {
					for _, s := range p.T.Statistic() {
						if s.SQ != 0 || s.RQ != 0 {
							w.fail("%s: channel %s still has %d packets in the send queue and %d in the receive queue at rest", p.N.Name, s.Addr, s.SQ, s.RQ)
						}
					}
				})
			}
		}
	}
	w.recheck()
	for _, e := range w.allEnds() {
		if len(e.Ended) > 0 {
			w.note("ended", 1)
		}
	}
}

func (e *End) streamLen(wid int) int {
	if s := e.W[wid]; s != nil {
		return len(s.Msgs)
	}
	return 0
}
