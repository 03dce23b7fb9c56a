package main

import (
	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Statistics (C20).

func init() {
	reg(&Prop{ID: "C20", Quick: 2000, Thorough: 80000, Scens: []Scenario{
		{"statistic", 6, genStat, runStat},
	}})
}

func genStat(g *Gen) {
	genStream(g, streamOpt{clients: 4, writers: 2, msgs: 300, span: 3 * sec, faultPct: 70, frag: true, cb: true, minSize: 8})
	p := g.p
	if g.Pct(40) {
		g.set("stat", 1)
	}
	for k := g.Intn(4); k > 0; k-- { // goroutines that take statistics
		a := 100 + k
		n := g.Intn(len(p.Nodes))
		gap := g.LogRange(1*us, 200*ms)
		for i := int(g.LogRange(1, 60)); i > 0; i-- {
			p.Ops = append(p.Ops, Op{A: a, K: "stat", T: n, D: g.Range(0, gap), N: int64(g.Intn(4))})
		}
	}
	if g.Pct(60) { // a burst while the network is down
		g.set("cut", g.Range(1, 40))
		if g.Pct(20) {
			g.set("cut", 40) // a single message on the first channel
		}
		g.set("cutfor", g.LogRange(300*ms, 2500*ms))
		if g.Pct(40) { // nothing is sent again yet
			g.set("cutfor", g.LogRange(30*ms, 150*ms))
		}
	}
	if g.Pct(60) { // a packet is missing
		g.set("gap", g.Range(1, 30))
	}
	if g.Pct(50) {
		g.set("steady", g.LogRange(5*ms, 100*ms))
	}
}

// statRow is the row of the statistics of e.
func statRow(e *End, st tru.ChannelsStatistic) *tru.ChannelStatistic {
	for i := range st {
		if st[i].Addr == e.Addr {
			return &st[i]
		}
	}
	return nil
}

// takeStat takes statistics on p.
func (w *World) takeStat(p *Peer) (st tru.ChannelsStatistic, ok bool) {
	ok = p.on("stat", 3*sec+w.stalls(), func() { st = p.T.Statistic() })
	if !ok {
		w.fail("%s: Statistic did not return in 3 s", p.N.Name)
		return
	}
	want := map[string]bool{}
	for _, e := range p.ends {
		if e.alive() {
			want[e.Addr] = true
		}
	}
	for i := range st {
		if i > 0 && st[i-1].Addr >= st[i].Addr {
			w.fail("%s: rows of the statistics are not in order: %s, %s", p.N.Name, st[i-1].Addr, st[i].Addr)
			return st, false
		}
		delete(want, st[i].Addr)
	}
	for _, e := range p.ends {
		if want[e.Addr] {
			w.fail("%s has no row in the statistics", e)
			return st, false
		}
	}
	return
}

// counts is what the history says about a channel end.
type counts struct {
	send, recv, rsnd, ack, ackd, drop int64
	sq, rta                           int64
}

func (e *End) counts() (c counts) {
	f := e.wire()
	for _, s := range e.W {
		for _, m := range s.Msgs {
			if m.State == 1 {
				c.send++
			}
		}
	}
	c.recv = int64(len(e.Recv))
	c.rsnd = f.DataSent - int64(len(f.Data))
	for _, x := range f.Data {
		if x.AckAt >= 0 {
			c.ack++
		} else {
			if c.sq == 0 {
				c.rta = int64(x.Sends - 1)
			}
			c.sq++
		}
	}
	c.ackd = f.AckRead - c.ack
	c.drop = f.DataRead - int64(len(f.DataIDs))
	return
}

// statQuiet compares the statistics of all live channels with the history at a
// moment without traffic (retransmissions apart). rq holds expected lengths of
// receive queues that are not zero.
func (w *World) statQuiet(label string, rest bool, rq map[*End]int64) bool {
	for _, p := range w.Peers {
		before := map[*End]counts{}
		for _, e := range p.ends {
			before[e] = e.counts()
		}
		st, ok := w.takeStat(p)
		if !ok {
			return false
		}
		for _, e := range p.ends {
			if !e.alive() {
				continue
			}
			r := statRow(e, st)
			b, a := before[e], e.counts()
			bad := func(name string, got, lo, hi int64) {
				if got < lo || got > hi {
					w.fail("%s: %s: %s is %d, the history says %d (to %d)", label, e, name, got, lo, hi)
				}
			}
			bad("Send", r.Send, b.send, a.send)
			bad("Recv", r.Recv, b.recv, a.recv)
			bad("Drop", r.Drop, b.drop, a.drop)
			bad("SQ", int64(r.SQ), b.sq, a.sq)
			bad("RQ", int64(r.RQ), rq[e], rq[e])
			bad("Ack", r.Ack, b.ack, a.ack)
			bad("AckD", r.AckD, b.ackd, a.ackd)
			if rest {
				bad("Rsnd", r.Rsnd, b.rsnd, a.rsnd)
				bad("RTA", int64(r.RTA), 0, 0)
			} else { // some may wait for the sender
				bad("Rsnd", r.Rsnd, b.rsnd-1, a.rsnd+a.sq)
				bad("RTA", int64(r.RTA), b.rta, a.rta+1)
			}
			if len(w.Viol) > 0 {
				return false
			}
			w.note("rows-"+label, 1)
		}
	}
	return true
}

func runStat(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	var par []any
	if pl.get("stat") == 1 {
		par = append(par, tru.Stat(true))
	}
	if !w.setup(par...) {
		return
	}
	if ff := pl.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			if fastForward(e, e.pair(), uint32(ff)) {
				w.note("fastforward", 1)
			}
		}
	}
	w.schedule()
	done := w.runActors(nil)
	var evs []*simrt.Event
	overdue := ""
	for a := 101; a < 110; a++ {
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		p := w.Peers[ops[0].T%len(w.Peers)]
		evs = append(evs, p.spawn("stat", func() {
			for _, op := range ops {
				w.S.SleepNs(op.D)
				t, s0 := w.S.Now, w.stalls()
				st := p.T.Statistic()
				switch op.N {
				case 1:
					_ = st.String()
				case 2:
					p.T.StatisticPrint()
				case 3:
					p.T.StatisticPrintStop()
				}
				w.note("concurrent-statistics", 1)
				if d := w.S.Now - t - (w.stalls() - s0); d > 3*sec && overdue == "" {
					overdue = sprintf("%s: Statistic took %.1f s", p.N.Name, f9(d))
				}
				for i := range st {
					if st[i].TT < 0 || st[i].Send < 0 || st[i].Ssec < 0 || st[i].Rsec < 0 || int64(st[i].SQ) > 1<<40 || st[i].RTA < 0 {
						overdue = sprintf("%s: statistics of %s hold impossible values: %+v", p.N.Name, st[i].Addr, st[i])
					}
				}
			}
		}))
	}
	all := func() bool {
		for _, ev := range evs {
			if !ev.IsSet() {
				return false
			}
		}
		return done()
	}
	if !w.until(w.faultsEnd-w.S.Now+180*sec, all) {
		w.fail("writes or Statistic calls do not return")
		return
	}
	if overdue != "" {
		w.fail("%s", overdue)
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	rest := func(label string) bool {
		w.checkDrained(12 * sec)
		w.sleep(4500*ms + w.stalls()) // last retransmissions
		if len(w.Viol) > 0 || !w.statQuiet(label, true, nil) {
			return false
		}
		for _, p := range w.Peers {
			st, ok := w.takeStat(p)
			if !ok {
				return false
			}
			for _, e := range p.ends {
				if !e.alive() {
					continue
				}
				r := statRow(e, st)
				if r.Ssec != 0 || r.Rsec != 0 {
					w.fail("%s: %s: speeds %d/s and %d/s long after the last message", label, e, r.Ssec, r.Rsec)
					return false
				}
				if !w.tripTime(e, r) {
					return false
				}
			}
		}
		return true
	}
	if !rest("rest") {
		return
	}
	var ends []*End
	for _, e := range w.allEnds() {
		if e.alive() {
			ends = append(ends, e)
		}
	}
	if n := pl.get("cut"); n > 0 && len(ends) > 0 {
		w.S.Net.EachLink(func(a, b *simrt.Node, l *simrt.Link) { l.Block = true })
		if !w.burst(ends, n) {
			return
		}
		w.sleep(pl.get("cutfor") + w.stalls())
		if !w.statQuiet("cut", false, nil) {
			return
		}
		w.heal()
		if !rest("rest after cut") {
			return
		}
	}
	if n := pl.get("gap"); n > 0 && len(ends) > 0 {
		// the first data packet of every burst gets lost each time
		first := map[flowKey]uint32{}
		w.S.Net.Drop = func(p *simrt.Pkt) bool {
			st, id, ok := parse(p.Data)
			if !ok || !isData(st) || p.From == nil {
				return false
			}
			k := flowKey{p.From.ID, p.Dst.String()}
			if x, ok := first[k]; ok {
				return x == id
			}
			first[k] = id
			return true
		}
		base := map[*End]int{}
		for _, e := range ends {
			base[e] = len(e.wire().DataIDs)
		}
		if !w.burst(ends, n) {
			return
		}
		// acknowledgements of the packets after it have arrived
		w.sleep(700*ms + 4*(pl.Link.Base+pl.Link.Jitter) + w.stalls())
		rq := map[*End]int64{}
		for _, e := range ends {
			rq[e] = int64(len(e.wire().DataIDs) - base[e])
		}
		if !w.statQuiet("gap", false, rq) {
			return
		}
		w.S.Net.Drop = nil
		if !rest("rest after gap") {
			return
		}
	}
	if gap := pl.get("steady"); gap > 0 && len(ends) > 0 && pl.Cfg.StallPct == 0 {
		e := ends[int(pl.Seed%uint64(len(ends)))]
		n := 0
		e.P.spawn("steady", func() {
			for t := w.S.Now + 3*sec; w.S.Now < t; n++ {
				e.write(80, 20, -1)
				w.S.SleepNs(gap)
			}
		})
		w.sleep(2*sec + 500*ms)
		n0 := n
		check := func(e *End, recv bool) {
			st, ok := w.takeStat(e.P)
			if !ok {
				return
			}
			r := statRow(e, st)
			if r == nil {
				return
			}
			v, name := r.Ssec, "Ssec"
			if recv {
				v, name = r.Rsec, "Rsec"
			}
			want := int64(float64(n0) / 2.5)
			if v < want*55/100-2 || v > want*16/10+3 {
				w.fail("%s: %s is %d while %d messages a second pass", e, name, v, want)
			}
			w.note("steady", 1)
		}
		check(e, false)
		check(e.pair(), true)
		w.sleep(sec)
		if len(w.Viol) > 0 || !rest("rest after steady") {
			return
		}
	}
	w.recheck()
}

// burst writes n messages to each of the ends at the same time.
func (w *World) burst(ends []*End, n int64) bool {
	var evs []*simrt.Event
	frags := int64(0)
	for i, e := range ends {
		e := e
		k := 1 + (n+int64(i)*7)%40
		frags = max(frags, k*min(15, 1+220/int64(max(1, w.Plan.Nodes[e.P.ID].MaxData))))
		evs = append(evs, e.P.spawn("burst", func() {
			for j := int64(0); j < k; j++ {
				size := 20 + int(j*n)%200
				if m := w.Plan.Nodes[e.P.ID].MaxData; m > 0 && size > 8*m+7 {
					size = 8*m + 7 // at most 15 fragments, each may take a round trip
				}
				e.write(60, size, -1)
			}
		}))
	}
	for _, ev := range evs {
		if !ev.Wait(20*sec + w.stalls() + frags*(4*(w.Plan.Link.Base+w.Plan.Link.Jitter)+20*ms)) {
			w.fail("writes without a network do not return")
			return false
		}
	}
	return true
}

// tripTime checks the mean trip time of e against the history: it is positive,
// not longer than the slowest round trip and, if nothing was sent twice, not
// shorter than the path.
func (w *World) tripTime(e *End, r *tru.ChannelStatistic) bool {
	f := e.wire()
	slow := int64(0)
	single := true
	for _, x := range f.Data {
		if x.AckAt >= 0 {
			slow = max(slow, x.AckAt-x.First)
		}
		if x.Sends > 1 {
			single = false
		}
	}
	var tt int64
	if !e.P.on("triptime", 3*sec+w.stalls(), func() { tt = int64(e.Ch.Triptime()) }) {
		w.fail("%s: Triptime did not return", e)
		return false
	}
	if d := r.TT*1e6 - float64(tt); d > 2e3 || d < -2e3 {
		w.fail("%s: Triptime is %.3f ms, the statistics say %.3f ms", e, float64(tt)/1e6, r.TT)
		return false
	}
	if len(f.Data) == 0 {
		if tt != 0 {
			w.fail("%s: trip time %.3f ms without any message", e, float64(tt)/1e6)
		}
		return len(w.Viol) == 0
	}
	// from the write until the acknowledgement was processed
	slack := 20*ms + w.stalls()
	if w.Plan.Cfg.StallPct > 0 {
		slack += 2 * w.Plan.Cfg.StallCeiling
	}
	for _, s := range e.W {
		for _, m := range s.Msgs {
			slack = max(slack, m.T1-m.T0+20*ms+w.stalls())
		}
	}
	if tt < 0 || tt > slow+slack {
		w.fail("%s: trip time %.3f ms, the slowest round trip took %.3f ms", e, float64(tt)/1e6, float64(slow)/1e6)
		return false
	}
	rate := func(p *Peer) int64 { return max(900, p.w.Plan.Nodes[p.ID].Rate) }
	if lo := 2 * w.Plan.Link.Base * min(rate(e.P), 1000) / 1000 * 95 / 100; single && tt < lo-1*ms {
		w.fail("%s: trip time %.3f ms but a round trip takes %.3f ms at least", e, float64(tt)/1e6, float64(2*w.Plan.Link.Base)/1e6)
		return false
	}
	w.note("triptime", 1)
	return true
}
