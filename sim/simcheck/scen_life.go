package main

import (
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// The life of channels: dead peers are noticed (C09), live ones are kept (C10),
// the end is reported once and is final (C11).

const (
	inactive  = 6 * sec   // inactivity limit
	lifeSlack = 1500 * ms // check interval, scheduling
	giveUp    = 340 * sec // 100 retransmissions, at most 3 s (and a tick) apart
	outageMax = 600 * ms  // outages that must not end a channel
	quietMin  = 5500 * ms // a channel must live at least this long after hearing its peer
)

func init() {
	reg(&Prop{ID: "C09", Quick: 4000, Thorough: 50000, Scens: []Scenario{
		{"cut", 8, genDead, runDead},
		{"ack-loss", 1, genAckLoss, runAckLoss},
	}})
	reg(&Prop{ID: "C10", Quick: 2500, Thorough: 50000, Scens: []Scenario{
		{"idle", 4, genIdle, runIdle},
		{"traffic", 4, genAliveTraffic, runAliveTraffic},
	}})
	reg(&Prop{ID: "C11", Quick: 10000, Thorough: 60000, Scens: []Scenario{
		{"ends", 6, genEnds, runEnds},
		{"reject", 1, genReject, runReject},
	}})
}

// --- C09 ------------------------------------------------------------------------

// genDead: traffic of some kind, then something cuts channels.
func genDead(g *Gen) {
	o := streamOpt{clients: 3, writers: 2, msgs: 150, span: 8 * sec, faultPct: 30, frag: true, cb: true}
	genStream(g, o)
	p := g.p
	if g.Pct(25) {
		p.Ops = nil // idle
	}
	delete(p.P, "ff")
	n := 1 + g.Intn(2)
	for i := 0; i < n; i++ {
		c := 1 + g.Intn(len(p.Nodes)-1)
		op := Op{K: []string{"crash", "freeze", "block", "oneway", "oneway", "sockerr"}[g.Intn(6)], D: g.LogRange(1*ms, 12*sec), A: c, T: 0}
		if g.Pct(50) {
			op.A, op.T = 0, c // node A goes away for node T
		}
		p.Ops = append(p.Ops, Op{A: 1000 + i, K: op.K, D: op.D, N: int64(op.A), M: int64(op.T)})
	}
}

// checkSilence fails for every channel that lives although nothing of its peer
// was read for too long; it must be called often enough.
func (w *World) checkSilence() bool {
	for _, e := range w.allEnds() {
		p := e.P
		if p.N.Dead || e.epoch != p.epoch || e.closeAt > 0 {
			continue
		}
		heard := max(e.wire().LastRead, e.Created)
		limit := heard + (inactive+lifeSlack)*101/100 + w.stalls()
		if len(e.Ended) == 0 && w.S.Now > limit {
			w.fail("%s has heard nothing from its peer for %.3f s and has not ended", e, f9(w.S.Now-heard))
			return false
		}
		if len(e.Ended) > 0 && w.S.Now > limit && !e.Ch.Destroyed() {
			w.fail("%s told its reader that it ended but is not destroyed", e)
			return false
		}
	}
	return true
}

func runDead(w *World) {
	if !w.setup() {
		return
	}
	w.schedule()
	w.runActors(nil)
	pl := w.Plan
	frozen := map[*Peer]bool{}
	cut := 0
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.A < 1000 {
			continue
		}
		a, b := w.Peers[op.N], w.Peers[op.M]
		w.S.After(op.D, func() {
			w.tr("cut %s %s->%s", op.K, a.N.Name, b.N.Name)
			cut++
			w.note("cut-"+op.K, 1)
			w.healed[[2]int{a.N.ID, b.N.ID}] = true
			l := w.S.Net.Link(a.N, b.N)
			switch op.K {
			case "crash":
				w.crash(a)
			case "freeze":
				frozen[a] = true
				n := a.N.StallTotal
				w.S.StallNode(a.N, 60*sec)
				a.N.StallTotal = n
			case "block":
				w.healed[[2]int{b.N.ID, a.N.ID}] = true
				l.Block = true
				w.S.Net.Link(b.N, a.N).Block = true
			case "oneway":
				l.Block = true
			case "sockerr":
				l.SendErr = 1000
			}
		})
	}
	end := w.S.Now + 13*sec
	end = max(end, w.faultsEnd) + 9*sec + w.stalls()
	for w.S.Now < end {
		w.sleep(250 * ms)
		for _, p := range w.Peers {
			if frozen[p] {
				for _, e := range p.ends {
					e.closeAt = w.S.Now // not judged: the process stands still
				}
			}
		}
		if !w.checkSilence() {
			return
		}
	}
	// the readers were told, and the channels are gone
	for _, p := range w.Peers {
		if p.N.Dead || frozen[p] {
			continue
		}
		listed := p.channels()
		for _, e := range p.ends {
			if len(e.Ended) == 0 {
				continue
			}
			w.note("noticed", 1)
			want := 1
			if e.Own {
				want = 2
			}
			if len(e.Ended) != want {
				w.fail("%s: %d reader calls with the end, want %d", e, len(e.Ended), want)
			}
			for _, ch := range listed {
				if ch == e.Ch {
					w.fail("%s is still listed after its end", e)
				}
			}
		}
	}
}

// genAckLoss: the peer is heard but its acknowledgements are lost.
func genAckLoss(g *Gen) {
	g.nodes(2)
	g.cleanLink()
	g.schedKnobs()
	g.p.Cfg.StallPct = 0
	g.set("from", int64(g.Intn(2)))
	g.set("msgs", g.LogRange(1, 20))
	g.set("back", int64(g.Intn(2)))
	g.set("after", g.LogRange(1*us, 3*sec))
	if g.Pct(60) {
		g.set("goon", g.LogRange(sec, 60*sec))
	}
	if g.Pct(50) {
		g.p.Nodes[0].MaxData, g.p.Nodes[1].MaxData = 200, 200
	}
}

func runAckLoss(w *World) {
	if !w.setup() {
		return
	}
	pl := w.Plan
	e := w.endOf(1, 0)
	if pl.get("from") == 1 {
		e = e.pair()
	}
	o := e.pair()
	lossFrom := int64(-1)
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		st, _, ok := parse(p.Data)
		return ok && lossFrom >= 0 && st == stAck && p.To == e.P.N
	}
	traffic := func() {
		e.P.spawn("w", func() {
			for i := int64(0); i < pl.get("msgs"); i++ {
				e.write(0, int(100+i), -1)
			}
		})
	}
	traffic()
	w.sleep(pl.get("after"))
	lossFrom = w.S.Now
	traffic()
	if d := pl.get("goon"); d > 0 { // new messages do not put off the limit
		e.P.spawn("w", func() {
			for len(e.Ended) == 0 {
				w.S.SleepNs(d)
				e.write(1, 70, -1)
			}
		})
	}
	if pl.get("back") == 1 {
		o.P.spawn("w", func() {
			for len(o.Ended) == 0 {
				o.write(0, 50, -1)
				w.S.SleepNs(500 * ms)
			}
		})
	}
	w.sleep(sec)
	if !w.until(giveUp, func() bool { return len(e.Ended) > 0 }) {
		w.fail("%s was heard but acknowledged nothing for %.0f s and was not given up", o, f9(giveUp))
		return
	}
	w.note("given-up", 1)
	for i := 0; i < 40; i++ {
		w.sleep(250 * ms)
		if !w.checkSilence() {
			return
		}
	}
	if len(o.Ended) == 0 {
		w.fail("%s did not end after its peer gave up", o)
	}
}

// --- C10 ------------------------------------------------------------------------

func genIdle(g *Gen) {
	p := g.p
	nc := 1 + g.Intn(3)
	g.nodes(1 + nc)
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Link = simrt.Link{Base: g.LogRange(20*us, 50*ms)}
	if g.Pct(60) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	for i := range p.Nodes {
		if g.Pct(50) {
			p.Nodes[i].Rate = g.Range(970, 1030)
		}
	}
	limit := 40 * 60 * sec
	if g.tier == "thorough" {
		limit = 6 * 3600 * sec
	}
	span := g.LogRange(20*sec, limit)
	if g.Pct(1) { // hours
		span = g.LogRange(3600*sec, 26*3600*sec)
	}
	p.Cfg.Horizon = 48 * 3600 * sec
	g.set("span", span)
	// occasional messages
	n := g.LogRange(1, 12)
	for i := int64(0); i < n; i++ {
		p.Ops = append(p.Ops, Op{A: g.Intn(nc) + 1, K: "send", D: g.Range(0, span), N: g.LogRange(1, 3000), M: int64(g.Intn(2))})
	}
	// single, small faults far apart
	for t := g.Range(0, 20*sec); t < span && len(p.Faults) < 200; t += 8*sec + g.LogRange(10*ms, 60*sec) {
		c := 1 + g.Intn(nc)
		f := Fault{At: t, A: 0, B: c}
		switch g.Intn(7) {
		case 0, 1:
			f.K, f.Dur = "block", g.LogRange(10*ms, outageMax)
			if g.Pct(50) {
				f.A, f.B = c, 0
			}
			if g.Pct(30) {
				f.A, f.B = -1, -1
			}
		case 2:
			f.K, f.Dur, f.A = "stall", g.LogRange(10*ms, outageMax), g.Intn(nc+1)
		case 3:
			f.K, f.Dur, f.A, f.V = "wall", 0, g.Intn(nc+1), g.Range(-100000, 100000)*sec
		case 4:
			f.K, f.Dur, f.A, f.B, f.V, f.W = "dup", g.LogRange(10*ms, 20*sec), -1, -1, 500, g.LogRange(1*ms, 8*sec)
		case 5:
			// the next keepalive datagram of that link is lost
			f.K, f.Dur, f.V = "pingloss", 0, int64(1+g.Intn(2))
			if g.Pct(50) {
				f.A, f.B = c, 0
			}
		case 6:
			f.K, f.Dur, f.A, f.B, f.V = "senderr", g.LogRange(10*ms, outageMax), -1, -1, 1000
		}
		p.Faults = append(p.Faults, f)
		t += f.Dur
	}
}

// checkHeard reports a channel that ended although its peer was heard lately.
func (w *World) checkHeard(strict bool) {
	for _, p := range w.Peers {
		p.onEnd = func(e *End) {
			o := e.Pair
			if e.closeAt > 0 || o != nil && (o.closeAt > 0 || o.P.N.Dead) {
				return
			}
			if e.wire().ReadBy[stDisconnect] > 0 {
				if o != nil && len(o.Ended) == 0 {
					w.fail("%s was told to disconnect by a peer whose channel has not ended", e)
				}
				return
			}
			silent := w.S.Now - max(e.Created, e.wire().Heard)
			if silent < quietMin*99/100-e.P.N.StallTotal-400*ms {
				w.fail("%s was ended by the library although its peer was heard %.3f s ago", e, f9(silent))
				return
			}
			if strict {
				w.fail("%s was ended by the library (heard %.3f s ago) on a network with short outages only", e, f9(silent))
			}
		}
	}
}

func runIdle(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	w.checkHeard(true)
	loseKa := map[[2]int]int{}
	lostKa := map[[2]int][]int64{}
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		st, _, ok := parse(p.Data)
		if !ok || p.From == nil || p.To == nil || st != stPing && st != stPong {
			return false
		}
		w.note("keepalives", 1)
		k := [2]int{p.From.ID, p.To.ID}
		if loseKa[k] > 0 {
			loseKa[k]--
			// not more than two in a row, whatever the way
			pair := [2]int{min(k[0], k[1]), max(k[0], k[1])}
			if l := lostKa[pair]; len(l) > 1 && w.S.Now-l[len(l)-2] < 10*sec {
				return false
			}
			lostKa[pair] = append(lostKa[pair], w.S.Now)
			w.note("keepalives-lost", 1)
			return true
		}
		return false
	}
	w.schedule()
	for _, f := range pl.Faults {
		if f.K == "pingloss" {
			f := f
			w.S.After(f.At, func() { loseKa[[2]int{f.A, f.B}] = int(f.V) })
		}
	}
	for i := range pl.Ops {
		op := pl.Ops[i]
		w.S.After(op.D, func() {
			e := w.endOf(op.A, 0)
			if op.M == 1 {
				e = e.pair()
			}
			e.P.spawn("w", func() { e.write(len(e.W), int(op.N), -1) })
		})
	}
	w.sleep(pl.get("span"))
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.S.Net.Drop = nil
	ends := w.allEnds()
	for _, e := range ends {
		e := e
		if !e.P.on("write", 10*sec, func() { e.write(99, 100, -1) }) {
			w.fail("%s: write did not return after an idle time", e)
			return
		}
	}
	w.checkDrained(10 * sec)
	w.note("idle-s", pl.get("span")/sec)
	w.checkEstablished(ends, len(w.Peers)-1)
}

// genAliveTraffic: minutes of traffic under faults which never silence a peer
// for long.
func genAliveTraffic(g *Gen) {
	o := streamOpt{clients: 2, writers: 2, msgs: 300, span: 60 * sec, faultPct: 90, frag: true}
	genStream(g, o)
	p := g.p
	if g.Pct(50) { // outages around the limit
		at := int64(0)
		for k := 1 + g.Intn(4); k > 0; k-- {
			f := Fault{K: "block", At: at + g.LogRange(1*ms, 10*sec), Dur: g.LogRange(sec, 8*sec), A: -1, B: -1}
			if g.Pct(50) {
				f.A = g.Intn(len(p.Nodes))
				f.B = (f.A + 1 + g.Intn(len(p.Nodes)-1)) % len(p.Nodes)
			}
			p.Faults = append(p.Faults, f)
			at = f.At + f.Dur
		}
	}
	switch g.Intn(4) {
	case 0:
		p.Link.Base = g.LogRange(100*ms, 900*ms)
		p.Link.Jitter = g.LogRange(1*us, 200*ms)
		p.Faults = nil
	case 1: // only late duplicates keep coming
		p.Faults = append(p.Faults, Fault{K: "dup", At: 0, Dur: 100 * sec, A: -1, B: -1, V: 900, W: 10 * sec})
	}
	g.set("rest", g.LogRange(1*sec, 30*sec))
}

func runAliveTraffic(w *World) {
	if !w.setup() {
		return
	}
	if ff := w.Plan.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			fastForward(e, e.pair(), uint32(ff))
		}
	}
	w.checkHeard(false)
	w.schedule()
	done := w.runActors(nil)
	w.until(w.faultsEnd-w.S.Now+120*sec, done)
	w.sleepUntil(w.faultsEnd)
	w.sleep(w.Plan.get("rest"))
	for _, e := range w.allEnds() {
		if len(e.Ended) > 0 {
			w.note("ended-silent", 1)
		} else {
			w.note("lived", 1)
		}
	}
}

// --- C11 ------------------------------------------------------------------------

var endKinds = []string{"close", "close2", "peerclose", "truclose", "peertru", "inactive", "peercrash", "cbclose", "endclose", "disconnect", "both", "giveup"}

func genEnds(g *Gen) {
	o := streamOpt{clients: 2, writers: 2, msgs: 100, span: 3 * sec, faultPct: 40, frag: true, cb: true}
	genStream(g, o)
	p := g.p
	delete(p.P, "ff")
	if g.Pct(20) {
		p.Ops = nil
	}
	g.set("sendend", int64(g.Intn(2)))
	// causes, coinciding
	at := g.LogRange(1*ms, 4*sec)
	g.set("at", at)
	for i := range p.Faults {
		f := &p.Faults[i]
		if g.Pct(60) && f.At+f.Dur > at { // over before the end
			f.At = g.Range(0, at)
			f.Dur = min(f.Dur, at-f.At)
		}
	}
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		op := Op{A: 1000 + i, K: endKinds[g.Intn(len(endKinds))], D: at, N: int64(g.Intn(2)), M: int64(1 + g.Intn(len(p.Nodes)-1))}
		switch g.Intn(3) {
		case 0:
			op.D += g.LogRange(1*us, 3*ms)
		case 1:
			op.D += g.LogRange(1*us, 300*ms)
		}
		if op.K == "inactive" {
			// other causes meet the inactivity limit
			for j := range p.Ops {
				if p.Ops[j].A >= 1000 && p.Ops[j].K != "inactive" {
					p.Ops[j].D = op.D + inactive + g.Range(0, 700)*ms
				}
			}
		}
		p.Ops = append(p.Ops, op)
	}
}

func runEnds(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	timers := map[*Peer]int{}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
		timers[p] = p.N.TimersLive()
	}
	for i := 1; i < len(w.Peers); i++ {
		if w.establish(w.Peers[i], w.Peers[0]) == nil {
			return
		}
	}
	w.schedule()
	truClosed := map[*Peer]int64{}
	cbClose := map[*End]bool{}
	var closers []*simrt.Event
	doClose := func(e *End) {
		if e.closeAt == 0 && len(e.Ended) == 0 {
			e.closeAt = w.S.Now
		}
		closers = append(closers, e.P.spawn("close", func() { e.Ch.Close() }))
	}
	for _, p := range w.Peers {
		p := p
		p.onMsg = func(e *End, data []byte, _ *tru.Packet) {
			if cbClose[e] {
				delete(cbClose, e)
				if e.closeAt == 0 && len(e.Ended) == 0 {
					e.closeAt = w.S.Now
				}
				w.note("end-in-reader", 1)
				e.Ch.Close()
			}
		}
		p.onEnd = func(e *End) {
			if pl.get("sendend") == 1 { // the application tries to use it
				if _, err := e.Ch.WriteTo([]byte("after the end")); err == nil {
					w.fail("%s: a write made from the reader call that reports the end succeeded", e)
				}
				if !e.Ch.Destroyed() {
					w.fail("%s: Destroyed is false in the reader call that reports the end", e)
				}
				listed := false
				p.T.ForEachChannel(func(ch *tru.Channel) { listed = listed || ch == e.Ch })
				if listed {
					w.fail("%s is listed in the reader call that reports the end", e)
				}
				e.Ch.Close()
			}
		}
	}
	// what the sender has in its hands when the channel ends may still be sent
	late := map[*End]int{}
	w.tapSend = append(w.tapSend, func(x *simrt.Pkt) {
		st, _, _ := parse(x.Data)
		if st == stDisconnect {
			return
		}
		for _, e := range w.allEnds() {
			if e.P.N == x.From && e.Addr == x.Dst.String() && len(e.Ended) > 0 {
				if late[e]++; late[e] == 2 {
					w.fail("%s: datagrams of the channel are sent after its end was reported, the second one is %s", e, pktName(x.Data))
				}
			}
		}
	})
	done := w.runActors(nil)
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.A < 1000 {
			continue
		}
		c := w.endOf(int(op.M), 0)
		if c == nil || c.pair() == nil {
			continue
		}
		e := c // the closing side
		if op.N == 1 {
			e = c.pair()
		}
		o := e.pair()
		w.S.After(op.D, func() {
			if e.P.N.Dead {
				return
			}
			w.tr("end %s %s", op.K, e)
			w.note("end-"+op.K, 1)
			switch op.K {
			case "close":
				doClose(e)
			case "close2":
				for k := 0; k < 3; k++ {
					doClose(e)
				}
			case "peerclose":
				if !o.P.N.Dead {
					doClose(o)
				}
			case "both":
				doClose(e)
				if !o.P.N.Dead {
					doClose(o)
				}
			case "truclose", "peertru":
				x := e.P
				if op.K == "peertru" {
					x = o.P
				}
				if x.N.Dead {
					return
				}
				if truClosed[x] == 0 {
					truClosed[x] = w.S.Now
				}
				for _, y := range x.ends {
					if y.closeAt == 0 && len(y.Ended) == 0 {
						y.closeAt = w.S.Now
					}
				}
				closers = append(closers, x.spawn("Tru.Close", func() { x.T.Close() }))
			case "inactive":
				w.healed[[2]int{e.P.N.ID, o.P.N.ID}] = true
				w.S.Net.Link(e.P.N, o.P.N).Block = true
			case "peercrash":
				w.crash(o.P)
			case "cbclose":
				cbClose[e] = true
			case "disconnect":
				w.S.Net.Inject(o.P.T.LocalAddr().(*net.UDPAddr), e.P.N, e.P.Port, packet(stDisconnect, 0, nil), 0)
			case "endclose", "giveup":
				doClose(e)
				e.P.spawn("w", func() { e.write(50, 2000, 0) })
			}
		})
	}
	// a closing side's peer hears of it at once
	for t := w.S.Now + pl.get("at") + 8*sec; w.S.Now < t; {
		w.sleep(100 * ms)
		for _, e := range w.allEnds() {
			o := e.Pair
			if o == nil || o.P.N.Dead || e.P.N.Dead || e.closeAt == 0 || truClosed[o.P] != 0 {
				continue
			}
			if len(pl.Faults) == 0 && !w.S.Net.Link(e.P.N, o.P.N).Block && len(o.Ended) == 0 &&
				w.S.Now > e.closeAt+pl.Link.Base+pl.Link.Jitter+sec+w.stalls() {
				w.fail("%s was closed %.3f s ago but %s has not heard of it", e, f9(w.S.Now-e.closeAt), o)
				return
			}
		}
	}
	// everything ends now
	w.sleepUntil(w.faultsEnd)
	for _, e := range w.allEnds() {
		if len(e.Ended) == 0 && !e.P.N.Dead {
			doClose(e)
		}
	}
	w.sleep(sec + w.stalls())
	for _, v := range closers {
		if !v.IsSet() {
			w.note("closer-unset", 1)
		}
	}
	if !w.until(10*sec+w.stalls(), done) {
		w.fail("a writer is blocked although its channel has ended")
		return
	}
	last := int64(0)
	for _, e := range w.allEnds() {
		if len(e.Ended) > 0 {
			last = max(last, e.Ended[len(e.Ended)-1].at)
		}
	}
	w.sleep(11*sec + w.stalls())
	for _, p := range w.Peers {
		if p.N.Dead {
			continue
		}
		var listed []*tru.Channel
		listed = p.channels()
		for _, e := range p.ends {
			want := 1
			if e.Own {
				want = 2
			}
			g, c := 0, 0
			for _, x := range e.Ended {
				if x.kind == "global" {
					g++
				} else {
					c++
				}
				if x.err != tru.ErrChannelDestroyed.Error() {
					w.fail("%s: end reported as %q", e, x.err)
				}
			}
			if g != 1 || g+c != want {
				w.fail("%s: its end was told %d times to the global reader and %d times to its own, want 1 and %d", e, g, c, want-1)
				return
			}
			if e.afterEnd > 1 {
				w.fail("%s: %d messages were delivered after its end", e, e.afterEnd)
				return
			}
			if n := len(e.Recv); e.afterEnd == 1 && e.Recv[n-1].at > e.Ended[0].at+500*ms+w.stalls() {
				w.fail("%s: a message was delivered %.3f s after its end", e, f9(e.Recv[n-1].at-e.Ended[0].at))
				return
			}
			if !e.Ch.Destroyed() {
				w.fail("%s: Destroyed is false after its end", e)
			}
			for _, ch := range listed {
				if ch == e.Ch {
					w.fail("%s is listed after its end", e)
				}
			}
			if f := e.wire(); f.LastSend > e.Ended[len(e.Ended)-1].at+500*ms+w.stalls() {
				w.fail("%s: a datagram was sent %.3f s after its end", e, f9(f.LastSend-e.Ended[len(e.Ended)-1].at))
				return
			}
			e := e
			var err error
			var n int
			if !p.on("write", 5*sec, func() {
				n = e.P.w.wire.flow(p.N.ID, e.Addr).Sends
				_, err = e.Ch.WriteTo(make([]byte, 500))
				e.Ch.Close()
			}) {
				w.fail("%s: a write or Close after its end did not return", e)
				return
			}
			if err == nil {
				w.fail("%s: a write after its end succeeded", e)
			}
			w.sleep(100 * ms)
			if e.wire().Sends != n {
				w.fail("%s: a write or Close after its end sent a datagram", e)
			}
		}
		if n := p.N.TimersLive(); n > timers[p] {
			w.fail("%s: %d timers are left %.1f s after all channels ended (%d before the first)", p.N.Name, n, f9(w.S.Now-last), timers[p])
		}
	}
	w.recheck()
}
