package main

import (
	"net"
	"sort"

	"verifsim/simrt"
)

// Punch datagrams (C21).

func init() {
	reg(&Prop{ID: "C21", Quick: 5000, Thorough: 100000, Scens: []Scenario{
		{"punch", 6, genPunch, runPunch},
	}})
}

func genPunch(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 1, msgs: 60, span: 3 * sec, faultPct: 60, frag: true, cb: true, minSize: 8})
	p := g.p
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000}, NodeCfg{Rate: 1000}) // without channels
	n := len(p.Nodes)
	for k := 1 + g.Intn(5); k > 0; k-- { // goroutines that punch
		gap := g.LogRange(1*us, 300*ms)
		from := g.Intn(n)
		for i := int(g.LogRange(1, 40)); i > 0; i-- {
			to := g.Intn(n)
			for to == from {
				to = g.Intn(n)
			}
			op := Op{A: 100 + k, K: "punch", T: from, D: g.Range(0, gap), N: punchSize(g), M: int64(to)}
			if g.Pct(10) {
				op.M = -1 // nobody is there
			}
			p.Ops = append(p.Ops, op)
		}
	}
	for k := int(g.LogRange(1, 60)); k > 0; k-- {
		p.Ops = append(p.Ops, Op{A: -2, K: "inject", T: g.Intn(n), D: g.Range(0, 3*sec), N: g.Range(0, 1<<40), M: punchSize(g)})
	}
	if g.Pct(50) { // punches around a connect
		g.set("connect", g.Range(1, 3*sec))
		g.set("with", int64(g.Intn(n-1)))
	}
	if g.Pct(30) {
		g.set("slow", g.LogRange(1*ms, 4*sec))
	}
	if g.Pct(30) {
		g.set("swap", g.Range(1, 3*sec))
	}
	if g.Pct(30) {
		g.set("dead", 1)
	}
}

func punchSize(g *Gen) int64 {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return g.Range(1, 8)
	case 2:
		return g.Range(30, 80)
	case 3:
		return g.LogRange(100, 65400)
	}
	return g.LogRange(1, 1500)
}

// punchKey identifies a punch: where it came from and its bytes.
type punchKey struct {
	node int
	addr string
	sum  uint64
	n    int
}

func runPunch(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	nn := len(w.Peers)
	read := map[punchKey][]int64{}
	got := map[punchKey]int{}
	type hold struct {
		p   *Peer
		b   []byte
		sum uint64
	}
	var held []hold
	w.tapRead = append(w.tapRead, func(n *simrt.Node, p *simrt.Pkt) {
		if st, _, ok := parse(p.Data); ok && st == stPunch {
			k := punchKey{n.ID, p.Src.String(), fnv(p.Data[4:]), len(p.Data) - 4}
			read[k] = append(read[k], w.S.Now)
		}
	})
	sent := map[punchKey]int{}
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		if st, _, ok := parse(p.Data); ok && st == stPunch {
			sent[punchKey{p.From.ID, p.Dst.String(), fnv(p.Data[4:]), len(p.Data) - 4}]++
		}
	})
	slow := pl.get("slow")
	cb := func(p *Peer) func(a net.Addr, b []byte) {
		return func(a net.Addr, b []byte) {
			addr := a.String() // may be preempted
			k := punchKey{p.ID, addr, fnv(b), len(b)}
			w.tr("%s: punch callback %s %d bytes", p.N.Name, addr, len(b))
			got[k]++
			held = append(held, hold{p, b, k.sum})
			switch n := len(read[k]); {
			case n == 0:
				w.fail("%s: the punch callback got %d bytes %s from %s, no such punch arrived", p.N.Name, len(b), head(b), addr)
			case got[k] > n:
				w.fail("%s: the punch callback got %d bytes from %s %d times, the punch arrived %d times", p.N.Name, len(b), addr, got[k], n)
			}
			if slow > 0 && (k.sum+uint64(got[k]))%3 == 0 {
				w.S.SleepNs(slow)
			}
		}
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
		p := p
		if !p.on("SetPunchCb", 5*sec, func() { p.T.SetPunchCb(cb(p)) }) {
			w.fail("SetPunchCb did not return")
			return
		}
	}
	for i := 1; i < nn-2; i++ {
		if w.establish(w.Peers[i], w.Peers[0]) == nil {
			return
		}
	}
	if ff := pl.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			fastForward(e, e.pair(), uint32(ff))
		}
	}
	w.schedule()
	done := w.runActors(nil)
	calls := map[punchKey]int{}
	var evs []*simrt.Event
	bytesOf := func(n int64, seed uint64) []byte {
		b := make([]byte, n)
		r := simrt.NewRng(seed)
		for i := range b {
			b[i] = byte(r.Uint64())
		}
		return b
	}
	for a := 101; a < 110; a++ {
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		p := w.Peers[ops[0].T%nn]
		a := a
		evs = append(evs, p.spawn("puncher", func() {
			for i, op := range ops {
				w.S.SleepNs(op.D)
				addr := "10.7.7.7:77"
				if pl.V6 {
					addr = "[fd00::7:7]:77"
				}
				if op.M >= 0 {
					q := w.Peers[int(op.M)%nn]
					if q == p {
						continue
					}
					addr = q.addr()
				}
				b := bytesOf(op.N, pl.Seed^uint64(a*1000+i/2)) // some are equal
				k := punchKey{p.ID, addr, fnv(b), len(b)}
				calls[k]++
				var to any = addr
				if i%2 == 1 {
					to, _ = net.ResolveUDPAddr("udp", addr)
				}
				t, s0 := w.S.Now, w.stalls()
				ra, err := p.T.WriteToPunch(b, to)
				if err != nil {
					w.fail("%s: WriteToPunch to %s: %v", p.N.Name, addr, err)
				} else if s := ra.String(); s != addr {
					w.fail("%s: WriteToPunch to %s returned address %s", p.N.Name, addr, s)
				}
				if d := w.S.Now - t - (w.stalls() - s0); d > 2*sec {
					w.fail("%s: WriteToPunch took %.1f s", p.N.Name, f9(d))
				}
				for j := range b { // the application reuses its buffer
					b[j] ^= 0x5a
				}
				w.note("punches-sent", 1)
			}
		}))
	}
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.K != "inject" {
			continue
		}
		w.S.After(op.D, func() {
			p := w.Peers[op.T%nn]
			r := simrt.NewRng(uint64(op.N))
			src := stranger(r, pl.V6)
			id := uint32(0)
			switch op.N % 4 {
			case 0: // as if from a peer with a channel
				if q := w.Peers[int(op.N/4)%nn]; q != p && q.Port != 0 {
					src, _ = net.ResolveUDPAddr("udp", q.addr())
				}
				w.note("punches-of-peers", 1)
			case 1:
				id = uint32(r.Uint64())
			}
			w.S.Net.Inject(src, p.N, p.Port, packet(stPunch, id, bytesOf(op.M%1500, uint64(op.N))), 0)
			w.note("punches-injected", 1)
		})
	}
	clean := len(pl.Faults) == 0
	late := w.Peers[nn-1]
	if at := pl.get("connect"); at > 0 {
		q := w.Peers[int(pl.get("with"))%(nn-1)]
		evs = append(evs, late.spawn("connect", func() {
			w.S.SleepNs(at)
			if _, err := late.connect(q); err != nil && clean {
				w.fail("Connect from %s to %s failed although only punches passed: %v", late.N.Name, q.N.Name, err)
			}
		}))
	}
	if at := pl.get("swap"); at > 0 {
		evs = append(evs, w.Peers[0].spawn("swap", func() {
			w.S.SleepNs(at)
			w.Peers[0].T.SetPunchCb(cb(w.Peers[0]))
		}))
	}
	if !w.until(w.faultsEnd-w.S.Now+100*sec, func() bool {
		for _, ev := range evs {
			if !ev.IsSet() {
				return false
			}
		}
		return done()
	}) {
		w.fail("writes, punches or a connect do not return")
		return
	}
	w.sleepUntil(w.t0 + 3*sec)
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.checkDrained(10 * sec)
	w.sleep(4500*ms + w.stalls())
	if len(w.Viol) > 0 {
		return
	}
	// every punch the network delivered was handed over, once
	for _, k := range sortedPunches(read) {
		if n := len(read[k]); got[k] != n {
			w.fail("%s: a punch of %d bytes from %s arrived %d times, the callback was called %d times", w.Peers[k.node].N.Name, k.n, k.addr, n, got[k])
			return
		}
		w.note("punches-delivered", int64(len(read[k])))
	}
	for _, h := range held {
		if fnv(h.b) != h.sum {
			w.fail("%s: the bytes of a punch changed after the callback got them", h.p.N.Name)
			return
		}
	}
	// the wire carried each punch once
	for _, k := range sortedPunches(sent) {
		if sent[k] != calls[k] {
			w.fail("%s sent a punch of %d bytes to %s %d times, WriteToPunch was called %d times with it", w.Peers[k.node].N.Name, k.n, k.addr, sent[k], calls[k])
			return
		}
	}
	for _, k := range sortedPunches(calls) {
		if sent[k] != calls[k] {
			w.fail("%s: WriteToPunch was called %d times with these %d bytes for %s, %d such datagrams were sent", w.Peers[k.node].N.Name, calls[k], k.n, k.addr, sent[k])
			return
		}
	}
	// and touched nothing else
	for _, p := range w.Peers {
		want := map[string]bool{}
		for _, e := range p.ends {
			if e.alive() {
				want[e.Addr] = true
			}
			if len(e.Ended) > 0 && len(p.ends) > 0 {
				w.fail("%s ended (%s) although only punches and short faults happened", e, e.Ended[0].err)
				return
			}
			f := e.wire()
			if a, b := f.SentBy[stAck], int(f.DataRead); a != b {
				w.fail("%s acknowledged %d packets but got %d data packets", e, a, b)
			}
			if a, b := f.SentBy[stPong], f.ReadBy[stPing]; a != b {
				w.fail("%s answered %d pings but got %d", e, a, b)
			}
		}
		for _, ch := range p.channels() {
			if !want[ch.Addr().String()] && clean {
				w.fail("%s has a channel to %s that nobody connected", p.N.Name, ch.Addr())
			}
		}
		for _, k := range w.wire.keys() {
			f := w.wire.flows[k]
			if k.node != p.N.ID || f.Sends == f.SentBy[stPunch] || w.chanAddr(p, k.addr) {
				continue
			}
			if pl.get("connect") == 0 {
				w.fail("%s sent %d datagrams besides punches to %s, to which it has no channel", p.N.Name, f.Sends-f.SentBy[stPunch], k.addr)
			}
		}
	}
	if len(w.Viol) > 0 {
		return
	}
	w.recheck()
	if pl.get("dead") != 1 {
		return
	}
	// punches do not keep the channel of a dead peer
	e := w.endOf(0, 1)
	if e == nil || !e.alive() {
		return
	}
	w.crash(w.Peers[1])
	w.sleep(10 * ms)
	src, _ := net.ResolveUDPAddr("udp", e.Addr)
	t := w.S.Now
	for len(e.Ended) == 0 && w.S.Now < t+9*sec {
		w.S.Net.Inject(src, w.Peers[0].N, 7070, packet(stPunch, 0, []byte("still here")), 0)
		w.sleep(400 * ms)
	}
	w.note("punches-of-dead", 1)
	if len(e.Ended) == 0 {
		w.fail("%s has not ended %.1f s after the death of the peer, whose address sends punches", e, f9(w.S.Now-t))
	}
}

// chanAddr tells whether p had a channel to addr.
func (w *World) chanAddr(p *Peer, addr string) bool {
	for _, e := range p.ends {
		if e.Addr == addr {
			return true
		}
	}
	return false
}

func sortedPunches[V any](m map[punchKey]V) (r []punchKey) {
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.node != b.node {
			return a.node < b.node
		}
		if a.addr != b.addr {
			return a.addr < b.addr
		}
		if a.n != b.n {
			return a.n < b.n
		}
		return a.sum < b.sum
	})
	return
}
