package main

import "verifsim/simrt"

// A gap at the head of a long run of packets (C02): one or a few packets are
// lost again and again while the sender goes on, so that the receiver has to
// keep everything that follows until the gap is closed.

func genDeep(g *Gen) {
	p := g.p
	g.nodes(2)
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Cfg.PreemptGap = uint64(g.LogRange(5000, 200000))
	p.Link = simrt.Link{Base: g.LogRange(20*us, 20*ms)}
	if g.Pct(40) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	dir := g.Intn(2)
	p.Actors = []Actor{{dir, 1 - dir, 0}}
	n := g.LogRange(800, 6000)
	hold := g.LogRange(100*ms, 8*sec)
	g.set("dir", int64(dir))
	g.set("hold", hold)
	g.set("holes", g.LogRange(1, 5))
	g.set("span", n)
	pace := int64(0) // pauses between bursts, so that the whole hold is used
	if g.Pct(60) {
		pace = g.LogRange(1, 50)
	}
	size := func() int64 {
		if g.Pct(90) {
			return g.Range(0, 40)
		}
		return g.Range(0, 1500)
	}
	if g.Pct(35) { // few messages of many fragments
		p.Nodes[dir].MaxData = int(g.LogRange(1, 60))
		for left := n; left > 0; {
			k := min(left, g.LogRange(1, 2500))
			left -= k
			p.Ops = append(p.Ops, Op{K: "send", M: -1, N: k*int64(p.Nodes[dir].MaxData) - g.Range(0, int64(p.Nodes[dir].MaxData)-1), D: pace * g.Range(0, 2*hold/50)})
		}
	} else {
		for i := int64(0); i < n; {
			k := min(n-i, g.LogRange(1, n))
			op := Op{K: "burst", N: k, M: size()}
			if pace > 0 {
				op.D = g.Range(0, hold/4)
			}
			p.Ops = append(p.Ops, op)
			i += k
		}
	}
	if g.Pct(30) {
		g.set("ff", 1<<20-g.LogRange(1, n))
	}
}

// genWindow: more than half of the packet numbers are used while one packet is
// missing. Very long, so there is one such run in a check.
func genWindow(g *Gen) {
	p := g.p
	g.nodes(2)
	p.Cfg = simrt.Config{Mode: 1, PreemptGap: 100000, Horizon: p.Cfg.Horizon,
		HangSteps: 1 << 40, HangSwitches: 1 << 40, MaxSwitches: 200_000_000}
	p.Link = simrt.Link{Base: g.LogRange(20*us, 1*ms)}
	p.Actors = []Actor{{0, 1, 0}}
	n := int64(1<<19) + 3000
	g.set("hold", 4*sec)
	g.set("holes", 1)
	g.set("span", n)
	g.set("ff", g.Range(0, 1<<20-1))
	for i := int64(0); i < n; i += 1000 {
		p.Ops = append(p.Ops, Op{K: "burst", N: 1000, M: g.Range(0, 16), D: 4 * ms})
	}
}

func runDeep(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	from := w.Peers[pl.get("dir")]
	e := w.endOf(int(pl.get("dir")), 1-int(pl.get("dir")))
	if e == nil {
		return
	}
	if ff := pl.get("ff"); ff > 0 && fastForward(e, e.pair(), uint32(ff)) {
		w.note("fastforward", 1)
	}
	// The first packet and some others are lost whenever they are sent
	rng := simrt.NewRng(pl.Seed ^ 0xdee9)
	lost := map[int]bool{0: true}
	for i := int64(1); i < pl.get("holes"); i++ {
		lost[rng.Intn(int(pl.get("span")))] = true
	}
	end := w.S.Now + pl.get("hold")
	seen := map[uint32]int{}
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		st, id, ok := parse(p.Data)
		if !ok || !isData(st) || p.From != from.N {
			return false
		}
		k, ok := seen[id]
		if !ok {
			k = len(seen)
			seen[id] = k
		}
		return lost[k] && w.S.Now < end
	}
	done := w.runActors(func(a int, e *End, op Op) {
		for i := int64(0); i < op.N; i++ {
			e.write(0, int(op.M), -1)
		}
	})
	if !w.until(300*sec, done) {
		w.fail("a write did not return for 300 s")
		return
	}
	w.sleepUntil(end)
	w.note("packets", int64(len(seen)))
	w.checkDrained(10 * sec)
	w.atRest()
	w.recheck()
}
