package main

import "verifsim/simrt"

// A datagram is delivered again after thousands of others (C01). The network
// kept copies of early data datagrams, and delivers them one by one and in
// bursts at any later point of the channel's life, in both directions.

func genOldDup(g *Gen) {
	p := g.p
	g.nodes(2)
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Cfg.PreemptGap = uint64(g.LogRange(5000, 200000))
	p.Link = simrt.Link{Base: g.LogRange(20*us, 5*ms)}
	if g.Pct(40) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	dir := g.Intn(2)
	p.Actors = []Actor{{dir, 1 - dir, 0}}
	g.set("dir", int64(dir))
	g.set("keep", g.LogRange(1, 200)) // copies the network keeps
	g.set("every", g.LogRange(1, 100))
	if g.Pct(30) {
		g.set("ff", 1<<20-g.LogRange(1, 14000))
	}
	n := g.LogRange(300, 14000)
	for i := int64(0); i < n; {
		k := min(n-i, g.LogRange(20, n))
		p.Ops = append(p.Ops, Op{K: "burst", N: k, M: g.Range(16, 60), D: g.LogRange(1*us, 50*ms)})
		i += k
	}
	for k := 1 + g.Intn(6); k > 0; k-- {
		p.Ops = append(p.Ops, Op{A: -1, K: "old", N: g.Range(0, n), M: g.LogRange(1, 50), T: int(g.Range(0, 1<<40))})
	}
}

func runOldDup(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	from := w.Peers[pl.get("dir")]
	e := w.endOf(int(pl.get("dir")), 1-int(pl.get("dir")))
	if e == nil {
		return
	}
	if ff := pl.get("ff"); ff > 0 && fastForward(e, e.pair(), uint32(ff)) {
		w.note("fastforward", 1)
	}
	var kept []handPkt
	count := int64(0)
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		st, _, ok := parse(p.Data)
		if !ok || !isData(st) || p.From != from.N || p.To == nil {
			return
		}
		count++
		if count%pl.get("every") == 1%pl.get("every") && int64(len(kept)) < pl.get("keep") {
			kept = append(kept, handPkt{p.Src, p.To, p.Dst.Port, append([]byte(nil), p.Data...), st, w.S.Now})
		}
		for _, op := range pl.Ops {
			if op.K != "old" || op.N != count || len(kept) == 0 {
				continue
			}
			r := simrt.NewRng(uint64(op.T))
			for i := int64(0); i < op.M; i++ {
				k := kept[r.Intn(len(kept))]
				w.note("old-datagrams", 1)
				w.S.Net.Inject(k.src, k.to, k.port, k.data, r.LogRange(1*us, 20*ms))
			}
		}
	})
	done := w.runActors(func(a int, e *End, op Op) {
		for i := int64(0); i < op.N; i++ {
			e.write(0, int(op.M), -1)
		}
	})
	if !w.until(300*sec, done) {
		w.fail("a write did not return for 300 s")
		return
	}
	w.note("packets", count)
	w.checkDrained(10 * sec)
	for i, k := range kept { // and all of them at the end
		w.S.Net.Inject(k.src, k.to, k.port, k.data, int64(i+1)*20*us)
	}
	w.sleep(500 * ms)
	e.P.on("write", 5*sec, func() { e.write(0, 30, -1) })
	w.checkDrained(10 * sec)
	w.recheck()
}
