package main

import (
	"verifsim/simrt"
)

// handshake-past (C08): the same two addresses had channels before. Handshake
// datagrams of those are delivered again while the present channel is made and
// while it lives: one by one, and a whole handshake in its order.

func genPast(g *Gen) {
	p := g.p
	crowd := 0
	if g.Pct(50) {
		crowd = 1 + g.Intn(14)
	}
	g.nodes(2 + crowd)
	g.cleanLink()
	g.schedKnobs()
	p.Cfg.StallPct = 0
	p.Link.Jitter = 0
	ends := []string{"client-close", "server-close", "both-close", "client-tru", "client-crash", "replace", "server-crash", "timeout"}
	n := 1 + g.Intn(3)
	crashed := false
	for i := 0; i < n; i++ {
		k := ends[g.Intn(len(ends))]
		if i == 0 && k == "server-crash" && g.Pct(50) {
			k = "client-close"
		}
		crashed = crashed || k == "server-crash"
		p.Ops = append(p.Ops, Op{A: i, K: k, D: g.LogRange(1*ms, 5*sec), M: g.LogRange(1*ms, 20*sec), N: int64(g.Intn(4))})
	}
	if !crashed && g.Pct(60) { // datagrams come while the present channel is made
		for k := 1 + g.Intn(6); k > 0; k-- {
			p.Ops = append(p.Ops, Op{A: -1, K: "during", D: g.LogRange(1*us, 5*ms+6*p.Link.Base), N: g.Range(0, 1<<40)})
		}
	}
	span := g.LogRange(100*ms, 8*sec)
	for k := int(g.LogRange(1, 20)); k > 0; k-- {
		op := Op{A: -1, K: "after", D: g.Range(0, span), N: g.Range(0, 1<<40), M: int64(g.Intn(4))}
		p.Ops = append(p.Ops, op)
	}
	for k := int(g.LogRange(1, 60)); k > 0; k-- {
		p.Ops = append(p.Ops, Op{A: -2 - g.Intn(2), K: "send", D: g.Range(0, 2*span/20), N: g.LogRange(1, 2000)})
	}
	switch {
	case g.Pct(20):
		g.set("wait", g.Range(1, 80)*sec)
	case g.Pct(4):
		g.set("wait", g.Range(121, 600)*sec)
	}
}

func runPast(w *World) {
	rec := w.record()
	pl := w.Plan
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv, cli := w.Peers[0], w.Peers[1]
	start := func(p *Peer) bool {
		port := 0
		if p == srv {
			port = 7070
		} else if p == cli {
			port = 8080
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return false
		}
		return true
	}
	for _, p := range w.Peers {
		if !start(p) {
			return
		}
	}
	connects := 0
	for _, op := range pl.Ops {
		if op.A < 0 {
			continue
		}
		e := w.establish(cli, srv)
		if e == nil {
			return
		}
		connects++
		o := e.pair()
		for _, x := range []*End{e, o} {
			x := x
			for i := int64(0); i < op.N; i++ {
				x.P.on("write", 20*sec, func() { x.write(0, 50, -1) })
			}
		}
		w.sleep(op.D)
		if len(e.Ended)+len(o.Ended) > 0 {
			w.fail("%s ended by itself", e)
			return
		}
		w.checkDrained(10 * sec)
		cls := func(x *End) {
			x.closeAt = w.S.Now
			if !x.P.on("close", 5*sec, func() { x.Ch.Close() }) {
				w.fail("Close did not return")
			}
		}
		w.note("past-"+op.K, 1)
		switch op.K {
		case "client-close":
			cls(e)
		case "server-close":
			cls(o)
		case "both-close":
			cls(e)
			cls(o)
		case "client-tru":
			tr := cli.T
			if !cli.on("Tru.Close", 10*sec, func() { tr.Close() }) {
				w.fail("Tru.Close did not return")
				return
			}
			if !start(cli) {
				return
			}
			cli.epoch++
		case "client-crash":
			w.S.Crash(cli.N)
			w.restart(cli)
			if !start(cli) {
				return
			}
		case "server-crash":
			w.S.Crash(srv.N)
			w.restart(srv)
			if !start(srv) {
				return
			}
			cls(e)
		case "timeout":
			w.apply(Fault{K: "block", A: 0, B: 1}, true)
			w.apply(Fault{K: "block", A: 1, B: 0}, true)
			w.until(9*sec+w.stalls(), func() bool { return len(e.Ended) > 0 && len(o.Ended) > 0 })
			w.apply(Fault{K: "block", A: 0, B: 1}, false)
			w.apply(Fault{K: "block", A: 1, B: 0}, false)
		case "replace":
		}
		if w.Viol != nil {
			return
		}
		// what the old channel sent last is delivered, so that only handshake
		// datagrams of it are late
		w.sleep(2*sec + op.M)
	}
	var ends []*End
	for _, p := range w.Peers[2:] {
		e := w.establish(p, srv)
		if e == nil {
			return
		}
		connects++
		ends = append(ends, e, e.pair())
	}
	past := len(*rec)
	for i := 0; i < len(*rec); i++ {
		if r := (*rec)[i]; r.to != cli.N && r.src.String() != cli.addr() {
			(*rec)[i] = (*rec)[len(*rec)-1]
			*rec = (*rec)[:len(*rec)-1]
			i--
		}
	}
	past = len(*rec)
	if past == 0 {
		w.note("past-none", 1)
		return
	}
	old := append([]handPkt(nil), *rec...)
	inject := func(r handPkt, why string) {
		if w.S.Now-r.at > 115*sec { // the uuids of connects are remembered for 2 minutes
			if why == "during" {
				return
			}
			w.failPrefix = "handshake datagrams of an earlier channel more than 115 s late: "
		}
		w.note("past-"+why+"-"+statusNames[r.st], 1)
		w.tr("%s: %s of an earlier channel from %s to %s", why, pktName(r.data), r.src, r.to.Name)
		w.S.Net.Inject(r.src, r.to, r.port, r.data, 0)
	}
	for _, op := range pl.Ops {
		if op.K == "during" {
			r := old[int(op.N)%past]
			w.S.After(op.D, func() { inject(r, "during") })
		}
	}
	e := w.establish(cli, srv)
	if e == nil {
		return
	}
	connects++
	o := e.pair()
	ends = append(ends, e, o)
	w.sleep(pl.get("wait") + 20*ms)
	last := w.S.Now
	for _, op := range pl.Ops {
		op := op
		if op.K != "after" {
			continue
		}
		last = max(last, w.S.Now+op.D)
		rng := simrt.NewRng(uint64(op.N))
		r := old[int(op.N)%past]
		if op.M < 2 {
			w.S.After(op.D, func() { inject(r, "after") })
			continue
		}
		// everything which came from one side in one handshake, in its order
		at := op.D
		gap := rng.LogRange(1*us, 200*ms)
		k := int(op.N) % past
		for k > 0 && old[k].st != stConnect {
			k--
		}
		for i := k; i < past && (i == k || old[i].st != stConnect); i++ {
			r := old[i]
			if op.M == 3 && r.to != srv.N {
				continue
			}
			w.S.After(at, func() { inject(r, "whole") })
			last = max(last, w.S.Now+at)
			at += gap
		}
	}
	var evs []*simrt.Event
	for k, x := range []*End{e, o} {
		k, x := k, x
		evs = append(evs, x.P.spawn("writer", func() {
			for _, op := range pl.Ops {
				if op.A == -2-k && pl.get("wait") <= 120*sec {
					w.S.SleepNs(op.D)
					x.write(1, int(op.N), -1)
				}
			}
		}))
	}
	if !w.until(100*sec, func() bool { return evs[0].IsSet() && evs[1].IsSet() }) {
		w.fail("a write did not return")
		return
	}
	w.sleepUntil(last)
	w.checkDrained(10 * sec)
	w.sleep(8500*ms + w.stalls())
	for _, x := range ends {
		if len(x.Ended) > 0 {
			w.fail("%s was ended at %.3fs", x, f9(x.Ended[0].at))
			return
		}
	}
	w.checkEstablished(ends, connects)
	w.checkAlive(ends)
	w.recheck()
}
