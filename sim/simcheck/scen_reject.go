package main

import (
	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Channels that end as soon as they are connected (C11): the peer, which may
// still be connecting, hears of it at once.

func genReject(g *Gen) {
	p := g.p
	n := 2 + g.Intn(3)
	g.nodes(n)
	g.cleanLink()
	p.Link.Jitter = 0 // datagrams come in order
	if g.Pct(50) {
		p.Link.Base = g.LogRange(1*us, 300*us)
	}
	g.schedKnobs()
	if g.Pct(50) {
		p.Cfg.SiteEvery = uint64(g.LogRange(8, 200))
		p.Cfg.SitePct = int(g.LogRange(10, 90))
	}
	for c := 1; c < n; c++ {
		for k := 1 + g.Intn(5); k > 0; k-- {
			// mode: 0 closed in the connect callback, 1 a little later, 2 by
			// ForEachChannel around the handshake, 3 the server is closed,
			// 4 stays; the client closes it after D
			op := Op{A: c, K: "round", N: int64([]int{0, 0, 0, 1, 1, 2, 2, 4, 3}[g.Intn(9)]), D: g.LogRange(1*us, 500*ms), M: g.LogRange(1, 3*ms)}
			p.Ops = append(p.Ops, op)
		}
	}
	g.set("greet", int64(g.Intn(3)))
}

func runReject(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	srv := w.Peers[0]
	mode := map[string]Op{} // by client address
	srv.onConnect = func(e *End) {
		op := mode[e.Addr]
		for i := int64(0); i < pl.get("greet"); i++ {
			e.write(0, 10+int(i), -1)
		}
		switch op.N {
		case 0:
			e.closeAt = w.S.Now
			e.Ch.Close()
		case 1:
			e.P.spawn("close", func() {
				w.S.SleepNs(op.M)
				e.closeAt = w.S.Now
				e.Ch.Close()
			})
		}
	}
	w.tapRead = append(w.tapRead, func(n *simrt.Node, p *simrt.Pkt) {
		st, _, _ := parse(p.Data)
		if n != srv.N || st != stClientAnswer || p.From == nil {
			return
		}
		op := mode[p.Src.String()]
		switch op.N {
		case 2:
			srv.spawn("foreach", func() {
				w.S.SleepNs(op.M / 30)
				for i := 0; i < 3; i++ {
					srv.T.ForEachChannel(func(ch *tru.Channel) {
						if ch.Addr().String() == p.Src.String() {
							ch.Close()
						}
					})
				}
			})
		case 3:
			srv.spawn("Tru.Close", func() {
				w.S.SleepNs(op.M / 30)
				srv.T.Close()
			})
		}
	})
	lat := 4*pl.Link.Base + sec
	closed := false
	var evs []*simrt.Event
	for c := 1; c < len(w.Peers); c++ {
		p := w.Peers[c]
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == c {
				ops = append(ops, op)
			}
		}
		ev := &simrt.Event{}
		evs = append(evs, ev)
		w.S.GoOn(nil, "rounds", func() {
			defer ev.Set()
			for _, op := range ops {
				w.sleep(op.D)
				if closed {
					return
				}
				if op.N == 3 {
					closed = true
				}
				mode[p.addr()] = op
				var e *End
				var err error
				have := len(srv.ends)
				t0 := w.S.Now
				cev := p.spawn("connect", func() { e, err = p.connect(srv) })
				mine := func() *End {
					for _, x := range srv.ends[have:] {
						if x.Addr == p.addr() {
							return x
						}
					}
					return nil
				}
				// the end on the server
				w.until(12*sec, func() bool {
					x := mine()
					return x != nil && len(x.Ended) > 0 || cev.IsSet() && (err != nil || op.N == 4)
				})
				if x := mine(); x != nil && len(x.Ended) > 0 {
					w.note("ended", 1)
					t := x.Ended[0].at
					if !w.until(max(0, t+lat+w.stalls()-w.S.Now), func() bool { return cev.IsSet() && (err != nil || len(e.Ended) > 0) }) {
						what := "its Connect still waits"
						if cev.IsSet() {
							what = "its channel is live"
						}
						w.fail("%s has ended at %.6fs (Connect of its peer was called at %.6fs), but its peer has not heard of it: %s", x, f9(t), f9(t0), what)
						return
					}
				}
				if !cev.Wait(6*sec + w.stalls()) {
					w.fail("Connect on %s does not return", p.N.Name)
					return
				}
				if err != nil {
					w.note("refused", 1)
					continue
				}
				w.note("connected", 1)
				if op.N == 4 && len(e.Ended) == 0 {
					e.closeAt = w.S.Now
					p.on("close", 5*sec, func() { e.Ch.Close() })
					x := mine()
					if !w.until(lat+w.stalls(), func() bool { x = mine(); return x != nil && len(x.Ended) > 0 }) && !closed {
						w.fail("%s was closed but its peer has not heard of it", e)
						return
					}
				}
				w.sleep(2 * pl.Link.Base)
			}
		})
	}
	for _, ev := range evs {
		if !ev.Wait(2000 * sec) {
			w.fail("rounds do not end")
			return
		}
	}
	w.sleep(2*sec + w.stalls())
	for _, e := range w.allEnds() {
		want := 1
		if e.Own {
			want = 2
		}
		if n := len(e.Ended); n > want || n < want && (e.closeAt > 0 || n > 0) {
			w.fail("%s: readers were told %d times about its end, want %d", e, n, want)
			return
		}
	}
}
