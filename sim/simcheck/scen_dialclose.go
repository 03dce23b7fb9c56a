package main

import (
	"io"
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Connections that end while they are being dialed or accepted (C17).

func genDialClose(g *Gen) {
	p := g.p
	n := 2 + g.Intn(2)
	g.nodes(n)
	g.cleanLink()
	if g.Pct(60) {
		p.Link.Base = g.LogRange(1*us, 500*us)
		p.Link.Jitter = 0
	}
	g.schedKnobs()
	if g.Pct(60) {
		p.Cfg.SiteEvery = uint64(g.LogRange(8, 200))
		p.Cfg.SitePct = int(g.LogRange(10, 90))
	}
	g.set("acceptors", g.Range(1, 2))
	for c := 1; c < n; c++ {
		for k := 2 + g.Intn(4); k > 0; k-- {
			op := Op{A: c, K: "round", N: int64(g.Intn(4)), D: g.LogRange(1*us, 300*ms)}
			if g.Pct(70) {
				op.M = g.LogRange(1, 2*ms)
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

func runDialClose(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	type conn struct {
		p       *Peer
		c       net.Conn
		remote  string
		readEnd simrt.Event
		endAt   int64
		at      int64
	}
	var conns []*conn
	use := func(p *Peer, c net.Conn) *conn {
		x := &conn{p: p, c: c, at: w.S.Now}
		if a := c.RemoteAddr(); a != nil {
			x.remote = a.String()
		}
		conns = append(conns, x)
		p.spawn("reader", func() {
			buf := make([]byte, 100)
			for {
				if _, err := c.Read(buf); err != nil && err != io.EOF {
					w.tr("%s: read from %s: %v", p.N.Name, x.remote, err)
					x.endAt = w.S.Now
					x.readEnd.Set()
					return
				}
			}
		})
		return x
	}
	closeSrv := map[string]int64{} // connections from this address are closed by the server at once
	var ln net.Listener
	var err error
	if !srv.on("listen", 30*sec, func() { ln, err = tru.Listen("tru", ":7070") }) || err != nil {
		w.fail("Listen: %v", err)
		return
	}
	srv.Port = 7070
	host := func(a string) string { h, _, _ := net.SplitHostPort(a); return h }
	accepted := map[string]int{}
	for i := int64(0); i < pl.get("acceptors"); i++ {
		srv.spawn("accept", func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				x := use(srv, c)
				accepted[host(x.remote)]++
				w.tr("%s: accepted %s", srv.N.Name, x.remote)
				if d, ok := closeSrv[host(x.remote)]; ok {
					srv.spawn("close", func() {
						w.S.SleepNs(d)
						c.Close()
					})
				}
			}
		})
	}
	// a Disconnect right behind the client's answer
	inject := map[*simrt.Node]int64{}
	w.tapRead = append(w.tapRead, func(n *simrt.Node, p *simrt.Pkt) {
		st, _, _ := parse(p.Data)
		if d, ok := inject[p.From]; ok && n == srv.N && st == stClientAnswer && p.From != nil {
			delete(inject, p.From)
			w.note("disconnects", 1)
			w.S.Net.Inject(p.Src, srv.N, 7070, packet(stDisconnect, 0, nil), d)
		}
	})
	bound := 2*sec + 4*(pl.Link.Base+pl.Link.Jitter)
	if pl.Link.Jitter > 0 { // Disconnect may come before the connect is done: inactivity
		bound += 6500 * ms
	}
	var evs []*simrt.Event
	for c := 1; c < len(w.Peers); c++ {
		p := w.Peers[c]
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == c {
				ops = append(ops, op)
			}
		}
		ev := &simrt.Event{}
		evs = append(evs, ev)
		w.S.GoOn(nil, "rounds", func() {
			defer ev.Set()
			for i, op := range ops {
				w.sleep(op.D)
				for _, a := range []string{p.N.IP4, p.N.IP6} {
					delete(closeSrv, a)
					if op.N == 1 {
						closeSrv[a] = op.M
					}
				}
				if op.N == 2 {
					inject[p.N] = op.M / 20
				}
				var c net.Conn
				var err error
				over := w.S.Net.Stats.Overflow // a handshake is not repeated
				if !p.on("dial", 30*sec, func() {
					c, err = tru.Dial("tru", srv.addr())
					if err != nil || op.N == 1 {
						return
					}
					if op.N != 2 {
						w.S.SleepNs(op.M)
						c.Close()
					}
				}) {
					w.fail("Dial or Close on %s did not return", p.N.Name)
					return
				}
				if err != nil && w.S.Net.Stats.Overflow != over {
					return
				}
				if err != nil {
					w.fail("Dial on %s failed on a working network: %v", p.N.Name, err)
					return
				}
				x := use(p, c)
				w.note("rounds", 1)
				w.sleep(bound + w.stalls())
				if op.N == 2 { // the client does not know
					p.on("close", 10*sec, func() { c.Close() })
					w.sleep(sec + w.stalls())
				}
				n := 0
				for _, a := range []string{p.N.IP4, p.N.IP6} {
					n += accepted[a]
				}
				if n > i+1 {
					w.fail("Accept returned %d connections of %s, it made %d", n, p.N.Name, i+1)
					return
				}
				if op.N == 1 && n == 0 && !x.readEnd.IsSet() {
					continue
				}
				for _, y := range conns {
					if (y == x || y.p == srv && (host(y.remote) == p.N.IP4 || host(y.remote) == p.N.IP6)) && !y.readEnd.IsSet() {
						who := "the peer closed it"
						if op.N == 1 && y.p == srv || op.N != 1 && y == x {
							who = "it was closed"
						}
						w.fail("%s: Read of a connection to %s still blocks %.1f s after %s", y.p.N.Name, y.remote, f9(bound+w.stalls()), who)
						return
					}
				}
				for _, y := range conns {
					y := y
					if y.readEnd.IsSet() && w.S.Now > y.endAt+500*ms+w.stalls() {
						var err error
						if !y.p.on("write", 5*sec, func() { _, err = y.c.Write([]byte("later")) }) || err == nil {
							w.fail("%s: Write of a connection to %s which has ended gives no error", y.p.N.Name, y.remote)
							return
						}
					}
				}
			}
		})
	}
	for _, ev := range evs {
		if !ev.Wait(2000 * sec) {
			w.fail("rounds do not end")
			return
		}
	}
	w.note("accepted", int64(len(conns)))
	// it still works
	p := w.Peers[1]
	for _, a := range []string{p.N.IP4, p.N.IP6} {
		delete(closeSrv, a)
	}
	delete(inject, p.N)
	var c net.Conn
	n := len(conns)
	if !p.on("dial", 30*sec, func() { c, err = tru.Dial("tru", srv.addr()) }) || err != nil {
		w.fail("Dial fails after other connections were closed: %v", err)
		return
	}
	if !w.until(2*sec+w.stalls(), func() bool { return len(conns) > n }) {
		w.fail("Accept does not return a connection after others were closed")
		return
	}
	srv.on("close", 10*sec, func() { ln.Close() })
	x := use(p, c)
	if !x.readEnd.Wait(3*sec+w.stalls()) || !conns[n].readEnd.Wait(3*sec+w.stalls()) {
		w.fail("Read still blocks after the listener was closed")
	}
}
