package main

import (
	"io"
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// A listener is closed while connections wait to be accepted, are being dialed,
// or are in use (C17). Every Accept called after Close has returned gives an
// error, blocked ones return, and nobody at either end stays blocked.

func genQueued(g *Gen) {
	p := g.p
	n := 2 + int(g.LogRange(1, 6))
	g.nodes(n)
	g.cleanLink()
	g.schedKnobs()
	span := g.LogRange(1*ms, 2*sec)
	if g.Pct(50) { // Close right around the handshakes
		span = 4*p.Link.Base + g.LogRange(1*us, 20*ms)
	}
	g.set("accepted", g.Range(0, int64(n)))
	g.set("acceptors", g.Range(0, 4))
	g.set("closers", g.Range(1, 3))
	g.set("lnclose", g.Range(0, span))
	g.set("write", g.Range(0, 1)*g.LogRange(1, 3000))
	for c := 1; c < n; c++ {
		op := Op{A: c, K: "dial", D: g.Range(0, span)}
		if g.Pct(30) {
			op.D = 0
		}
		p.Ops = append(p.Ops, op)
	}
}

func runQueued(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	var ln net.Listener
	var err error
	if !srv.on("listen", 30*sec, func() { ln, err = tru.Listen("tru", ":7070") }) || err != nil {
		w.fail("Listen: %v", err)
		return
	}
	srv.Port = 7070
	closed := int64(-1) // Close of the listener returned
	called := false
	type conn struct {
		p   *Peer
		c   net.Conn
		end simrt.Event // Read returned an error
		wr  *simrt.Event
	}
	var conns []*conn
	use := func(p *Peer, c net.Conn) {
		x := &conn{p: p, c: c}
		conns = append(conns, x)
		p.spawn("read", func() {
			b := make([]byte, 700)
			for {
				if _, err := c.Read(b); err != nil && err != io.EOF {
					x.end.Set()
					return
				}
			}
		})
		if k := pl.get("write"); k > 0 {
			x.wr = p.spawn("write", func() {
				for i := 0; i < 5; i++ {
					if _, err := c.Write(make([]byte, k)); err != nil {
						return
					}
				}
			})
		}
	}
	// accept calls Accept once
	accept := func() bool {
		before := closed >= 0
		c, err := ln.Accept()
		switch {
		case err != nil:
			w.note("accept-errors", 1)
			if closed < 0 && !called {
				w.fail("Accept: %v; the listener is not closed", err)
			}
			return false
		case c == nil:
			w.fail("Accept returned neither connection nor error")
			return false
		case before:
			w.fail("Accept called after the listener was closed returned a connection (%v)", c.RemoteAddr())
			return false
		}
		w.note("accepted", 1)
		use(srv, c)
		return true
	}
	var evs []*simrt.Event
	left := pl.get("accepted")
	for i := int64(0); i < pl.get("acceptors"); i++ {
		evs = append(evs, srv.spawn("accept", func() {
			for left > 0 {
				left--
				if !accept() {
					return
				}
			}
		}))
	}
	dialed := 0
	for _, op := range pl.Ops {
		p, op := w.Peers[op.A], op
		evs = append(evs, p.spawn("dial", func() {
			w.S.SleepNs(op.D)
			c, err := tru.Dial("tru", srv.addr())
			if err != nil {
				w.note("dial-errors", 1)
				if !called {
					w.fail("Dial on %s: %v", p.N.Name, err)
				}
				return
			}
			dialed++
			use(p, c)
		}))
	}
	for i := int64(0); i < pl.get("closers"); i++ {
		evs = append(evs, srv.spawn("lnclose", func() {
			w.S.SleepNs(pl.get("lnclose"))
			called = true
			ln.Close()
			if closed < 0 {
				closed = w.S.Now
			}
		}))
	}
	w.sleep(pl.get("lnclose"))
	bound := 9*sec + 4*(pl.Link.Base+pl.Link.Jitter)
	w.until(bound+w.stalls(), func() bool { return closed >= 0 })
	if closed < 0 {
		w.fail("Close of the listener has not returned")
		return
	}
	// connections still wait in the queue, or come now
	for i := 0; i < 3; i++ {
		done := srv.on("accept", 5*sec, func() { accept() })
		if len(w.Viol) > 0 {
			return
		}
		if !done {
			w.fail("Accept called after the listener was closed blocks")
			return
		}
		w.sleep(int64(i) * (pl.Link.Base + 1*ms))
	}
	w.sleep(bound + w.stalls())
	for _, ev := range evs {
		if !ev.IsSet() {
			w.fail("Accept, Dial or Close has not returned %.1f s after the listener was closed", f9(bound+w.stalls()))
			return
		}
	}
	w.note("dialed", int64(dialed))
	for _, x := range conns {
		if !x.end.IsSet() || x.wr != nil && !x.wr.IsSet() {
			w.fail("%s: Read or Write of the connection to %v still blocks %.1f s after the listener was closed", x.p.N.Name, x.c.RemoteAddr(), f9(bound+w.stalls()))
			return
		}
		var rerr, werr error
		if !x.p.on("later", 5*sec, func() {
			_, rerr = x.c.Read(make([]byte, 10))
			_, werr = x.c.Write([]byte("x"))
			x.c.Close()
		}) || rerr == nil || werr == nil {
			w.fail("%s: Read and Write of the connection to %v after the listener was closed: %v, %v", x.p.N.Name, x.c.RemoteAddr(), rerr, werr)
			return
		}
	}
	srv.on("accept", 5*sec, func() { accept() })
}
