package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Many processes dial one listener at the same time. It accepts late, so that
// all of them wait in its queue. Every connection carries the first messages
// both ways, and closing the listener unblocks everybody.

func genConnCrowd(g *Gen) {
	p := g.p
	n := int(g.LogRange(4, 60))
	if g.Pct(10) {
		n = int(g.Range(60, 150))
	}
	g.nodes(n + 1)
	g.schedKnobs()
	p.Cfg.StallPct, p.Cfg.NestPct = 0, 0
	p.Cfg.PreemptGap = max(p.Cfg.PreemptGap, 500)
	p.Link = simrt.Link{Base: g.LogRange(20*us, 60*ms)}
	if g.Pct(50) {
		p.Link.Jitter = g.LogRange(1*us, p.Link.Base)
	}
	g.set("gap", g.Range(0, 1)*g.LogRange(1*us, 50*ms))
	g.set("late", g.Range(0, 1)*g.LogRange(1*ms, 8*sec))
	g.set("msgs", g.LogRange(1, 30))
	g.set("size", g.LogRange(20, 3000))
	g.set("buf", g.LogRange(1, 5000))
	g.set("acceptors", g.LogRange(1, 6))
	g.set("end", g.Range(0, 2))
}

func crowdMsg(from, i int64, size int64) []byte {
	b := make([]byte, 16, size)
	binary.LittleEndian.PutUint64(b, uint64(from))
	binary.LittleEndian.PutUint64(b[8:], uint64(i))
	r := simrt.NewRng(uint64(from)<<20 ^ uint64(i))
	for k := r.Range(16, size); int64(len(b)) < k; {
		b = append(b, byte(r.Uint64()))
	}
	return b
}

func runConnCrowd(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	var ln net.Listener
	var err error
	if !srv.on("listen", 10*sec, func() { ln, err = tru.Listen("tru", ":7070") }) || err != nil {
		w.fail("Listen: %v", err)
		return
	}
	srv.Port = 7070
	msgs, size := pl.get("msgs"), pl.get("size")
	nc := len(w.Peers) - 1
	type side struct {
		c    net.Conn
		who  int64 // node of the dialing side
		got  int64
		end  simrt.Event
		down bool // accepted side
	}
	var sides []*side
	// read takes messages; the accepted side learns who it talks to from the
	// first one
	read := func(s *side) {
		var acc []byte
		for {
			b := make([]byte, pl.get("buf"))
			n, err := s.c.Read(b)
			acc = append(acc, b[:n]...)
			if err == io.EOF {
				if len(acc) < 16 {
					w.fail("a message of %d bytes was read, which nobody wrote", len(acc))
					return
				}
				from := int64(binary.LittleEndian.Uint64(acc))
				if s.who == 0 && s.down {
					s.who = from - 1000
				}
				want := s.who
				if s.down {
					want += 1000
				}
				if !bytes.Equal(acc, crowdMsg(want, s.got, size)) {
					w.fail("connection of n%d: message %d that was read is not the one written", s.who, s.got)
					return
				}
				s.got++
				acc = nil
				continue
			}
			if err != nil {
				s.end.Set()
				return
			}
		}
	}
	var werr error
	write := func(s *side) {
		from := s.who
		if !s.down {
			from += 1000
		}
		for i := int64(0); i < msgs; i++ {
			if _, err := s.c.Write(crowdMsg(from, i, size)); err != nil {
				werr = err
				return
			}
		}
	}
	naccept := 0
	accept := func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			naccept++
			s := &side{c: c, down: true}
			ra, _ := c.RemoteAddr().(*net.UDPAddr)
			for _, p := range w.Peers[1:] {
				if ra != nil && (ra.IP.String() == p.N.IP4 || ra.IP.Equal(net.ParseIP(p.N.IP6))) {
					s.who = int64(p.ID)
				}
			}
			for _, x := range sides {
				if x.down && x.who == s.who {
					w.fail("Accept returned the connection of n%d twice", s.who)
				}
			}
			sides = append(sides, s)
			w.S.GoOn(srv.N, "read", func() { read(s) })
			w.S.GoOn(srv.N, "write", func() { write(s) })
		}
	}
	acceptors := []*simrt.Event{}
	startAccept := func() {
		for i := pl.get("acceptors"); i > 0; i-- {
			acceptors = append(acceptors, srv.spawn("accept", accept))
		}
	}
	if pl.get("late") == 0 {
		startAccept()
	}
	errs := make([]error, nc)
	var evs []*simrt.Event
	for i, p := range w.Peers[1:] {
		i, p := i, p
		evs = append(evs, p.spawn("dial", func() {
			c, err := tru.Dial("tru", srv.addr())
			if err != nil {
				errs[i] = err
				return
			}
			s := &side{c: c, who: int64(p.ID)}
			sides = append(sides, s)
			w.S.GoOn(p.N, "read", func() { read(s) })
			write(s)
		}))
		if d := pl.get("gap"); d > 0 {
			w.sleep(d)
		}
	}
	for i, ev := range evs {
		if !ev.Wait(40 * sec) {
			w.fail("%d processes dial: Dial and Write of n%d have not returned in 40 s", nc, i+1)
			return
		}
		if errs[i] != nil {
			w.fail("%d processes dial on a working network: Dial of n%d: %v", nc, i+1, errs[i])
			return
		}
	}
	if d := pl.get("late"); d > 0 {
		w.sleep(d)
		startAccept()
	}
	all := func() bool {
		for _, s := range sides {
			if s.got < msgs {
				return false
			}
		}
		return len(sides) == 2*nc
	}
	w.until(20*sec, all)
	if len(w.Viol) > 0 {
		return
	}
	if naccept != nc {
		w.fail("%d processes dialed, Accept returned %d connections", nc, naccept)
		return
	}
	if !all() {
		for _, s := range sides {
			if s.got < msgs {
				w.fail("connection of n%d (accepted side: %v): %d of %d messages were read 20 s after the last was accepted (%v)", s.who, s.down, s.got, msgs, werr)
				return
			}
		}
	}
	w.note("connections", int64(nc))
	w.sleep(sec)
	for _, s := range sides {
		if s.got != msgs || s.end.IsSet() {
			w.fail("connection of n%d (accepted side: %v): %d messages read, ended %v; %d messages were written and nobody closed it", s.who, s.down, s.got, s.end.IsSet(), msgs)
			return
		}
	}
	// the end
	var evc []*simrt.Event
	switch pl.get("end") {
	case 0:
		evc = append(evc, srv.spawn("close", func() { ln.Close() }))
	default:
		for _, s := range sides {
			s := s
			if s.down == (pl.get("end") == 1) {
				p := srv
				if !s.down {
					p = w.Peers[s.who]
				}
				evc = append(evc, p.spawn("close", func() { s.c.Close() }))
			}
		}
	}
	for _, ev := range evc {
		if !ev.Wait(5 * sec) {
			w.fail("Close with %d connections has not returned in 5 s", nc)
			return
		}
	}
	w.until(2*sec, func() bool {
		for _, s := range sides {
			if !s.end.IsSet() {
				return false
			}
		}
		return true
	})
	for _, s := range sides {
		if !s.end.IsSet() {
			w.fail("connection of n%d (accepted side: %v): Read has not returned an error 2 s after the close", s.who, s.down)
			return
		}
		var err error
		p := srv
		if !s.down {
			p = w.Peers[s.who]
		}
		if !p.on("write", 2*sec, func() { _, err = s.c.Write([]byte("late")) }) || err == nil {
			w.fail("connection of n%d (accepted side: %v): Write after the end: error %v", s.who, s.down, err)
			return
		}
	}
	if pl.get("end") == 0 {
		w.sleep(100 * ms)
		for _, ev := range acceptors {
			if !ev.IsSet() {
				w.fail("Accept has not returned after the close of the listener")
				return
			}
		}
	}
}
