package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"math/big"
	"net"
	"reflect"
	"slices"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Several parties, some of them hostile: isolation of channels (C13), arbitrary
// datagrams (C14), secrecy and alteration (C15).

func init() {
	reg(&Prop{ID: "C13", Quick: 2500, Thorough: 50000, Scens: []Scenario{
		{"bad-peer", 6, genBadPeer, runBadPeer},
		{"unread-conn", 2, genUnread, runUnread},
	}})
	reg(&Prop{ID: "C14", Quick: 2500, Thorough: 50000, Scens: []Scenario{
		{"fuzz", 6, genFuzz, runFuzz},
		{"bad-peer", 2, genBadPeer, runBadPeer},
	}})
	reg(&Prop{ID: "C15", Quick: 6000, Thorough: 60000, Scens: []Scenario{
		{"secrecy", 5, genSecrecy, runSecrecy},
		{"alter", 5, genAlter, runAlter},
		{"equal-both-ways", 1, genEqual, runEqual},
		{"alter-short", 1, genAlterShort, runAlterShort},
	}})
}

// --- C13 ------------------------------------------------------------------------

func genBadPeer(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 1, msgs: 200, span: 20 * sec, faultPct: 25, frag: true})
	p := g.p
	delete(p.P, "ff")
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000})
	m := len(p.Nodes) - 1
	if g.Pct(30) {
		p.Nodes[m].MaxData = int(g.LogRange(1, 1000))
	}
	g.set("role", int64(g.Intn(5)/3)) // 1: the bad peer is the server
	kinds := []string{"crash", "freeze", "close", "srvclose", "flood", "flood", "srvflood", "partition", "ackloss", "garbage", "garbage", "disconnect", "reconnect", "strangers", "data", "data", "neighbour", "neighbour"}
	if p.Prop == "C14" { // what it sends is what counts there
		kinds = []string{"garbage", "data", "data", "data", "neighbour", "strangers", "flood", "reconnect"}
		g.set("role", 0)
	}
	for k := 1 + g.Intn(8); k > 0; k-- {
		op := Op{A: 1000, K: kinds[g.Intn(len(kinds))], D: g.LogRange(1*ms, 4*sec), N: g.LogRange(1, 300), M: g.LogRange(1, 8000)}
		if g.Pct(50) {
			op.D = g.LogRange(10*us, 20*ms)
		}
		frag := int64(1 << 20) // at most some thousand packets
		for _, i := range []int{0, m} {
			if d := int64(p.Nodes[i].MaxData); d > 0 {
				frag = min(frag, d)
			}
		}
		op.M = max(1, min(op.M, 2000*frag/op.N))
		op.T = int(g.LogRange(1, 8000)) // ms
		p.Ops = append(p.Ops, op)
	}
}

func runBadPeer(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	rec := w.record()
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv, bad := w.Peers[0], w.Peers[len(w.Peers)-1]
	for i, p := range w.Peers {
		port := 0
		if p == srv {
			port = 7070
		}
		if p == bad {
			port = 9090
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", w.Peers[i].N.Name, err)
			return
		}
	}
	w.noMatch = func(e *End) bool { return e.P == bad || e.Addr == bad.addr() }
	var ends []*End
	for _, p := range w.Peers[1 : len(w.Peers)-1] {
		e := w.establish(p, srv)
		if e == nil {
			return
		}
		ends = append(ends, e, e.pair())
	}
	from, to := bad, srv
	if pl.get("role") == 1 {
		from, to = srv, bad
	}
	if w.establish(from, to) == nil {
		return
	}
	clean := len(pl.Faults) == 0
	for _, p := range w.Peers {
		p.onEnd = func(e *End) {
			// A stranger may happen to play back a whole handshake
			known := slices.ContainsFunc(w.Peers, func(q *Peer) bool { return q.addr() == e.Addr })
			if w.noMatch(e) || !known {
				return
			}
			silent := w.S.Now - max(e.Created, e.wire().Heard)
			if clean || silent < quietMin*99/100-w.stalls()-400*ms || e.wire().ReadBy[stDisconnect] > 0 {
				w.fail("%s ended (its peer heard %.3f s ago)", e, f9(silent))
			}
		}
	}
	w.schedule()
	done := w.runActors(nil)
	rng := simrt.NewRng(pl.Seed ^ 0x1313)
	ack := int64(-1)
	bogus := uint32(0) // next packet number of bogusEnd
	var bogusEnd *End
	w.S.Net.Drop = func(p *simrt.Pkt) bool {
		st, _, ok := parse(p.Data)
		return ok && p.From == bad.N && st == stAck && w.S.Now < ack
	}
	last := func(p, q *Peer) (e *End) {
		if p.T == nil {
			return nil
		}
		for _, x := range p.ends {
			if x.Addr == q.addr() && x.epoch == p.epoch {
				e = x
			}
		}
		return
	}
	flood := func(p, q *Peer, n, size int64) {
		e := last(p, q)
		if e == nil || p.N.Dead {
			return
		}
		p.spawn("flood", func() {
			wid := 1000 + len(e.W)
			for i := int64(0); i < n && len(e.Ended) == 0; i++ {
				e.write(wid, int(size), -1)
			}
		})
	}
	connect := func() {
		if from.N.Dead || from.T == nil {
			return
		}
		from.spawn("connect", func() { from.connect(to) })
	}
	badUDP := &net.UDPAddr{IP: net.ParseIP(bad.N.IP4), Port: 9090}
	if pl.V6 {
		badUDP.IP = net.ParseIP(bad.N.IP6)
	}
	for _, op := range pl.Ops {
		if op.A != 1000 {
			continue
		}
		w.sleep(op.D)
		w.tr("bad peer: %s", op.K)
		w.note("bad-"+op.K, 1)
		switch op.K {
		case "crash":
			if !bad.N.Dead {
				w.S.Crash(bad.N)
			}
			w.sleep(int64(op.T) * ms)
			w.restart(bad)
			bad.start(9090)
			connect()
		case "freeze":
			if !bad.N.Dead {
				n := bad.N.StallTotal
				w.S.StallNode(bad.N, int64(op.T)*ms)
				bad.N.StallTotal = n
			}
		case "close":
			if e := last(bad, srv); e != nil && !bad.N.Dead {
				bad.spawn("close", func() { e.Ch.Close() })
				w.sleep(op.N * ms)
				connect()
			}
		case "srvclose":
			if e := last(srv, bad); e != nil {
				srv.spawn("close", func() { e.Ch.Close() })
				w.sleep(op.N * ms)
				connect()
			}
		case "flood":
			flood(bad, srv, op.N, op.M)
		case "srvflood":
			flood(srv, bad, op.N, op.M)
		case "partition":
			for _, k := range [][2]*simrt.Node{{bad.N, srv.N}, {srv.N, bad.N}} {
				w.S.Net.Link(k[0], k[1]).Block = true
			}
			flood(srv, bad, op.N, 100)
			w.sleep(int64(op.T) * ms)
			for _, k := range [][2]*simrt.Node{{bad.N, srv.N}, {srv.N, bad.N}} {
				w.S.Net.Link(k[0], k[1]).Block = false
			}
		case "ackloss":
			ack = w.S.Now + int64(op.T)*ms
			flood(srv, bad, op.N, 300)
		case "garbage":
			for i := int64(0); i < op.N; i++ {
				w.S.Net.Inject(badUDP, srv.N, srv.Port, fuzzDatagram(rng, *rec), rng.Range(0, sec))
			}
		case "disconnect":
			w.S.Net.Inject(badUDP, srv.N, srv.Port, packet(stDisconnect, 0, nil), 0)
		case "reconnect":
			for i := int64(0); i < 1+op.N%4; i++ {
				connect()
				w.sleep(rng.Range(0, 50*ms))
			}
		case "strangers":
			for i := int64(0); i < op.N; i++ {
				w.S.Net.Inject(stranger(rng, pl.V6), srv.N, srv.Port, freshConnect(rng, *rec), rng.Range(0, 300*ms))
			}
		case "neighbour": // another program on the host of a peer
			src := w.neighbour(rng, srv)
			for i := int64(0); i < op.N%40; i++ {
				d := fuzzDatagram(rng, *rec)
				switch rng.Intn(3) {
				case 0:
					d = packet([]int{stDisconnect, stAck, stPing, stPong}[rng.Intn(4)], 0, nil)
				case 1:
					d = packet([]int{stData, stDataNext}[rng.Intn(2)], uint32(rng.LogRange(1, 1<<10)), rngBytes(rng, int(rng.Range(0, 64))))
				}
				w.S.Net.Inject(src, srv.N, srv.Port, d, rng.Range(0, sec))
			}
		case "data": // data packets of its own channel in any order and number
			e := last(srv, bad)
			if e != bogusEnd {
				bogusEnd, bogus = e, 0
			}
			order := rng.Intn(3)
			next := rng.Intn(100)
			for i := int64(0); i < op.N; i++ {
				st := stData
				if rng.Pct(next) {
					st = stDataNext
				}
				id := uint32(rng.LogRange(1, 1<<20))
				size := int(rng.Range(0, 64))
				if rng.Pct(20) {
					size = 0
				}
				if order > 0 { // packets which it may send: they are taken
					id = bogus
					bogus++
					if order == 2 && rng.Pct(20) {
						id ^= uint32(rng.Range(0, 3))
					}
					w.S.Net.Inject(badUDP, srv.N, srv.Port, packet(st, id, rngBytes(rng, size)), i*100*us)
					continue
				}
				w.S.Net.Inject(badUDP, srv.N, srv.Port, packet(st, id, rngBytes(rng, size)), rng.Range(0, sec))
			}
		}
	}
	if !w.until(w.faultsEnd-w.S.Now+120*sec, done) {
		w.fail("a write to a well behaved peer did not return")
		return
	}
	w.sleepUntil(w.faultsEnd)
	for _, e := range ends {
		w.healPair(e.P, e.pair().P)
	}
	fine := func() bool {
		for _, e := range ends {
			if n, _ := e.undelivered(); n > 0 {
				return false
			}
		}
		return true
	}
	w.until(10*sec+w.stalls(), fine)
	w.sleep(sec)
	for _, e := range ends {
		if len(e.Ended) > 0 && clean {
			w.fail("%s ended", e)
			return
		}
		if len(e.Ended)+len(e.pair().Ended) > 0 {
			continue
		}
		if n, m := e.undelivered(); n > 0 {
			w.fail("%s: %d messages undelivered; first: %d bytes written at %.3fs", e, n, m.Size, f9(m.T0))
			return
		}
		if clean {
			for _, st := range e.writers() {
				for _, m := range st.Msgs {
					if m.State == 1 && m.DelAt > m.T1+10*sec+w.stalls() {
						w.fail("%s: message %d took %.3f s on a working network", e, m.Seq, f9(m.DelAt-m.T1))
						return
					}
				}
			}
		}
	}
	// and the node serves on
	for _, e := range ends {
		e := e
		if len(e.Ended)+len(e.pair().Ended) > 0 {
			continue
		}
		if !e.P.on("write", 20*sec, func() { e.write(70, 80, -1) }) {
			w.fail("%s: write did not return", e)
			return
		}
	}
	if !w.until(10*sec+w.stalls(), fine) && clean {
		w.fail("messages on well behaved channels are not delivered any more")
	}
	w.recheck()
}

// --- C14 ------------------------------------------------------------------------

func rngBytes(r *simrt.Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

func stranger(r *simrt.Rng, v6 bool) *net.UDPAddr {
	a := &net.UDPAddr{IP: net.IPv4(10, 9, byte(r.Uint64()), byte(r.Uint64())), Port: int(r.Range(1, 65535))}
	if v6 {
		a.IP = net.ParseIP("fd00::9:0")
		a.IP[15], a.IP[14] = byte(r.Uint64()), byte(r.Uint64())
	}
	return a
}

// neighbour is an unused port of a host that has a channel with p.
func (w *World) neighbour(r *simrt.Rng, p *Peer) *net.UDPAddr {
	e := p.ends[r.Intn(len(p.ends))]
	a, _ := net.ResolveUDPAddr("udp", e.Addr)
	for used := true; used; {
		a.Port = int(r.Range(1, 65535))
		used = false
		for _, q := range w.Peers {
			used = used || q.Port == a.Port
		}
		for _, q := range p.ends {
			used = used || q.Addr == a.String()
		}
	}
	return a
}

// freshConnect is a valid connect request with an unused uuid.
func freshConnect(r *simrt.Rng, rec []handPkt) []byte {
	for _, x := range rec {
		if x.st == stConnect && len(x.data) > 45 {
			d := append([]byte(nil), x.data...)
			for i := 0; i < 8; i++ {
				d[5+r.Intn(36)] = "0123456789abcdef"[r.Intn(16)]
			}
			return d
		}
	}
	return nil
}

// fuzzDatagram draws a datagram.
func fuzzDatagram(r *simrt.Rng, rec []handPkt) []byte {
	handshake := func() []byte {
		if len(rec) == 0 {
			return packet(stConnect, 0, nil)
		}
		return append([]byte(nil), rec[r.Intn(len(rec))].data...)
	}
	cpd := func(st int, uuid, data []byte) []byte {
		b := append([]byte{byte(len(uuid))}, uuid...)
		return packet(st, 0, append(b, data...))
	}
	switch r.Intn(16) {
	case 0:
		return rngBytes(r, int(r.LogRange(1, 2000)))
	case 1:
		return rngBytes(r, int(r.Range(0, 8)))
	case 2, 3:
		return packet(r.Intn(256), uint32(r.Uint64()), rngBytes(r, int(r.LogRange(1, 3000)-1)))
	case 4, 5:
		sts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x80, 0x84, 0x85, 0x8f, 0xff}
		return packet(sts[r.Intn(len(sts))], uint32(r.LogRange(1, 1<<20)-1), rngBytes(r, int(r.LogRange(1, 200)-1)))
	case 6:
		d := handshake()
		return d[:r.Intn(len(d)+1)]
	case 7:
		d := handshake()
		return append(d, rngBytes(r, int(r.LogRange(1, 500)))...)
	case 8:
		d := handshake()
		for k := 1 + r.Intn(4); k > 0; k-- {
			d[r.Intn(len(d))] ^= byte(1 + r.Intn(255))
		}
		return d
	case 9: // uuid longer than the packet, or of odd length
		b := []byte{byte(r.Uint64())}
		return packet(r.Intn(4), 0, append(b, rngBytes(r, int(r.LogRange(1, 300)-1))...))
	case 10:
		n := []int{65507, 65506, 65000, 9000, 1473}[r.Intn(5)]
		b := rngBytes(r, n)
		b[3] = byte([]int{0, 1, 2, 3, 4, 5, 9, 0x84}[r.Intn(8)])
		return b
	case 11:
		if d := freshConnect(r, rec); d != nil {
			return d
		}
		return nil
	case 12: // connect with a strange key
		k := &rsa.PublicKey{N: big.NewInt(int64(r.Uint64() >> 1)), E: int(r.LogRange(1, 1<<30))}
		if r.Pct(50) {
			k.N = new(big.Int).SetBytes(rngBytes(r, int(r.LogRange(8, 600))))
		}
		der, _ := x509.MarshalPKIXPublicKey(k)
		if r.Pct(30) && len(der) > 0 {
			der[r.Intn(len(der))] ^= byte(1 + r.Intn(255))
		}
		return cpd(stConnect, rngBytes(r, int(r.LogRange(1, 255)-1)), pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der}))
	case 13:
		return cpd(stConnect, rngBytes(r, 36), pem.EncodeToMemory(&pem.Block{Type: "EC PUBLIC KEY", Bytes: rngBytes(r, 91)}))
	case 14:
		return cpd(r.Intn(4), rngBytes(r, int(r.Range(0, 255))), rngBytes(r, int(r.LogRange(1, 700)-1)))
	default:
		d := handshake()
		if len(d) > 3 {
			d[3] = byte(r.Intn(12))
		}
		return d
	}
}

func genFuzz(g *Gen) {
	genStream(g, streamOpt{clients: 2, writers: 1, msgs: 120, span: 10 * sec, faultPct: 25, frag: true})
	p := g.p
	delete(p.P, "ff")
	n := int(g.LogRange(5, 600))
	span := g.LogRange(1*ms, 12*sec)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: -1, K: "inject", D: g.Range(0, span), N: g.Range(0, 1<<50), M: int64(g.Intn(10)), T: g.Intn(len(p.Nodes))})
	}
}

func runFuzz(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	rec := w.record()
	if !w.setup() {
		return
	}
	ends := w.allEnds()
	connects := len(w.Peers) - 1
	w.sleep(6*sec + w.stalls()) // timers of the connects
	type base struct{ g, t int }
	bases := map[*Peer]base{}
	for k := 0; k < 8; k++ {
		for _, p := range w.Peers {
			b := bases[p]
			b.g = max(b.g, len(w.S.LiveGoroutines(p.N)))
			b.t = max(b.t, p.N.TimersLive())
			bases[p] = b
		}
		w.sleep(70 * ms)
	}
	w.schedule()
	last := w.S.Now
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.K != "inject" {
			continue
		}
		last = max(last, w.S.Now+op.D)
		r := simrt.NewRng(uint64(op.N) ^ pl.Seed)
		to := w.Peers[op.T]
		var src *net.UDPAddr
		est := false
		switch {
		case op.M < 3: // an established peer
			var es []*End
			for _, e := range ends {
				if e.P == to {
					es = append(es, e)
				}
			}
			src, _ = net.ResolveUDPAddr("udp", es[r.Intn(len(es))].Addr)
			est = true
		case op.M == 3: // itself
			src, _ = net.ResolveUDPAddr("udp", to.addr())
		case op.M > 7: // another port of the host of an established peer
			src = w.neighbour(r, to)
		default:
			src = stranger(r, pl.V6)
		}
		d := fuzzDatagram(r, *rec)
		if st, id, ok := parse(d); ok && est {
			// an established peer may speak the protocol: short data and
			// control packets carry no proof of origin
			switch {
			case st == stDisconnect, isData(st) && len(d) <= 4+64:
				continue
			case st == stAck:
				d = packet(st, 0xa0000+id%0x10000, d[4:])
			case st == stClientAnswer && len(d) > 4:
				// no answer that decrypts: with a connect before it, it would
				// be a complete handshake, which replaces the channel
				d = append([]byte(nil), d...)
				d[len(d)-1] ^= 1
			}
		}
		w.note("fuzz-"+map[bool]string{true: "established", false: "stranger"}[est], 1)
		w.S.After(op.D, func() {
			w.tr("inject %s from %s to %s", pktName(d), src, to.N.Name)
			w.S.Net.Inject(src, to.N, to.Port, d, 0)
		})
	}
	done := w.runActors(nil)
	if !w.until(w.faultsEnd-w.S.Now+180*sec, done) {
		w.fail("a write did not return")
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.sleepUntil(last)
	w.checkDrained(10 * sec)
	w.sleepUntil(last + 8500*ms + w.stalls())
	for _, e := range ends {
		if len(e.Ended) > 0 && len(pl.Faults) > 0 && e.wire().ReadBy[stDisconnect] == 0 {
			return // by the faults, not judged here
		}
	}
	w.checkEstablished(ends, connects)
	for _, p := range w.Peers {
		w.until(sec, func() bool { // timers may be firing right now
			return p.N.TimersLive() <= bases[p].t && len(w.S.LiveGoroutines(p.N)) <= bases[p].g
		})
		if n := p.N.TimersLive(); n > bases[p].t {
			w.fail("%s has %d timers 8.5 s after the last bogus datagram, %d before the first", p.N.Name, n, bases[p].t)
		}
		if n := w.S.LiveGoroutines(p.N); len(n) > bases[p].g {
			w.fail("%s has %d goroutines 8.5 s after the last bogus datagram, %d before the first: %v", p.N.Name, len(n), bases[p].g, n)
		}
		if n := reachable(p.T); n > len(p.ends) {
			w.fail("%s keeps %d channels in memory 8.5 s after the last bogus datagram, %d were ever established", p.N.Name, n, len(p.ends))
		}
	}
	if len(w.Viol) > 0 {
		return
	}
	w.checkAlive(ends)
	// the node still accepts peers
	p := w.newPeer(NodeCfg{Rate: 1000})
	pl.Nodes = append(pl.Nodes[:len(w.Peers)-1:len(w.Peers)-1], NodeCfg{})
	if err := p.start(0); err != nil {
		w.fail("tru.New: %v", err)
		return
	}
	if e := w.establish(p, w.Peers[0]); e != nil {
		w.checkAlive([]*End{e, e.pair()})
	}
	w.recheck()
}

// --- C15 ------------------------------------------------------------------------

func genSecrecy(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 1, msgs: 120, span: 5 * sec, faultPct: 40})
	p := g.p
	for i := range p.Nodes {
		if g.Pct(50) {
			p.Nodes[i].MaxData = int(g.LogRange(16, 3000))
		}
	}
	// few sizes and contents, so that equal messages abound; sizes from 16 on
	n := 1 + g.Intn(5)
	var sizes []int64
	for i := 0; i < n; i++ {
		s := 16 + g.size(0, 0)
		sizes = append(sizes, min(s, 9000))
	}
	g.set("kinds", int64(1+g.Intn(3)))
	for i := range p.Ops {
		p.Ops[i].N = sizes[g.Intn(n)]
	}
	if g.Pct(60) { // both directions of a channel would meet the known finding
		keep := p.Ops[:0]
		for _, op := range p.Ops {
			if p.Actors[op.A].P != 0 {
				keep = append(keep, op)
			}
		}
		p.Ops = keep
	} else {
		g.set("dirs", 1)
	}
}

// block8 reads 8 bytes.
func block8(b []byte) uint64 {
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

func runSecrecy(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	both := pl.get("dirs") == 1
	w.content = func(m *Msg) uint64 {
		c := pl.Seed ^ uint64(m.Seq)%uint64(pl.get("kinds"))<<32 ^ uint64(m.Size)
		if both && m.E.Server {
			c ^= 0x5a5a5a5a // other contents in the other direction
		}
		return c
	}
	clear := map[uint64]bool{}
	type origin struct {
		from, to string
		id       uint32
	}
	seen := map[string]origin{}
	var hand [][]byte
	learn := func(e *End, size int) {
		m := &Msg{E: e, Size: size}
		for s := int64(0); s < pl.get("kinds"); s++ {
			m.Seq = int(s)
			b := m.data()
			for i := 0; i+8 <= len(b); i += 8 {
				clear[block8(b[i:])] = true
			}
		}
	}
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		st, id, ok := parse(p.Data)
		if !ok {
			return
		}
		for i := 4; i+8 <= len(p.Data); i++ {
			if clear[block8(p.Data[i:])] {
				w.fail("datagram %s from %s contains message content in clear at offset %d", pktName(p.Data), p.From.Name, i)
				return
			}
		}
		if st <= stDone {
			hand = append(hand, append([]byte(nil), p.Data...))
		}
		if !isData(st) || len(p.Data) < 4+16 {
			return
		}
		o := origin{p.Src.String(), p.Dst.String(), id}
		if p.From.Name != "" { // by node: sockets may listen on any address
			o.from = p.From.Name
		}
		k := string(p.Data[4:])
		if q, ok := seen[k]; ok && q != o {
			w.fail("equal datagrams of %d bytes: packet %d from %s to %s and packet %d from %s to %s", len(k), q.id, q.from, q.to, o.id, o.from, o.to)
			return
		}
		seen[k] = o
	})
	if !w.setup() {
		return
	}
	sizes := map[int64]bool{}
	for _, op := range pl.Ops {
		sizes[op.N] = true
	}
	for s := range sizes {
		for _, e := range w.allEnds() {
			learn(e, int(s))
		}
	}
	if ff := pl.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			fastForward(e, e.pair(), uint32(ff))
		}
	}
	w.schedule()
	done := w.runActors(nil)
	w.until(w.faultsEnd-w.S.Now+100*sec, done)
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.until(10*sec+w.stalls(), w.drained)
	w.note("payloads", int64(len(seen)))
	// the session keys were never sent, and differ
	keys := map[string]*End{}
	for _, e := range w.allEnds() {
		k := sessionKey(e.Ch)
		if len(k) < 16 {
			continue
		}
		w.note("keys", 1)
		for _, h := range hand {
			for i := 0; i+len(k) <= len(h); i++ {
				if string(h[i:i+len(k)]) == string(k) {
					w.fail("%s: the session key was sent in clear (%s)", e, pktName(h))
					return
				}
			}
		}
		if o := keys[string(k)]; o != nil && o != e.Pair {
			w.fail("%s and %s have the same session key", e, o)
			return
		}
		keys[string(k)] = e
	}
}

// sessionKey reads the session key of a channel (nil if it cannot be found).
func sessionKey(ch *tru.Channel) (k []byte) {
	defer func() { recover() }()
	c, ok := field(reflect.ValueOf(ch).Elem(), "crypt")
	if !ok {
		return nil
	}
	if c.Kind() == reflect.Ptr {
		c = c.Elem()
	}
	s, ok := field(c, "sessionKey")
	if !ok {
		return nil
	}
	b, ok := field(s, "bytes")
	if !ok {
		return nil
	}
	return append([]byte(nil), b.Bytes()...)
}

// genAlter: long data datagrams are altered on the way.
func genAlter(g *Gen) {
	genStream(g, streamOpt{clients: 2, writers: 2, msgs: 150, span: 8 * sec, faultPct: 50, frag: true, minSize: 8})
	p := g.p
	for i := range p.Ops {
		if p.Ops[i].N < 65 && g.Pct(70) {
			p.Ops[i].N = 65 + g.LogRange(1, 2000)
		}
	}
	g.set("rate", g.LogRange(10, 700)) // per mille of the datagrams
	g.set("dur", g.LogRange(50*ms, 8*sec))
}

func runAlter(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	if ff := pl.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			fastForward(e, e.pair(), uint32(ff))
		}
	}
	w.schedule()
	until := w.S.Now + pl.get("dur")
	w.faultsEnd = max(w.faultsEnd, until)
	rng := simrt.NewRng(pl.Seed ^ 0xa17e)
	w.tamper = func(p *simrt.Pkt) []byte {
		st, id, ok := parse(p.Data)
		if !ok || !isData(st) || len(p.Data) <= 4+64 || w.S.Now >= until || !rng.PerMille(int(pl.get("rate"))) {
			return nil
		}
		d := append([]byte(nil), p.Data...)
		pay := d[4:]
		k := rng.Intn(6)
		switch k {
		case 0: // bits
			for n := 1 + rng.Intn(3); n > 0; n-- {
				i := rng.Intn(len(pay))
				pay[i] ^= 1 << rng.Intn(8)
			}
		case 1: // a byte at the end or the beginning
			i := []int{0, 11, 12, len(pay) - 1, len(pay) - 16, len(pay) - 17}[rng.Intn(6)]
			pay[i] ^= byte(1 + rng.Intn(255))
		case 2: // shorter, but still long
			if n := len(pay) - 65; n > 0 {
				d = d[:len(d)-1-rng.Intn(n)]
			} else {
				pay[0] ^= 1
			}
		case 3: // longer
			d = append(d, rngBytes(rng, 1+rng.Intn(40))...)
		case 4: // another number
			d = append(packet(st, id+uint32(1+rng.Intn(5)), nil), pay...)
		case 5: // replaced
			d = append(packet(st, id, nil), rngBytes(rng, len(pay))...)
		}
		if bytes.Equal(d, p.Data) {
			return nil
		}
		w.note(sprintf("alter-%d", k), 1)
		if w.tracing {
			w.tr("alter (%d): %s", k, pktName(d))
		}
		return d
	}
	// altered datagrams are not acknowledged
	type key struct {
		node int
		addr string
		id   uint32
	}
	good := map[key]bool{}
	w.tapRead = append(w.tapRead, func(n *simrt.Node, p *simrt.Pkt) {
		if st, id, ok := parse(p.Data); ok && isData(st) && !p.Altered {
			good[key{n.ID, p.Src.String(), id}] = true
		}
	})
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		if st, id, ok := parse(p.Data); ok && st == stAck && !good[key{p.From.ID, p.Dst.String(), id}] {
			w.fail("%s acknowledged packet %d of %s, which only arrived altered", p.From.Name, id, p.Dst)
		}
	})
	done := w.runActors(nil)
	if !w.until(w.faultsEnd-w.S.Now+180*sec, done) {
		w.fail("a write did not return")
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	w.checkDrained(10 * sec)
	w.recheck()
}

// genEqual: equal short messages with equal numbers in both directions.
func genEqual(g *Gen) {
	g.nodes(2)
	g.cleanLink()
	g.schedKnobs()
	g.p.Cfg.StallPct = 0
	g.set("size", g.Range(16, 100))
	g.set("n", g.LogRange(1, 30))
}

func runEqual(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	size := int(pl.get("size"))
	w.content = func(m *Msg) uint64 { return pl.Seed }
	seen := map[string][2]int{}
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		st, id, ok := parse(p.Data)
		if !ok || st != stData {
			return
		}
		k := string(p.Data[4:])
		o := [2]int{p.From.ID, int(id)}
		if q, ok := seen[k]; ok && q != o {
			if q[1] == o[1] && q[0] != o[0] && len(k) <= 64 {
				w.fail("equal short messages with equal numbers in the two directions of a channel give equal datagrams (packet %d, %d bytes)", id, len(k))
			} else {
				w.fail("equal datagrams of %d bytes: packet %d from node %d and packet %d from node %d", len(k), q[1], q[0], o[1], o[0])
			}
			return
		}
		seen[k] = o
	})
	if !w.setup() {
		return
	}
	for _, e := range w.allEnds() {
		e := e
		e.P.on("write", 60*sec, func() {
			for i := int64(0); i < pl.get("n"); i++ {
				e.write(0, size, -1)
			}
		})
	}
	w.checkDrained(10 * sec)
}

// genAlterShort: alterations of what short messages do not protect.
func genAlterShort(g *Gen) {
	g.nodes(2)
	g.cleanLink()
	g.schedKnobs()
	g.p.Cfg.StallPct = 0
	g.p.Link.Jitter = 0
	g.set("kind", int64(g.Intn(4)))
	g.set("size", g.Range(1, 64))
	g.set("n", g.LogRange(1, 5))
	if g.p.P["kind"] == 3 {
		g.p.Nodes[1].MaxData = 100
	}
}

func runAlterShort(w *World) {
	pl := w.Plan
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	kind := pl.get("kind")
	size := int(pl.get("size"))
	switch kind {
	case 0:
		w.failPrefix = "altered short message: "
	case 1:
		w.failPrefix = "long message cut to at most 64 bytes: "
		size += 100
	case 2:
		w.failPrefix = "kind of a data packet changed to one that has followers: "
	case 3:
		w.failPrefix = "kind of a data packet changed to one without followers: "
		size = 300
	}
	n := int(pl.get("n"))
	k := 0
	w.tamper = func(p *simrt.Pkt) []byte {
		st, _, ok := parse(p.Data)
		if !ok || !isData(st) {
			return nil
		}
		if kind == 3 && st == stData {
			return nil
		}
		k++
		if k != n {
			return nil
		}
		d := append([]byte(nil), p.Data...)
		switch kind {
		case 0:
			d[4+int(pl.Seed%uint64(len(d)-4))] ^= 0x10
		case 1:
			d = d[:4+int(pl.Seed%64)]
		case 2:
			d[3] = stDataNext
		case 3:
			d[3] = stData
		}
		return d
	}
	e := w.endOf(1, 0)
	e.P.on("write", 60*sec, func() {
		for i := 0; i < n+2; i++ {
			e.write(0, size, -1)
		}
	})
	w.checkDrained(10 * sec)
}
