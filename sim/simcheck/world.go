package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strconv"
	"time"
	"unsafe"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// World is one run of a scenario.
type World struct {
	cutOff        bool // faults ended a channel
	S             *simrt.Sim
	Plan          *Plan
	Peers         []*Peer
	Viol          []string
	Notes         map[string]int64 // counters for the evidence
	Trace         []string
	tracing       bool
	t0            int64
	faultsEnd     int64
	wantIntegrity bool // check message streams while the run proceeds
	strictDup     bool
	msgs          int64
	ncb           int
	endID         int
	wire          *Wire
	tapSend       []func(p *simrt.Pkt)
	tapRead       []func(n *simrt.Node, p *simrt.Pkt)
	tamper        func(p *simrt.Pkt) []byte
	stopOnViol    bool
	failPrefix    string // of the step that is being checked
	healed        map[[2]int]bool
	onCb          func(m *Msg)
	noMatch       func(e *End) bool   // messages of these ends are not matched
	content       func(m *Msg) uint64 // replaces the seed of message contents
	known         map[uint64]*End     // messages written to matched ends
}

// Peer is a node with the library on it.
type Peer struct {
	w          *World
	ID         int
	N          *simrt.Node
	T          *tru.Tru
	Port       int
	ends       []*End
	byCh       map[*tru.Channel]*End
	closed     []int64 // ErrTruClosed told to the reader
	connects   int
	onMsg      func(e *End, data []byte, pac *tru.Packet)
	onEnd      func(e *End)
	onConnect  func(e *End)
	processed  func(e *End) bool
	punches    []punch
	crashedAt  int64
	epoch      int  // process number
	ownReaders bool // channels are connected with a reader of their own
}

type punch struct {
	from string
	data []byte
	at   int64
}

// End is one side of a channel.
type End struct {
	id       int
	epoch    int
	P        *Peer
	Ch       *tru.Channel
	Addr     string
	Server   bool
	Created  int64
	Own      bool // has a channel reader of ours
	W        map[int]*Stream
	Recv     []recvEv
	Ended    []endEv
	Pair     *End
	pairErr  bool
	afterEnd int
	conn     net.Conn
	closeAt  int64 // our own Close was called
	lastOK   int64
	last     *Msg
}

// Stream is what one writer wrote to one channel end.
type Stream struct {
	W    int
	Msgs []*Msg
	next int // first message not delivered yet
}

// Msg is one message.
type Msg struct {
	E       *End
	W, Seq  int
	Size    int
	State   int // 0 pending, 1 accepted, 2 refused
	T0, T1  int64
	ID      int
	Err     string
	HasCb   bool
	Timeout int64
	Cbs     []cbEv
	DelAt   int64
	AckAt   int64
}

type cbEv struct {
	at  int64
	err string
}

type recvEv struct {
	at   int64
	data []byte
	sum  uint64
}

type endEv struct {
	at   int64
	kind string
	err  string
}

func (w *World) fail(f string, a ...any) {
	if len(w.Viol) < 20 {
		m := w.failPrefix + fmt.Sprintf(f, a...)
		w.Viol = append(w.Viol, fmt.Sprintf("[t=%.6fs] %s", float64(w.S.Now)/1e9, m))
		w.tr("VIOLATION %s", m)
	}
	if w.stopOnViol {
		w.S.HaltNow("violation")
	}
}

func (w *World) tr(f string, a ...any) {
	if w.tracing {
		w.Trace = append(w.Trace, fmt.Sprintf("%.6f ", float64(w.S.Now)/1e9)+fmt.Sprintf(f, a...))
	}
}

func (w *World) note(k string, n int64) { w.Notes[k] += n }

// --- nodes --------------------------------------------------------------------

func (w *World) newPeer(c NodeCfg) *Peer {
	id := len(w.Peers)
	p := &Peer{w: w, ID: id, byCh: map[*tru.Channel]*End{}}
	p.N = w.S.AddNode("n" + strconv.Itoa(id))
	if c.Rate != 0 {
		p.N.SetClock(c.Rate, c.Wall)
	}
	switch h := w.Plan.get("hosts"); {
	case h == 1 && id > 0 || h == 2 && id > 1:
		p.N.SetHost(w.Peers[h-1].N)
	case h == 3:
		p.N.SetFirstPort(40000)
	}
	w.Peers = append(w.Peers, p)
	return p
}

// on runs f on node of p and waits for it (d > 0: at most d ns).
func (p *Peer) on(name string, d int64, f func()) bool {
	var ev simrt.Event
	p.w.S.GoOn(p.N, name, func() { f(); ev.Set() })
	return ev.Wait(d)
}

// spawn runs f on the node of p.
func (p *Peer) spawn(name string, f func()) *simrt.Event {
	ev := &simrt.Event{}
	p.w.S.GoOn(p.N, name, func() { f(); ev.Set() })
	return ev
}

// start creates the Tru object of p.
func (p *Peer) start(port int, params ...any) (err error) {
	ok := p.on("new", 30*sec, func() { err = p.startHere(port, params...) })
	if !ok {
		p.w.fail("tru.New on %s did not return", p.N.Name)
		return fmt.Errorf("hang")
	}
	return
}

func (p *Peer) startHere(port int, params ...any) (err error) {
	w := p.w
	c := w.Plan.Nodes[p.ID]
	ps := []any{
		tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool { return p.onReader("global", ch, pac, err) }),
		tru.ConnectFunc(func(ch *tru.Channel, err error) { p.onConnected(ch, err) }),
		tru.PunchFunc(func(a net.Addr, b []byte) { p.onPunch(a, b) }),
	}
	if c.MaxData != 0 {
		ps = append(ps, tru.MaxDataLenType(c.MaxData))
	}
	ps = append(ps, params...)
	t, err := tru.New(port, ps...)
	if err != nil {
		return err
	}
	p.T = t
	p.Port = t.LocalPort()
	if c.Delay > 0 {
		t.SetSendDelay(c.Delay)
	}
	return nil
}

// addr is the address of p as seen by others.
func (p *Peer) addr() string { return p.addrPort(p.Port) }

func (p *Peer) addrPort(port int) string {
	if p.w.Plan.V6 {
		return net.JoinHostPort(p.N.IP6, strconv.Itoa(port))
	}
	return net.JoinHostPort(p.N.IP4, strconv.Itoa(port))
}

func (p *Peer) end(ch *tru.Channel) *End {
	if e := p.byCh[ch]; e != nil {
		return e
	}
	// the library may be preempted in these calls
	addr, server := ch.Addr().String(), ch.ServerMode()
	e := p.byCh[ch]
	if e == nil {
		p.w.endID++
		e = &End{id: p.w.endID, epoch: p.epoch, P: p, Ch: ch, Addr: addr, Server: server, Created: p.w.S.Now, W: map[int]*Stream{}}
		p.byCh[ch] = e
		p.ends = append(p.ends, e)
		p.w.tr("%s: channel end #%d to %s server=%v", p.N.Name, e.id, e.Addr, e.Server)
	}
	return e
}

func (e *End) String() string {
	m := "client"
	if e.Server {
		m = "server"
	}
	return fmt.Sprintf("%s end #%d on %s (peer %s)", m, e.id, e.P.N.Name, e.Addr)
}

// pair finds the other side of the channel.
func (e *End) pair() *End {
	if e.Pair != nil {
		return e.Pair
	}
	var best *End // the newest one, live ones first
	bestRank := 0
	for _, q := range e.P.w.Peers {
		if q.Port == 0 || e.Addr != q.addr() {
			continue
		}
		for _, x := range q.ends {
			if x.Pair != nil || x.Server == e.Server || x.Addr != e.P.addr() {
				continue
			}
			rank := 2
			if x.epoch != q.epoch { // of a process that is gone
				srv, cli := x, e
				if e.Server {
					srv, cli = e, x
				}
				if len(x.Ended) > 0 || srv.Created > cli.Created {
					continue
				}
				rank = 0
			} else if len(x.Ended) > 0 {
				rank = 1
			}
			if rank >= bestRank {
				best, bestRank = x, rank
			}
		}
	}
	if best != nil {
		e.Pair, best.Pair = best, e
	}
	return best
}

// liveEnd returns the newest end of p to q (nil if none).
func (p *Peer) liveEnd(q *Peer) *End {
	var r *End
	for _, e := range p.ends {
		if e.Addr == q.addr() && len(e.Ended) == 0 {
			r = e
		}
	}
	return r
}

func (p *Peer) onConnected(ch *tru.Channel, err error) {
	p.connects++
	if ch == nil {
		return
	}
	e := p.end(ch)
	p.w.tr("%s: connect callback #%d", p.N.Name, e.id)
	if p.onConnect != nil {
		p.onConnect(e)
	}
}

func (p *Peer) onPunch(a net.Addr, b []byte) {
	p.punches = append(p.punches, punch{a.String(), append([]byte(nil), b...), p.w.S.Now})
}

func (p *Peer) onReader(kind string, ch *tru.Channel, pac *tru.Packet, err error) bool {
	w := p.w
	if ch == nil {
		p.closed = append(p.closed, w.S.Now)
		w.tr("%s: reader told %v", p.N.Name, err)
		return false
	}
	e := p.end(ch)
	if err != nil {
		e.Ended = append(e.Ended, endEv{w.S.Now, kind, err.Error()})
		w.tr("%s: %s reader of #%d told %v", p.N.Name, kind, e.id, err)
		if p.onEnd != nil && len(e.Ended) == 1 {
			p.onEnd(e)
		}
		return (w.Plan.Seed>>3+uint64(e.id))&1 == 1 // it matters for packets only
	}
	if pac == nil {
		w.fail("%s: reader called without packet and error", e)
		return false
	}
	if e.Own && kind == "global" {
		return false // the channel reader has seen it already
	}
	if !e.Server && kind == "global" && p.ownReaders {
		w.fail("%s: a message was not given to the reader passed to Connect", e)
		return false
	}
	e.got(pac.Data(), pac)
	if p.processed != nil {
		return p.processed(e)
	}
	return true
}

// got records a message handed to the application.
func (e *End) got(data []byte, pac *tru.Packet) {
	w := e.P.w
	w.msgs++
	e.Recv = append(e.Recv, recvEv{w.S.Now, data, fnv(data)})
	if len(e.Ended) > 0 {
		e.afterEnd++
	}
	if w.tracing {
		w.tr("%s: #%d got message %d, %d bytes %s", e.P.N.Name, e.id, len(e.Recv)-1, len(data), head(data))
	}
	if w.wantIntegrity {
		if w.noMatch != nil && w.noMatch(e) {
			if x := w.known[fnv(data)]; x != nil && len(data) >= 16 {
				w.fail("%s got a message of %d bytes that was written to %s", e, len(data), x)
			}
		} else {
			e.last = e.match(data)
		}
	}
	if e.P.onMsg != nil {
		e.P.onMsg(e, data, pac)
	}
}

func head(b []byte) string {
	if len(b) > 12 {
		return fmt.Sprintf("%x...", b[:12])
	}
	return fmt.Sprintf("%x", b)
}

// match checks a received message against what the peer wrote.
func (e *End) match(data []byte) *Msg {
	w := e.P.w
	o := e.pair()
	if o == nil {
		w.fail("%s got a message of %d bytes but no peer channel exists", e, len(data))
		return nil
	}
	ws := o.writers()
	for _, st := range ws {
		for st.next < len(st.Msgs) && st.Msgs[st.next].State == 2 {
			st.next++
		}
		if st.next < len(st.Msgs) {
			m := st.Msgs[st.next]
			if m.Size == len(data) && bytes.Equal(m.data(), data) {
				st.next++
				m.DelAt = w.S.Now
				return m
			}
		}
	}
	// classify
	for _, st := range ws {
		for i, m := range st.Msgs {
			if m.Size == len(data) && m.Size > 6 && bytes.Equal(m.data(), data) {
				exp := -1
				if st.next < len(st.Msgs) {
					exp = st.next
				}
				kind := "out of order"
				switch {
				case m.State == 2:
					kind = "of a refused write"
				case i < st.next:
					kind = "twice"
				}
				w.fail("%s got message %d of writer %d (%d bytes) %s; expected message %d", e, i, st.W, m.Size, kind, exp)
				return m
			}
		}
	}
	exp := ""
	for _, st := range ws {
		if st.next < len(st.Msgs) {
			exp += fmt.Sprintf(" writer %d message %d (%d bytes)", st.W, st.next, st.Msgs[st.next].Size)
		}
	}
	if exp == "" {
		exp = " nothing"
	}
	w.fail("%s got %d bytes %s that the peer never wrote as a message; expected%s", e, len(data), head(data), exp)
	return nil
}

func (e *End) writers() []*Stream {
	r := make([]*Stream, 0, len(e.W))
	for _, s := range e.W {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].W < r[j].W })
	return r
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// data regenerates the bytes of m.
func (m *Msg) data() []byte {
	b := make([]byte, m.Size)
	r := simrt.NewRng(m.E.P.w.Plan.Seed ^ uint64(m.E.id)<<48 ^ uint64(m.W)<<40 ^ uint64(m.Seq))
	if f := m.E.P.w.content; f != nil {
		r = simrt.NewRng(f(m))
	}
	i := 0
	for ; i+8 <= len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	for ; i < len(b); i++ {
		b[i] = byte(r.Uint64())
	}
	return b
}

// newMsg registers the next message of writer wid.
func (e *End) newMsg(wid, size int) *Msg {
	st := e.W[wid]
	if st == nil {
		st = &Stream{W: wid}
		e.W[wid] = st
	}
	m := &Msg{E: e, W: wid, Seq: len(st.Msgs), Size: size, T0: e.P.w.S.Now}
	st.Msgs = append(st.Msgs, m)
	return m
}

// write sends the next message of writer wid; runs on the node of e. cb: -1 no
// callback, 0 callback with the default timeout, >0 callback with that timeout.
func (e *End) write(wid, size int, cb int64) *Msg {
	w := e.P.w
	m := e.newMsg(wid, size)
	buf := m.data()
	if w.noMatch != nil && !w.noMatch(e) {
		if w.known == nil {
			w.known = map[uint64]*End{}
		}
		w.known[fnv(buf)] = e
	}
	var par []any
	if cb >= 0 {
		m.HasCb = true
		m.Timeout = 5 * sec
		f := func(pac *tru.Packet, err error) {
			s := ""
			if err != nil {
				s = err.Error()
			}
			m.Cbs = append(m.Cbs, cbEv{w.S.Now, s})
			w.ncb++
			w.tr("%s: callback of #%d w%d m%d: %q", e.P.N.Name, e.id, m.W, m.Seq, s)
			if w.onCb != nil {
				w.onCb(m)
			}
		}
		if cb > 0 {
			m.Timeout = cb
			par = append(par, time.Duration(cb))
		}
		if cb%2 == 0 {
			par = append(par, tru.PacketDeliveryFunc(f))
		} else {
			par = append([]any{f}, par...)
		}
	}
	w.tr("%s: #%d write w%d m%d %d bytes", e.P.N.Name, e.id, wid, m.Seq, size)
	id, err := e.Ch.WriteTo(buf, par...)
	m.T1, m.ID = w.S.Now, id
	if err != nil {
		m.State, m.Err = 2, err.Error()
		if m.DelAt > 0 {
			m.State = 3
		}
	} else {
		m.State = 1
	}
	for i := range buf { // the application reuses its buffer
		buf[i] ^= 0xa5
	}
	return m
}

// recheck verifies that delivered messages have not changed since.
func (w *World) recheck() {
	for _, p := range w.Peers {
		for _, e := range p.ends {
			for i, r := range e.Recv {
				if fnv(r.data) != r.sum {
					w.fail("%s: message %d changed after it was handed to the application", e, i)
					return
				}
			}
		}
	}
}

// undelivered counts accepted messages of e that the peer has not got.
func (e *End) undelivered() (n int, first *Msg) {
	for _, st := range e.writers() {
		for _, m := range st.Msgs {
			if m.State == 1 && m.DelAt == 0 {
				if first == nil {
					first = m
				}
				n++
			}
		}
	}
	return
}

// connect connects p to q; runs on the node of p.
func (p *Peer) connect(q *Peer) (e *End, err error) { return p.connectTo(q.addr()) }

func (p *Peer) connectTo(addr string) (e *End, err error) {
	p.ownReaders = true
	var mine *tru.Channel // the reader belongs to one channel
	ch, err := p.T.Connect(addr, func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		e := p.end(ch)
		if mine == nil {
			mine = ch
		}
		if mine != ch {
			p.w.fail("%s: the reader passed to the Connect of #%d was called", e, p.end(mine).id)
		}
		e.Own = true
		return p.onReader("channel", ch, pac, err)
	})
	if err != nil {
		p.w.tr("%s: connect to %s: %v", p.N.Name, addr, err)
		return nil, err
	}
	if ch == nil {
		p.w.fail("%s: Connect returned neither channel nor error", p.N.Name)
		return nil, fmt.Errorf("nil channel")
	}
	e = p.end(ch)
	e.Own = true
	if mine != nil && mine != ch {
		p.w.fail("%s: the reader passed to its Connect was called for #%d", e, p.end(mine).id)
	}
	mine = ch
	p.w.tr("%s: connected #%d to %s", p.N.Name, e.id, addr)
	return e, nil
}

// --- faults ---------------------------------------------------------------------

func (w *World) links(f Fault, fn func(l *simrt.Link)) {
	w.S.Net.EachLink(func(a, b *simrt.Node, l *simrt.Link) {
		if (f.A < 0 || f.A == a.ID && f.B == b.ID) && !w.healed[[2]int{a.ID, b.ID}] {
			fn(l)
		}
	})
}

// schedule arms the fault windows of the plan relative to now.
func (w *World) schedule() {
	w.t0 = w.S.Now
	for _, f := range w.Plan.Faults {
		f := f
		if w.faultsEnd < f.At+f.Dur {
			w.faultsEnd = f.At + f.Dur
		}
		w.S.After(f.At, func() { w.apply(f, true) })
		if f.Dur > 0 && f.K != "stall" && f.K != "wall" {
			w.S.After(f.At+f.Dur, func() { w.apply(f, false) })
		}
	}
	w.faultsEnd += w.t0
}

func (w *World) apply(f Fault, on bool) {
	v := int(f.V)
	if !on {
		v = 0
	}
	w.tr("fault %s on=%v", f, on)
	switch f.K {
	case "loss":
		w.links(f, func(l *simrt.Link) { l.Loss = v })
	case "dup":
		w.links(f, func(l *simrt.Link) { l.Dup, l.DupDelay = v, f.W })
	case "jitter":
		w.links(f, func(l *simrt.Link) {
			l.Jitter = w.Plan.Link.Jitter
			if on {
				l.Jitter = f.V
			}
		})
	case "late":
		w.links(f, func(l *simrt.Link) { l.Late, l.LateMax = v, f.W })
	case "block":
		w.links(f, func(l *simrt.Link) { l.Block = on })
	case "senderr":
		w.links(f, func(l *simrt.Link) { l.SendErr = v })
	case "readerr":
		w.S.Net.ReadErr = v
	case "stall":
		if on && f.A >= 0 && f.A < len(w.S.Nodes) {
			w.S.StallNode(w.S.Nodes[f.A], f.Dur)
		}
	case "crash":
		if on && f.A < len(w.Peers) {
			w.crash(w.Peers[f.A])
		}
	case "wall":
		if on && f.A >= 0 && f.A < len(w.S.Nodes) {
			w.S.Nodes[f.A].JumpWall(f.V)
		}
	}
}

// crash kills the process of p at this moment.
func (w *World) crash(p *Peer) {
	if p.N.Dead {
		return
	}
	w.S.GoOn(nil, "crash", func() {
		if !p.N.Dead {
			w.tr("crash of %s", p.N.Name)
			w.S.Crash(p.N)
			p.crashedAt = w.S.Now
		}
	})
}

// restart makes a new process on the node of p; start must follow.
func (w *World) restart(p *Peer) {
	w.S.Restart(p.N)
	p.T = nil
	p.epoch++
	w.tr("restart of %s", p.N.Name)
}

// healPair removes the network faults between two nodes for good.
func (w *World) healPair(a, b *Peer) {
	for _, k := range [][2]*simrt.Node{{a.N, b.N}, {b.N, a.N}} {
		*w.S.Net.Link(k[0], k[1]) = w.Plan.Link
		w.healed[[2]int{k[0].ID, k[1].ID}] = true
	}
	w.tr("network healed between %s and %s", a.N.Name, b.N.Name)
}

// channels lists the channels of p.
func (p *Peer) channels() (r []*tru.Channel) {
	if p.N.Dead || p.T == nil {
		return nil
	}
	if !p.on("list", 10*sec, func() {
		p.T.ForEachChannel(func(ch *tru.Channel) { r = append(r, ch) })
	}) {
		p.w.fail("%s: ForEachChannel did not return", p.N.Name)
	}
	return
}

// heal removes every network fault.
func (w *World) heal() {
	w.S.Net.EachLink(func(a, b *simrt.Node, l *simrt.Link) { *l = w.Plan.Link })
	w.S.Net.ReadErr = 0
	w.tr("network healed")
}

func (w *World) sleep(d int64) { w.S.SleepNs(d) }

func (w *World) sleepUntil(t int64) {
	if t > w.S.Now {
		w.S.SleepNs(t - w.S.Now)
	}
}

// until polls cond until it holds or d ns have passed.
func (w *World) until(d int64, cond func() bool) bool {
	end := w.S.Now + d
	step := 5 * ms
	for {
		if cond() {
			return true
		}
		if w.S.Now >= end {
			return false
		}
		w.sleep(min(step, end-w.S.Now))
		if step < 50*ms {
			step *= 2
		}
	}
}

// stalls is the total of injected stalls: extra slack for time bounds.
func (w *World) stalls() (d int64) {
	for _, p := range w.Peers {
		d += p.N.StallTotal
	}
	return
}

// --- wire -------------------------------------------------------------------------

// Statuses on the wire (see Packet.MarshalBinary).
const (
	stConnect = iota
	stServerAnswer
	stClientAnswer
	stDone
	stData
	stAck
	stPing
	stPong
	stDisconnect
	stPunch
	stDataNext = 0x84
)

func parse(b []byte) (status int, id uint32, ok bool) {
	if len(b) < 4 {
		return 0, 0, false
	}
	v := binary.LittleEndian.Uint32(b)
	return int(v >> 24), v & 0xfffff, true
}

func packet(status int, id uint32, data []byte) []byte {
	b := make([]byte, 4, 4+len(data))
	binary.LittleEndian.PutUint32(b, id&0xfffff|uint32(status)<<24)
	return append(b, data...)
}

func isData(st int) bool { return st == stData || st == stDataNext }

// --- internals reached by name (optional) ------------------------------------------

func field(v reflect.Value, name string) (reflect.Value, bool) {
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanAddr() {
		return f, false
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

// fastForward moves the packet numbering of a fresh channel (both sides) to n.
func fastForward(a, b *End, n uint32) bool {
	set := func(ch *tru.Channel, name string, v uint32, try bool) bool {
		f, ok := field(reflect.ValueOf(ch).Elem(), name)
		if !ok || f.Kind() != reflect.Uint32 {
			return false
		}
		if !try {
			f.SetUint(uint64(v))
		}
		return true
	}
	for _, try := range []bool{true, false} {
		for _, e := range []*End{a, b} {
			if !set(e.Ch, "id", n, try) || !set(e.Ch, "expectedID", n, try) {
				return false
			}
		}
	}
	return true
}
