package simrt

import (
	"errors"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Limits of a UDP datagram payload (no jumbograms).
const (
	MaxPayload4 = 65507
	MaxPayload6 = 65527
)

// Link are the parameters of a directed link between two nodes.
type Link struct {
	Base     int64 // latency floor (ns)
	Jitter   int64 // extra latency, uniform in [0,Jitter]
	Loss     int   // per mille
	Dup      int   // per mille
	DupDelay int64 // latest duplicate (ns)
	Late     int   // per mille of datagrams delayed by up to LateMax
	LateMax  int64
	SendErr  int // per mille of failing sends (ENOBUFS)
	Block    bool
	MaxSize  int // larger datagrams are lost (0: no limit)
}

// Pkt is a datagram in flight.
type Pkt struct {
	Seq      uint64
	Sent     int64
	From     *Node // nil: injected
	Src, Dst *net.UDPAddr
	To       *Node
	Data     []byte
	Dup      bool
	Failed   bool // the send call returns an error
	Altered  bool // OnSend replaced the payload
}

// NetStats count what the network did.
type NetStats struct {
	Sent, Delivered, Lost, Duped, Delayed, Blocked, NoSocket, Overflow int64
	SendErr, ReadErr, TooBig, Injected, Tampered, Reordered            int64
}

// maxNodes limits the nodes of a run.
const maxNodes = 255

// Net is the simulated network.
type Net struct {
	s       *Sim
	links   [maxNodes]map[int]*Link
	Default Link
	RcvBuf  int
	ReadErr int // per mille of ReadFrom calls that fail
	seq     uint64
	Stats   NetStats
	cut     [maxNodes]uint64 // node id -> packets sent before this seq are discarded
	lastArr map[int]int64    // from*(maxNodes+1) + to
	// OnSend sees every datagram handed to the network (also when the call is
	// made to fail); a non nil result replaces the payload.
	OnSend func(p *Pkt) []byte
	// Drop selects datagrams that the network does not deliver.
	Drop func(p *Pkt) bool
	// OnDeliver sees every datagram put into a socket queue.
	OnDeliver func(p *Pkt)
	// OnHurt sees every datagram that a fault lost, refused or delayed by more
	// than 300 ms.
	OnHurt func(p *Pkt)
	// OnRead sees every datagram read by code under test.
	OnRead func(n *Node, p *Pkt)
	Hosts  map[string]*Node
	owner  map[hostPort]*Node // who opened a port last
}

func newNet(s *Sim) *Net {
	return &Net{s: s, RcvBuf: 212992, Hosts: map[string]*Node{}, owner: map[hostPort]*Node{}, lastArr: map[int]int64{}}
}

// Link returns the (mutable) parameters of the link a->b.
func (n *Net) Link(a, b *Node) *Link {
	l := n.links[a.ID][b.ID]
	if l == nil {
		x := n.Default
		l = &x
		if n.links[a.ID] == nil {
			n.links[a.ID] = map[int]*Link{}
		}
		n.links[a.ID][b.ID] = l
	}
	return l
}

// EachLink applies f to all links between distinct nodes.
func (n *Net) EachLink(f func(a, b *Node, l *Link)) {
	for _, a := range n.s.Nodes {
		for _, b := range n.s.Nodes {
			if a != b {
				f(a, b, n.Link(a, b))
			}
		}
	}
}

// DropInFlight discards every datagram of node a that is still in flight.
func (n *Net) DropInFlight(a *Node) { n.cut[a.ID] = n.seq }

// Sock replaces net.UDPConn.
type Sock struct {
	node   *Node
	port   int
	closed bool
	v4only bool
	ip     net.IP
	q      []*Pkt
	qbytes int
	wait   []*G
	rdl    int64
	rdlSet bool
	remote *net.UDPAddr
}

func opErr(op string, so *Sock, addr net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "udp", Source: so.LocalAddr(), Addr: addr, Err: err}
}

func (n *Node) hasIP(ip net.IP) bool {
	return len(ip) == 0 || ip.IsLoopback() || ip.IsUnspecified() ||
		ip.Equal(net.ParseIP(n.IP4)) || ip.Equal(net.ParseIP(n.IP6))
}

type hostPort struct {
	ip   string
	port int
}

// nodeAt returns the node a datagram to ip:port goes to. Nodes that share an
// address are processes of one host, a port belongs to the one which was the
// last to open it.
func (s *Sim) nodeAt(from *Node, ip net.IP, port int) *Node {
	if len(ip) == 0 || ip.IsLoopback() || ip.IsUnspecified() {
		return from
	}
	var to *Node
	for _, n := range s.Nodes {
		if n.hasIP(ip) {
			if o := s.Net.owner[hostPort{n.IP4, port}]; o != nil {
				return o
			}
			if to == nil || n == from {
				to = n
			}
		}
	}
	return to
}

// SetHost moves the node to the host of node o (before sockets are opened).
func (n *Node) SetHost(o *Node) { n.IP4, n.IP6 = o.IP4, o.IP6 }

// SetFirstPort sets the first port given to a socket opened without one.
func (n *Node) SetFirstPort(p int) { n.nextPort = p }

// ResolveUDPAddr is net.ResolveUDPAddr without DNS.
func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	switch network {
	case "udp", "udp4", "udp6", "":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		if port == "" {
			p = 0
		} else {
			return nil, &net.AddrError{Err: "invalid port", Addr: address}
		}
	}
	if host == "" {
		return &net.UDPAddr{Port: p}, nil
	}
	zone := ""
	if i := strings.IndexByte(host, '%'); i >= 0 {
		host, zone = host[:i], host[i+1:]
	}
	if ip := net.ParseIP(host); ip != nil {
		return &net.UDPAddr{IP: ip, Port: p, Zone: zone}, nil
	}
	if host == "localhost" {
		return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}, nil
	}
	if s := S; s != nil {
		if n := s.Net.Hosts[host]; n != nil {
			return &net.UDPAddr{IP: net.ParseIP(n.IP4), Port: p}, nil
		}
	}
	return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
}

// ResolveAddr is net.ResolveUDPAddr as net.Addr.
func listen(network string, la *net.UDPAddr) (*Sock, error) {
	s := S
	if s == nil {
		return nil, errors.New("simrt: socket outside a run")
	}
	nd := s.cur.Node
	if nd == nil {
		panic("simrt: socket opened by harness")
	}
	if la == nil {
		la = &net.UDPAddr{}
	}
	if !nd.hasIP(la.IP) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: la, Err: os.NewSyscallError("bind", syscall.EADDRNOTAVAIL)}
	}
	port := la.Port
	if port == 0 {
		for nd.portUsed(nd.nextPort) {
			nd.nextPort++
		}
		port = nd.nextPort
		nd.nextPort++
	} else if nd.portUsed(port) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: la, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	so := &Sock{node: nd, port: port, ip: la.IP, v4only: network == "udp4"}
	nd.socks = append(nd.socks, so)
	s.Net.owner[hostPort{nd.IP4, port}] = nd
	return so, nil
}

func (n *Node) portUsed(p int) bool {
	for _, x := range S.Nodes {
		if x != n && x.IP4 != n.IP4 {
			continue
		}
		for _, so := range x.socks {
			if so.port == p {
				return true
			}
		}
	}
	return false
}

// Sockets returns the number of open sockets of the node.
func (n *Node) Sockets() int { return len(n.socks) }

// ListenPacket is net.ListenPacket for udp.
func ListenPacket(network, address string) (net.PacketConn, error) {
	la, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	so, err := listen(network, la)
	if err != nil {
		return nil, err
	}
	return so, nil
}

// ListenUDP is net.ListenUDP.
func ListenUDP(network string, la *net.UDPAddr) (*Sock, error) { return listen(network, la) }

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

// LocalAddr is the local address.
func (so *Sock) LocalAddr() net.Addr {
	ip := so.ip
	if len(ip) == 0 {
		ip = net.IPv6unspecified
		if so.v4only {
			ip = net.IPv4zero
		}
	}
	return &net.UDPAddr{IP: ip, Port: so.port}
}

// RemoteAddr is nil (unconnected).
func (so *Sock) RemoteAddr() net.Addr { return nil }

// Close closes the socket.
func (so *Sock) Close() error {
	s := S
	if s == nil || s.cur.killedOp() {
		return nil
	}
	if so.closed {
		return opErr("close", so, nil, net.ErrClosed)
	}
	so.closed = true
	for i, x := range so.node.socks {
		if x == so {
			so.node.socks = append(so.node.socks[:i:i], so.node.socks[i+1:]...)
			break
		}
	}
	so.wakeAll(s)
	return nil
}

func (so *Sock) wakeAll(s *Sim) {
	for _, g := range so.wait {
		s.ready(g)
	}
	so.wait = nil
}

// SetDeadline sets both deadlines.
func (so *Sock) SetDeadline(t time.Time) error { return so.SetReadDeadline(t) }

// SetWriteDeadline is accepted; writes never block.
func (so *Sock) SetWriteDeadline(t time.Time) error { return nil }

// SetReadDeadline sets the read deadline.
func (so *Sock) SetReadDeadline(t time.Time) error {
	s := S
	if s == nil {
		return nil
	}
	if so.closed {
		return opErr("set", so, nil, net.ErrClosed)
	}
	so.rdlSet = !t.IsZero()
	if so.rdlSet {
		d := so.node.toGlobal(int64(Until(t)))
		so.rdl = s.Now + d
		s.after(d, func() { so.wakeAll(s) })
	}
	so.wakeAll(s)
	return nil
}

// SetReadBuffer is SO_RCVBUF.
func (so *Sock) SetReadBuffer(n int) error { return nil }

// SetWriteBuffer is SO_SNDBUF.
func (so *Sock) SetWriteBuffer(n int) error { return nil }

func (so *Sock) readPkt() (*Pkt, error) {
	s := S
	if s == nil {
		return nil, net.ErrClosed
	}
	g := s.cur
	if g.killedOp() {
		return nil, net.ErrClosed
	}
	if s.Net.ReadErr > 0 && !so.closed {
		v := s.Ch.Draw(StReadErr, func(r *Rng) uint64 {
			if r.PerMille(s.Net.ReadErr) {
				return 1
			}
			return 0
		})
		if v != 0 {
			s.Net.Stats.ReadErr++
			return nil, opErr("read", so, nil, os.NewSyscallError("recvfrom", syscall.ENOBUFS))
		}
	}
	for {
		if so.closed {
			return nil, opErr("read", so, nil, net.ErrClosed)
		}
		if so.rdlSet && s.Now >= so.rdl {
			return nil, opErr("read", so, nil, os.ErrDeadlineExceeded)
		}
		if len(so.q) > 0 {
			p := so.q[0]
			so.q[0] = nil
			so.q = so.q[1:]
			so.qbytes -= len(p.Data) + 768
			if s.Net.OnRead != nil {
				s.Net.OnRead(so.node, p)
			}
			return p, nil
		}
		so.wait = append(so.wait, g)
		s.park(g, "udp read")
	}
}

func cloneAddr(a *net.UDPAddr) *net.UDPAddr {
	b := *a
	b.IP = append(net.IP(nil), a.IP...)
	return &b
}

// ReadFrom is net.PacketConn.ReadFrom.
func (so *Sock) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := so.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

// ReadFromUDP is net.UDPConn.ReadFromUDP.
func (so *Sock) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	p, err := so.readPkt()
	if err != nil {
		return 0, nil, err
	}
	n := copy(b, p.Data)
	raceWriteRange(b[:n])
	return n, cloneAddr(p.Src), nil
}

// ReadFromUDPAddrPort is net.UDPConn.ReadFromUDPAddrPort.
func (so *Sock) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	p, err := so.readPkt()
	if err != nil {
		return 0, netip.AddrPort{}, err
	}
	n := copy(b, p.Data)
	raceWriteRange(b[:n])
	return n, p.Src.AddrPort(), nil
}

// Read is net.UDPConn.Read.
func (so *Sock) Read(b []byte) (int, error) {
	n, _, err := so.ReadFromUDP(b)
	return n, err
}

// Write fails: the socket is not connected.
func (so *Sock) Write(b []byte) (int, error) {
	return 0, opErr("write", so, nil, os.NewSyscallError("write", syscall.EDESTADDRREQ))
}

// WriteToUDP is net.UDPConn.WriteToUDP.
func (so *Sock) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) {
	if a == nil {
		return 0, opErr("write", so, nil, errors.New("missing address"))
	}
	return so.WriteTo(b, a)
}

// WriteToUDPAddrPort is net.UDPConn.WriteToUDPAddrPort.
func (so *Sock) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return so.WriteTo(b, net.UDPAddrFromAddrPort(a))
}

// fate of a datagram, one recorded decision:
// bits 0..39 extra delay (ns), 40 lost, 41 duplicated, 42..61 delay of the
// duplicate in units of 32 us, 62 send error.
const (
	fateLost = 1 << 40
	fateDup  = 1 << 41
	fateErr  = 1 << 62
)

// WriteTo is net.PacketConn.WriteTo.
func (so *Sock) WriteTo(b []byte, addr net.Addr) (int, error) {
	s := S
	if s == nil || s.cur.killedOp() {
		return 0, net.ErrClosed
	}
	if so.closed {
		return 0, opErr("write", so, addr, net.ErrClosed)
	}
	raceReadRange(b)
	a, ok := addr.(*net.UDPAddr)
	if !ok {
		return 0, opErr("write", so, addr, syscall.EINVAL)
	}
	if a == nil {
		return 0, opErr("write", so, nil, errors.New("missing address"))
	}
	v4 := len(a.IP) == 0 || a.IP.To4() != nil
	limit := MaxPayload6
	if v4 {
		limit = MaxPayload4
	}
	nt := s.Net
	if len(b) > limit {
		nt.Stats.TooBig++
		return 0, opErr("write", so, addr, os.NewSyscallError("sendto", syscall.EMSGSIZE))
	}
	if a.Port == 0 {
		return 0, opErr("write", so, addr, os.NewSyscallError("sendto", syscall.EINVAL))
	}
	nd := so.node
	to := s.nodeAt(nd, a.IP, a.Port)
	src := &net.UDPAddr{Port: so.port}
	switch {
	case to == nd:
		src.IP = net.IPv4(127, 0, 0, 1)
		if !v4 {
			src.IP = net.IPv6loopback
		}
		if len(a.IP) > 0 && !a.IP.IsLoopback() && !a.IP.IsUnspecified() {
			src.IP = a.IP
		}
	case v4:
		src.IP = net.ParseIP(nd.IP4)
	default:
		src.IP = net.ParseIP(nd.IP6)
	}
	p := &Pkt{Sent: s.Now, From: nd, To: to, Src: src, Dst: cloneAddr(a), Data: append([]byte(nil), b...)}
	err := nt.send(p)
	if err != nil {
		return 0, opErr("write", so, addr, err)
	}
	return len(b), nil
}

func (nt *Net) send(p *Pkt) error {
	s := nt.s
	nt.seq++
	p.Seq = nt.seq
	nt.Stats.Sent++
	toID := maxNodes
	l := &nt.Default
	if p.To != nil {
		toID = p.To.ID
		if p.To != p.From {
			l = nt.Link(p.From, p.To)
		} else if l = nt.links[toID][toID]; l == nil {
			l = &Link{Base: 20_000}
		}
	}
	f := s.Ch.Draw(StNet0+(maxNodes+1)*p.From.ID+toID, func(r *Rng) (v uint64) {
		if l.SendErr > 0 && r.PerMille(l.SendErr) {
			v |= fateErr
		}
		if l.Loss > 0 && r.PerMille(l.Loss) {
			v |= fateLost
		}
		if l.Jitter > 0 {
			v |= r.N(uint64(l.Jitter) + 1)
		}
		if l.Late > 0 && r.PerMille(l.Late) {
			v = v&^(1<<40-1) | uint64(r.Range(l.Jitter, l.LateMax))&(1<<40-1)
		}
		if l.Dup > 0 && r.PerMille(l.Dup) {
			v |= fateDup | uint64(r.LogRange(1000, max(l.DupDelay, 1001))/32000)&(1<<20-1)<<42
		}
		return
	})
	// A replay without a fault of the run it was made from does not keep what
	// that fault did.
	if l.SendErr == 0 {
		f &^= fateErr
	}
	if l.Loss == 0 {
		f &^= fateLost
	}
	if l.Dup == 0 {
		f &^= fateDup
	}
	if d := int64(f & (1<<40 - 1)); l.Late == 0 && d > l.Jitter {
		f = f&^(1<<40-1) | uint64(l.Jitter)
	}
	if nt.OnSend != nil {
		p.Failed = f&fateErr != 0
		if d := nt.OnSend(p); d != nil {
			p.Data = d
			p.Altered = true
			nt.Stats.Tampered++
		}
	}
	hurt := func() {
		if nt.OnHurt != nil {
			nt.OnHurt(p)
		}
	}
	if f&fateErr != 0 {
		hurt()
		nt.Stats.SendErr++
		return os.NewSyscallError("sendto", syscall.ENOBUFS)
	}
	if p.To == nil {
		nt.Stats.NoSocket++
		return nil
	}
	if l.Block || nt.Drop != nil && nt.Drop(p) {
		hurt()
		nt.Stats.Blocked++
		return nil
	}
	if f&fateLost != 0 || l.MaxSize > 0 && len(p.Data) > l.MaxSize {
		hurt()
		nt.Stats.Lost++
	} else {
		if f&(1<<40-1) > 300_000_000 {
			hurt()
		}
		nt.deliverAfter(p, l.Base+int64(f&(1<<40-1)))
	}
	if f&fateDup != 0 {
		nt.Stats.Duped++
		q := *p
		q.Dup = true
		nt.deliverAfter(&q, l.Base+int64(f>>42&(1<<20-1))*32000)
	}
	return nil
}

func (nt *Net) deliverAfter(p *Pkt, d int64) {
	if p.From != nil {
		at := nt.s.Now + d
		if k := p.From.ID*(maxNodes+1) + p.To.ID; at < nt.lastArr[k] {
			nt.Stats.Reordered++
		} else {
			nt.lastArr[k] = at
		}
	}
	nt.s.after(d, func() { nt.deliver(p) })
}

func (nt *Net) deliver(p *Pkt) {
	if p.From != nil {
		if p.Seq <= nt.cut[p.From.ID] {
			nt.Stats.Lost++
			return
		}
	}
	for _, so := range p.To.socks {
		if so.port != p.Dst.Port || so.closed {
			continue
		}
		if so.qbytes+len(p.Data)+768 > nt.RcvBuf && len(so.q) > 0 {
			nt.Stats.Overflow++
			return
		}
		nt.Stats.Delivered++
		so.q = append(so.q, p)
		so.qbytes += len(p.Data) + 768
		if nt.OnDeliver != nil {
			nt.OnDeliver(p)
		}
		so.wakeAll(nt.s)
		return
	}
	nt.Stats.NoSocket++
}

// Inject delivers a datagram with any source address after d ns.
func (nt *Net) Inject(src *net.UDPAddr, to *Node, port int, data []byte, d int64) {
	nt.Stats.Injected++
	p := &Pkt{Sent: nt.s.Now, To: to, Src: cloneAddr(src), Dst: &net.UDPAddr{IP: net.ParseIP(to.IP4), Port: port},
		Data: append([]byte(nil), data...)}
	nt.s.after(d, func() { nt.deliver(p) })
}
