package simrt

import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
)

// --- randomness --------------------------------------------------------------

func nodeRng() *Rng {
	s := S
	if s == nil {
		return NewRng(1)
	}
	n := (*Node)(nil)
	if s.cur != nil {
		n = s.cur.Node
	}
	if n == nil {
		return s.crand
	}
	if n.rng == nil || n.rngEp != n.epoch {
		n.rng = s.Ch.Fork(uint64(0x10000 + n.ID*1000 + n.epoch))
		n.rngEp = n.epoch
	}
	return n.rng
}

type rngSource struct{}

func (rngSource) Int63() int64    { return int64(nodeRng().Uint64() >> 1) }
func (rngSource) Uint64() uint64  { return nodeRng().Uint64() }
func (rngSource) Seed(seed int64) {}

var mathRand = rand.New(rngSource{})

// MathRand replaces the top-level functions of math/rand.
func MathRand() *rand.Rand { return mathRand }

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	r := nodeRng()
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return len(b), nil
}

// CryptoReader replaces crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// CryptoRead replaces crypto/rand.Read.
func CryptoRead(b []byte) (int, error) { return CryptoReader.Read(b) }

var rsaPool []*rsa.PrivateKey
var rsaBlocks [][]byte

// RSAGenerateKey replaces rsa.GenerateKey: keys come from a fixed pool, in a
// run each of them is used once as long as there are others.
func RSAGenerateKey(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	if bits != 1024 {
		return rsa.GenerateKey(r, bits)
	}
	if rsaPool == nil {
		rest := []byte(rsaKeys)
		for {
			var b *pem.Block
			b, rest = pem.Decode(rest)
			if b == nil {
				break
			}
			rsaBlocks = append(rsaBlocks, b.Bytes)
		}
		rsaPool = make([]*rsa.PrivateKey, len(rsaBlocks))
	}
	s := S
	if s == nil {
		return rsa.GenerateKey(r, bits)
	}
	if s.rsaNext == 0 {
		s.rsaNext = 1 + nodeRng().Intn(len(rsaPool))
	}
	s.rsaNext++
	i := s.rsaNext % len(rsaPool)
	if rsaPool[i] == nil {
		k, err := x509.ParsePKCS1PrivateKey(rsaBlocks[i])
		if err != nil {
			panic(err)
		}
		rsaPool[i] = k
	}
	return rsaPool[i], nil
}

// --- maps ----------------------------------------------------------------------

// OrderKeys puts keys into a seeded order that does not depend on Go's map
// iteration order.
//
//go:norace
func OrderKeys[K any](ks []K) []K {
	if len(ks) < 2 {
		return ks
	}
	keys := make([]string, len(ks))
	for i, k := range ks {
		keys[i] = keyString(reflect.ValueOf(&k).Elem())
	}
	idx := make([]int, len(ks))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	r := make([]K, len(ks))
	for i, j := range idx {
		r[i] = ks[j]
	}
	s := S
	if s == nil {
		return r
	}
	for i := len(r) - 1; i > 0; i-- {
		j := i - int(s.Ch.Draw(StOrder, func(g *Rng) uint64 { return g.N(uint64(i + 1)) }))
		if j < 0 {
			j = 0
		}
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func keyString(v reflect.Value) string {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Pointer:
		if v.CanInterface() {
			if st, ok := v.Interface().(fmt.Stringer); ok {
				return st.String()
			}
		}
		return ""
	}
	return fmt.Sprint(v)
}

// ReflectMapKeys replaces reflect.Value.MapKeys.
func ReflectMapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	strs := make(map[int]string, len(ks))
	idx := make([]int, len(ks))
	for i := range ks {
		idx[i] = i
		strs[i] = keyString(ks[i])
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	sorted := make([]reflect.Value, len(ks))
	rank := make([]int, len(ks))
	for i, j := range idx {
		sorted[i] = ks[j]
		rank[i] = i
	}
	r := make([]reflect.Value, len(ks))
	for i, j := range OrderKeys(rank) {
		r[i] = sorted[j]
	}
	return r
}

// --- terminal --------------------------------------------------------------------

// Getch replaces term.Getch: keys are typed by the harness.
func Getch() []byte {
	s := S
	if s == nil {
		return nil
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	n := g.Node
	for len(n.keys) == 0 {
		n.keyWait = append(n.keyWait, g)
		s.park(g, "getch")
	}
	k := n.keys[0]
	n.keys = n.keys[1:]
	return k
}

// Type types a key on node n.
func (s *Sim) Type(n *Node, key []byte) {
	n.keys = append(n.keys, append([]byte(nil), key...))
	for _, g := range n.keyWait {
		s.ready(g)
	}
	n.keyWait = nil
}

// KeysPending returns the number of keys not read yet.
func (n *Node) KeysPending() int { return len(n.keys) }

// Zero sets *p to its zero value.
//
//go:norace
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ZeroC is the zero element of a channel.
//
//go:norace
func ZeroC[T any](c <-chan T) (z T) { return }

// ZeroKV are the zero key and value of a map.
//
//go:norace
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }
