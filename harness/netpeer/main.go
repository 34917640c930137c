// Command netpeer decides what may happen between peers: framing and message encodings,
// and a real node's network service facing honest and hostile peers over loopback (C31).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	gonet "net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/golang/snappy"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	sim.Setup()
	switch os.Args[1] {
	case "C31":
		c31()
	case "C31node":
		c31node("C31")
	case "C36":
		c31node("C36")
	}
}

const rule31 = "one message (or hostile stream) through the real framing or decoder, or one exchange with a real node, judged against an independent parser or the node's ledger; distinct by kind, sizes and outcome, non-trivial when bytes were exchanged"

func c31() {
	r := vrep.Open("C31", rule31)
	vrep.Parallel(r.Scale(1500, 12000), 8, func(i int) {
		name := fmt.Sprintf("f%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		g := r.Rand(name)
		r.Guard(name, "framing panic", func() { frames(r, g, name) })
	})
	vrep.Parallel(r.Scale(4000, 40000), 8, func(i int) {
		name := fmt.Sprintf("m%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		g := r.Rand(name)
		r.Guard(name, "message panic", func() { messages(r, g, name) })
	})
	// hostile streams, one at a time: the allocation of the whole process is watched
	n := r.Scale(3000, 30000)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("h%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			continue
		}
		g := r.Rand(name)
		r.Guard(name, "hostile stream panic", func() { hostile(r, g, name) })
	}
	r.Close()
}

// conn is one direction of a byte stream handed over in random pieces.
type conn struct {
	mu   sync.Mutex
	c    *sync.Cond
	buf  []byte
	end  bool
	g    *rand.Rand
	one  int // at most this many bytes per read, 0: any
	read int
}

func newConn(g *rand.Rand) *conn {
	c := &conn{g: g}
	c.c = sync.NewCond(&c.mu)
	return c
}
func (c *conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(c.buf) == 0 {
		if c.end {
			return 0, io.EOF
		}
		c.c.Wait()
	}
	n := len(b)
	if n > len(c.buf) {
		n = len(c.buf)
	}
	if c.one > 0 && n > c.one {
		n = c.one
	} else if n > 1 && c.one >= 0 {
		n = 1 + c.g.Intn(n)
	}
	copy(b, c.buf[:n])
	c.buf = c.buf[n:]
	c.read += n
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.buf = append(c.buf, b...)
	c.c.Broadcast()
	return len(b), nil
}
func (c *conn) Close() error                       { c.mu.Lock(); c.end = true; c.c.Broadcast(); c.mu.Unlock(); return nil }
func (c *conn) LocalAddr() gonet.Addr              { return &gonet.TCPAddr{IP: gonet.IPv4(127, 0, 0, 1)} }
func (c *conn) RemoteAddr() gonet.Addr             { return &gonet.TCPAddr{IP: gonet.IPv4(127, 0, 0, 1)} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func codec(c gonet.Conn, min int) net.Codec {
	return net.NewTransport(c, min, time.Minute, time.Minute)
}

func pick(g *rand.Rand, l ...int) int { return l[g.Intn(len(l))] }

func payload(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch g.Intn(4) {
	case 0: // compresses well
		for i := range b {
			b[i] = byte(i / 37)
		}
	case 1:
		pat := make([]byte, 1+g.Intn(200))
		g.Read(pat)
		for i := range b {
			b[i] = pat[i%len(pat)]
		}
	case 2:
		g.Read(b)
		for i := 0; i < n/2; i++ {
			b[i] = 7
		}
	default:
		g.Read(b)
	}
	return b
}

var ids = []uint32{0, 1, 2, 127, 128, 254, 255, 256, 257, 32767, 65534, 65535, 65536, 65537, 1 << 24, 1<<24 - 1, 1 << 31, 1<<32 - 1}

func frames(r *vrep.R, g *rand.Rand, name string) {
	c := newConn(g)
	switch g.Intn(4) {
	case 0:
		c.one = 1 + g.Intn(3)
	case 1:
		c.one = -1
	}
	min := pick(g, 0, 1, 50, 100, 100, 1000, 1<<30)
	w, rd := codec(c, min), codec(c, pick(g, 0, 100, 1<<30))
	var sent []net.Msg
	total := 0
	for k := 1 + g.Intn(12); k > 0; k-- {
		n := pick(g, 0, 0, 1, 2, 49, 50, 51, 99, 100, 101, 102, 200, 254, 255, 256, 257, 1000, 5000, g.Intn(3000))
		switch g.Intn(60) {
		case 0:
			n = pick(g, 65534, 65535, 65536, 65537, 100000)
		case 1:
			if c.one <= 0 && total < 1<<20 {
				n = pick(g, 1<<20, 1<<24-2, 1<<24-1, 1<<24, 1<<24+1, 1<<24+5000)
			}
		}
		m := net.Msg{Code: byte(g.Intn(256)), Id: ids[g.Intn(len(ids))], Payload: payload(g, n)}
		if g.Intn(3) == 0 {
			m.Id = g.Uint32()
		}
		keep := append([]byte{}, m.Payload...)
		before := len(c.buf)
		err := w.WriteMsg(m)
		if !bytes.Equal(keep, m.Payload) {
			r.Violate(name, "payload altered by write", "WriteMsg changed the caller's payload of %d bytes", n)
			return
		}
		if err != nil {
			if n < 1<<24 {
				r.Violate(name, "write refused", "a message of %d bytes was refused: %v", n, err)
				return
			}
			if len(c.buf) != before {
				r.Violate(name, "refused message partly written", "a refused message left %d bytes in the stream", len(c.buf)-before)
				return
			}
			r.Eval("refused too large", true)
			continue
		}
		m.Payload = keep
		sent = append(sent, m)
		total += n
	}
	c.Close()
	for _, m := range sent {
		got, err := rd.ReadMsg()
		if err != nil {
			r.Violate(name, "read failed", "message code %d id %d of %d bytes was written but cannot be read: %v", m.Code, m.Id, len(m.Payload), err)
			return
		}
		if got.Code != m.Code || got.Id != m.Id || !bytes.Equal(got.Payload, m.Payload) {
			r.Violate(name, "message changed", "wrote code %d id %d %d bytes, read code %d id %d %d bytes", m.Code, m.Id, len(m.Payload), got.Code, got.Id, len(got.Payload))
			return
		}
		r.Eval(fmt.Sprintf("frame/%d/%d", bits(uint64(m.Id)), bits(uint64(len(m.Payload)))), len(m.Payload) > 0)
		r.Count("messages transported", 1)
		r.Count("bytes transported", int64(len(m.Payload)))
	}
	if _, err := rd.ReadMsg(); err == nil {
		r.Violate(name, "message from nothing", "a message was read from an exhausted stream")
	}
}

func bits(x uint64) int {
	n := 0
	for ; x > 0; x >>= 1 {
		n++
	}
	return n
}

// refFrame parses one frame of the documented layout.
func refFrame(b []byte) (m net.Msg, rest []byte, err error) {
	if len(b) < 2 {
		return m, nil, io.ErrUnexpectedEOF
	}
	meta := b[0]
	m.Code = b[1]
	b = b[2:]
	is, ls, comp := int(meta>>6), int(meta>>4&3), meta&8 != 0
	if is == 3 {
		is = 4
	}
	if len(b) < is+ls {
		return m, nil, io.ErrUnexpectedEOF
	}
	for i := 0; i < is; i++ {
		m.Id = m.Id<<8 | uint32(b[i])
	}
	n := 0
	for i := 0; i < ls; i++ {
		n = n<<8 | int(b[is+i])
	}
	b = b[is+ls:]
	if len(b) < n {
		return m, nil, io.ErrUnexpectedEOF
	}
	m.Payload = b[:n]
	rest = b[n:]
	if comp {
		l, err := snappy.DecodedLen(m.Payload)
		if err != nil {
			return m, nil, err
		}
		if l >= 1<<24 {
			return m, nil, errors.New("larger than a payload may be")
		}
		if m.Payload, err = snappy.Decode(nil, m.Payload); err != nil {
			return m, nil, err
		}
	}
	return m, rest, nil
}

func hostileStream(g *rand.Rand) []byte {
	var b []byte
	for k := 1 + g.Intn(3); k > 0; k-- {
		switch g.Intn(6) {
		case 0:
			x := make([]byte, g.Intn(60))
			g.Read(x)
			b = append(b, x...)
		case 1: // a compressed payload claiming any size
			var p []byte
			v := uint64(1) << uint(g.Intn(40))
			v += uint64(g.Intn(3)) - 1
			for v >= 0x80 {
				p = append(p, byte(v)|0x80)
				v >>= 7
			}
			p = append(p, byte(v))
			x := make([]byte, g.Intn(12))
			g.Read(x)
			p = append(p, x...)
			b = append(b, 1<<4|8, byte(g.Intn(256)), byte(len(p)))
			b = append(b, p...)
		case 2: // announced length not there
			b = append(b, 3<<4|byte(g.Intn(2))<<3, byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256)))
			x := make([]byte, g.Intn(100))
			b = append(b, x...)
		default: // a valid frame, maybe damaged
			c := newConn(g)
			n := pick(g, 0, 10, 120, 300, 2000)
			codec(c, 100).WriteMsg(net.Msg{Code: byte(g.Intn(256)), Id: ids[g.Intn(len(ids))], Payload: payload(g, n)})
			x := c.buf
			for d := g.Intn(4); d > 0 && len(x) > 0; d-- {
				switch g.Intn(3) {
				case 0:
					x[g.Intn(len(x))] ^= 1 << uint(g.Intn(8))
				case 1:
					x = x[:g.Intn(len(x))]
				default:
					if len(x) > 8 {
						x[g.Intn(8)] = byte(g.Intn(256))
					}
				}
			}
			b = append(b, x...)
		}
	}
	return b
}

func hostile(r *vrep.R, g *rand.Rand, name string) {
	b := hostileStream(g)
	c := newConn(g)
	c.Write(b)
	c.Close()
	rd := codec(c, 100)
	rest := append([]byte{}, b...)
	for {
		want, next, werr := refFrame(rest)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		got, err := rd.ReadMsg()
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 80<<20 {
			r.Violate(name, "unbounded allocation", "reading a stream of %d bytes allocated %d MB: % x", len(b), d>>20, b[:min2(len(b), 40)])
			return
		}
		if (err == nil) != (werr == nil) {
			r.Violate(name, "hostile stream", "stream % x: read error %v, expected %v", b[:min2(len(b), 60)], err, werr)
			return
		}
		r.Eval(fmt.Sprintf("hostile/%v/%d", err == nil, bits(uint64(len(want.Payload)))), true)
		r.Count("hostile reads", 1)
		if err != nil {
			return
		}
		if got.Code != want.Code || got.Id != want.Id || !bytes.Equal(got.Payload, want.Payload) {
			r.Violate(name, "hostile stream misread", "stream % x read as code %d id %d payload %d bytes, expected %d/%d/%d", b[:min2(len(b), 60)], got.Code, got.Id, len(got.Payload), want.Code, want.Id, len(want.Payload))
			return
		}
		rest = next
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type wire interface {
	Serialize() ([]byte, error)
	Deserialize([]byte) error
}

func hash(g *rand.Rand) (h types.Hash) { g.Read(h[:]); return }
func addr(g *rand.Rand) (a types.Address) {
	g.Read(a[:20])
	return
}
func u64(g *rand.Rand) uint64 {
	return []uint64{0, 1, 99, 100, 101, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, g.Uint64(), uint64(g.Intn(1000))}[g.Intn(11)]
}
func bs(g *rand.Rand, n int) []byte { b := make([]byte, n); g.Read(b); return b }

func sblock(g *rand.Rand) *ledger.SnapshotBlock {
	t := time.Unix(1500000000+int64(g.Intn(1<<30)), 0)
	b := &ledger.SnapshotBlock{PrevHash: hash(g), Height: 1 + u64(g)>>1, Timestamp: &t, Signature: bs(g, 64), PublicKey: bs(g, 32), Seed: uint64(g.Intn(3)) * g.Uint64()}
	if g.Intn(2) == 0 {
		h := hash(g)
		b.SeedHash = &h
	}
	if g.Intn(3) > 0 {
		b.SnapshotContent = ledger.SnapshotContent{}
		for k := g.Intn(5); k > 0; k-- {
			b.SnapshotContent[addr(g)] = &ledger.HashHeight{Hash: hash(g), Height: 1 + u64(g)>>1}
		}
	}
	b.Hash = b.ComputeHash()
	return b
}

func ablock(g *rand.Rand) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: byte(1 + g.Intn(7)), Height: 2 + u64(g)>>1, PrevHash: hash(g), AccountAddress: addr(g), PublicKey: bs(g, 32), Signature: bs(g, 64), Data: bs(g, g.Intn(80)), Quota: u64(g), QuotaUsed: u64(g)}
	if b.BlockType == ledger.BlockTypeSendCall || b.BlockType == ledger.BlockTypeSendCreate || b.BlockType == ledger.BlockTypeSendReward || b.BlockType == ledger.BlockTypeSendRefund {
		b.ToAddress = addr(g)
		b.Amount = new(big.Int).SetBytes(bs(g, g.Intn(20)))
		g.Read(b.TokenId[:])
		b.Fee = new(big.Int).SetBytes(bs(g, g.Intn(5)))
	} else {
		b.FromBlockHash = hash(g)
		if b.BlockType == ledger.BlockTypeGenesisReceive {
			b.Amount = new(big.Int).SetBytes(bs(g, g.Intn(20)))
			g.Read(b.TokenId[:])
		}
		if g.Intn(3) == 0 {
			h := hash(g)
			b.LogHash = &h
		}
		for k := g.Intn(3); k > 0; k-- {
			s := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: b.AccountAddress, ToAddress: addr(g), Amount: big.NewInt(g.Int63()), Fee: big.NewInt(0), Data: bs(g, g.Intn(40))}
			g.Read(s.TokenId[:])
			s.Hash = hash(g)
			b.SendBlockList = append(b.SendBlockList, s)
		}
	}
	if g.Intn(3) == 0 {
		b.Difficulty = new(big.Int).SetBytes(bs(g, 8))
		b.Nonce = bs(g, 8)
	}
	b.Hash = b.ComputeHash()
	return b
}

func hh(g *rand.Rand) ledger.HashHeight { return ledger.HashHeight{Hash: hash(g), Height: u64(g)} }

func genMessage(g *rand.Rand, kind int) (msg, empty wire) {
	switch kind {
	case 0:
		return &net.GetSnapshotBlocks{From: hh(g), Count: u64(g), Forward: g.Intn(2) == 0}, &net.GetSnapshotBlocks{}
	case 1:
		m := &net.SnapshotBlocks{Blocks: []*ledger.SnapshotBlock{}}
		for k := g.Intn(4); k > 0; k-- {
			m.Blocks = append(m.Blocks, sblock(g))
		}
		return m, &net.SnapshotBlocks{}
	case 2:
		return &net.GetAccountBlocks{Address: addr(g), From: hh(g), Count: u64(g), Forward: g.Intn(2) == 0}, &net.GetAccountBlocks{}
	case 3:
		m := &net.AccountBlocks{Blocks: []*ledger.AccountBlock{}}
		for k := g.Intn(4); k > 0; k-- {
			m.Blocks = append(m.Blocks, ablock(g))
		}
		return m, &net.AccountBlocks{}
	case 4:
		return &net.NewSnapshotBlock{Block: sblock(g), TTL: int32(g.Uint32())}, &net.NewSnapshotBlock{}
	case 5:
		return &net.NewAccountBlock{Block: ablock(g), TTL: int32(g.Uint32())}, &net.NewAccountBlock{}
	case 6:
		m := &net.HashHeightPointList{Points: []*net.HashHeightPoint{}}
		for k := g.Intn(6); k > 0; k-- {
			m.Points = append(m.Points, &net.HashHeightPoint{HashHeight: hh(g), Size: u64(g)})
		}
		return m, &net.HashHeightPointList{}
	case 7:
		m := &net.GetHashHeightList{Step: u64(g), To: u64(g)}
		for k := 1 + g.Intn(4); k > 0; k-- {
			h := hh(g)
			m.From = append(m.From, &h)
		}
		return m, &net.GetHashHeightList{}
	case 8:
		m := &net.HandshakeMsg{Version: g.Int63(), NetID: g.Int63(), Name: fmt.Sprint(g.Int63()), Timestamp: g.Int63(), Height: u64(g), Head: hash(g), Genesis: hash(g), Key: bs(g, 32), Token: bs(g, 64), FileAddress: bs(g, g.Intn(8)), PublicAddress: bs(g, g.Intn(8))}
		g.Read(m.ID[:])
		if g.Intn(2) == 0 {
			m.Key = nil
		}
		return m, &net.HandshakeMsg{}
	}
	e := net.Exception(g.Intn(256))
	return &exc{e}, &exc{}
}

type exc struct{ e net.Exception }

func (x *exc) Serialize() ([]byte, error) { return x.e.Serialize() }
func (x *exc) Deserialize(b []byte) error { return x.e.Deserialize(b) }

const kinds = 10

// norm makes two messages comparable: times without location, empty slices as nil.
func norm(m wire) string {
	switch x := m.(type) {
	case *net.SnapshotBlocks:
		s := ""
		for _, b := range x.Blocks {
			s += snorm(b)
		}
		return s
	case *net.NewSnapshotBlock:
		return snorm(x.Block) + fmt.Sprint(x.TTL)
	case *net.AccountBlocks:
		s := ""
		for _, b := range x.Blocks {
			s += anorm(b)
		}
		return s
	case *net.NewAccountBlock:
		return anorm(x.Block) + fmt.Sprint(x.TTL)
	case *net.HashHeightPointList:
		s := ""
		for _, p := range x.Points {
			s += fmt.Sprint(p.Hash, p.Height, p.Size)
		}
		return s
	case *net.GetHashHeightList:
		s := fmt.Sprint(x.Step, x.To)
		for _, p := range x.From {
			s += fmt.Sprint(p.Hash, p.Height)
		}
		return s
	case *net.HandshakeMsg:
		return fmt.Sprintf("%d %d %q %x %d %d %x %x %x %x %x %x", x.Version, x.NetID, x.Name, x.ID[:], x.Timestamp, x.Height, x.Head, x.Genesis, []byte(x.Key), x.Token, x.FileAddress, x.PublicAddress)
	}
	return fmt.Sprintf("%+v", reflect.ValueOf(m).Elem().Interface())
}

func snorm(b *ledger.SnapshotBlock) string {
	t := int64(-1)
	if b.Timestamp != nil {
		t = b.Timestamp.UnixNano()
	}
	s := fmt.Sprintf("S%x %x %d %d %x %x %d", b.Hash, b.PrevHash, b.Height, t, b.Signature, []byte(b.PublicKey), b.Seed)
	if b.SeedHash != nil {
		s += b.SeedHash.String()
	}
	x := new(big.Int)
	for a, h := range b.SnapshotContent {
		x.Add(x, new(big.Int).SetBytes([]byte(fmt.Sprintf("%x%x%d", a, h.Hash, h.Height))))
	}
	return s + x.Text(16)
}

func bi(x *big.Int) string {
	if x == nil {
		return "0"
	}
	return x.String()
}

func anorm(b *ledger.AccountBlock) string {
	s := fmt.Sprintf("A%d %x %d %x %x %x %x %s %x %s %x %x %d %d %s %x %x", b.BlockType, b.Hash, b.Height, b.PrevHash, b.AccountAddress, []byte(b.PublicKey), b.ToAddress, bi(b.Amount), b.TokenId, bi(b.Fee), b.FromBlockHash, b.Data, b.Quota, b.QuotaUsed, bi(b.Difficulty), b.Nonce, b.Signature)
	if b.LogHash != nil {
		s += b.LogHash.String()
	}
	for _, x := range b.SendBlockList {
		s += "[" + anorm(x) + "]"
	}
	return s
}

func messages(r *vrep.R, g *rand.Rand, name string) {
	kind := g.Intn(kinds)
	m, e := genMessage(g, kind)
	buf, err := m.Serialize()
	if err != nil {
		r.Violate(name, "serialize", "%T cannot be serialized: %v", m, err)
		return
	}
	if err := e.Deserialize(append([]byte{}, buf...)); err != nil {
		r.Violate(name, fmt.Sprintf("deserialize %T", m), "%T written by the node is refused: %v", m, err)
		return
	}
	if a, b := norm(m), norm(e); a != b {
		r.Violate(name, fmt.Sprintf("round trip %T", m), "%T became %s, was %s", m, b, a)
		return
	}
	r.Eval(fmt.Sprintf("message/%T/%d", m, bits(uint64(len(buf)))), len(buf) > 0)
	r.Count("messages encoded", 1)
	for k := 0; k < 6; k++ {
		x := append([]byte{}, buf...)
		switch g.Intn(4) {
		case 0:
			x = bs(g, g.Intn(64))
		case 1:
			x = x[:g.Intn(len(x)+1)]
		default:
			for d := 1 + g.Intn(4); d > 0 && len(x) > 0; d-- {
				x[g.Intn(len(x))] = byte(g.Intn(256))
			}
		}
		_, e := genMessage(g, kind)
		var derr error
		if r.Guard(name, fmt.Sprintf("decoder of %T panics", m), func() { derr = e.Deserialize(x) }) {
			return
		}
		r.Count("hostile messages", 1)
		if derr == nil {
			r.Guard(name, fmt.Sprintf("re-encoding %T panics", m), func() {
				again, err := e.Serialize()
				if err != nil {
					return
				}
				_, e2 := genMessage(g, kind)
				if e2.Deserialize(again) != nil || norm(e2) != norm(e) {
					r.Violate(name, fmt.Sprintf("unstable decoding of %T", m), "% x decodes to %s and then to %s", x, norm(e), norm(e2))
				}
			})
		}
		r.Eval(fmt.Sprintf("hostile message/%T/%v", m, derr == nil), true)
	}
}
