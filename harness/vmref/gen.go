package main

import (
	"math/big"
	"math/rand"

	"github.com/vitelabs/go-vite/v2/common/types"
)

var edges []*big.Int

func init() {
	add := func(x *big.Int) { edges = append(edges, wrap(x)) }
	for _, i := range []int64{0, 1, 2, 3, 7, 8, 9, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, -1, -2, -3, -31, -32, -33, -255, -256, -257} {
		add(big.NewInt(i))
	}
	for _, b := range []uint{8, 15, 16, 31, 32, 63, 64, 80, 127, 128, 168, 191, 247, 248, 254, 255} {
		p := new(big.Int).Lsh(one, b)
		add(p)
		add(new(big.Int).Sub(p, one))
		add(new(big.Int).Add(p, one))
		add(new(big.Int).Neg(p))
	}
}

type gen struct {
	rnd            *rand.Rand
	code           []byte
	depth          int
	contract, user []types.Address
	tokens         []types.TokenTypeId
	status         bool // status instructions may be used
	keys           int
	noState        bool
}

func (g *gen) emit(b ...byte) { g.code = append(g.code, b...) }
func (g *gen) push(x *big.Int) {
	b := x.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	if g.rnd.Intn(12) == 0 && len(b) < 32 {
		b = append(make([]byte, g.rnd.Intn(32-len(b)+1)), b...)
	}
	g.emit(byte(0x5f + len(b)))
	g.emit(b...)
	g.depth++
}
func (g *gen) pushi(i int64) { g.push(big.NewInt(i)) }

func (g *gen) value() *big.Int {
	switch g.rnd.Intn(6) {
	case 0, 1:
		return edges[g.rnd.Intn(len(edges))]
	case 2:
		return big.NewInt(int64(g.rnd.Intn(300)))
	case 3:
		// near an edge
		return wrap(new(big.Int).Add(edges[g.rnd.Intn(len(edges))], big.NewInt(int64(g.rnd.Intn(7)-3))))
	default:
		n := 1 + g.rnd.Intn(32)
		b := make([]byte, n)
		g.rnd.Read(b)
		return new(big.Int).SetBytes(b)
	}
}

// arithmetic and other instructions whose operands may be anything
var plain = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d}
var info0 = []byte{0x30, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x46, 0x47, 0x48, 0x49, 0x58, 0x59}
var statusOps = []byte{0x42, 0x43, 0x4a, 0x4b}

func (g *gen) op(o byte) {
	g.emit(o)
	i := opTable[o]
	g.depth += i.push - i.pop
}

// operand makes sure that a value is on the stack: a fresh one or a copy of an older one.
func (g *gen) operand() {
	if g.depth > 0 && g.rnd.Intn(3) == 0 {
		n := 1 + g.rnd.Intn(min(g.depth, 16))
		g.op(byte(0x7f + n))
		return
	}
	g.push(g.value())
}

func (g *gen) memOff() *big.Int {
	switch g.rnd.Intn(20) {
	case 0:
		return g.value()
	case 1:
		return big.NewInt(int64(g.rnd.Intn(30000)))
	default:
		return big.NewInt(int64(g.rnd.Intn(400)))
	}
}
func (g *gen) length() *big.Int {
	switch g.rnd.Intn(20) {
	case 0:
		return g.value()
	case 1, 2, 3:
		return new(big.Int)
	case 4:
		return big.NewInt(int64(g.rnd.Intn(3000)))
	default:
		return big.NewInt(int64(g.rnd.Intn(130)))
	}
}
func (g *gen) key() *big.Int {
	if g.keys > 0 && g.rnd.Intn(10) > 0 {
		return big.NewInt(int64(g.rnd.Intn(g.keys)))
	}
	return g.value()
}

// one emits one instruction with its operands.
func (g *gen) one() {
	r := g.rnd
	switch k := r.Intn(100); {
	case k < 42:
		o := plain[r.Intn(len(plain))]
		if o == 0x0a && r.Intn(3) > 0 {
			o = 0x01
		}
		for i := 0; i < opTable[o].pop; i++ {
			if o >= 0x1a && o <= 0x1d && i == opTable[o].pop-1 && r.Intn(2) == 0 {
				g.pushi(int64(r.Intn(260)))
				continue
			}
			if o == 0x0b && i == 1 && r.Intn(3) > 0 {
				g.pushi(int64(r.Intn(36)))
				continue
			}
			g.operand()
		}
		g.op(o)
	case k < 47:
		g.op(info0[r.Intn(len(info0))])
	case k < 49:
		if g.status {
			g.op(statusOps[r.Intn(4)])
		} else {
			g.op(0x58)
		}
	case k < 51:
		if len(g.tokens) > 0 && r.Intn(4) > 0 {
			t := g.tokens[r.Intn(len(g.tokens))]
			g.push(new(big.Int).SetBytes(t[:]))
		} else {
			g.operand()
		}
		g.op(0x31)
	case k < 54: // hashing
		g.push(g.length())
		g.push(g.memOff())
		g.op(byte(0x20 + r.Intn(2)))
	case k < 57:
		if r.Intn(3) == 0 {
			g.operand()
		} else {
			g.pushi(int64(r.Intn(120)))
		}
		g.op(0x35)
	case k < 61: // copies
		o := []byte{0x37, 0x37, 0x39, 0x39, 0x3e}[r.Intn(5)]
		if o == 0x3e && r.Intn(3) > 0 {
			g.pushi(0)
			g.pushi(0)
			g.push(g.memOff())
		} else {
			g.push(g.length())
			if r.Intn(4) == 0 {
				g.push(g.value())
			} else {
				g.pushi(int64(r.Intn(200)))
			}
			g.push(g.memOff())
		}
		g.op(o)
	case k < 73: // memory
		switch r.Intn(3) {
		case 0:
			g.push(g.memOff())
			g.op(0x51)
		case 1:
			g.operand()
			g.push(g.memOff())
			g.op(0x52)
		default:
			g.operand()
			g.push(g.memOff())
			g.op(0x53)
		}
	case k < 81: // storage
		if r.Intn(2) == 0 {
			g.push(g.key())
			g.op(0x54)
		} else {
			if r.Intn(3) == 0 {
				g.pushi(0)
			} else if r.Intn(2) == 0 {
				g.pushi(int64(r.Intn(3)))
			} else {
				g.operand()
			}
			g.push(g.key())
			g.op(0x55)
		}
	case k < 83: // log
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			g.operand()
		}
		g.push(g.length())
		g.push(g.memOff())
		g.op(byte(0xa0 + n))
	case k < 87: // call
		g.push(g.length())
		g.push(g.memOff())
		if r.Intn(8) == 0 {
			g.push(g.value())
		} else {
			g.pushi(int64(r.Intn(40)))
		}
		if len(g.tokens) > 0 && r.Intn(10) > 0 {
			t := g.tokens[r.Intn(len(g.tokens))]
			g.push(new(big.Int).SetBytes(t[:]))
		} else {
			g.push(g.value())
		}
		switch r.Intn(12) {
		case 0:
			g.push(g.value())
		case 1, 2, 3:
			a := g.contract[r.Intn(len(g.contract))]
			g.push(new(big.Int).SetBytes(a[:]))
		default:
			a := g.user[r.Intn(len(g.user))]
			g.push(new(big.Int).SetBytes(a[:]))
		}
		g.op(byte(0xf1 + r.Intn(2)))
	case k < 92: // dup, swap, pop
		switch {
		case g.depth > 1 && r.Intn(2) == 0:
			n := 1 + r.Intn(min(g.depth-1, 16))
			g.op(byte(0x8f + n))
		case g.depth > 0 && r.Intn(3) == 0:
			g.op(0x50)
		case g.depth > 0:
			n := 1 + r.Intn(min(g.depth, 16))
			g.op(byte(0x7f + n))
		default:
			g.push(g.value())
		}
	case k < 96: // conditional forward jump over an instruction without net stack effect
		g.operand()
		at := len(g.code)
		g.emit(0x61, 0, 0)
		g.depth++
		g.op(0x57)
		d := g.depth
		for i := r.Intn(3); i >= 0; i-- {
			g.one()
		}
		for g.depth > d {
			g.op(0x50)
		}
		for g.depth < d {
			g.pushi(0)
		}
		g.code[at+1], g.code[at+2] = byte(len(g.code)>>8), byte(len(g.code))
		g.op(0x5b)
	case k < 98: // counted loop
		g.pushi(int64(1 + r.Intn(6)))
		top := len(g.code)
		g.op(0x5b)
		d := g.depth
		for i := r.Intn(3); i >= 0; i-- {
			g.one()
		}
		for g.depth > d {
			g.op(0x50)
		}
		for g.depth < d {
			g.pushi(1)
		}
		g.pushi(1)
		g.op(0x90)
		g.op(0x03) // counter-1
		g.op(0x80)
		g.emit(0x61, byte(top>>8), byte(top))
		g.depth++
		g.op(0x57)
	case k < 99:
		g.maze()
	default: // junk bytes never reached
		n := 1 + r.Intn(40)
		at := len(g.code)
		g.emit(0x61, 0, 0, 0x56)
		j := make([]byte, n)
		r.Read(j)
		if r.Intn(2) == 0 {
			for i := range j {
				if j[i] >= 0x60 && j[i] <= 0x7f {
					j[i] = 0x5b
				}
			}
		}
		g.emit(j...)
		// the junk may swallow the target with a push: pad
		g.emit(make([]byte, 33)...)
		g.code[at+1], g.code[at+2] = byte(len(g.code)>>8), byte(len(g.code))
		g.emit(0x5b)
	}
	for g.depth > 900 {
		g.op(0x50)
	}
}

// maze emits a jump into a stretch of jump targets and data that looks like jump targets.
func (g *gen) maze() {
	r := g.rnd
	var b []byte
	var good, bad []int
	pushes := map[int]int{} // before this target
	n := 0
	for i := r.Intn(8); i > 0; i-- {
		b = append(b, 0x5b)
	}
	for i := 1 + r.Intn(6); i > 0; i-- {
		k := 1 + r.Intn(32)
		b = append(b, byte(0x5f+k))
		for ; k > 0; k-- {
			x := byte(0x5b)
			if r.Intn(3) == 0 {
				x = byte(r.Intn(256))
			}
			if x == 0x5b {
				bad = append(bad, len(b))
			}
			b = append(b, x)
		}
		n++
		if r.Intn(2) == 0 {
			good = append(good, len(b))
			pushes[len(b)] = n
			b = append(b, 0x5b)
		}
	}
	good = append(good, len(b))
	pushes[len(b)] = n
	b = append(b, 0x5b)
	to := good[r.Intn(len(good))]
	wide := 0
	if r.Intn(4) == 0 {
		if len(bad) > 0 && r.Intn(2) == 0 {
			to = bad[r.Intn(len(bad))]
		} else {
			wide = 8 + r.Intn(24)
		}
	}
	at := len(g.code) + 4 + to
	if wide > 0 { // the target with something far above it
		p := make([]byte, wide+2)
		if r.Intn(2) == 0 {
			p[0] = 1 << uint(r.Intn(8))
		} else {
			p[r.Intn(wide-5)] = 1 << uint(r.Intn(8))
		}
		at = len(g.code) + 1 + len(p) + 1 + to
		p[len(p)-2], p[len(p)-1] = byte(at>>8), byte(at)
		if len(p) > 32 {
			p = p[len(p)-32:]
			at = len(g.code) + 1 + len(p) + 1 + to
			p[len(p)-2], p[len(p)-1] = byte(at>>8), byte(at)
		}
		g.emit(byte(0x5f + len(p)))
		g.emit(p...)
	} else {
		g.emit(0x61, byte(at>>8), byte(at))
	}
	g.emit(0x56)
	g.emit(b...)
	g.depth += n - pushes[to]
}

// dump writes the stack to storage and the memory to a log.
func (g *gen) dump(n int) {
	for i := 0; i < n && g.depth > 0; i++ {
		g.pushi(int64(1000 + i))
		g.op(0x55)
	}
	g.op(0x59)
	g.pushi(0)
	g.op(0xa0)
}

// dumpReturn stores the stack behind the memory and returns everything.
func (g *gen) dumpReturn(n int) {
	for i := 0; i < n && g.depth > 0; i++ {
		g.op(0x59)
		g.op(0x52)
	}
	g.op(0x59)
	g.pushi(0)
	g.op(0xf3)
}

func (g *gen) end() {
	switch g.rnd.Intn(10) {
	case 0:
		g.push(g.length())
		g.push(g.memOff())
		g.emit(0xfd)
	case 1:
		g.emit([]byte{0xfe, 0x0c, 0x21, 0xff, 0x5c, 0xf4, 0x3b}[g.rnd.Intn(7)])
	case 2:
		g.emit(0x50, 0x50, 0x50)
	default:
		g.emit(0x00)
	}
}

// hostile returns byte strings with little structure.
func (g *gen) hostile() ([]byte, bool) {
	r := g.rnd
	switch r.Intn(4) {
	case 0:
		b := make([]byte, r.Intn(200))
		r.Read(b)
		return b, false
	case 1: // valid opcodes only
		var ops []byte
		for o := 0; o < 256; o++ {
			if _, ok := opTable[byte(o)]; ok {
				ops = append(ops, byte(o))
			}
		}
		n := r.Intn(400)
		for i := 0; i < n; i++ {
			if r.Intn(3) == 0 {
				g.push(g.value())
			} else {
				g.emit(ops[r.Intn(len(ops))])
			}
		}
		return g.code, false
	case 2: // loops until the quota ends
		g.op(0x5b)
		for i := r.Intn(6); i >= 0; i-- {
			g.one()
		}
		if r.Intn(2) == 0 {
			for g.depth > 0 {
				g.op(0x50)
			}
		}
		g.emit(0x60, 0, 0x56)
		return g.code, true
	default:
		for i := 5 + r.Intn(40); i > 0; i-- {
			g.one()
		}
		b := g.code
		for i := 1 + r.Intn(4); i > 0 && len(b) > 0; i-- {
			switch r.Intn(3) {
			case 0:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 1:
				b = b[:r.Intn(len(b))]
			default:
				k := r.Intn(len(b))
				b = append(b[:k], b[k+1:]...)
			}
		}
		return b, false
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
