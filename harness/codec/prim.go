package main

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// ---- BLAKE2b (RFC 7693), unkeyed

var b2iv = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}

var b2sigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

func b2(size int, data []byte) []byte {
	h := b2iv
	h[0] ^= 0x01010000 ^ uint64(size)
	comp := func(block []byte, t uint64, last bool) {
		var m [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(block[8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], b2iv[:])
		v[12] ^= t
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := &b2sigma[r%10]
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	var t uint64
	for len(data) > 128 {
		t += 128
		comp(data[:128], t, false)
		data = data[128:]
	}
	var blk [128]byte
	copy(blk[:], data)
	comp(blk[:], t+uint64(len(data)), true)
	out := make([]byte, 64)
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return out[:size]
}

// ---- Keccak-256 (original padding)

func keccak256(data []byte) []byte {
	var a [25]uint64
	var rot [25]int
	var pi [25]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			pi[x+5*y] = y + 5*((2*x+3*y)%5)
		}
	}
	var rc [24]uint64
	lfsr := byte(1)
	for i := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				rc[i] |= 1 << ((1 << uint(j)) - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
	perm := func() {
		for r := 0; r < 24; r++ {
			var c [5]uint64
			for x := 0; x < 5; x++ {
				c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
			}
			for x := 0; x < 5; x++ {
				d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
				for y := 0; y < 5; y++ {
					a[x+5*y] ^= d
				}
			}
			var b [25]uint64
			for i := range a {
				b[pi[i]] = bits.RotateLeft64(a[i], rot[i])
			}
			for y := 0; y < 5; y++ {
				for x := 0; x < 5; x++ {
					a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
				}
			}
			a[0] ^= rc[r]
		}
	}
	const rate = 136
	p := append(append([]byte{}, data...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		perm()
		p = p[rate:]
	}
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i])
	}
	return out
}

// ---- Ed25519 (RFC 8032) with BLAKE2b-512, and X25519 (RFC 7748), over big integers

func bi(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	edP  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edL  = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), bi("27742317777372353535851937790883648493"))
	edD  = mod(new(big.Int).Mul(big.NewInt(-121665), inv(big.NewInt(121666))))
	edI  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Div(new(big.Int).Sub(edP, big.NewInt(1)), big.NewInt(4)), edP)
	edBy = mod(new(big.Int).Mul(big.NewInt(4), inv(big.NewInt(5))))
	edB  = func() pt { x, _ := edX(edBy, 0); return newPt(x, edBy) }()
)

func mod(a *big.Int) *big.Int { return a.Mod(a, edP) }
func inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(new(big.Int).Mod(a, edP), edP) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}

type pt struct{ x, y, z, t *big.Int }

func newPt(x, y *big.Int) pt { return pt{x, y, big.NewInt(1), mul(x, y)} }

func edX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := mul(y, y)
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(mul(edD, y2), big.NewInt(1)))
	xx := mul(u, inv(v))
	e := new(big.Int).Div(new(big.Int).Add(edP, big.NewInt(3)), big.NewInt(8))
	x := new(big.Int).Exp(xx, e, edP)
	if mul(x, x).Cmp(xx) != 0 {
		x = mul(x, edI)
	}
	if mul(x, x).Cmp(xx) != 0 {
		return nil, false
	}
	if x.Sign() == 0 && sign == 1 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return x, true
}

func (p pt) add(q pt) pt {
	a := mul(new(big.Int).Sub(p.y, p.x), new(big.Int).Sub(q.y, q.x))
	b := mul(new(big.Int).Add(p.y, p.x), new(big.Int).Add(q.y, q.x))
	c := mul(mul(new(big.Int).Lsh(p.t, 1), q.t), edD)
	d := mul(new(big.Int).Lsh(p.z, 1), q.z)
	e, f := new(big.Int).Sub(b, a), new(big.Int).Sub(d, c)
	g, h := new(big.Int).Add(d, c), new(big.Int).Add(b, a)
	return pt{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

func (p pt) mul(k *big.Int) pt {
	r := pt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func le(b []byte) *big.Int {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(o)
}

func toLE(n *big.Int) []byte {
	o := make([]byte, 32)
	for i, b := range n.Bytes() {
		o[len(n.Bytes())-1-i] = b
	}
	return o
}

func (p pt) bytes() []byte {
	zi := inv(p.z)
	x, y := mul(p.x, zi), mul(p.y, zi)
	o := toLE(y)
	o[31] |= byte(x.Bit(0) << 7)
	return o
}

// decode; canonical tells whether the y coordinate is reduced
func ptFrom(b []byte) (p pt, ok, canonical bool) {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 127
	y := le(c)
	canonical = y.Cmp(edP) < 0
	y = mod(y)
	x, ok := edX(y, sign)
	if !ok {
		return pt{}, false, canonical
	}
	return newPt(x, y), true, canonical
}

func edExpand(seed []byte) (*big.Int, []byte) {
	h := b2(64, seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return le(h[:32]), h[32:]
}

func edPub(seed []byte) []byte {
	a, _ := edExpand(seed)
	return edB.mul(a).bytes()
}

func cat(p ...[]byte) (o []byte) {
	for _, b := range p {
		o = append(o, b...)
	}
	return
}

func edSign(seed, pub, msg []byte) []byte {
	a, prefix := edExpand(seed)
	r := new(big.Int).Mod(le(b2(64, cat(prefix, msg))), edL)
	R := edB.mul(r).bytes()
	k := new(big.Int).Mod(le(b2(64, cat(R, pub, msg))), edL)
	s := new(big.Int).Mod(new(big.Int).Add(r, new(big.Int).Mul(k, a)), edL)
	return cat(R, toLE(s))
}

// edVerify: R is compared as encoded; canonical is false when the key encoding is not reduced.
func edVerify(pub, msg, sig []byte) (ok, canonical bool) {
	if len(sig) != 64 {
		return false, true
	}
	A, on, canonical := ptFrom(pub)
	if !on {
		return false, canonical
	}
	s := le(sig[32:])
	if s.Cmp(edL) >= 0 {
		return false, canonical
	}
	k := new(big.Int).Mod(le(b2(64, cat(sig[:32], pub, msg))), edL)
	negA := newPt(mod(new(big.Int).Neg(A.x)), A.y)
	R := edB.mul(s).add(negA.mul(k)).bytes()
	return string(R) == string(sig[:32]), canonical
}

func x25519(k, u []byte) []byte {
	e := append([]byte{}, k...)
	e[0] &= 248
	e[31] &= 127
	e[31] |= 64
	n := le(e)
	c := append([]byte{}, u...)
	c[31] &= 127
	x1 := mod(le(c))
	x2, z2, x3, z3 := big.NewInt(1), big.NewInt(0), new(big.Int).Set(x1), big.NewInt(1)
	swap := uint(0)
	for t := 254; t >= 0; t-- {
		kt := n.Bit(t)
		if swap != kt {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
		swap = kt
		A := new(big.Int).Add(x2, z2)
		AA := mul(A, A)
		B := new(big.Int).Sub(x2, z2)
		BB := mul(B, B)
		E := new(big.Int).Sub(AA, BB)
		C := new(big.Int).Add(x3, z3)
		D := new(big.Int).Sub(x3, z3)
		DA, CB := mul(D, A), mul(C, B)
		x3 = new(big.Int).Add(DA, CB)
		x3 = mul(x3, x3)
		z3 = new(big.Int).Sub(DA, CB)
		z3 = mul(x1, mul(z3, z3))
		x2 = mul(AA, BB)
		z2 = mul(E, new(big.Int).Add(AA, mul(big.NewInt(121665), E)))
	}
	if swap == 1 {
		x2, z2 = x3, z3
	}
	if z2.Sign() == 0 || new(big.Int).Mod(z2, edP).Sign() == 0 {
		return make([]byte, 32)
	}
	return toLE(mul(x2, inv(z2)))
}
