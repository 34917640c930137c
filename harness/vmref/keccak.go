package main

import (
	"encoding/binary"
	"math/bits"
)

func keccak(data []byte) []byte {
	var a [25]uint64
	var rot [25]int
	var pi [25]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			pi[x+5*y] = y + 5*((2*x+3*y)%5)
		}
	}
	var rc [24]uint64
	lfsr := byte(1)
	for i := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				rc[i] |= 1 << ((1 << uint(j)) - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
	perm := func() {
		for r := 0; r < 24; r++ {
			var c [5]uint64
			for x := 0; x < 5; x++ {
				c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
			}
			for x := 0; x < 5; x++ {
				d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
				for y := 0; y < 5; y++ {
					a[x+5*y] ^= d
				}
			}
			var b [25]uint64
			for i := range a {
				b[pi[i]] = bits.RotateLeft64(a[i], rot[i])
			}
			for y := 0; y < 5; y++ {
				for x := 0; x < 5; x++ {
					a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
				}
			}
			a[0] ^= rc[r]
		}
	}
	const rate = 136
	p := append(append([]byte{}, data...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		perm()
		p = p[rate:]
	}
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i])
	}
	return out
}
