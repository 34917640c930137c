// Command codec decides the encoding properties: contract arguments (C17), blocks (C18),
// cryptographic primitives (C19) and identifiers (C20), each against an independent model
// written here from the published definitions.
package main

import (
	"fmt"
	"math/rand"
	"os"

	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

var rules = map[string]string{
	"C17": "one argument list encoded, compared with an independent encoder and decoded again, or one hostile byte string decoded; distinct by bytes",
	"C18": "one block hashed, compared with an independent hash and with all its one-field variants, and round-tripped; or one hostile byte string; distinct by bytes",
	"C19": "one hash, signature, key or cipher result compared with an independent implementation, altered variants included; distinct by input",
	"C20": "one identifier converted through all forms, or one altered text form; distinct by text",
}

type prop struct {
	quick int
	run   func(c *ctx)
}

var props = map[string]prop{
	"C17": {80000, runC17}, "C18": {50000, runC18}, "C19": {700, runC19}, "C20": {20000, runC20},
}

// ctx is one case.
type ctx struct {
	r    *vrep.R
	rnd  *rand.Rand
	name string
	i    int
}

func (c *ctx) fail(key, format string, a ...interface{}) {
	c.r.Violate(c.name, key, format, a...)
}

// safe runs f and reports a panic.
func (c *ctx) safe(key, what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			c.fail(key, "%s panics: %v", what, p)
		}
	}()
	f()
	return true
}

func (c *ctx) bytes(n int) []byte {
	b := make([]byte, n)
	c.rnd.Read(b)
	return b
}

// mutate returns a hostile variant of b.
func (c *ctx) mutate(b []byte) []byte {
	o := append([]byte{}, b...)
	for k := 1 + c.rnd.Intn(3); k > 0; k-- {
		switch c.rnd.Intn(7) {
		case 0:
			if len(o) > 0 {
				o[c.rnd.Intn(len(o))] ^= 1 << uint(c.rnd.Intn(8))
			}
		case 1:
			if len(o) > 0 {
				o[c.rnd.Intn(len(o))] = []byte{0, 1, 0x7f, 0x80, 0xff, 32}[c.rnd.Intn(6)]
			}
		case 2:
			if len(o) > 0 {
				o = o[:c.rnd.Intn(len(o))]
			}
		case 3:
			o = append(o, c.bytes(c.rnd.Intn(40))...)
		case 4:
			if len(o) > 2 {
				i := c.rnd.Intn(len(o))
				j := i + c.rnd.Intn(len(o)-i)
				o = append(o[:i], o[j:]...)
			}
		case 5:
			if len(o) > 0 {
				i := c.rnd.Intn(len(o))
				o = append(o[:i:i], append(c.bytes(c.rnd.Intn(9)), o[i:]...)...)
			}
		case 6:
			if len(o) >= 32 {
				w := c.rnd.Intn(len(o)/32) * 32
				for i := 0; i < 32; i++ {
					o[w+i] = 0
				}
				switch c.rnd.Intn(4) {
				case 0:
					for i := 0; i < 32; i++ {
						o[w+i] = 0xff
					}
				case 1:
					o[w+24] = 0x7f
					for i := 25; i < 32; i++ {
						o[w+i] = 0xff
					}
				case 2:
					o[w+31] = byte(c.rnd.Intn(256))
				}
			}
		}
	}
	return o
}

func main() {
	id := os.Args[1]
	p := props[id]
	r := vrep.Open(id, rules[id])
	initForks()
	n := r.Scale(p.quick, p.quick*4)
	const chunk = 50
	vrep.Parallel((n+chunk-1)/chunk, 8, func(g int) {
		for i := g * chunk; i < (g+1)*chunk && i < n; i++ {
			name := fmt.Sprintf("k%d", i)
			if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
				continue
			}
			c := &ctx{r: r, rnd: r.Rand(name), name: name, i: i}
			r.Guard(name, "panic", func() { p.run(c) })
		}
	})
	r.Close()
}
