// Command store decides the storage properties: the embedded key-value store (C21), the
// ledger's buffered store (C22), block files (C23) and the chunk cache (C33).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

var rules = map[string]string{
	"C21": "one operation history on one store compared step by step with an ordered map, or one crash image reopened; distinct by history and image",
	"C22": "one history of batches, flush steps and recoveries compared with a model of the layers after every step; distinct by history",
	"C23": "one history of chunk writes, rollbacks, flush steps and reopens, every block read back; distinct by history",
	"C33": "one history of chunk writes, deletes and reopens; distinct by history",
}

type prop struct {
	quick, thorough, workers int
	run                      func(c *ctx)
}

var props = map[string]prop{}

type ctx struct {
	r    *vrep.R
	rnd  *rand.Rand
	name string
	i    int
	log  []string
}

func (c *ctx) fail(key, format string, a ...interface{}) {
	t := c.log
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	c.r.Violate(c.name, key, "%s\nlast operations: %v", fmt.Sprintf(format, a...), t)
}

func (c *ctx) note(format string, a ...interface{}) {
	if len(c.log) > 400 {
		c.log = append([]string{}, c.log[200:]...)
	}
	c.log = append(c.log, fmt.Sprintf(format, a...))
}

func (c *ctx) bytes(n int) []byte {
	b := make([]byte, n)
	c.rnd.Read(b)
	return b
}

func sortedKeys(m map[string]string) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func clone(m map[string]string) map[string]string {
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// diff names the first few keys two maps disagree on.
func diff(got, want map[string]string) string {
	s := ""
	n := 0
	for _, k := range sortedKeys(want) {
		if g, ok := got[k]; !ok {
			s += fmt.Sprintf(" missing %q;", k)
			n++
		} else if g != want[k] {
			s += fmt.Sprintf(" %q is %.24q should be %.24q;", k, g, want[k])
			n++
		}
		if n > 4 {
			return s
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			s += fmt.Sprintf(" extra %q=%.24q;", k, got[k])
			n++
		}
		if n > 8 {
			return s
		}
	}
	return s
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	id := os.Args[1]
	p := props[id]
	r := vrep.Open(id, rules[id])
	defer r.Close()
	n := r.Scale(p.quick, p.thorough)
	vrep.Parallel(n, p.workers, func(i int) {
		name := fmt.Sprintf("h%d", i)
		if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
			return
		}
		c := &ctx{r: r, rnd: r.Rand(name), name: name, i: i}
		r.Guard(name, "panic", func() { p.run(c) })
		r.Count("histories", 1)
	})
}
