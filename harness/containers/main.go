// Command containers decides that the shared containers behave as their abstract type
// (C34).
package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vitelabs/go-vite/v2/common"
	"github.com/vitelabs/go-vite/v2/common/bloom"
	"github.com/vitelabs/go-vite/v2/tools/circle"
	"github.com/vitelabs/go-vite/v2/tools/list"
	"github.com/vitelabs/go-vite/v2/tools/queue"
	"github.com/vitelabs/go-vite/v2/tools/ticket"
	"github.com/vitelabs/go-vite/v2/tools/toposort"
	"github.com/vitelabs/go-vite/v2/tools/unique_list"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

func main() {
	r := vrep.Open("C34", "one operation (or one whole sort, filter or concurrent run) on a real container compared with a model; distinct by container, operation and model size, non-trivial when the container is not empty")
	race := len(os.Args) > 1 && os.Args[1] == "C34race"
	kinds := []struct {
		name string
		n, t int
		race int
		f    func(r *vrep.R, g *rand.Rand, name string)
	}{
		{"list", 3000, 20000, 0, listCase},
		{"unique", 3000, 20000, 0, uniqueCase},
		{"circle", 3000, 20000, 0, circleCase},
		{"circlemap", 3000, 20000, 0, circleMapCase},
		{"queue", 2000, 10000, 0, queueCase},
		{"queueconc", 400, 3000, 150, queueConc},
		{"ticket", 300, 3000, 0, ticketCase},
		{"topo", 8000, 60000, 0, topoCase},
		{"bloom", 250, 2000, 0, bloomCase},
		{"bloomconc", 40, 300, 20, bloomConc},
		{"lock", 60, 400, 30, lockCase},
		{"cond", 60, 400, 30, condCase},
	}
	for _, k := range kinds {
		k := k
		n := r.Scale(k.n, k.t)
		if race {
			n = k.race
		}
		vrep.Parallel(n, 8, func(i int) {
			name := fmt.Sprintf("%s%d", k.name, i)
			if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
				return
			}
			g := r.Rand(name)
			r.Guard(name, k.name+" panic", func() { k.f(r, g, name) })
			r.Count(k.name, 1)
		})
	}
	r.Close()
}

func ints(l list.List) []int {
	var out []int
	l.Traverse(func(v interface{}) bool { out = append(out, v.(int)); return true })
	return out
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func listCase(r *vrep.R, g *rand.Rand, name string) {
	l := list.New()
	var m []int
	var trace []string
	next := 1
	for i := 0; i < 60; i++ {
		op := ""
		n0 := len(m)
		switch k := g.Intn(12); {
		case k < 4:
			op = "append"
			l.Append(next)
			m = append(m, next)
			next++
		case k < 6:
			op = "unshift"
			l.UnShift(next)
			m = append([]int{next}, m...)
			next++
		case k < 9:
			op = "shift"
			v := l.Shift()
			if len(m) == 0 {
				if v != nil {
					r.Violate(name, "list shift empty", "Shift of an empty list gave %v after %v", v, trace)
				}
			} else {
				if v != m[0] {
					r.Violate(name, "list shift", "Shift gave %v, want %d after %v", v, m[0], trace)
				}
				m = m[1:]
			}
		case k < 11:
			op = "filter"
			mod, rem := 1+g.Intn(4), g.Intn(4)
			var seen, keep []int
			l.Filter(func(v interface{}) bool { seen = append(seen, v.(int)); return v.(int)%mod == rem })
			if !same(seen, m) {
				r.Violate(name, "list filter visits", "Filter visited %v, want %v after %v", seen, m, trace)
			}
			for _, v := range m {
				if v%mod != rem {
					keep = append(keep, v)
				}
			}
			m = keep
		default:
			if g.Intn(3) == 0 {
				op = "clear"
				l.Clear()
				m = nil
			} else {
				op = "stop"
				c, stop := 0, g.Intn(4)
				l.Traverse(func(v interface{}) bool { c++; return c <= stop })
				want := stop + 1
				if want > len(m) {
					want = len(m)
				}
				if c != want {
					r.Violate(name, "list traverse stop", "Traverse called %d times, want %d", c, want)
				}
			}
		}
		trace = append(trace, op)
		if got := ints(l); !same(got, m) || l.Size() != len(m) {
			r.Violate(name, "list "+op, "list holds %v (size %d), want %v after %v", got, l.Size(), m, trace)
			return
		}
		r.Eval(fmt.Sprintf("list/%s/%d", op, n0), n0 > 0)
	}
}

type kv struct {
	k string
	v int
}

func uniqueCase(r *vrep.R, g *rand.Rand, name string) {
	l := unique_list.New()
	var m []kv
	has := func(k string) bool {
		for _, e := range m {
			if e.k == k {
				return true
			}
		}
		return false
	}
	var trace []string
	for i := 0; i < 60; i++ {
		op := ""
		n0 := len(m)
		k, v := fmt.Sprintf("k%d", g.Intn(9)), g.Intn(1000)
		switch c := g.Intn(12); {
		case c < 4:
			op = "append"
			l.Append(k, v)
			if !has(k) {
				m = append(m, kv{k, v})
			}
		case c < 7:
			op = "unshift"
			l.UnShift(k, v)
			if !has(k) {
				m = append([]kv{{k, v}}, m...)
			}
		case c < 9:
			op = "shift"
			k, v := l.Shift()
			if len(m) == 0 {
				if k != "" || v != nil {
					r.Violate(name, "unique shift empty", "Shift of an empty list gave %s %v", k, v)
				}
			} else {
				if k != m[0].k || v != m[0].v {
					r.Violate(name, "unique shift", "Shift gave %s %v, want %v after %v", k, v, m[0], trace)
				}
				m = m[1:]
			}
		case c < 11:
			op = "filter"
			mod, rem := 1+g.Intn(4), g.Intn(4)
			l.Filter(func(k string, v interface{}) bool { return v.(int)%mod == rem })
			var keep []kv
			for _, e := range m {
				if e.v%mod != rem {
					keep = append(keep, e)
				}
			}
			m = keep
		default:
			op = "clear"
			if g.Intn(3) == 0 {
				l.Clear()
				m = nil
			}
		}
		trace = append(trace, op+k)
		var got []kv
		l.Traverse(func(k string, v interface{}) bool { x, _ := v.(int); got = append(got, kv{k, x}); return true })
		if fmt.Sprint(got) != fmt.Sprint(m) || l.Size() != len(m) {
			r.Violate(name, "unique "+op, "unique list holds %v (size %d), want %v after %v", got, l.Size(), m, trace)
			return
		}
		r.Eval(fmt.Sprintf("unique/%s/%d", op, n0), n0 > 0)
	}
}

func circleCase(r *vrep.R, g *rand.Rand, name string) {
	cap := 1 + g.Intn(9)
	l := circle.NewList(cap)
	var m []int
	for i := 0; i < 40; i++ {
		n0 := len(m)
		op := "put"
		if g.Intn(15) == 0 {
			op = "reset"
			l.Reset()
			m = nil
		} else {
			old := l.Put(i)
			m = append(m, i)
			if len(m) > cap {
				if old != m[0] {
					r.Violate(name, "circle put old", "Put into a full circle of %d replaced %v, want %d", cap, old, m[0])
				}
				m = m[1:]
			} else if old != nil {
				r.Violate(name, "circle put old", "Put into a circle of %d holding %d replaced %v, want nothing", cap, n0, old)
			}
		}
		var a, b []int
		l.Traverse(func(k circle.Key) bool { a = append(a, k.(int)); return true })
		l.TraverseR(func(k circle.Key) bool { b = append(b, k.(int)); return true })
		for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
			b[x], b[y] = b[y], b[x]
		}
		if !same(a, m) || !same(b, m) || l.Size() != len(m) {
			r.Violate(name, "circle "+op, "circle of %d holds %v / backwards %v (size %d), want %v", cap, a, b, l.Size(), m)
			return
		}
		c, cr, stop := 0, 0, g.Intn(cap+1)
		l.Traverse(func(k circle.Key) bool { c++; return c <= stop })
		l.TraverseR(func(k circle.Key) bool { cr++; return cr <= stop })
		want := stop + 1
		if want > len(m) {
			want = len(m)
		}
		if c != want || cr != want {
			r.Violate(name, "circle stop", "stopped traversals visited %d and %d, want %d", c, cr, want)
		}
		r.Eval(fmt.Sprintf("circle/%s/%d/%d", op, cap, n0), n0 > 0)
	}
}

func circleMapCase(r *vrep.R, g *rand.Rand, name string) {
	cap := 1 + g.Intn(9)
	l := circle.NewMap(cap)
	var m []kv
	for i := 0; i < 60; i++ {
		n0 := len(m)
		k := fmt.Sprintf("k%d", g.Intn(2+cap*2))
		l.Put(k, i)
		op := "new"
		found := false
		for j := range m {
			if m[j].k == k {
				m[j].v = i
				found = true
				op = "replace"
			}
		}
		if !found {
			m = append(m, kv{k, i})
			if len(m) > cap {
				m = m[1:]
				op = "evict"
			}
		}
		var got []kv
		l.Traverse(func(k circle.Key, v circle.Value) bool { got = append(got, kv{k.(string), v.(int)}); return true })
		if fmt.Sprint(got) != fmt.Sprint(m) || l.Size() != len(m) {
			r.Violate(name, "circlemap "+op, "circular map of %d holds %v (size %d), want %v", cap, got, l.Size(), m)
			return
		}
		for j := 0; j < 2+cap*2; j++ {
			k := fmt.Sprintf("k%d", j)
			v, ok := l.Get(k)
			want, has := 0, false
			for _, e := range m {
				if e.k == k {
					want, has = e.v, true
				}
			}
			if ok != has || has && v != want {
				r.Violate(name, "circlemap get", "Get(%s) gave %v %v, want %d %v", k, v, ok, want, has)
			}
		}
		r.Eval(fmt.Sprintf("circlemap/%s/%d/%d", op, cap, n0), n0 > 0)
	}
}

func queueCase(r *vrep.R, g *rand.Rand, name string) {
	max := g.Intn(7)
	q := queue.NewBlockQueue(max)
	var m []int
	closed := false
	for i := 0; i < 40; i++ {
		n0 := len(m)
		op := ""
		switch c := g.Intn(20); {
		case c < 10:
			op = "add"
			ok := q.Add(i)
			want := !closed && len(m) < max
			if ok != want {
				r.Violate(name, "queue add", "Add to a queue of %d holding %d (closed %v) gave %v", max, len(m), closed, ok)
				return
			}
			if ok {
				m = append(m, i)
			}
		case c < 19:
			op = "poll"
			if len(m) == 0 && !closed {
				continue
			}
			v := q.Poll()
			if len(m) == 0 {
				if v != nil {
					r.Violate(name, "queue poll closed", "Poll of a closed empty queue gave %v", v)
				}
			} else {
				if v != m[0] {
					r.Violate(name, "queue poll", "Poll gave %v, want %d", v, m[0])
					return
				}
				m = m[1:]
			}
		default:
			op = "close"
			q.Close()
			closed = true
		}
		if q.Size() != len(m) {
			r.Violate(name, "queue size", "size %d, want %d after %s", q.Size(), len(m), op)
			return
		}
		r.Eval(fmt.Sprintf("queue/%s/%d/%d/%v", op, max, n0, closed), n0 > 0)
	}
}

// queueConc: several producers and consumers; every accepted element is polled exactly
// once, one producer's elements in its order, and closing releases every waiting consumer.
func queueConc(r *vrep.R, g *rand.Rand, name string) {
	max := 1 + g.Intn(6)
	q := queue.NewBlockQueue(max)
	P, C, N := 1+g.Intn(3), 1+g.Intn(4), 20+g.Intn(60)
	type item struct{ p, i int }
	got := make([][]item, C)
	var cw, pw sync.WaitGroup
	for c := 0; c < C; c++ {
		cw.Add(1)
		go func(c int) {
			defer cw.Done()
			for {
				v := q.Poll()
				if v == nil {
					return
				}
				got[c] = append(got[c], v.(item))
			}
		}(c)
	}
	acc := make([]int, P)
	for p := 0; p < P; p++ {
		pw.Add(1)
		go func(p int) {
			defer pw.Done()
			for i := 0; i < N; {
				if q.Add(item{p, i}) {
					i++
				} else {
					time.Sleep(time.Microsecond)
				}
			}
			acc[p] = N
		}(p)
	}
	pw.Wait()
	if g.Intn(2) == 0 {
		for q.Size() > 0 {
			time.Sleep(10 * time.Microsecond)
		}
		time.Sleep(200 * time.Microsecond) // every consumer waits
	}
	q.Close()
	done := make(chan bool)
	go func() { cw.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r.Violate(name, "queue close wakes", "a consumer still waits 20 s after Close (%d consumers)", C)
		return
	}
	seen := map[item]bool{}
	total := 0
	for c := range got {
		last := map[int]int{}
		for _, x := range got[c] {
			if seen[x] {
				r.Violate(name, "queue twice", "element %v polled twice", x)
			}
			seen[x] = true
			if l, ok := last[x.p]; ok && l >= x.i {
				r.Violate(name, "queue order", "consumer %d saw %v after %d", c, x, l)
			}
			last[x.p] = x.i
			total++
		}
	}
	if total != P*N {
		r.Violate(name, "queue lost", "%d elements accepted, %d polled", P*N, total)
	}
	r.Eval(fmt.Sprintf("queueconc/%d/%d/%d", max, P, C), true)
}

func ticketCase(r *vrep.R, g *rand.Rand, name string) {
	total := 1 + g.Intn(5)
	t := ticket.New(total)
	out, W, N := int32(0), 2+g.Intn(6), 30
	var max int32
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < N; i++ {
				t.Take()
				n := atomic.AddInt32(&out, 1)
				for {
					m := atomic.LoadInt32(&max)
					if n <= m || atomic.CompareAndSwapInt32(&max, m, n) {
						break
					}
				}
				atomic.AddInt32(&out, -1)
				t.Return()
			}
		}()
	}
	wg.Wait()
	if int(max) > total {
		r.Violate(name, "ticket exceeded", "%d of %d tickets out at once", max, total)
	}
	if t.Remainder() != total || t.Total() != total {
		r.Violate(name, "ticket remainder", "%d of %d left after all were returned", t.Remainder(), t.Total())
	}
	take := g.Intn(total + 1)
	for i := 0; i < take; i++ {
		t.Take()
	}
	if t.Remainder() != total-take {
		r.Violate(name, "ticket remainder", "%d left, want %d", t.Remainder(), total-take)
	}
	if t.Close() != nil || t.Close() == nil {
		r.Violate(name, "ticket close", "first Close must succeed and the second fail")
	}
	for i := 0; i < total+3; i++ {
		t.Take()
		t.Return()
	}
	t.Reset()
	if t.Remainder() != total {
		r.Violate(name, "ticket reset", "%d of %d after Reset", t.Remainder(), total)
	}
	t.Take()
	t.Return()
	r.Eval(fmt.Sprintf("ticket/%d/%d", total, W), true)
}

type tnode struct {
	ids, in []string
}
type tdata []tnode

func (d tdata) Len() int              { return len(d) }
func (d tdata) Swap(i, j int)         { d[i], d[j] = d[j], d[i] }
func (d tdata) Ids(i int) []string    { return d[i].ids }
func (d tdata) Inputs(i int) []string { return d[i].in }

func topoCase(r *vrep.R, g *rand.Rand, name string) {
	n := g.Intn(14)
	perm := g.Perm(n)
	var d tdata
	id := func(i int) string { return fmt.Sprintf("n%02d", perm[i]) }
	cyc := g.Intn(4) == 0
	for i := 0; i < n; i++ {
		x := tnode{ids: []string{id(i)}}
		for a := g.Intn(3); a > 0; a-- {
			x.ids = append(x.ids, fmt.Sprintf("%s.%d", id(i), a))
		}
		d = append(d, x)
	}
	edges := 0
	for i := 0; i < n; i++ {
		for e := g.Intn(4); e > 0; e-- {
			j := 0
			switch {
			case g.Intn(6) == 0:
				d[i].in = append(d[i].in, "foreign")
				continue
			case cyc:
				j = g.Intn(n)
			case i == 0:
				continue
			default:
				j = g.Intn(i)
			}
			d[i].in = append(d[i].in, d[j].ids[g.Intn(len(d[j].ids))])
			edges++
		}
	}
	g.Shuffle(n, func(i, j int) { d[i], d[j] = d[j], d[i] })
	before := append(tdata{}, d...)
	// reference: is there a cycle?
	owner := map[string]int{}
	for i, x := range d {
		for _, a := range x.ids {
			owner[a] = i
		}
	}
	state := make([]int, n)
	cycle := false
	var visit func(i int)
	visit = func(i int) {
		state[i] = 1
		for _, in := range d[i].in {
			if j, ok := owner[in]; ok {
				if state[j] == 1 {
					cycle = true
				} else if state[j] == 0 {
					visit(j)
				}
			}
		}
		state[i] = 2
	}
	for i := range d {
		if state[i] == 0 {
			visit(i)
		}
	}
	err := toposort.TopoSort(d)
	if cycle != (err != nil) {
		r.Violate(name, "topo cycle", "cycle %v, error %v for %v", cycle, err, before)
		return
	}
	r.Eval(fmt.Sprintf("topo/%d/%d/%v", n, edges, cycle), edges > 0)
	if err != nil {
		return
	}
	pos := map[string]int{}
	for i, x := range d {
		for _, a := range x.ids {
			pos[a] = i
		}
	}
	for i, x := range d {
		for _, in := range x.in {
			if p, ok := pos[in]; ok && p >= i {
				r.Violate(name, "topo order", "%v placed at %d before its input %s at %d", x, i, in, p)
			}
		}
	}
	key := func(t tdata) string {
		var s []string
		for _, x := range t {
			s = append(s, fmt.Sprint(x))
		}
		sort.Strings(s)
		return strings.Join(s, "|")
	}
	if key(before) != key(d) {
		r.Violate(name, "topo lost", "elements changed: %v then %v", before, d)
	}
}

func elem(g *rand.Rand) []byte {
	b := make([]byte, 1+g.Intn(40))
	g.Read(b)
	return b
}

// bloomCase: the filter keeps at least the last n/2 elements it was given (it forgets in
// generations, each of which holds that many), whatever else is asked in between.
func bloomCase(r *vrep.R, g *rand.Rand, name string) {
	n := uint(1 << uint(2+g.Intn(9)))
	rate := []float64{0.1, 0.01, 0.001, 0.0001}[g.Intn(4)]
	f := bloom.New(n, rate)
	var recent [][]byte
	keep := int(n / 2)
	fresh, wrong := 0, 0
	for i := 0; i < int(n)*6; i++ {
		e := elem(g)
		op := "add"
		if g.Intn(2) == 0 {
			op = "testandadd"
			if !f.TestAndAdd(e) {
				recent = append(recent, e)
			} // else a false positive: the filter claims to hold it already
		} else {
			f.Add(e)
			recent = append(recent, e)
		}
		if len(recent) > keep {
			recent = recent[len(recent)-keep:]
		}
		for k := 0; k < 3 && len(recent) > 0; k++ {
			x := recent[g.Intn(len(recent))]
			if k == 0 {
				x = recent[0]
			}
			if g.Intn(3) == 0 {
				if !f.TestAndAdd(x) {
					r.Violate(name, "bloom denies", "filter(%d, %v) denies an element added %d elements ago", n, rate, len(recent))
					return
				}
			} else if !f.Test(x) {
				r.Violate(name, "bloom denies", "filter(%d, %v) denies an element added up to %d elements ago", n, rate, len(recent))
				return
			}
		}
		fresh++
		if f.Test(elem(g)) {
			wrong++
		}
		if i%16 == 0 {
			r.Eval(fmt.Sprintf("bloom/%s/%d/%v/%d", op, n, rate, i/int(n)), len(recent) > 0)
		}
	}
	r.Count("bloom foreign tests", int64(fresh))
	r.Count("bloom foreign claimed", int64(wrong))
	if n >= 64 && fresh > 300 && float64(wrong) > float64(fresh)*0.5 {
		r.Violate(name, "bloom useless", "filter(%d, %v) claims %d of %d elements it was never given", n, rate, wrong, fresh)
	}
}

// bloomConc: each of several goroutines finds what it added itself.
func bloomConc(r *vrep.R, g *rand.Rand, name string) {
	W := 4
	f := bloom.New(8000, 0.001)
	seed := g.Int63()
	var wg sync.WaitGroup
	var firsts int32
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			h := rand.New(rand.NewSource(seed + int64(w)))
			for i := 0; i < 800; i++ {
				b := make([]byte, 24)
				h.Read(b)
				binary.BigEndian.PutUint32(b, uint32(w))
				f.Add(b)
				if !f.Test(b) {
					r.Violate(name, "bloom concurrent", "an element just added is denied under concurrent use")
					return
				}
				// one shared element per round: exactly one TestAndAdd may be first
				s := []byte(fmt.Sprintf("shared-%d-%d", seed, i))
				if !f.TestAndAdd(s) {
					atomic.AddInt32(&firsts, 1)
				}
			}
		}(w)
	}
	wg.Wait()
	if firsts > 800 {
		r.Violate(name, "bloom concurrent first", "%d first sights of 800 elements", firsts)
	}
	r.Eval("bloomconc", true)
}

func lockCase(r *vrep.R, g *rand.Rand, name string) {
	l := &common.NonBlockLock{}
	in, sum := int32(0), 0
	W, N := 2+g.Intn(4), 300
	var wg sync.WaitGroup
	var n int32
	for w := 0; w < W; w++ {
		wg.Add(1)
		try := w%2 == 1
		go func() {
			defer wg.Done()
			for i := 0; i < N; i++ {
				if try {
					if !l.TryLock() {
						continue
					}
				} else {
					l.Lock()
				}
				if atomic.AddInt32(&in, 1) != 1 {
					r.Violate(name, "lock shared", "two holders of one lock")
				}
				sum++
				atomic.AddInt32(&n, 1)
				atomic.AddInt32(&in, -1)
				if !l.UnLock() {
					r.Violate(name, "lock unlock", "UnLock of a held lock failed")
				}
			}
		}()
	}
	wg.Wait()
	if int32(sum) != n {
		r.Violate(name, "lock lost update", "%d updates, %d seen", n, sum)
	}
	if l.UnLock() || !l.TryLock() || l.TryLock() || !l.UnLock() {
		r.Violate(name, "lock states", "lock states are wrong after use")
	}
	r.Eval(fmt.Sprintf("lock/%d", W), true)
}

// condCase: a notification given before the wait, or while it waits, ends it; the timer
// variant never waits much longer than a tick.
func condCase(r *vrep.R, g *rand.Rand, name string) {
	ended := func(what string, f func()) {
		done := make(chan bool)
		go func() { f(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			r.Violate(name, what, "a waiter was never woken: %s", what)
		}
	}
	t := common.NewTimeoutCond()
	if t.WaitTimeout(time.Millisecond) != common.TimeoutErr {
		r.Violate(name, "cond timeout", "WaitTimeout without a notification gave no timeout")
	}
	if g.Intn(2) == 0 {
		t.Signal()
	} else {
		t.Broadcast()
	}
	ended("notified before the wait", func() {
		if t.WaitTimeout(15*time.Second) != nil {
			r.Violate(name, "cond early notification", "a notification given before the wait was lost")
		}
	})
	// waiters against broadcasts: a broadcast after a waiter announced itself ends its wait
	// at once or leaves it the pending notification
	for k := 0; k < 20; k++ {
		t := common.NewTimeoutCond()
		ready := make(chan bool)
		go func() { <-ready; t.Broadcast() }()
		ended("broadcast while waiting", func() {
			close(ready)
			if t.WaitTimeout(15*time.Second) != nil {
				r.Violate(name, "cond broadcast lost", "a broadcast given while the waiter was about to wait was lost")
			}
		})
	}
	c := common.NewCondTimer()
	c.Start(2 * time.Millisecond)
	ended("condition timer tick", func() { c.Wait() })
	if g.Intn(2) == 0 {
		c.Signal()
	} else {
		c.Broadcast()
	}
	ended("condition timer notified before", func() { c.Wait() })
	ended("condition timer stopped", func() { c.Stop(); c.Wait() })
	// stopping the timer, or a notification for each, releases every waiter
	for k := 0; k < 20; k++ {
		c := common.NewCondTimer()
		c.Start(time.Hour)
		n := 1 + g.Intn(4)
		pause := g.Intn(200)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { c.Wait(); wg.Done() }()
		}
		for i := 0; i < pause; i++ {
			runtime.Gosched()
		}
		if n == 1 && k%2 == 0 {
			c.Broadcast()
			ended("condition timer broadcast to a waiter", wg.Wait)
			c.Stop()
		} else {
			c.Stop()
			ended("condition timer stopped while waited for", wg.Wait)
		}
		r.Count("waiters released", int64(n))
	}
	r.Eval("cond", true)
}
