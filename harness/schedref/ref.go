// Package schedref is an independent statement of how block producers are elected and placed.
package schedref

import (
	"math/big"
	"math/rand"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
)

type Cand struct {
	Name string
	Addr types.Address
	Bal  *big.Int
}

// Group is the configuration of a consensus group.
type Group struct {
	Gid                   types.Gid
	Nodes, Rand, Rank     int
	Interval, Per, Repeat int64
}

func (g Group) Round() int64 { return g.Interval * g.Per * g.Repeat * int64(g.Nodes) }

func better(a, b *Cand) bool {
	if c := a.Bal.Cmp(b.Bal); c != 0 {
		return c > 0
	}
	return a.Name < b.Name
}

func ranked(l []*Cand) []*Cand {
	o := append([]*Cand{}, l...)
	sort.SliceStable(o, func(i, j int) bool { return better(o[i], o[j]) })
	return o
}

func randSeed(g Group, l []*Cand, height, seed uint64) int64 {
	s := new(big.Int).SetBytes(g.Gid.Bytes())
	s.Add(s, new(big.Int).SetUint64(height))
	if seed != 0 {
		s.Add(s, new(big.Int).SetUint64(seed))
	} else {
		for _, c := range l {
			s.Add(s, c.Bal)
		}
	}
	m := new(big.Int).And(s, new(big.Int).SetUint64(^uint64(0)))
	return int64(m.Uint64())
}

// Elect returns the producers of a round in their order of production.
func Elect(g Group, cands []*Cand, height, seed uint64, rate map[types.Address]int32) []types.Address {
	all := ranked(cands)
	first, second := all, []*Cand(nil)
	if len(all) > g.Nodes {
		end := len(all)
		if end > g.Rank {
			end = g.Rank
		}
		first, second = all[:g.Nodes], all[g.Nodes:end]
	}
	chosen := first
	if len(second) > 0 {
		first, second = exchange(first, second, rate)
		first, second = ranked(first), ranked(second)
		n := g.Nodes
		promoted := g.Rand
		if n/3 <= promoted {
			promoted = n / 3
		}
		s := randSeed(g, append(append([]*Cand{}, first...), second...), height, seed)
		chosen = nil
		if (n-promoted)*len(second) > promoted*n {
			for _, i := range rand.New(rand.NewSource(s)).Perm(n)[:n-promoted] {
				chosen = append(chosen, first[i])
			}
			for _, i := range rand.New(rand.NewSource(s + 1)).Perm(len(second))[:promoted] {
				chosen = append(chosen, second[i])
			}
		} else {
			pool := append(append([]*Cand{}, first...), second...)
			for _, i := range rand.New(rand.NewSource(s)).Perm(len(pool))[:n] {
				chosen = append(chosen, pool[i])
			}
		}
	}
	chosen = ranked(chosen)
	var out []types.Address
	for _, i := range rand.New(rand.NewSource(randSeed(g, chosen, height, seed))).Perm(len(chosen)) {
		out = append(out, chosen[i].Addr)
	}
	return out
}

const line = 800000

// exchange swaps up to two of the first group that produced less than 80 % of their blocks
// with members of the second group that produced more than 80 %.
func exchange(first, second []*Cand, rate map[types.Address]int32) (a, b []*Cand) {
	if len(rate) < 2 || len(first) < 2 {
		return first, second
	}
	of := func(c *Cand) int32 {
		if r, ok := rate[c.Addr]; ok {
			return r
		}
		return -1
	}
	byRate := func(l []*Cand) []*Cand {
		o := append([]*Cand{}, l...)
		sort.SliceStable(o, func(i, j int) bool {
			if x, y := of(o[i]), of(o[j]); x != y {
				return x > y
			}
			return better(o[i], o[j])
		})
		return o
	}
	fa, fb := byRate(first), byRate(second)
	var out, in []*Cand
	for i := len(fa) - 1; i >= len(fa)-2; i-- { // worst first
		if r := of(fa[i]); r >= 0 && r < line {
			out = append(out, fa[i])
		}
	}
	for _, c := range fb { // best first
		if len(in) < 2 && of(c) > line {
			in = append(in, c)
		}
	}
	swap := map[*Cand]*Cand{}
	for i := 0; i < len(out) && i < len(in); i++ {
		swap[out[i]], swap[in[i]] = in[i], out[i]
	}
	rep := func(l []*Cand) (o []*Cand) {
		for _, c := range l {
			if s := swap[c]; s != nil {
				c = s
			}
			o = append(o, c)
		}
		return
	}
	return rep(first), rep(second)
}

type Slot struct {
	From, To int64 // seconds since genesis
	Addr     types.Address
}

// Plan places the producers of round index.
func Plan(g Group, index uint64, members []types.Address) (out []Slot) {
	if len(members) > g.Nodes {
		return nil
	}
	start := int64(index) * g.Round()
	turn := g.Interval * g.Per * int64(g.Nodes)
	for r := int64(0); r < g.Repeat; r++ {
		for i, m := range members {
			for k := int64(0); k < g.Per; k++ {
				t := start + r*turn + (int64(i)*g.Per+k)*g.Interval
				out = append(out, Slot{t, t + g.Interval, m})
			}
		}
	}
	return
}
