// Command sched runs the election and slot arithmetic of the consensus core against an
// independent statement of it.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zverif/schedref"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

func addr(r *rand.Rand) (a types.Address) {
	r.Read(a[:20])
	return
}

func group(r *rand.Rand) (schedref.Group, types.ConsensusGroupInfo) {
	var gid types.Gid
	switch r.Intn(3) {
	case 0:
		gid = types.SNAPSHOT_GID
	case 1:
		gid = types.DELEGATE_GID
	default:
		r.Read(gid[:])
	}
	g := schedref.Group{Gid: gid}
	switch r.Intn(4) {
	case 0: // as on the main network
		g.Nodes, g.Rand, g.Rank, g.Interval, g.Per, g.Repeat = 25, 2, 100, 1, 3, 1
	case 1:
		g.Nodes, g.Rand, g.Rank, g.Interval, g.Per, g.Repeat = 25, 2, 100, 3, 1, 48
	default:
		g.Nodes = 1 + r.Intn(30)
		g.Rand = r.Intn(12)
		g.Rank = g.Nodes + r.Intn(40)
		g.Interval, g.Per, g.Repeat = int64(1+r.Intn(5)), int64(1+r.Intn(4)), int64(1+r.Intn(5))
		if r.Intn(6) == 0 {
			g.Repeat = int64(1 + r.Intn(60))
		}
	}
	return g, types.ConsensusGroupInfo{Gid: gid, NodeCount: uint8(g.Nodes), Interval: g.Interval, PerCount: g.Per, RandCount: uint8(g.Rand), RandRank: uint8(g.Rank), Repeat: uint16(g.Repeat), CheckLevel: uint8(r.Intn(2))}
}

func cands(r *rand.Rand, n int) (l []*schedref.Cand) {
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		b := new(big.Int)
		switch mode {
		case 0: // many ties
			b.SetInt64(int64(r.Intn(3)))
		case 1:
			b.SetUint64(r.Uint64())
		default:
			b.Mul(big.NewInt(r.Int63()), big.NewInt(1+r.Int63n(1<<40)))
			if r.Intn(5) == 0 {
				b.SetInt64(0)
			}
		}
		l = append(l, &schedref.Cand{Name: fmt.Sprintf("n%d", i), Addr: addr(r), Bal: b})
	}
	r.Shuffle(n, func(i, j int) { l[i].Name, l[j].Name = l[j].Name, l[i].Name })
	return
}

func votes(r *rand.Rand, l []*schedref.Cand) (v []*core.Vote) {
	for _, i := range r.Perm(len(l)) {
		v = append(v, &core.Vote{Name: l[i].Name, Addr: l[i].Addr, Balance: new(big.Int).Set(l[i].Bal)})
	}
	return
}

func elect(info *core.GroupInfo, v []*core.Vote, height, seed uint64, rate map[types.Address]int32) []types.Address {
	a := core.NewAlgo(info)
	h := &ledger.HashHeight{Height: height}
	s := core.NewSeedInfo(seed)
	f := a.FilterVotes(core.NewVoteAlgoContext(v, h, rate, s))
	return core.ConvertVoteToAddress(a.ShuffleVotes(f, h, s))
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	_ = os.Args
	r := vrep.Open("C24", "an election compared with the independent one, or a round's slots compared; distinct by configuration and input")
	n := r.Scale(160, 4000)
	vrep.Parallel(n, 8, func(i int) {
		name := fmt.Sprintf("a%d", i)
		if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
			return
		}
		r.Guard(name, "panic", func() { one(r, name, r.Rand(name)) })
	})
	r.Close()
}

func one(r *vrep.R, name string, rnd *rand.Rand) {
	g, info := group(rnd)
	gen := time.Unix(1500000000+rnd.Int63n(1000000000), 0)
	gi := core.NewGroupInfo(gen, info)
	desc := fmt.Sprintf("%+v", g)
	// time and rounds
	for k := 0; k < 60; k++ {
		sec := rnd.Int63n(g.Round() * (1 + rnd.Int63n(3)))
		if rnd.Intn(2) == 0 {
			sec = rnd.Int63n(20 * 365 * 86400)
		}
		if rnd.Intn(3) == 0 {
			sec = sec / g.Round() * g.Round()
		}
		if rnd.Intn(6) == 0 && sec > 0 {
			sec--
		}
		t := gen.Add(time.Duration(sec) * time.Second)
		sub := t
		if rnd.Intn(4) == 0 {
			sub = t.Add(time.Duration(rnd.Intn(1000000000)))
		}
		ix := gi.Time2Index(sub)
		if ix != uint64(sec/g.Round()) {
			r.Violate(name, "round-of-time", "%s: second %d after genesis is in round %d, expected %d", desc, sec, ix, sec/g.Round())
		}
		s, e := gi.Index2Time(ix)
		s2, _ := gi.Index2Time(ix + 1)
		if sub.Before(s) || !sub.Before(e) || !e.Equal(s2) {
			r.Violate(name, "rounds-tile", "%s: round %d is [%v,%v), next starts %v, time %v", desc, ix, s, e, s2, sub)
		}
	}
	for k := 0; k < 12; k++ {
		// placement
		m := g.Nodes
		switch rnd.Intn(4) {
		case 0:
			m = rnd.Intn(g.Nodes + 1)
		case 1:
			if rnd.Intn(4) == 0 {
				m = g.Nodes + 1 + rnd.Intn(3)
			}
		}
		var mem []types.Address
		for i := 0; i < m; i++ {
			mem = append(mem, addr(rnd))
		}
		ix := uint64(rnd.Int63n(100 * 365 * 86400 / g.Round()))
		if rnd.Intn(4) == 0 {
			ix = uint64(rnd.Intn(3))
		}
		want := schedref.Plan(g, ix, mem)
		got := gi.GenPlanByAddress(ix, mem)
		if len(want) != len(got) {
			r.Violate(name, "slot-count", "%s round %d %d members: %d slots, expected %d", desc, ix, m, len(got), len(want))
			continue
		}
		for i, w := range want {
			p := got[i]
			if p.Member != w.Addr || p.STime.Unix()-gen.Unix() != w.From || p.ETime.Unix()-gen.Unix() != w.To || p.STime.Nanosecond() != 0 {
				r.Violate(name, "slot", "%s round %d slot %d: %s [%d,%d), expected %s [%d,%d)", desc, ix, i, p.Member, p.STime.Unix()-gen.Unix(), p.ETime.Unix()-gen.Unix(), w.Addr, w.From, w.To)
				break
			}
		}
		// slots tile without overlap and each member has as many as any other
		per := map[types.Address]int{}
		for i, p := range got {
			per[p.Member]++
			if i > 0 && p.STime.Before(got[i-1].ETime) {
				r.Violate(name, "slot-overlap", "%s round %d: slot %d begins before slot %d ends", desc, ix, i, i-1)
			}
			if gi.Time2Index(p.STime) != ix || gi.Time2Index(p.ETime.Add(-time.Millisecond)) != ix {
				r.Violate(name, "slot-outside-round", "%s round %d slot %d lies outside the round", desc, ix, i)
			}
		}
		for _, c := range per {
			if int64(c) != g.Per*g.Repeat {
				r.Violate(name, "unequal-slots", "%s round %d: a member has %d slots, expected %d", desc, ix, c, g.Per*g.Repeat)
			}
		}
		r.Eval(fmt.Sprintf("plan/%s/%d", desc, m), m > 0)
	}
	for k := 0; k < 40; k++ {
		nc := rnd.Intn(g.Rank + 20)
		if rnd.Intn(4) == 0 {
			nc = rnd.Intn(g.Nodes + 3)
		}
		cs := cands(rnd, nc)
		height, seed := uint64(1+rnd.Int63n(1000000000)), rnd.Uint64()
		if rnd.Intn(3) == 0 {
			seed = 0
		}
		var rate map[types.Address]int32
		if rnd.Intn(4) > 0 {
			rate = map[types.Address]int32{}
			for _, c := range cs {
				switch rnd.Intn(5) {
				case 0:
				case 1:
					rate[c.Addr] = 800000
				case 2:
					rate[c.Addr] = 1000000
				default:
					rate[c.Addr] = int32(rnd.Intn(1000001))
				}
			}
			if rnd.Intn(5) == 0 {
				for a := range rate {
					if len(rate) > 1 {
						delete(rate, a)
					}
				}
			}
		}
		want := schedref.Elect(g, cs, height, seed, rate)
		var first []types.Address
		for rep := 0; rep < 3; rep++ {
			got := elect(gi, votes(rnd, cs), height, seed, rate)
			if rep == 0 {
				first = got
			}
			if fmt.Sprint(got) != fmt.Sprint(first) {
				r.Violate(name, "election-depends-on-order", "%s %d candidates: the order in which candidates are listed changes the outcome", desc, nc)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Violate(name, "election", "%s, %d candidates, height %d seed %d rates %d: elected %v, expected %v", desc, nc, height, seed, len(rate), got, want)
				break
			}
			size := nc
			if size > g.Nodes {
				size = g.Nodes
			}
			seen := map[types.Address]bool{}
			for _, a := range got {
				seen[a] = true
			}
			if len(got) != size || len(seen) != size {
				r.Violate(name, "election-size", "%s: %d elected, %d distinct, expected %d", desc, len(got), len(seen), size)
			}
		}
		r.Eval(fmt.Sprintf("elect/%s/%d/%d/%v", desc, nc, seed, rate != nil), nc > g.Nodes)
		if nc > g.Nodes {
			r.Count("contested elections", 1)
		}
		r.Count("elections", 3)
	}
}
