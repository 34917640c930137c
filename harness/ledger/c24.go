package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/zverif/schedref"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// optC24 picks a consensus configuration whose round divides the hour.
func optC24(r *rand.Rand, o *sim.WorldOpt) {
	o.SBPs = []int{1, 2, 3, 4, 5, 6, 8, 10}[r.Intn(8)]
	o.Registry = o.SBPs + r.Intn(9)
	o.Users = 4 + r.Intn(4)
	per, interval := int64(1+r.Intn(3)), int64(1+r.Intn(2))
	for 3600%(int64(o.SBPs)*per*interval) != 0 || int64(o.SBPs)*per*interval < 6 {
		per, interval = int64(1+r.Intn(8)), int64(1+r.Intn(3))
	}
	rc, rank := r.Intn(4), o.SBPs+r.Intn(8)
	repeat := 1 + r.Intn(50)
	o.Groups = func(s, d *config.ConsensusGroupInfo) {
		s.PerCount, s.Interval, s.RandCount, s.RandRank = per, interval, uint8(rc), uint8(rank)
		d.RandCount, d.RandRank, d.Repeat = uint8(rc), uint8(rank), uint16(repeat)
	}
}

type schedule struct {
	x      *runner
	n      *sim.Node
	gen    time.Time
	groups map[types.Gid]schedref.Group
	blocks []*ledger.SnapshotBlock
	memo   map[string][]types.Address
	// blocks of each snapshot round by producer
	made map[int64]map[types.Address]int
}

func groupOf(c *config.ConsensusGroupInfo, gid types.Gid) schedref.Group {
	return schedref.Group{Gid: gid, Nodes: int(c.NodeCount), Rand: int(c.RandCount), Rank: int(c.RandRank), Interval: c.Interval, Per: c.PerCount, Repeat: int64(c.Repeat)}
}

func (s *schedule) load(n *sim.Node, sh *sim.Shadow) {
	s.n = n
	s.blocks = []*ledger.SnapshotBlock{n.Chain.GetGenesisSnapshotBlock()}
	s.made = map[int64]map[types.Address]int{}
	round := s.groups[types.SNAPSHOT_GID].Round()
	for _, c := range sh.Chunks {
		s.blocks = append(s.blocks, c.Snap)
		p := (c.Snap.Timestamp.Unix() - s.gen.Unix()) / round
		if s.made[p] == nil {
			s.made[p] = map[types.Address]int{}
		}
		s.made[p][c.Snap.Producer()]++
	}
}

// before is the last snapshot block earlier than sec seconds after genesis.
func (s *schedule) before(sec int64) *ledger.SnapshotBlock {
	i := sort.Search(len(s.blocks), func(i int) bool { return s.blocks[i].Timestamp.Unix()-s.gen.Unix() >= sec })
	if i == 0 {
		return nil
	}
	return s.blocks[i-1]
}

func (s *schedule) proof(gid types.Gid, ix int64) *ledger.SnapshotBlock {
	round := s.groups[gid].Round()
	var sec int64
	if gid == types.SNAPSHOT_GID {
		if sec = 1; ix >= 2 {
			sec = (ix - 1) * round
		}
	} else {
		if sec = ix*round - 75; sec <= 0 {
			sec = 1
		}
	}
	return s.before(sec)
}

func (s *schedule) cands(gid types.Gid, h types.Hash) []*schedref.Cand {
	regs, err := s.n.Chain.GetRegisterList(h, gid)
	if err != nil {
		panic(err)
	}
	vs, err := s.n.Chain.GetVoteList(h, gid)
	if err != nil {
		panic(err)
	}
	var out []*schedref.Cand
	for _, r := range regs {
		c := &schedref.Cand{Name: r.Name, Addr: r.BlockProducingAddress, Bal: new(big.Int)}
		for _, v := range vs {
			if v.SbpName != r.Name {
				continue
			}
			m, err := s.n.Chain.GetConfirmedBalanceList([]types.Address{v.VoteAddr}, sim.Vite, h)
			if err != nil {
				panic(err)
			}
			if b := m[v.VoteAddr]; b != nil {
				c.Bal.Add(c.Bal, b)
			}
		}
		out = append(out, c)
	}
	return out
}

func (s *schedule) seed(b *ledger.SnapshotBlock) (sum uint64) {
	seen := map[types.Address]bool{}
	for h := int64(b.Height); h >= 1 && h >= int64(b.Height)-600 && len(seen) < 25; h-- {
		x := s.blocks[h-1]
		if x.Seed > 0 && !seen[x.Producer()] {
			seen[x.Producer()] = true
			sum += x.Seed
		}
	}
	return
}

// rates are the production rates over the 48 rounds ending with round ix.
func (s *schedule) rates(ix int64) map[types.Address]int32 {
	_, out := s.tally(ix-47, ix)
	return out
}

type num struct{ made, due uint64 }

func (s *schedule) tally(from, to int64) (map[types.Address]*num, map[types.Address]int32) {
	m := map[types.Address]*num{}
	get := func(a types.Address) *num {
		if m[a] == nil {
			m[a] = &num{}
		}
		return m[a]
	}
	for p := from; p <= to; p++ {
		if p < 0 || len(s.made[p]) == 0 {
			continue
		}
		for a, c := range s.made[p] {
			get(a).made += uint64(c)
		}
		for _, sl := range schedref.Plan(s.groups[types.SNAPSHOT_GID], uint64(p), s.members(types.SNAPSHOT_GID, p)) {
			get(sl.Addr).due++
		}
	}
	out := map[types.Address]int32{}
	for a, c := range m {
		switch {
		case c.due == 0:
			out[a] = -1
		default:
			out[a] = int32(c.made * 1000000 / c.due)
		}
	}
	return m, out
}

func (s *schedule) members(gid types.Gid, ix int64) []types.Address {
	p := s.proof(gid, ix)
	key := fmt.Sprint(gid, p.Hash)
	if m, ok := s.memo[key]; ok {
		return m
	}
	var rate map[types.Address]int32
	if gid == types.SNAPSHOT_GID {
		if pi := (p.Timestamp.Unix()-s.gen.Unix())/s.groups[gid].Round() - 2; pi > 0 {
			rate = s.rates(pi)
		}
	}
	m := schedref.Elect(s.groups[gid], s.cands(gid, p.Hash), p.Height, s.seed(p), rate)
	s.memo[key] = m
	s.x.r.Count("elections", 1)
	return m
}

func (s *schedule) checkRound(gid types.Gid, ix int64) {
	x := s.x
	if ix < 0 {
		return
	}
	g := s.groups[gid]
	want := schedref.Plan(g, uint64(ix), s.members(gid, ix))
	ev, gix, err := s.n.Cons.ReadByIndex(gid, uint64(ix))
	if err != nil {
		x.fail("schedule-error", "schedule of round %d: %v", ix, err)
		return
	}
	if int64(gix) != ix || len(ev) != len(want) {
		x.fail("schedule-size", "round %d (%d) has %d slots, expected %d", ix, gix, len(ev), len(want))
		return
	}
	for i, w := range want {
		e := ev[i]
		if e.Address != w.Addr || e.Stime.Unix()-s.gen.Unix() != w.From || e.Etime.Unix()-s.gen.Unix() != w.To || e.PeriodStime.Unix()-s.gen.Unix() != ix*g.Round() ||
			e.PeriodEtime.Unix()-s.gen.Unix() != (ix+1)*g.Round() || e.Timestamp != e.Stime {
			x.fail("schedule", "group %s round %d slot %d: %s [%d,%d), expected %s [%d,%d); head %d proof %d", gid.Hex()[18:], ix, i, e.Address, e.Stime.Unix()-s.gen.Unix(),
				e.Etime.Unix()-s.gen.Unix(), w.Addr, w.From, w.To, len(s.blocks), s.proof(gid, ix).Height)
			return
		}
	}
	if gid == types.SNAPSHOT_GID {
		ev2, _, err := s.n.Cons.API().ReadByIndex(gid, uint64(ix))
		if err != nil || fmt.Sprint(brief(ev2)) != fmt.Sprint(brief(ev)) {
			x.fail("schedule-api", "round %d: the query interface shows another schedule (%v)", ix, err)
		}
	}
	x.r.Eval(fmt.Sprintf("%s/%s/%d/%s", x.name, gid, ix, s.proof(gid, ix).Hash), true)
}

func brief(l []*consensus.Event) (o []string) {
	for _, e := range l {
		o = append(o, fmt.Sprint(e.Address, e.Stime.Unix(), e.Etime.Unix()))
	}
	return
}

func (s *schedule) checkVerify() {
	x := s.x
	head := s.blocks[len(s.blocks)-1]
	g := s.groups[types.SNAPSHOT_GID]
	hi := (head.Timestamp.Unix() - s.gen.Unix()) / g.Round()
	for k := 0; k < 6; k++ {
		ix := hi + int64(x.rnd.Intn(5)) - 2
		if ix < 0 {
			ix = 0
		}
		plan := schedref.Plan(g, uint64(ix), s.members(types.SNAPSHOT_GID, ix))
		key := x.d.W.SBPs[x.rnd.Intn(len(x.d.W.SBPs))]
		sec := ix*g.Round() + x.rnd.Int63n(g.Round())
		if len(plan) > 0 && x.rnd.Intn(2) == 0 {
			sl := plan[x.rnd.Intn(len(plan))]
			sec = sl.From
			if k := x.d.W.ByAddr[sl.Addr]; k != nil {
				key = k
			}
			if x.rnd.Intn(3) == 0 {
				sec += int64(x.rnd.Intn(int(g.Interval)))
			}
		}
		want := false
		n := 0
		for _, sl := range plan {
			if sl.From <= sec && sec < sl.To {
				n++
			}
			want = want || (sl.From == sec && sl.Addr == key.Addr)
		}
		if n > 1 {
			x.fail("two-producers", "second %d has %d scheduled producers", sec, n)
		}
		t := s.gen.Add(time.Duration(sec) * time.Second)
		b := &ledger.SnapshotBlock{PrevHash: head.Hash, Height: head.Height + 1, Timestamp: &t, PublicKey: key.Pub}
		got, err := s.n.Cons.VerifySnapshotProducer(b)
		if err != nil || got != want {
			x.fail("producer-verification", "producer %s at second %d (round %d): accepted=%v (%v), scheduled=%v", key.Addr, sec, ix, got, err, want)
			return
		}
		x.r.Eval(fmt.Sprintf("%s/v/%d/%s/%s", x.name, sec, key.Addr, head.Hash), true)
		if want {
			x.r.Count("scheduled producer accepted", 1)
		} else {
			x.r.Count("other producer refused", 1)
		}
	}
	// contract producers: the members elected for the round of the head
	di := (head.Timestamp.Unix() - s.gen.Unix()) / s.groups[types.DELEGATE_GID].Round()
	in := map[types.Address]bool{}
	for _, a := range s.members(types.DELEGATE_GID, di) {
		in[a] = true
	}
	var bs []*ledger.AccountBlock
	bad := map[types.Address]bool{}
	for k := 0; k < 5; k++ {
		key := x.d.W.SBPs[x.rnd.Intn(len(x.d.W.SBPs))]
		if x.rnd.Intn(5) == 0 {
			key = x.d.W.Users[0]
		}
		b := &ledger.AccountBlock{AccountAddress: types.AddressGovernance, PublicKey: key.Pub}
		bs = append(bs, b)
		if !in[key.Addr] {
			bad[key.Addr] = true
		}
		ok, err := s.n.Cons.VerifyAccountProducer(b)
		if err != nil || ok != in[key.Addr] {
			x.fail("contract-producer-verification", "contract block by %s: accepted=%v (%v), elected=%v", key.Addr, ok, err, in[key.Addr])
			return
		}
		x.r.Eval(fmt.Sprintf("%s/c/%s/%s", x.name, key.Addr, head.Hash), true)
	}
	rej, err := s.n.Cons.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{types.DELEGATE_GID: bs})
	if err != nil {
		x.fail("contract-producer-verification", "verifying contract blocks: %v", err)
		return
	}
	nb := 0
	for _, b := range bs {
		if bad[b.Producer()] {
			nb++
		}
	}
	for _, b := range rej {
		if !bad[b.Producer()] {
			x.fail("contract-producer-verification", "contract block by elected %s refused", b.Producer())
		}
	}
	if nb != len(rej) {
		x.fail("contract-producer-verification", "%d contract blocks by unelected producers, %d refused", nb, len(rej))
	}
}

func (s *schedule) same(what string, ix int64, got map[types.Address]*core.SbpStats, want map[types.Address]*num) {
	if len(got) != len(want) {
		s.x.fail(what, "%s %d lists %d producers, expected %d", what, ix, len(got), len(want))
		return
	}
	for a, w := range want {
		g := got[a]
		if g == nil || g.BlockNum != w.made || g.ExceptedBlockNum != w.due {
			s.x.fail(what, "%s %d: producer %s %+v, expected produced %d of %d", what, ix, a, g, w.made, w.due)
			return
		}
	}
	s.x.r.Eval(fmt.Sprintf("%s/%s/%d/%d", s.x.name, what, ix, len(s.blocks)), len(want) > 0)
	s.x.r.Count(what+" compared", 1)
}

func (s *schedule) checkStats() {
	x := s.x
	head := s.blocks[len(s.blocks)-1]
	round := s.groups[types.SNAPSHOT_GID].Round()
	now := head.Timestamp.Unix() - s.gen.Unix()
	rd := s.n.Cons.SBPReader()
	base := func(what string, unit int64, f func(a, b uint64) (map[int64]map[types.Address]*core.SbpStats, error)) {
		to := now/unit + int64(x.rnd.Intn(2)) - int64(x.rnd.Intn(3))
		if to < 0 {
			to = 0
		}
		from := to - int64(x.rnd.Intn(5))
		if from < 0 {
			from = 0
		}
		got, err := f(uint64(from), uint64(to))
		if err != nil {
			x.fail(what, "%s %d..%d: %v", what, from, to, err)
			return
		}
		for i := from; i <= to && !x.bad; i++ {
			want, _ := s.tally(i*unit/round, (i+1)*unit/round-1)
			s.same(what, i, got[i], want)
		}
	}
	base("round statistics", round, func(a, b uint64) (map[int64]map[types.Address]*core.SbpStats, error) {
		l, err := rd.PeriodStats(a, b)
		m := map[int64]map[types.Address]*core.SbpStats{}
		for _, p := range l {
			m[int64(p.Index)] = p.Stats
		}
		return m, err
	})
	base("hour statistics", 3600, func(a, b uint64) (map[int64]map[types.Address]*core.SbpStats, error) {
		l, err := rd.HourStats(a, b)
		m := map[int64]map[types.Address]*core.SbpStats{}
		for _, p := range l {
			m[int64(p.Index)] = p.Stats
		}
		return m, err
	})
	// success rates
	ri := now / round
	if ri > 0 {
		ri -= int64(x.rnd.Intn(2))
	}
	got, err := rd.GetSuccessRateByHour(uint64(ri))
	if want := s.rates(ri); err != nil || fmt.Sprint(sortRates(want)) != fmt.Sprint(sortRates(got)) {
		x.fail("success-rates", "rates at round %d: %v (%v), expected %v", ri, sortRates(got), err, sortRates(want))
	}
	// day statistics
	to := now / 86400
	from := to
	if from > 0 {
		from -= int64(x.rnd.Intn(2))
	}
	days, err := rd.DayStats(uint64(from), uint64(to))
	if err != nil {
		x.fail("day statistics", "%v", err)
		return
	}
	m := map[int64]*core.DayStats{}
	for _, d := range days {
		m[int64(d.Index)] = d
	}
	all, err := s.n.Chain.GetAllRegisterList(head.Hash, types.SNAPSHOT_GID)
	if err != nil {
		panic(err)
	}
	nameOf := map[types.Address]string{}
	for _, r := range all {
		for _, a := range r.HisAddrList {
			nameOf[a] = r.Name
		}
	}
	for i := from; i <= to && !x.bad; i++ {
		want, _ := s.tally(i*86400/round, (i+1)*86400/round-1)
		d := m[i]
		if (d == nil) != (len(want) == 0) {
			x.fail("day statistics", "day %d: present=%v, blocks by %d producers", i, d != nil, len(want))
			return
		}
		if d == nil {
			continue
		}
		cs := s.cands(types.SNAPSHOT_GID, s.before((i+1)*86400).Hash)
		sort.Slice(cs, func(a, b int) bool {
			if c := cs[a].Bal.Cmp(cs[b].Bal); c != 0 {
				return c > 0
			}
			return cs[a].Name < cs[b].Name
		})
		if rk := s.groups[types.SNAPSHOT_GID].Rank; len(cs) > rk {
			cs = cs[:rk]
		}
		sum, total := new(big.Int), uint64(0)
		ref := map[string]*num{}
		for _, c := range cs {
			sum.Add(sum, c.Bal)
			ref[c.Name] = &num{}
		}
		for a, w := range want {
			total += w.made
			if r := ref[nameOf[a]]; r != nil {
				r.made += w.made
				r.due += w.due
			}
		}
		ok := d.BlockTotal == total && d.VoteSum.Int.Cmp(sum) == 0 && len(d.Stats) == len(cs)
		for _, c := range cs {
			g := d.Stats[c.Name]
			ok = ok && g != nil && g.VoteCnt.Int.Cmp(c.Bal) == 0 && g.BlockNum == ref[c.Name].made && g.ExceptedBlockNum == ref[c.Name].due
		}
		if !ok {
			x.fail("day statistics", "day %d: %d blocks, votes %v, %d names; expected %d, %v, %d; %v", i, d.BlockTotal, d.VoteSum.Int, len(d.Stats), total, sum, len(cs), d.Stats)
			return
		}
		x.r.Eval(fmt.Sprintf("%s/day/%d/%d", x.name, i, len(s.blocks)), true)
		x.r.Count("day statistics compared", 1)
	}
	// votes as shown by the query interface
	det, hh, err := s.n.Cons.API().ReadVoteMap(s.gen.Add(time.Duration(now+1) * time.Second))
	if err != nil || hh.Hash != head.Hash {
		x.fail("vote-details", "%v %v", err, hh)
		return
	}
	cs := s.cands(types.SNAPSHOT_GID, head.Hash)
	byName := map[string]*schedref.Cand{}
	for _, c := range cs {
		byName[c.Name] = c
	}
	for i, v := range det {
		c := byName[v.Name]
		if c == nil || c.Bal.Cmp(v.Balance) != 0 || c.Addr != v.CurrentAddr || (i > 0 && det[i-1].Balance.Cmp(v.Balance) < 0) {
			x.fail("vote-details", "candidate %s shown with %v, expected %v", v.Name, v.Balance, c)
			return
		}
	}
	if len(det) != len(cs) {
		x.fail("vote-details", "%d candidates shown, expected %d", len(det), len(cs))
	}
}

func sortRates(m map[types.Address]int32) (o []string) {
	for a, r := range m {
		o = append(o, fmt.Sprint(a, ":", r))
	}
	sort.Strings(o)
	return
}

func (s *schedule) check(n *sim.Node, stats bool) {
	x := s.x
	s.load(n, x.d.S)
	head := s.blocks[len(s.blocks)-1]
	now := head.Timestamp.Unix() - s.gen.Unix()
	for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
		cur := now / s.groups[gid].Round()
		for _, ix := range []int64{cur, cur + 1, cur + 2, cur + 3, cur - 1, int64(x.rnd.Intn(int(cur + 1))), int64(x.rnd.Intn(3))} {
			if !x.bad {
				s.checkRound(gid, ix)
			}
		}
	}
	if !x.bad {
		s.checkVerify()
	}
	if stats && !x.bad {
		s.checkStats()
	}
}

func runC24(x *runner) {
	d := x.d
	s := &schedule{x: x, memo: map[string][]types.Address{}, groups: map[types.Gid]schedref.Group{}}
	s.gen = *d.A.Chain.GetGenesisSnapshotBlock().Timestamp
	gm := d.W.Genesis.GovernanceInfo.ConsensusGroupInfoMap
	s.groups[types.SNAPSHOT_GID] = groupOf(gm["00000000000000000001"], types.SNAPSHOT_GID)
	s.groups[types.DELEGATE_GID] = groupOf(gm["00000000000000000002"], types.DELEGATE_GID)
	for k := range d.Weights {
		d.Weights[k] = 0
	}
	for k, v := range map[string]int{"transfer": 10, "sbpTransfer": 4, "receive": 6, "gov": 4, "contractReceive": 10, "rollback": 3, "flush": 1, "restart": 1, "stake": 1} {
		d.Weights[k] = v
	}
	lazy := map[types.Address]bool{}
	for _, k := range d.W.SBPs {
		lazy[k.Addr] = x.rnd.Intn(3) == 0
	}
	keys := append(append([]*sim.Key{}, d.W.Users...), d.W.SBPs...)
	vote := func() {
		k := keys[x.rnd.Intn(len(keys))]
		data, _ := cabi.ABIGovernance.PackMethod(cabi.MethodNameVoteV3, fmt.Sprintf("s%d", 1+x.rnd.Intn(len(d.W.SBPs))))
		if b, err := d.A.Send(k, types.AddressGovernance, sim.Vite, new(big.Int), data); err == nil {
			d.Accepted("vote", b)
		}
		d.ReceiveOn(types.AddressGovernance)
	}
	produce := func() {
		for try := 0; try < 12; try++ {
			e, err := d.A.Slot(try)
			if err != nil {
				return
			}
			if lazy[e.Address] && x.rnd.Intn(10) > 0 || x.rnd.Intn(30) == 0 {
				continue
			}
			d.DoSnapshotAt(e, -1)
			return
		}
	}
	jump := func() {
		span := int64(1 + x.rnd.Intn(1200))
		switch x.rnd.Intn(5) {
		case 0:
			span = 3600 * int64(1+x.rnd.Intn(30))
		case 1:
			span = s.groups[types.SNAPSHOT_GID].Round() * int64(1+x.rnd.Intn(60))
		}
		e, err := d.A.SlotAfter(d.A.Chain.GetLatestSnapshotBlock().Timestamp.Add(time.Duration(span) * time.Second))
		if err == nil {
			d.DoSnapshotAt(e, -1)
			x.r.Count("time jumps", 1)
		}
	}
	n := x.r.Scale(70, 260)
	for x.step = 0; x.step < n && !x.bad && !x.r.OverBudget(); x.step++ {
		switch x.rnd.Intn(12) {
		case 0, 1:
			vote()
		case 2:
			if x.rnd.Intn(2) == 0 {
				jump()
			}
		case 3, 4:
			if x.rnd.Intn(8) == 0 {
				d.DoRollback(1 + x.rnd.Intn(60)) // across rounds
			}
			d.Step()
		default:
			for k := 1 + x.rnd.Intn(10); k > 0; k-- {
				produce()
			}
		}
		if x.rnd.Intn(3) == 0 {
			s.check(d.A, x.rnd.Intn(3) == 0)
		}
	}
	if x.bad {
		return
	}
	s.check(d.A, true)
	// a node that only has the ledger, without any of the caches this one collected
	f, err := sim.NewFollower(d.W, d.NewDir("f"), d.Cfg)
	if err == nil {
		defer f.Close()
		err = f.Sync(d.S)
	}
	if err != nil {
		x.fail("follower", "a fresh node refuses the ledger: %v", err)
		return
	}
	s.memo = map[string][]types.Address{}
	s.check(f.N, true)
	x.r.Count("fresh nodes compared", 1)
}
