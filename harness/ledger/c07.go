package main

import (
	"bytes"
	"fmt"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

var builtinAddrs = []types.Address{types.AddressGovernance, types.AddressQuota, types.AddressAsset, types.AddressDexFund, types.AddressDexTrade}

// moment is the state right after a snapshot, taken through the latest-state readers of a node
// that had nothing but the blocks up to that snapshot.
type moment struct {
	hash    types.Hash
	bal     map[types.Address]map[types.TokenTypeId]*big.Int
	storage map[types.Address]map[string][]byte
	lists   map[string]string
	metas   map[types.Address]bool
}

func listsAt(n *sim.Node, h types.Hash) map[string]string {
	out := map[string]string{}
	srt := func(l []string) string { sort.Strings(l); return strings.Join(l, "; ") }
	for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
		g := gid.Hex()[18:]
		rs, err := n.Chain.GetRegisterList(h, gid)
		var l []string
		for _, r := range rs {
			l = append(l, fmt.Sprintf("%+v", *r))
		}
		out["registers/"+g] = fmt.Sprint(srt(l), err)
		rs, err = n.Chain.GetAllRegisterList(h, gid)
		l = nil
		for _, r := range rs {
			l = append(l, fmt.Sprintf("%+v", *r))
		}
		out["allregisters/"+g] = fmt.Sprint(srt(l), err)
		vs, err := n.Chain.GetVoteList(h, gid)
		l = nil
		for _, v := range vs {
			l = append(l, fmt.Sprintf("%+v", *v))
		}
		out["votes/"+g] = fmt.Sprint(srt(l), err)
		ci, err := n.Chain.GetConsensusGroup(h, gid)
		out["group/"+g] = fmt.Sprintf("%+v %v", ci, err)
	}
	cl, err := n.Chain.GetConsensusGroupList(h)
	var l []string
	for _, c := range cl {
		l = append(l, fmt.Sprintf("%+v", *c))
	}
	out["groups"] = fmt.Sprint(srt(l), err)
	// all stakes, page by page
	l = nil
	var last []byte
	for i := 0; i < 50; i++ {
		ss, next, err := n.Chain.GetStakeListByPage(h, last, 4)
		if err != nil {
			l = append(l, err.Error())
			break
		}
		for _, s := range ss {
			l = append(l, fmt.Sprintf("%+v", *s))
		}
		if len(ss) < 4 || len(next) == 0 || bytes.Equal(next, last) {
			break
		}
		last = next
	}
	out["stakes"] = fmt.Sprint(len(l), srt(l))
	return out
}

func takeMoment(n *sim.Node) *moment {
	sb := n.Chain.GetLatestSnapshotBlock()
	m := &moment{hash: sb.Hash, bal: map[types.Address]map[types.TokenTypeId]*big.Int{}, storage: map[types.Address]map[string][]byte{}, metas: map[types.Address]bool{}}
	n.Chain.IterateAccounts(func(a types.Address, _ uint64, err error) bool {
		b, _ := n.Chain.GetBalanceMap(a)
		m.bal[a] = b
		return true
	})
	cs := append([]types.Address{}, builtinAddrs...)
	for a := range m.bal {
		if types.IsContractAddr(a) && !types.IsBuiltinContractAddr(a) {
			cs = append(cs, a)
		}
	}
	for _, a := range cs {
		m.storage[a] = sim.StorageOf(n, a)
	}
	n.Chain.IterateContracts(func(a types.Address, meta *ledger.ContractMeta, err error) bool {
		m.metas[a] = meta != nil
		return true
	})
	m.lists = listsAt(n, sb.Hash)
	return m
}

func runC07(x *runner) {
	d := x.d
	f, err := sim.NewFollower(d.W, d.NewDir("f"), config.Chain{VmLogAll: true})
	if err != nil {
		x.fail("follower", "%v", err)
		return
	}
	defer f.Close()
	rec := map[uint64]*moment{}
	x.ever = map[types.Address]map[string]bool{}
	f.Hook = func(h uint64, n *sim.Node) {
		rec[h] = takeMoment(n)
		for a, s := range rec[h].storage {
			if x.ever[a] == nil {
				x.ever[a] = map[string]bool{}
			}
			for k := range s {
				x.ever[a][k] = true
			}
		}
	}
	f.Reset()
	sync := func() {
		if x.bad {
			return
		}
		if err := f.Sync(d.S); err != nil {
			x.fail("replay-refused", "replaying the confirmed history on a fresh node: %v", err)
		}
	}
	d.OnRollback = func(kind string) {
		if kind == "snapshot" {
			f.Reset()
			sync()
		}
	}
	d.OnRestart = func(bool) { x.r.Count("restarts", 1) }
	d.Weights["rollback"], d.Weights["restart"], d.Weights["flush"], d.Weights["gov"], d.Weights["stake"] = 1, 2, 3, 8, 6
	d.WarmUp()
	sync()
	x.steps(140, 600, func(op string) {
		if op == "snapshot" && d.R.Intn(4) == 0 {
			// let more than a period pass
			d.DoSnapshot(10+d.R.Intn(140), -1)
		}
		sync()
		if x.bad {
			return
		}
		top := d.S.Height()
		for i := 0; i < 2 && !x.bad; i++ {
			h := 1 + uint64(d.R.Int63n(int64(top)))
			if d.R.Intn(3) == 0 {
				h = top
				if k := uint64(d.R.Intn(4)); k < top {
					h = top - k
				}
			}
			if d.R.Intn(3) == 0 {
				// the last snapshot before a pause: what elections read
				for k := top - 1; k > 1 && k+12 > top; k-- {
					a, b := d.S.Chunks[k-2].Snap, d.S.Chunks[k-1].Snap
					if b.Timestamp.Sub(*a.Timestamp) > 5e9 {
						h = k
						if d.R.Intn(2) == 0 {
							break
						}
					}
				}
			}
			x.readBack(rec[h], h, top, op)
		}
	})
}

func (x *runner) readBack(m *moment, h, top uint64, op string) {
	d, n := x.d, x.d.A
	if m == nil {
		return
	}
	cached := d.R.Intn(3) == 0
	if cached {
		n.Chain.SetCacheLevelForConsensus(1)
		defer n.Chain.SetCacheLevelForConsensus(0)
		x.r.Count("cached_reads", 1)
	}
	where := fmt.Sprintf("snapshot %d of %d, cached=%v, after %s", h, top, cached, op)
	n2 := 0
	// balances
	var as []types.Address
	for a := range d.S.Chains {
		as = append(as, a)
	}
	as = append(as, sim.MakeKey("nobody").Addr)
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	if d.R.Intn(3) == 0 { // strangers, some next to real accounts
		for k := d.R.Intn(100); k > 0; k-- {
			a := as[d.R.Intn(len(as))]
			a[d.R.Intn(20)] ^= byte(1 << uint(d.R.Intn(8)))
			as = append(as, a)
		}
	}
	if d.R.Intn(2) == 0 {
		d.R.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	tok := sim.Vite
	if d.R.Intn(2) == 0 {
		tok = d.Token2()
	}
	got, err := n.Chain.GetConfirmedBalanceList(as, tok, m.hash)
	if err != nil {
		x.fail("balance-read", "%s: %v", where, err)
		return
	}
	for _, a := range as {
		w := m.bal[a][tok]
		if w == nil {
			w = new(big.Int)
		}
		g := got[a]
		if g == nil {
			g = new(big.Int)
		}
		n2++
		if w.Cmp(g) != 0 {
			x.fail("balance-at-snapshot", "%s: balance of %s in %s was %s, reads %s", where, a, tok, w, g)
			return
		}
	}
	// storage
	_, _, sdb := n.Chain.DBs()
	for a, want := range m.storage {
		if !types.IsBuiltinContractAddr(a) && d.R.Intn(3) != 0 {
			continue
		}
		sd, err := sdb.NewStorageDatabase(m.hash, a)
		if err != nil {
			x.fail("storage-read", "%s: %v", where, err)
			return
		}
		for k, w := range want {
			g, err := sd.GetValue([]byte(k))
			n2++
			if err != nil || !bytes.Equal(g, w) {
				x.fail("value-at-snapshot", "%s: %s key %x was %x, reads %x (%v)", where, a, k, w, g, err)
				return
			}
		}
		// keys that existed before or exist now but did not then
		other := map[string]bool{}
		for k := range sim.StorageOf(n, a) {
			other[k] = true
		}
		for k := range x.ever[a] {
			other[k] = true
		}
		for k := range other {
			if _, ok := want[k]; !ok {
				g, err := sd.GetValue([]byte(k))
				n2++
				if err != nil || len(g) != 0 {
					x.fail("value-at-snapshot", "%s: %s key %x did not exist, reads %x (%v)", where, a, k, g, err)
					return
				}
			}
		}
		if cached && a == types.AddressGovernance {
			continue // served by the round cache as one range; its lists are compared below
		}
		var prefix []byte
		if d.R.Intn(2) == 0 {
			for k := range want {
				if l := len(k); l > 1 {
					prefix = []byte(k)[:1+d.R.Intn(l-1)]
					break
				}
			}
			for len(prefix) > 0 && prefix[len(prefix)-1] == 0 {
				prefix = prefix[:len(prefix)-1]
			}
		}
		it, err := sd.NewStorageIterator(prefix)
		if err != nil {
			x.fail("storage-iterate", "%s: %v", where, err)
			return
		}
		seen := map[string][]byte{}
		var last []byte
		var order []string
		for it.Next() {
			k := append([]byte{}, it.Key()...)
			if last != nil && bytes.Compare(last, k) >= 0 {
				x.fail("iteration-order", "%s: %s iteration not ascending at %x", where, a, k)
			}
			last = k
			seen[string(k)] = append([]byte{}, it.Value()...)
			order = append(order, string(k))
		}
		ierr := it.Error()
		it.Release()
		if d.R.Intn(2) == 0 && !cached {
			x.walkBack(sd, prefix, order, seen, fmt.Sprintf("%s: %s prefix %x", where, a, prefix))
		}
		if ierr != nil {
			x.fail("storage-iterate", "%s: %v", where, ierr)
			return
		}
		cnt := 0
		for k, w := range want {
			if !strings.HasPrefix(k, string(prefix)) {
				continue
			}
			cnt++
			n2++
			if g, ok := seen[k]; !ok || !bytes.Equal(g, w) {
				x.fail("iteration-at-snapshot", "%s: %s prefix %x: key %x was %x, iterates %x (present %v)", where, a, prefix, k, w, g, ok)
				return
			}
		}
		for k, v := range seen {
			if _, ok := want[k]; !ok && len(v) > 0 {
				x.fail("iteration-at-snapshot", "%s: %s prefix %x: key %x=%x did not exist then", where, a, prefix, k, v)
				return
			}
		}
	}
	// typed lists
	for k, g := range listsAt(n, m.hash) {
		n2++
		if w := m.lists[k]; w != g {
			x.fail("list-at-snapshot/"+strings.Split(k, "/")[0], "%s: %s was\n%s\nreads\n%s", where, k, w, g)
			return
		}
	}
	for a := range d.S.Chains {
		if !types.IsContractAddr(a) || types.IsBuiltinContractAddr(a) {
			continue
		}
		meta, err := n.Chain.GetContractMetaInSnapshot(a, h)
		if err != nil {
			x.fail("meta-at-snapshot", "%s: %s %v", where, a, err)
			return
		}
		if (meta != nil) != m.metas[a] {
			x.fail("meta-at-snapshot", "%s: contract %s existed=%v, reads %v", where, a, m.metas[a], meta != nil)
			return
		}
	}
	x.r.Eval(fmt.Sprintf("%s/%d/%d/%v/%s", m.hash, h, top, cached, tok), true)
	x.r.Count("facts_compared", int64(n2))
	x.r.Max("deepest_read_back", int64(top-h))
}

// walkBack: an iterator shows the same backwards, and from any of its keys on.
func (x *runner) walkBack(sd interface {
	NewStorageIterator(prefix []byte) (interfaces.StorageIterator, error)
}, prefix []byte, order []string, seen map[string][]byte, where string) {
	it, err := sd.NewStorageIterator(prefix)
	if err != nil {
		return
	}
	defer it.Release()
	i := len(order)
	for ok := it.Last(); ok; ok = it.Prev() {
		i--
		if i < 0 || string(it.Key()) != order[i] || !bytes.Equal(it.Value(), seen[order[i]]) {
			x.fail("iteration-backwards", "%s: going backwards key %x=%x comes at place %d of %x", where, it.Key(), it.Value(), i, order)
			return
		}
	}
	if i != 0 {
		x.fail("iteration-backwards", "%s: going backwards ends at place %d of %x", where, i, order)
		return
	}
	if len(order) > 0 {
		i = x.d.R.Intn(len(order))
		it2, err := sd.NewStorageIterator(prefix)
		if err != nil {
			return
		}
		defer it2.Release()
		for ok := it2.Seek([]byte(order[i])); ok; ok = it2.Next() {
			if i >= len(order) || string(it2.Key()) != order[i] {
				x.fail("iteration-from-key", "%s: from a key on, %x comes at place %d of %x", where, it2.Key(), i, order)
				return
			}
			i++
		}
		if i != len(order) {
			x.fail("iteration-from-key", "%s: from a key on the iteration ends at place %d of %x", where, i, order)
		}
	}
	x.r.Count("iterations backwards", 1)
}
