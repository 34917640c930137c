package main

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_plugins "github.com/vitelabs/go-vite/v2/ledger/chain/plugins"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// q5 cross-checks every query path of the ledger against the accepted blocks.
type q5 struct {
	x     *runner
	out   []string
	conf  map[types.Hash]uint64 // account block -> confirming snapshot height
	gone  []types.Hash          // account blocks removed from the ledger
	goneS []types.Hash          // snapshot blocks removed
	n     int64
}

func (q *q5) bad(format string, a ...interface{}) {
	if len(q.out) < 8 {
		q.out = append(q.out, fmt.Sprintf(format, a...))
	}
}

func (q *q5) sameBlock(what string, want, got *ledger.AccountBlock, err error) {
	q.n++
	if err != nil {
		q.bad("%s: error %v", what, err)
		return
	}
	if (want == nil) != (got == nil) {
		q.bad("%s: present=%v, expected present=%v", what, got != nil, want != nil)
		return
	}
	if want != nil && !bytes.Equal(sim.SerAB(want), sim.SerAB(got)) {
		q.bad("%s: returned block %s differs from the inserted block %s (height %d vs %d)", what, got.Hash, want.Hash, got.Height, want.Height)
	}
}

func (q *q5) sameSnap(what string, want, got *ledger.SnapshotBlock, err error) {
	q.n++
	if err != nil {
		q.bad("%s: error %v", what, err)
		return
	}
	if (want == nil) != (got == nil) {
		q.bad("%s: present=%v, expected present=%v", what, got != nil, want != nil)
		return
	}
	if want != nil && !bytes.Equal(sim.SerSB(want), sim.SerSB(got)) {
		q.bad("%s: returned snapshot block %s/%d differs from the inserted one %s/%d", what, got.Hash, got.Height, want.Hash, want.Height)
	}
}

// header comparison: everything but the content, which a header may or may not carry
func (q *q5) sameHeader(what string, want, got *ledger.SnapshotBlock, err error) {
	q.n++
	if err != nil {
		q.bad("%s: error %v", what, err)
		return
	}
	if (want == nil) != (got == nil) {
		q.bad("%s: present=%v, expected present=%v", what, got != nil, want != nil)
		return
	}
	if want != nil && (want.Hash != got.Hash || want.Height != got.Height || want.PrevHash != got.PrevHash || !want.Timestamp.Equal(*got.Timestamp) || want.Seed != got.Seed || !bytes.Equal(want.Signature, got.Signature)) {
		q.bad("%s: returned header %s/%d differs from %s/%d", what, got.Hash, got.Height, want.Hash, want.Height)
	}
}

func (q *q5) sameBlocks(what string, want, got []*ledger.AccountBlock, err error) {
	if err != nil || len(want) != len(got) {
		q.bad("%s: %d blocks, expected %d (%v)", what, len(got), len(want), err)
		return
	}
	for i := range want {
		q.sameBlock(fmt.Sprintf("%s[%d]", what, i), want[i], got[i], nil)
	}
}

func (q *q5) sameSnaps(what string, want, got []*ledger.SnapshotBlock, err error, header bool) {
	if err != nil || len(want) != len(got) {
		q.bad("%s: %d snapshot blocks, expected %d (%v)", what, len(got), len(want), err)
		return
	}
	for i := range want {
		if header {
			q.sameHeader(fmt.Sprintf("%s[%d]", what, i), want[i], got[i], nil)
		} else {
			q.sameSnap(fmt.Sprintf("%s[%d]", what, i), want[i], got[i], nil)
		}
	}
}

func revAB(l []*ledger.AccountBlock) []*ledger.AccountBlock {
	out := make([]*ledger.AccountBlock, 0, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}
func revSB(l []*ledger.SnapshotBlock) []*ledger.SnapshotBlock {
	out := make([]*ledger.SnapshotBlock, 0, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}

func (q *q5) snapshots() []*ledger.SnapshotBlock {
	l := []*ledger.SnapshotBlock{q.x.d.A.Chain.GetGenesisSnapshotBlock()}
	for _, c := range q.x.d.S.Chunks {
		l = append(l, c.Snap)
	}
	return l
}

func (q *q5) block(b *ledger.AccountBlock) {
	c := q.x.d.A.Chain
	s := q.x.d.S
	id := fmt.Sprintf("%s/%d", b.AccountAddress.String()[5:13], b.Height)
	got, err := c.GetAccountBlockByHash(b.Hash)
	q.sameBlock("GetAccountBlockByHash "+id, b, got, err)
	got, err = c.GetCompleteBlockByHash(b.Hash)
	q.sameBlock("GetCompleteBlockByHash "+id, b, got, err)
	got, err = c.GetAccountBlockByHeight(b.AccountAddress, b.Height)
	q.sameBlock("GetAccountBlockByHeight "+id, b, got, err)
	h, err := c.GetAccountBlockHashByHeight(b.AccountAddress, b.Height)
	if err != nil || h == nil || *h != b.Hash {
		q.bad("GetAccountBlockHashByHeight %s: %v %v", id, h, err)
	}
	if ok, err := c.IsAccountBlockExisted(b.Hash); err != nil || !ok {
		q.bad("IsAccountBlockExisted %s: %v %v", id, ok, err)
	}
	// confirmation
	want := q.conf[b.Hash]
	times := uint64(0)
	var sb *ledger.SnapshotBlock
	if want > 0 {
		times = s.Height() + 1 - want
		sb = q.snapshots()[want-1]
	}
	if t, err := c.GetConfirmedTimes(b.Hash); err != nil || t != times {
		q.bad("GetConfirmedTimes %s: %d (%v), expected %d", id, t, err, times)
	}
	gs, err := c.GetConfirmSnapshotHeaderByAbHash(b.Hash)
	q.sameHeader("GetConfirmSnapshotHeaderByAbHash "+id, sb, gs, err)
	gs, err = c.GetConfirmSnapshotBlockByAbHash(b.Hash)
	q.sameSnap("GetConfirmSnapshotBlockByAbHash "+id, sb, gs, err)
	for n := uint64(1); n < 4; n++ {
		ok, err := c.IsSeedConfirmedNTimes(b.Hash, n)
		seeds := uint64(0)
		if want > 0 {
			for _, x := range q.snapshots()[want-1:] {
				if x.Seed > 0 {
					seeds++
				}
			}
		}
		if err != nil || ok != (seeds >= n) {
			q.bad("IsSeedConfirmedNTimes %s %d: %v (%v), %d seeds since confirmation", id, n, ok, err, seeds)
		}
	}
	// sends
	var sends []*ledger.AccountBlock
	if b.IsSendBlock() {
		sends = append(sends, b)
	}
	for i, x := range b.SendBlockList {
		sends = append(sends, x)
		got, err := c.GetAccountBlockByHash(x.Hash)
		q.sameBlock(fmt.Sprintf("GetAccountBlockByHash of send %d in %s", i, id), x, got, err)
		got, err = c.GetCompleteBlockByHash(x.Hash)
		q.sameBlock(fmt.Sprintf("GetCompleteBlockByHash of send %d in %s", i, id), b, got, err)
		if t, err := c.GetConfirmedTimes(x.Hash); err != nil || t != times {
			q.bad("GetConfirmedTimes of send %d in %s: %d (%v), expected %d", i, id, t, err, times)
		}
		if ok, err := c.IsAccountBlockExisted(x.Hash); err != nil || !ok {
			q.bad("IsAccountBlockExisted of send %d in %s: %v %v", i, id, ok, err)
		}
	}
	for _, x := range sends {
		r := s.RecvOf[x.Hash]
		got, err := c.GetReceiveAbBySendAb(x.Hash)
		q.sameBlock("GetReceiveAbBySendAb of send in "+id, r, got, err)
		if is, err := c.IsReceived(x.Hash); err != nil || is != (r != nil) {
			q.bad("IsReceived of send in %s: %v (%v)", id, is, err)
		}
	}
	if b.LogHash != nil {
		l, err := c.GetVmLogList(b.LogHash)
		if err != nil || len(l) == 0 {
			q.bad("GetVmLogList of %s: %d entries (%v) though the block has a log hash", id, len(l), err)
		} else if hh := l.Hash(b.Height, b.AccountAddress, b.PrevHash); hh == nil || *hh != *b.LogHash {
			q.bad("GetVmLogList of %s does not hash to the block's log hash", id)
		}
	}
}

func (q *q5) account(a types.Address) {
	x := q.x
	c := x.d.A.Chain
	l := x.d.S.Chains[a]
	n := uint64(len(l))
	id := a.String()[5:13]
	var last *ledger.AccountBlock
	if n > 0 {
		last = l[n-1]
	}
	got, err := c.GetLatestAccountBlock(a)
	q.sameBlock("GetLatestAccountBlock "+id, last, got, err)
	if h, err := c.GetLatestAccountHeight(a); err != nil || h != n {
		q.bad("GetLatestAccountHeight %s: %d (%v), expected %d", id, h, err, n)
	}
	for _, h := range []uint64{0, n + 1, n + 7, 1 << 40, ^uint64(0)} {
		got, err := c.GetAccountBlockByHeight(a, h)
		q.sameBlock(fmt.Sprintf("GetAccountBlockByHeight %s %d of %d", id, h, n), nil, got, err)
		if hh, err := c.GetAccountBlockHashByHeight(a, h); err != nil || hh != nil {
			q.bad("GetAccountBlockHashByHeight %s %d of %d: %v %v", id, h, n, hh, err)
		}
	}
	R := x.rnd
	for k := 0; k < 4; k++ {
		from, to := uint64(R.Intn(int(n)+3)), uint64(R.Intn(int(n)+4))
		var want []*ledger.AccountBlock
		for h := to; h >= 1 && h >= from; h-- {
			if h <= n {
				want = append(want, l[h-1])
			}
		}
		gl, err := c.GetAccountBlocksByRange(a, from, to)
		q.sameBlocks(fmt.Sprintf("GetAccountBlocksByRange %s [%d,%d] of %d", id, from, to, n), want, gl, err)
		cnt := uint64(R.Intn(int(n) + 3))
		want = nil
		for h := to; h >= 1 && h+cnt > to; h-- {
			if h <= n {
				want = append(want, l[h-1])
			}
		}
		gl, err = c.GetAccountBlocksByHeight(a, to, cnt)
		q.sameBlocks(fmt.Sprintf("GetAccountBlocksByHeight %s %d count %d of %d", id, to, cnt, n), want, gl, err)
		if n > 0 {
			h := 1 + uint64(R.Intn(int(n)))
			want = nil
			for g := h; g >= 1 && g+cnt > h; g-- {
				want = append(want, l[g-1])
			}
			gl, err = c.GetAccountBlocks(l[h-1].Hash, cnt)
			q.sameBlocks(fmt.Sprintf("GetAccountBlocks %s from %d count %d", id, h, cnt), want, gl, err)
		}
	}
	// unconfirmed
	var un []*ledger.AccountBlock
	for _, b := range x.d.S.Unconf {
		if b.AccountAddress == a {
			un = append(un, b)
		}
	}
	gl := c.GetUnconfirmedBlocks(a)
	q.sameBlocks("GetUnconfirmedBlocks "+id, un, gl, nil)
	// log lists by address
	if types.IsContractAddr(a) && n > 0 {
		tot := 0
		for _, b := range l {
			if b.LogHash != nil {
				ll, _ := c.GetVmLogList(b.LogHash)
				tot += len(ll)
			}
		}
		ll, err := c.GetVMLogListByAddress(a, 1, n, nil)
		if err != nil || len(ll) != tot {
			q.bad("GetVMLogListByAddress %s: %d logs (%v), the blocks have %d", id, len(ll), err, tot)
		}
	}
	// storage point reads agree with iteration, whole and by prefix
	if types.IsContractAddr(a) {
		st := sim.StorageOf(x.d.A, a)
		keys := make([]string, 0, len(st))
		for k := range st {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, err := c.GetValue(a, []byte(k))
			if err != nil || !bytes.Equal(v, st[k]) {
				q.bad("GetValue %s %x: %x (%v), the iterator has %x", id, k, v, err, st[k])
			}
			q.n++
		}
		if len(keys) > 0 {
			k := keys[R.Intn(len(keys))]
			p := k[:R.Intn(len(k)+1)]
			it, err := c.GetStorageIterator(a, []byte(p))
			if err != nil {
				q.bad("GetStorageIterator: %v", err)
			} else {
				var gk []string
				for it.Next() {
					k := string(it.Key())
					if len(k) < len(p) && st[k] != nil && k+string(make([]byte, len(p)-len(k))) == p {
						// known: keys are stored padded with zero bytes, so a prefix that ends in
						// zero bytes also finds a shorter key
						x.r.Violate(x.name, "prefix-iteration-finds-shorter-key", "storage iteration of %s with prefix %x returns key %x", id, p, k)
						continue
					}
					gk = append(gk, k)
				}
				it.Release()
				var wk []string
				for _, k := range keys {
					if len(k) >= len(p) && k[:len(p)] == p {
						wk = append(wk, k)
					}
				}
				if fmt.Sprintf("%x", gk) != fmt.Sprintf("%x", wk) {
					q.bad("storage iteration of %s with prefix %x gives %d keys, the full iteration %d", id, p, len(gk), len(wk))
				}
			}
		}
	}
	m, err := c.GetBalanceMap(a)
	for t, v := range m {
		b, err := c.GetBalance(a, t)
		if err != nil || b.Cmp(v) != 0 {
			q.bad("GetBalance %s %s: %v (%v), GetBalanceMap has %v", id, t, b, err, v)
		}
	}
	if err != nil {
		q.bad("GetBalanceMap %s: %v", id, err)
	}
}

func (q *q5) snapshot(h uint64) {
	x := q.x
	c := x.d.A.Chain
	ss := q.snapshots()
	n := uint64(len(ss))
	b := ss[h-1]
	id := fmt.Sprint(h)
	got, err := c.GetSnapshotBlockByHeight(h)
	q.sameSnap("GetSnapshotBlockByHeight "+id, b, got, err)
	got, err = c.GetSnapshotBlockByHash(b.Hash)
	q.sameSnap("GetSnapshotBlockByHash "+id, b, got, err)
	got, err = c.GetSnapshotHeaderByHeight(h)
	q.sameHeader("GetSnapshotHeaderByHeight "+id, b, got, err)
	got, err = c.GetSnapshotHeaderByHash(b.Hash)
	q.sameHeader("GetSnapshotHeaderByHash "+id, b, got, err)
	if hh, err := c.GetSnapshotHashByHeight(h); err != nil || hh == nil || *hh != b.Hash {
		q.bad("GetSnapshotHashByHeight %d: %v %v", h, hh, err)
	}
	if hh, err := c.GetSnapshotHeightByHash(b.Hash); err != nil || hh != h {
		q.bad("GetSnapshotHeightByHash %d: %v %v", h, hh, err)
	}
	if ok, err := c.IsSnapshotBlockExisted(b.Hash); err != nil || !ok {
		q.bad("IsSnapshotBlockExisted %d: %v %v", h, ok, err)
	}
	R := x.rnd
	cnt := uint64(R.Intn(int(n) + 3))
	var up, down []*ledger.SnapshotBlock
	for i := uint64(0); i < cnt && h+i <= n; i++ {
		up = append(up, ss[h+i-1])
	}
	for i := uint64(0); i < cnt && h > i; i++ {
		down = append(down, ss[h-i-1])
	}
	lst, err := c.GetSnapshotBlocksByHeight(h, true, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotBlocksByHeight %d up %d of %d", h, cnt, n), up, lst, err, false)
	lst, err = c.GetSnapshotBlocksByHeight(h, false, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotBlocksByHeight %d down %d of %d", h, cnt, n), down, lst, err, false)
	lst, err = c.GetSnapshotHeadersByHeight(h, true, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotHeadersByHeight %d up %d of %d", h, cnt, n), up, lst, err, true)
	lst, err = c.GetSnapshotBlocks(b.Hash, true, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotBlocks %d up %d of %d", h, cnt, n), up, lst, err, false)
	lst, err = c.GetSnapshotBlocks(b.Hash, false, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotBlocks %d down %d of %d", h, cnt, n), down, lst, err, false)
	lst, err = c.GetSnapshotHeaders(b.Hash, false, cnt)
	q.sameSnaps(fmt.Sprintf("GetSnapshotHeaders %d down %d of %d", h, cnt, n), down, lst, err, true)
	e := h + uint64(R.Intn(int(n-h)+1))
	lst, err = c.GetRangeSnapshotBlocks(b.Hash, ss[e-1].Hash)
	q.sameSnaps(fmt.Sprintf("GetRangeSnapshotBlocks %d..%d", h, e), ss[h-1:e], lst, err, false)
	lst, err = c.GetRangeSnapshotHeaders(b.Hash, ss[e-1].Hash)
	q.sameSnaps(fmt.Sprintf("GetRangeSnapshotHeaders %d..%d", h, e), ss[h-1:e], lst, err, true)
	// by time
	for _, d := range []time.Duration{0, time.Nanosecond, -time.Nanosecond, time.Second, -time.Second, 3 * time.Second} {
		t := b.Timestamp.Add(d)
		var want *ledger.SnapshotBlock
		for _, y := range ss {
			if y.Timestamp.Before(t) {
				want = y
			}
		}
		got, err := c.GetSnapshotHeaderBeforeTime(&t)
		q.sameHeader(fmt.Sprintf("GetSnapshotHeaderBeforeTime of block %d plus %v", h, d), want, got, err)
	}
	end := ss[e-1]
	var wantAfter []*ledger.SnapshotBlock
	for _, y := range ss[1:e] {
		if !y.Timestamp.Before(*b.Timestamp) {
			wantAfter = append(wantAfter, y)
		}
	}
	wantAfter = revSB(wantAfter)
	lst, err = c.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{Hash: end.Hash, Height: e}, b.Timestamp, nil)
	q.sameSnaps(fmt.Sprintf("GetSnapshotHeadersAfterOrEqualTime %d..%d", h, e), wantAfter, lst, err, true)
	p := end.Producer()
	var wantP []*ledger.SnapshotBlock
	for _, y := range wantAfter {
		if y.Producer() == p {
			wantP = append(wantP, y)
		}
	}
	lst, err = c.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{Hash: end.Hash, Height: e}, b.Timestamp, &p)
	q.sameSnaps(fmt.Sprintf("GetSnapshotHeadersAfterOrEqualTime %d..%d of one producer", h, e), wantP, lst, err, true)
	// sub ledger
	if h >= 1 && e > h {
		chunks, err := c.GetSubLedger(h, e)
		q.chunks(fmt.Sprintf("GetSubLedger %d..%d", h, e), h, e, chunks, err)
		chunks, err = c.GetSubLedgerAfterHeight(h)
		q.chunks(fmt.Sprintf("GetSubLedgerAfterHeight %d", h), h, n, chunks, err)
	}
	for _, bad := range []uint64{0, n + 1, n + 100, ^uint64(0)} {
		got, err := c.GetSnapshotBlockByHeight(bad)
		q.sameSnap(fmt.Sprintf("GetSnapshotBlockByHeight %d of %d", bad, n), nil, got, err)
		got, err = c.GetSnapshotHeaderByHeight(bad)
		q.sameSnap(fmt.Sprintf("GetSnapshotHeaderByHeight %d of %d", bad, n), nil, got, err)
	}
}

// chunks compares a sub ledger: the first element is the start snapshot block alone.
func (q *q5) chunks(what string, from, to uint64, got []*ledger.SnapshotChunk, err error) {
	if err != nil {
		q.bad("%s: %v", what, err)
		return
	}
	ss := q.snapshots()
	var hs []uint64
	blocks := map[uint64][]types.Hash{}
	for _, c := range got {
		if c.SnapshotBlock == nil {
			q.bad("%s: a chunk without snapshot block (%d account blocks)", what, len(c.AccountBlocks))
			return
		}
		h := c.SnapshotBlock.Height
		hs = append(hs, h)
		q.sameSnap(fmt.Sprintf("%s snapshot %d", what, h), ss[h-1], c.SnapshotBlock, nil)
		for _, b := range c.AccountBlocks {
			blocks[h] = append(blocks[h], b.Hash)
		}
	}
	for i, h := range hs {
		if h != from+uint64(i) {
			q.bad("%s: heights %v", what, hs)
			return
		}
	}
	if len(hs) == 0 || hs[len(hs)-1] != to {
		q.bad("%s: heights %v, expected up to %d", what, hs, to)
		return
	}
	for h := from + 1; h <= to; h++ {
		w := q.x.d.S.Chunks[h-2].Blocks
		set := map[types.Hash]bool{}
		for _, x := range blocks[h] {
			set[x] = true
		}
		if len(w) != len(blocks[h]) || len(set) != len(w) {
			q.bad("%s: snapshot %d has %d account blocks, confirmed were %d", what, h, len(blocks[h]), len(w))
			continue
		}
		for _, b := range w {
			if !set[b.Hash] {
				q.bad("%s: snapshot %d misses account block %s", what, h, b.Hash)
			}
		}
		q.n++
	}
}

func (q *q5) absent() {
	c := q.x.d.A.Chain
	var r types.Hash
	q.x.rnd.Read(r[:])
	hs := append([]types.Hash{r, {}}, q.gone...)
	for _, h := range hs {
		if q.x.d.S.Holder[h] != nil || q.conf[h] > 0 || q.live(h) {
			continue // the block came back
		}
		got, err := c.GetAccountBlockByHash(h)
		q.sameBlock("GetAccountBlockByHash of an absent block", nil, got, err)
		got, err = c.GetCompleteBlockByHash(h)
		q.sameBlock("GetCompleteBlockByHash of an absent block", nil, got, err)
		if ok, err := c.IsAccountBlockExisted(h); ok || err != nil {
			q.bad("IsAccountBlockExisted of an absent block: %v %v", ok, err)
		}
		if t, err := c.GetConfirmedTimes(h); t != 0 || err != nil {
			q.bad("GetConfirmedTimes of an absent block: %v %v", t, err)
		}
		if t, err := c.IsReceived(h); t || err != nil {
			q.bad("IsReceived of an absent block: %v %v", t, err)
		}
		got, err = c.GetReceiveAbBySendAb(h)
		q.sameBlock("GetReceiveAbBySendAb of an absent block", nil, got, err)
		gl, err := c.GetAccountBlocks(h, 3)
		if len(gl) != 0 {
			q.bad("GetAccountBlocks of an absent block: %d (%v)", len(gl), err)
		}
	}
	live := map[types.Hash]bool{}
	for _, s := range q.snapshots() {
		live[s.Hash] = true
	}
	for _, h := range append([]types.Hash{r}, q.goneS...) {
		if live[h] {
			continue
		}
		got, err := c.GetSnapshotBlockByHash(h)
		q.sameSnap("GetSnapshotBlockByHash of an absent block", nil, got, err)
		got, err = c.GetSnapshotHeaderByHash(h)
		q.sameSnap("GetSnapshotHeaderByHash of an absent block", nil, got, err)
		if ok, err := c.IsSnapshotBlockExisted(h); ok || err != nil {
			q.bad("IsSnapshotBlockExisted of an absent block: %v %v", ok, err)
		}
		if t, err := c.GetSnapshotHeightByHash(h); t != 0 || err != nil {
			q.bad("GetSnapshotHeightByHash of an absent block: %v %v", t, err)
		}
		lst, err := c.GetSnapshotBlocks(h, true, 3)
		if len(lst) != 0 {
			q.bad("GetSnapshotBlocks of an absent block: %d (%v)", len(lst), err)
		}
	}
}

func (q *q5) live(h types.Hash) bool {
	for _, l := range q.x.d.S.Chains {
		for _, b := range l {
			if b.Hash == h {
				return true
			}
		}
	}
	return false
}

// tokenFilter: the blocks of an account that involve a token, from the optional plugin.
func (q *q5) tokenFilter(a types.Address) {
	pl := q.x.d.A.Chain.Plugins()
	if pl == nil {
		return
	}
	ft, ok := pl.GetPlugin("filterToken").(*chain_plugins.FilterToken)
	if !ok {
		return
	}
	s := q.x.d.S
	toks := append([]types.TokenTypeId{sim.Vite}, q.x.d.W.Tokens...)
	for _, t := range toks {
		var want []types.Hash
		l := s.Chains[a]
		for i := len(l) - 1; i >= 0; i-- {
			b := l[i]
			if b.BlockType == ledger.BlockTypeGenesisReceive || b.Height == 1 && q.conf[b.Hash] == 1 {
				continue
			}
			in := false
			if b.IsSendBlock() {
				in = b.TokenId == t
			} else if x := s.Sends[b.FromBlockHash]; x != nil {
				in = x.TokenId == t
			}
			for _, y := range b.SendBlockList {
				in = in || y.TokenId == t
			}
			if in {
				want = append(want, b.Hash)
			}
		}
		got, err := ft.GetBlocks(a, t, nil, 10000)
		if err != nil {
			q.bad("blocks of %s by token %s: %v", a, t, err)
			continue
		}
		var gh []types.Hash
		for _, b := range got {
			if b.BlockType == ledger.BlockTypeGenesisReceive || b.Height == 1 && q.conf[b.Hash] == 1 {
				continue
			}
			gh = append(gh, b.Hash)
		}
		if fmt.Sprint(gh) != fmt.Sprint(want) {
			q.bad("blocks of %s by token %s: %d, the chain has %d such blocks", a, t, len(gh), len(want))
		}
		q.n++
	}
}

func (q *q5) rebuild() {
	q.conf = map[types.Hash]uint64{}
	for _, l := range q.x.d.S.Genesis {
		for _, b := range l {
			q.conf[b.Hash] = 1
		}
	}
	for _, c := range q.x.d.S.Chunks {
		for _, b := range c.Blocks {
			q.conf[b.Hash] = c.Snap.Height
		}
	}
}

func runC05(x *runner) {
	d := x.d
	q := &q5{x: x}
	d.Weights["restart"], d.Weights["flush"], d.Weights["rollback"], d.Weights["rollbackAcc"] = 2, 4, 2, 2
	d.WarmUp()
	layer := "memory"
	d.OnRestart = func(bool) { layer = "restarted" }
	var prevA map[types.Hash]bool
	var prevS map[types.Hash]bool
	take := func() {
		a, s := map[types.Hash]bool{}, map[types.Hash]bool{}
		for _, l := range d.S.Chains {
			for _, b := range l {
				a[b.Hash] = true
				for _, y := range b.SendBlockList {
					a[y.Hash] = true
				}
			}
		}
		for _, c := range d.S.Chunks {
			s[c.Snap.Hash] = true
		}
		for h := range prevA {
			if !a[h] && len(q.gone) < 60 {
				q.gone = append(q.gone, h)
			}
		}
		for h := range prevS {
			if !s[h] && len(q.goneS) < 30 {
				q.goneS = append(q.goneS, h)
			}
		}
		prevA, prevS = a, s
	}
	check := func(op string, full bool) {
		q.rebuild()
		take()
		var all []*ledger.AccountBlock
		var addrs []types.Address
		for a, l := range d.S.Chains {
			addrs = append(addrs, a)
			all = append(all, l...)
		}
		sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].Hash[:], all[j].Hash[:]) < 0 })
		sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i][:], addrs[j][:]) < 0 })
		addrs = append(addrs, sim.MakeKey(fmt.Sprint("nobody", x.step)).Addr)
		hs := map[uint64]bool{1: true, d.S.Height(): true}
		if full {
			for h := uint64(1); h <= d.S.Height(); h++ {
				hs[h] = true
			}
		} else {
			x.rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			if len(all) > 12 {
				all = all[:12]
			}
			x.rnd.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
			if len(addrs) > 4 {
				addrs = addrs[:4]
			}
			hs[1+uint64(x.rnd.Intn(int(d.S.Height())))] = true
		}
		all = append(all, d.S.Unconf...)
		for _, b := range all {
			q.block(b)
			x.r.Eval(fmt.Sprintf("b/%s/%s/%v", b.Hash, layer, q.conf[b.Hash] > 0), true)
		}
		for _, a := range addrs {
			q.account(a)
			q.tokenFilter(a)
			x.r.Eval(fmt.Sprintf("a/%s/%d/%s", a, len(d.S.Chains[a]), layer), true)
		}
		for h := range hs {
			q.snapshot(h)
			x.r.Eval(fmt.Sprintf("s/%s/%s", q.snapshots()[h-1].Hash, layer), true)
		}
		q.absent()
		if l := d.A.Chain.GetAllUnconfirmedBlocks(); len(l) != len(d.S.Unconf) {
			q.bad("GetAllUnconfirmedBlocks: %d, expected %d", len(l), len(d.S.Unconf))
		}
		lb := d.A.Chain.GetLatestSnapshotBlock()
		q.sameSnap("GetLatestSnapshotBlock", q.snapshots()[d.S.Height()-1], lb, nil)
		if len(q.out) > 0 {
			k := q.out[0]
			x.fail("query/"+firstWord(k), "after %s: %s", op, sim.Brief(q.out))
		}
		x.r.Count("query_answers", q.n)
		q.n = 0
	}
	check("warmup", true)
	x.steps(150, 500, func(op string) {
		if op == "flush" {
			layer = "flushed"
		}
		if op == "transfer" || op == "snapshot" {
			if layer == "restarted" {
				layer = "memory"
			}
		}
		if op == "restart" || op == "rollback" || op == "rollbackAcc" || d.R.Intn(6) == 0 {
			check(op, op == "restart" || d.R.Intn(10) == 0)
		}
	})
	if !x.bad {
		if err := d.DoRestart(true); err != nil {
			x.fail("restart", "%v", err)
			return
		}
		check("final restart", true)
	}
}

func firstWord(s string) string {
	for i, c := range s {
		if c == ' ' || c == '[' {
			return s[:i]
		}
	}
	return s
}
