package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/pow"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// stakeFor(i) is the stake that earns i sections of 280 quota per snapshot.
var stakeSteps []*big.Int
var powSteps []*big.Int

type noCongestion struct{}

func (noCongestion) GetGlobalQuota() types.QuotaInfo                           { return types.QuotaInfo{} }
func (noCongestion) GetQuotaUsedList(types.Address) []types.QuotaInfo          { return nil }
func (noCongestion) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock { return nil }
func (noCongestion) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) {
	return nil, nil
}
func (noCongestion) GetConfirmedTimes(types.Hash) (uint64, error) { return 0, nil }

func initC11() {
	sim.Setup()
	pow.Init(true) // any nonce is good enough; the amount of quota still follows the difficulty
	for i := uint64(0); i <= 3571; i++ {
		s, err := quota.CalcStakeAmountByQuota(i * 280)
		if err != nil {
			panic(err)
		}
		stakeSteps = append(stakeSteps, s)
		p, err := quota.CalcPoWDifficulty(noCongestion{}, i*280, types.Quota{}, 10)
		if err != nil {
			panic(err)
		}
		powSteps = append(powSteps, p)
	}
}

func sections(x *big.Int, steps []*big.Int) uint64 {
	n := uint64(0)
	for i := 1; i < len(steps) && steps[i].Cmp(x) <= 0; i++ {
		n = uint64(i)
	}
	return n * 280
}

type qwin struct{ count, quota, used uint64 }

// window is the quota accounting of the last 74 snapshots and the unconfirmed blocks, from the
// shadow ledger alone.
func (x *runner) window() []map[types.Address]*qwin {
	d := x.d
	start := 0
	if len(d.S.Chunks) > 74 {
		start = len(d.S.Chunks) - 74
	}
	var out []map[types.Address]*qwin
	sum := func(bs []*ledger.AccountBlock) map[types.Address]*qwin {
		m := map[types.Address]*qwin{}
		for _, b := range bs {
			q := m[b.AccountAddress]
			if q == nil {
				q = &qwin{}
				m[b.AccountAddress] = q
			}
			q.count++
			q.quota += b.Quota
			q.used += b.QuotaUsed
		}
		return m
	}
	for _, c := range d.S.Chunks[start:] {
		out = append(out, sum(c.Blocks))
	}
	return append(out, sum(d.S.Unconf))
}

// available is what an account may still use, without proof of work.
func (x *runner) available(a types.Address, w []map[types.Address]*qwin, without *ledger.AccountBlock) (left int64, current uint64) {
	d := x.d
	st, err := d.A.Chain.GetStakeBeneficialAmount(a)
	if err != nil {
		x.fail("stake-amount", "GetStakeBeneficialAmount: %v", err)
		return
	}
	per := sections(st, stakeSteps)
	var t uint64
	for _, m := range w[:len(w)-1] {
		t += per
		if q := m[a]; q != nil {
			if t > q.quota {
				t -= q.quota
			} else {
				t = 0
			}
		}
	}
	t += per
	var un uint64
	if q := w[len(w)-1][a]; q != nil {
		un = q.quota
	}
	if without != nil {
		un -= without.Quota
	}
	return int64(t) - int64(un), t
}

func runC11(x *runner) {
	d := x.d
	d.Weights["rollback"], d.Weights["rollbackAcc"], d.Weights["restart"] = 3, 4, 1
	d.Weights["stake"], d.Weights["cancelStake"] = 4, 3
	check := func(op string) {
		w := x.window()
		var global types.QuotaInfo
		for _, m := range w[:len(w)-1] {
			for _, q := range m {
				global.BlockCount += q.count
				global.QuotaTotal += q.quota
				global.QuotaUsedTotal += q.used
			}
		}
		if g := d.A.Chain.GetGlobalQuota(); g != global {
			x.fail("global-window", "after %s: global quota of the window is %+v, blocks sum to %+v", op, g, global)
			return
		}
		for a := range d.S.Chains {
			l := d.A.Chain.GetQuotaUsedList(a)
			if len(l) != len(w) {
				x.fail("window-length", "after %s: the window has %d entries, %d expected", op, len(l), len(w))
				return
			}
			nz := false
			for i := range l {
				var e types.QuotaInfo
				if q := w[i][a]; q != nil {
					e = types.QuotaInfo{BlockCount: q.count, QuotaTotal: q.quota, QuotaUsedTotal: q.used}
					nz = true
				}
				if l[i] != e {
					x.fail("window-entry", "after %s: window entry %d of %d of %s is %+v, blocks sum to %+v", op, i, len(l), a, l[i], e)
					return
				}
			}
			if nz {
				x.r.Count("account_windows_compared", 1)
			}
			// the node's own figure
			if left, cur := x.available(a, w, nil); !x.bad && left >= 0 {
				_, q, err := d.A.Chain.GetStakeQuota(a)
				chain := d.S.Chains[a]
				blocked := types.IsContractAddr(a) && len(chain) > 0 && chain[len(chain)-1].BlockType == ledger.BlockTypeReceiveError
				if err != nil || q == nil || q.SnapshotCurrent() != cur || !blocked && q.Current() != uint64(left) {
					x.fail("reported-quota", "after %s: %s is reported to have quota %+v (%v), its window gives %d (%d before unconfirmed blocks)", op, a, q, err, left, cur)
					return
				}
			}
		}
		x.r.Eval(x.state()+op, len(d.S.Chunks) > 3)
	}
	d.OnAccept = func(b *ledger.AccountBlock) {
		if x.bad {
			return
		}
		w := x.window()
		left, _ := x.available(b.AccountAddress, w, b)
		var p uint64
		if len(b.Nonce) > 0 {
			p = sections(b.Difficulty, powSteps)
			n := 0
			for _, u := range d.S.Unconf {
				if u.AccountAddress == b.AccountAddress && len(u.Nonce) > 0 {
					n++
				}
			}
			if n > 1 {
				x.fail("pow-twice", "a second proof of work of %s was accepted before a snapshot", b.AccountAddress)
			}
			x.r.Count("pow_blocks", 1)
		}
		min, exact := x.declared(b)
		switch {
		case b.QuotaUsed < min || exact && b.QuotaUsed != min:
			x.fail("undercharged", "%s block %s@%d is charged %d, its declared cost is %d", kindOf(b), b.AccountAddress, b.Height, b.QuotaUsed, min)
		case b.Quota+p < b.QuotaUsed || b.Quota > b.QuotaUsed:
			x.fail("stake-part", "%s used %d quota, %d from stake and %d from proof of work", b.Hash, b.QuotaUsed, b.Quota, p)
		case int64(b.Quota) > left:
			x.fail("over-quota", "%s block %s@%d used %d, only %d is left in its window", kindOf(b), b.AccountAddress, b.Height, b.Quota, left)
		case b.QuotaUsed > 1000000:
			x.fail("block-limit", "a block used %d quota", b.QuotaUsed)
		}
		x.r.Count("charged_blocks", 1)
	}
	d.OnSnapshot = func(sb *ledger.SnapshotBlock, dropped []*ledger.AccountBlock) {
		if x.bad {
			return
		}
		w := x.window()
		for a, q := range w[len(w)-1] {
			if left, cur := x.available(a, w, nil); left < 0 {
				x.fail("kept-over-quota", "after snapshot %d the unconfirmed blocks of %s use %d of %d", sb.Height, a, q.quota, cur)
			}
		}
	}
	d.Weights["squeeze"] = 3
	d.OnSqueeze = func(u *sim.Key) {
		if !x.bad {
			x.spendOf(u)
		}
	}
	d.WarmUp()
	check("warmup")
	x.steps(200, 600, func(op string) {
		switch d.R.Intn(9) {
		case 0, 1, 2:
			x.spend()
			op += "+spend"
		case 3:
			if d.R.Intn(3) == 0 {
				for i := 20 + d.R.Intn(50); i > 0; i-- {
					d.DoSnapshot(0, -1)
				}
				op += "+snapshots"
			}
		}
		if !x.bad {
			check(op)
		}
		if !x.bad && d.R.Intn(10) == 0 {
			x.checkMetas(op)
		}
	})
}

func kindOf(b *ledger.AccountBlock) string {
	if b.IsSendBlock() {
		return "send"
	}
	return "receive"
}

// declared is the least a block must be charged (exactly, where known).
func (x *runner) declared(b *ledger.AccountBlock) (uint64, bool) {
	d := x.d
	user := !types.IsContractAddr(b.AccountAddress)
	switch {
	case b.BlockType == ledger.BlockTypeSendCreate:
		return 31000 + 28*uint64(len(b.Data)), true
	case b.IsSendBlock() && !types.IsContractAddr(b.ToAddress):
		return 21000 + 28*uint64(len(b.Data)), true
	case b.IsSendBlock() && types.IsBuiltinContractAddrInUse(b.ToAddress):
		return 6300, false
	case b.IsSendBlock():
		c := 21000 + 28*uint64(len(b.Data))
		m, err := d.A.Chain.GetContractMeta(b.ToAddress)
		if err == nil && m != nil {
			if w := x.asked(b.ToAddress); w != nil {
				return c * uint64(w[13]) / 10, true
			}
			return c * uint64(m.QuotaRatio) / 10, true
		}
		return c, false
	case user:
		return 21000, true
	case types.IsBuiltinContractAddrInUse(b.AccountAddress):
		return 0, false
	}
	if b.BlockType == ledger.BlockTypeReceiveError {
		return 0, true
	}
	s := d.S.Sends[b.FromBlockHash]
	if s == nil || s.BlockType == ledger.BlockTypeSendCreate {
		return 0, true
	}
	if len(b.Data) == 33 && b.Data[32] == 2 {
		return 0, true
	}
	m, err := d.A.Chain.GetContractMeta(b.AccountAddress)
	if err != nil || m == nil {
		return 21000, false
	}
	if w := x.asked(b.AccountAddress); w != nil {
		return 21000 + 40*uint64(w[11]), false
	}
	return 21000 + 40*uint64(m.SendConfirmedTimes), false
}

// asked is the request that created contract a: group, type, confirmations (11), confirmations
// with seed (12), quota ratio (13), code.
func (x *runner) asked(a types.Address) []byte {
	for _, s := range x.d.S.Sends {
		if s.BlockType == ledger.BlockTypeSendCreate && s.ToAddress == a {
			return s.Data
		}
	}
	return nil
}

// checkMetas: every contract has the parameters its creator asked for.
func (x *runner) checkMetas(op string) {
	for _, s := range x.d.S.Sends {
		if s.BlockType != ledger.BlockTypeSendCreate {
			continue
		}
		m, err := x.d.A.Chain.GetContractMeta(s.ToAddress)
		if err != nil || m == nil {
			x.fail("contract-parameters-lost", "after %s: contract %s has no parameters: %v", op, s.ToAddress, err)
			return
		}
		if string(m.Gid[:]) != string(s.Data[:10]) || m.SendConfirmedTimes != s.Data[11] || m.SeedConfirmedTimes != s.Data[12] || m.QuotaRatio != s.Data[13] {
			x.fail("contract-parameters-differ", "after %s: contract %s was asked for with group %x, %d and %d confirmations, ratio %d; it has %x, %d, %d, %d", op, s.ToAddress,
				s.Data[:10], s.Data[11], s.Data[12], s.Data[13], m.Gid[:], m.SendConfirmedTimes, m.SeedConfirmedTimes, m.QuotaRatio)
			return
		}
		x.r.Count("contract parameters compared", 1)
	}
}

// spend tries transfers just above and just below what the account has left.
func (x *runner) spend() {
	d := x.d
	k := d.W.Users[d.R.Intn(len(d.W.Users))]
	if d.R.Intn(10) == 0 {
		k = sim.MakeKey(fmt.Sprintf("fresh/%d", d.R.Intn(20)))
	}
	x.spendOf(k)
}

func (x *runner) spendOf(k *sim.Key) {
	d := x.d
	left, _ := x.available(k.Addr, x.window(), nil)
	if left < 0 {
		left = 0
	}
	var diff *big.Int
	total := uint64(left)
	powUsed := false
	for _, u := range d.S.Unconf {
		if u.AccountAddress == k.Addr && len(u.Nonce) > 0 {
			powUsed = true
		}
	}
	if d.R.Intn(3) == 0 {
		i := 1 + d.R.Intn(300)
		diff = new(big.Int).Set(powSteps[i])
		if d.R.Intn(2) == 0 {
			diff.Sub(diff, big.NewInt(1))
		}
		total += sections(diff, powSteps)
	}
	if total > 1000000 {
		total = 1000000
	}
	try := func(n int) (*ledger.AccountBlock, error) {
		data := make([]byte, n)
		d.R.Read(data)
		if n > 0 {
			data[0] = 0
		}
		to, tok := k.Addr, sim.Vite
		return d.A.SendMsg(k, &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, ToAddress: &to, TokenId: &tok, Amount: new(big.Int), Data: data, Difficulty: diff})
	}
	fit := -1
	if total >= 21000 {
		fit = int((total - 21000) / 28)
	}
	if b, err := try(fit + 1); err == nil {
		x.fail("over-quota-accepted", "%s has %d quota (%d from proof of work) and a block costing %d was accepted (charged %d)", k.Addr, total, total-uint64(left), 21000+28*(fit+1), b.QuotaUsed)
		return
	}
	x.r.Count("over_quota_refused", 1)
	n := fit
	if fit < 0 {
		return
	}
	if d.R.Intn(2) == 0 {
		n = d.R.Intn(min(fit, 400) + 1)
	}
	b, err := try(n)
	if powUsed && diff != nil {
		if err == nil {
			x.fail("pow-twice", "a second proof of work of %s was accepted before a snapshot", k.Addr)
			return
		}
		x.r.Count("second_pow_refused", 1)
		return
	}
	if err != nil {
		if strings.Contains(err.Error(), "quota") {
			x.fail("within-quota-refused", "%s has %d quota (%d from proof of work) and a block costing %d is refused: %v", k.Addr, total, total-uint64(left), 21000+28*n, err)
		} else {
			x.r.Count("spend_refused_otherwise", 1)
		}
		return
	}
	d.Accepted("spend", b)
	x.r.Count("spends", 1)
	if n == fit {
		x.r.Count("spends_to_the_limit", 1)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
