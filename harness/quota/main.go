// Command quota drives the real quota computation over generated accounts: stake, proof of
// work, congestion, used-quota windows and blocked contracts, against a model written from
// the published rules.
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/pow"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

var forkNames = []string{"SeedFork", "DexFork", "DexFeeFork", "StemFork", "LeafFork", "EarthFork", "DexMiningFork", "DexRobotFork", "DexStableMarketFork", "Version10Upgrade", "Version11Upgrade"}

const (
	section = 280
	last    = 3571
	gap     = 21000 * 74
	limit   = 1000000
)

var e18 = big.NewInt(1e18)

type db struct {
	global uint64
	list   []types.QuotaInfo
	unconf []*ledger.AccountBlock
	prev   *ledger.AccountBlock
	times  uint64
}

func (d *db) GetGlobalQuota() types.QuotaInfo                                   { return types.QuotaInfo{QuotaUsedTotal: d.global} }
func (d *db) GetQuotaUsedList(types.Address) []types.QuotaInfo                  { return d.list }
func (d *db) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock         { return d.unconf }
func (d *db) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) { return d.prev, nil }
func (d *db) GetConfirmedTimes(types.Hash) (uint64, error)                      { return d.times, nil }

type tables struct {
	stake, diff []*big.Int
	qc          map[uint64]*big.Int
}

// read the published lists through the node's own queries
func load(r *vrep.R) *tables {
	t := &tables{qc: map[uint64]*big.Int{}}
	h := sha256.New()
	for i := 0; i <= last; i++ {
		s, err := quota.CalcStakeAmountByQuota(uint64(i) * section)
		if err != nil {
			r.Violate("tables", "stake-list", "no stake amount for quota %d: %v", i*section, err)
			return nil
		}
		t.stake = append(t.stake, s)
		d, err := quota.CalcPoWDifficulty(&db{}, uint64(i)*section, types.NewQuota(0, 0, 0, 0, false, 0), 10000)
		if err != nil {
			r.Violate("tables", "difficulty-list", "no difficulty for quota %d: %v", i*section, err)
			return nil
		}
		t.diff = append(t.diff, d)
		fmt.Fprintf(h, "%v %v\n", s, d)
		if i > 0 && (t.stake[i].Cmp(t.stake[i-1]) <= 0 || t.diff[i].Cmp(t.diff[i-1]) <= 0) {
			r.Violate("tables", "not-monotone", "quota %d does not need more stake or work than quota %d", i*section, (i-1)*section)
		}
		r.Eval(fmt.Sprint("row", i), i > 0)
	}
	prev := new(big.Int).Set(e18)
	for k := uint64(0); k <= 520; k++ {
		for _, g := range []uint64{k * gap, k*gap + 1, k*gap + gap - 1} {
			i := (g + gap - 1) / gap
			qc, used, cong := quota.CalcQc(&db{global: g}, 10000)
			if used != g || cong != (i >= 51) {
				r.Violate("tables", "congestion-start", "global use %d: congested %v, reported %d", g, cong, used)
			}
			if !cong {
				continue
			}
			if i > 500 {
				i = 500
			}
			if o := t.qc[i]; o != nil && o.Cmp(qc) != 0 {
				r.Violate("tables", "congestion-step", "global use %d gives factor %v, others of the same step give %v", g, qc, o)
			}
			t.qc[i] = new(big.Int).Set(qc)
			if qc.Cmp(prev) > 0 || qc.Sign() <= 0 {
				r.Violate("tables", "congestion-order", "global use %d: factor %v after %v", g, qc, prev)
			}
			prev = t.qc[i]
			r.Eval(fmt.Sprint("qc", g), true)
		}
	}
	var ks []int
	for k := range t.qc {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(h, "%d %v\n", k, t.qc[uint64(k)])
	}
	sum := fmt.Sprintf("%x", h.Sum(nil)[:16])
	if sum != golden {
		r.Violate("tables", "published-lists", "the published stake, difficulty and congestion lists changed: checksum %s, was %s", sum, golden)
	}
	return t
}

func index(x *big.Int, l []*big.Int) uint64 {
	if x == nil || x.Sign() <= 0 {
		return 0
	}
	n := uint64(0)
	for i := 1; i < len(l); i++ {
		if l[i].Cmp(x) <= 0 {
			n = uint64(i)
		}
	}
	return n
}

func (t *tables) factor(g uint64) *big.Int {
	i := (g + gap - 1) / gap
	if i < 51 {
		return nil
	}
	if i > 500 {
		i = 500
	}
	return t.qc[i]
}

func scaled(x, f *big.Int) *big.Int {
	if x == nil || f == nil {
		return x
	}
	y := new(big.Int).Mul(x, f)
	return y.Div(y, e18)
}

func amount(rnd *rand.Rand, l []*big.Int) *big.Int {
	switch rnd.Intn(10) {
	case 0:
		return nil
	case 1:
		return big.NewInt(0)
	case 2:
		x := new(big.Int).Mul(l[last], big.NewInt(int64(1+rnd.Intn(1000))))
		return x.Add(x, big.NewInt(int64(rnd.Intn(3))))
	case 3:
		return big.NewInt(int64(rnd.Intn(3)))
	case 4, 5:
		x := l[1+rnd.Intn(last)]
		if rnd.Intn(3) == 0 {
			x = l[[]int{1, 2, last - 1, last}[rnd.Intn(4)]]
		}
		y := new(big.Int).Add(x, big.NewInt(int64(rnd.Intn(3)-1)))
		return y
	}
	return new(big.Int).Rand(rnd, l[1+rnd.Intn(last)])
}

func pick(rnd *rand.Rand, v ...uint64) uint64 { return v[rnd.Intn(len(v))] }

func run(r *vrep.R, t *tables, name string, rnd *rand.Rand) {
	d := &db{}
	height := uint64(10000)
	early := rnd.Intn(12) == 0
	if early {
		height = 150 // before congestion pricing
	}
	switch rnd.Intn(4) {
	case 0:
		d.global = uint64(rnd.Intn(60 * gap))
	case 1:
		d.global = uint64(rnd.Int63n(600 * gap))
	case 2:
		d.global = pick(rnd, 50, 51, 52, 499, 500, 501)*gap + pick(rnd, 0, 1, gap-1)
	}
	f := t.factor(d.global)
	if early {
		f = nil
	}
	stake := amount(rnd, t.stake)
	var diff *big.Int
	if rnd.Intn(2) == 0 {
		diff = amount(rnd, t.diff)
	}
	addr := types.Address{}
	rnd.Read(addr[:20])
	contract := rnd.Intn(3) == 0
	if contract {
		addr[20] = 1
	}
	blockType := []byte{ledger.BlockTypeSendCall, ledger.BlockTypeReceive, ledger.BlockTypeReceiveError, ledger.BlockTypeSendCreate}[rnd.Intn(4)]
	if rnd.Intn(3) > 0 {
		d.prev = &ledger.AccountBlock{BlockType: blockType}
		d.times = pick(rnd, 0, 1, 73, 74, 75, 76, 1000, uint64(rnd.Intn(100)))
	}
	perSnap := section * index(scaled(stake, f), t.stake)
	powQuota := section * index(scaled(diff, f), t.diff)
	n := rnd.Intn(80)
	if rnd.Intn(4) == 0 {
		n = rnd.Intn(3)
	}
	// the window: usually spends within what is available, sometimes beyond
	avail := uint64(0)
	var used, count uint64
	for i := 0; i < n; i++ {
		avail += perSnap
		q := types.QuotaInfo{}
		if rnd.Intn(3) > 0 && avail > 0 {
			q.QuotaTotal = uint64(rnd.Int63n(int64(avail) + 1))
			if rnd.Intn(4) == 0 {
				q.QuotaTotal = avail
			}
			if rnd.Intn(20) == 0 {
				q.QuotaTotal = avail + uint64(rnd.Intn(100000))
			}
		} else if rnd.Intn(10) == 0 {
			q.QuotaTotal = uint64(rnd.Intn(30000))
		}
		if q.QuotaTotal > 0 {
			q.BlockCount = uint64(1 + rnd.Intn(5))
			q.QuotaUsedTotal = q.QuotaTotal + uint64(rnd.Intn(3))*uint64(rnd.Intn(30000))
		}
		used += q.QuotaUsedTotal
		count += q.BlockCount
		if i < n-1 {
			if q.QuotaTotal > avail {
				avail = 0
			} else {
				avail -= q.QuotaTotal
			}
		}
		d.list = append(d.list, q)
	}
	unconf := uint64(0)
	if n > 0 {
		unconf = d.list[n-1].QuotaTotal
	}
	powBefore := false
	for i := rnd.Intn(4); i > 0; i-- {
		b := &ledger.AccountBlock{}
		if rnd.Intn(5) == 0 {
			b.Nonce = []byte{0, 0, 0, 0, 0, 0, 0, byte(i)}
			powBefore = true
		}
		d.unconf = append(d.unconf, b)
	}
	snapCur := avail
	avg := uint64(0)
	if count > 0 {
		avg = used / count
	}
	blocked := contract && d.prev != nil && blockType == ledger.BlockTypeReceiveError && d.times < 75
	over := unconf > snapCur
	left := uint64(0)
	if !over && !blocked {
		left = snapCur - unconf
	}
	tell := fmt.Sprintf("stake %v difficulty %v global %d height %d window %v contract %v last block type %d confirmed %d", stake, diff, d.global, height, d.list, contract, blockType, d.times)
	if len(tell) > 1500 {
		tell = tell[:1500] + "..."
	}
	fail := func(key, format string, a ...interface{}) {
		r.Violate(name, key, "%s\n%s", fmt.Sprintf(format, a...), tell)
	}

	// for a block
	total, add, err := quota.GetQuotaForBlock(d, addr, stake, diff, height)
	pw := diff != nil && diff.Sign() > 0
	var wt, wa uint64
	var we error
	switch {
	case pw && powBefore:
		we = util.ErrCalcPoWTwice
		r.Count("second_proof_of_work_refused", 1)
	case over:
		we = util.ErrInvalidUnconfirmedQuota
		r.Count("overspent_windows_refused", 1)
	case blocked:
		r.Count("blocked_contracts", 1)
	default:
		wa = powQuota
		wt = left + wa
		if wt > limit {
			wt = limit
		}
		if wa > limit {
			wa = limit
		}
	}
	if err != we || total != wt || add != wa {
		fail("quota-for-block", "quota for a block: %d, of it work %d (%v); the rules give %d, %d (%v)", total, add, err, wt, wa, we)
	}
	if total > limit || add > total {
		fail("block-limit", "quota for a block: %d, of it work %d", total, add)
	}
	// for the account
	q, err := quota.GetQuota(d, addr, stake, height)
	we = nil
	if over {
		we = util.ErrInvalidUnconfirmedQuota
	}
	rel := uint64(0)
	if blocked {
		rel = 75 - d.times
	}
	if err != we || q.Current() != left || q.StakeQuotaPerSnapshotBlock() != perSnap || q.SnapshotCurrent() != snapCur || q.Avg() != avg || q.Blocked() != blocked || q.BlockReleaseHeight() != rel {
		fail("quota-of-account", "quota of the account: %+v (%v); the rules give current %d, per snapshot %d, at snapshot %d, average %d, blocked %v for %d (%v)", q, err, left, perSnap, snapCur, avg, blocked, rel, we)
	}
	if s, err := quota.GetSnapshotCurrentQuota(d, addr, stake, height); err != nil || s != snapCur {
		fail("snapshot-quota", "quota at the snapshot: %d (%v), the rules give %d", s, err, snapCur)
	}
	ok, wait := quota.CheckQuota(d, q, addr)
	wok := !blocked && left >= avg
	ww := uint64(0)
	if blocked {
		ww = rel
	} else if !wok {
		ww = 1
	}
	if ok != wok || wait != ww {
		fail("may-receive", "contract may receive: %v, else wait %d; the rules give %v, %d", ok, wait, wok, ww)
	}
	// charged to stake
	b := &ledger.AccountBlock{QuotaUsed: uint64(rnd.Intn(limit)), Difficulty: diff}
	if rnd.Intn(3) == 0 {
		b.QuotaUsed = powQuota + uint64(rnd.Intn(3)) - 1
	}
	if pw && rnd.Intn(4) > 0 {
		b.Nonce = []byte{1}
	}
	want := b.QuotaUsed
	if len(b.Nonce) > 0 {
		if want > powQuota {
			want -= powQuota
		} else {
			want = 0
		}
	}
	if got, err := quota.CalcBlockQuotaUsed(d, b, height); err != nil || got != want {
		fail("charged", "block using %d with work worth %d (nonce %x) is charged %d (%v), the rules give %d", b.QuotaUsed, powQuota, b.Nonce, got, err, want)
	}
	// the difficulty asked for a wanted quota buys it
	need := uint64(rnd.Intn(1100000))
	if rnd.Intn(3) == 0 {
		need = pick(rnd, 21000, 280, 279, 281, 999880, 999881, 1000000, 1000001)
	}
	if !over && !blocked {
		dd, err := quota.CalcPoWDifficulty(d, need, q, height)
		switch {
		case need > limit:
			if err == nil {
				fail("difficulty-limit", "difficulty %v answered for quota %d", dd, need)
			}
		case left >= need:
			if err != nil || dd.Sign() != 0 {
				fail("difficulty-not-needed", "difficulty %v (%v) asked although %d quota is available for %d", dd, err, left, need)
			}
		case need <= last*section:
			if err != nil {
				fail("difficulty", "no difficulty for quota %d: %v", need, err)
				break
			}
			got := section * index(scaled(dd, f), t.diff)
			if got < need || got >= need+section {
				fail("difficulty", "difficulty %v asked for quota %d buys %d", dd, need, got)
			}
			r.Count("difficulties_checked", 1)
		}
	}
	if f != nil {
		r.Count("congested", 1)
	}
	if pw {
		r.Count("with_work", 1)
	}
	r.Count("accounts", 1)
	r.Eval(tell, true)

	// proof of work itself
	pd := new(big.Int).Add(new(big.Int).Rand(rnd, t.diff[1+rnd.Intn(last)]), big.NewInt(1))
	if rnd.Intn(2) == 0 {
		pd = big.NewInt(int64(1 + rnd.Intn(200)))
	}
	data := make([]byte, 32)
	nonce := make([]byte, 8)
	rnd.Read(data)
	rnd.Read(nonce)
	sum := blake2b.Sum256(append(append([]byte{}, nonce...), data...))
	x := new(big.Int).SetBytes(sum[:])
	// exact bound 2^256 d/(d+1); 2^-60 of it is left to rounding
	two := new(big.Int).Lsh(big.NewInt(1), 256)
	target := new(big.Int).Mul(two, pd)
	target.Div(target, new(big.Int).Add(pd, big.NewInt(1)))
	eps := new(big.Int).Rsh(target, 60)
	dist := new(big.Int).Sub(x, target)
	if dist.CmpAbs(eps) > 0 {
		if got := pow.CheckPowNonce(pd, nonce, data); got != (dist.Sign() > 0) {
			fail("proof-of-work", "nonce %x for difficulty %v accepted: %v, hash is %x", nonce, pd, got, sum)
		}
		if dist.Sign() > 0 {
			r.Count("good_nonces", 1)
		} else {
			r.Count("bad_nonces", 1)
		}
	}
	if pd.BitLen() < 10 {
		var dh types.Hash
		copy(dh[:], data)
		nn, err := pow.GetPowNonce(pd, dh)
		if err != nil || !pow.CheckPowNonce(pd, nn, data) {
			fail("found-nonce", "nonce %x found for difficulty %v does not verify (%v)", nn, pd, err)
		}
	}
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	upgrade.CleanupUpgradeBox()
	m := map[string]*upgrade.UpgradePoint{}
	for i, n := range forkNames {
		m[n] = &upgrade.UpgradePoint{Name: n, Height: uint64(i+1) * 100, Version: uint32(i + 1)}
	}
	upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(m))
	quota.InitQuotaConfig(false, false)
	r := vrep.Open("C11", "one account (stake, work, window, congestion, last block) asked for every quota figure, or one table row; distinct by account")
	defer r.Close()
	t := load(r)
	if t == nil {
		return
	}
	n := r.Scale(150000, 2000000)
	vrep.Parallel(n, 8, func(i int) {
		name := fmt.Sprintf("a%d", i)
		if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
			return
		}
		r.Guard(name, "panic", func() { run(r, t, name, r.Rand(name)) })
	})
}

const golden = "d672e7a322c78c8635f86a55582fb54c"
