package sim

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// FP is everything a ledger answers, as text, so that two ledgers can be compared.
type FP map[string]string

type FPOpt struct {
	NoQuota   bool // leave out quota figures (they depend on unconfirmed blocks)
	NoGidList bool // leave out the per-group contract list
}

func hexs(b []byte) string {
	if len(b) > 64 {
		h := sha256.Sum256(b)
		return fmt.Sprintf("#%d:%x", len(b), h[:12])
	}
	return fmt.Sprintf("%x", b)
}

func blockSum(b *ledger.AccountBlock) string {
	buf, err := b.Serialize()
	if err != nil {
		return "err " + err.Error()
	}
	h := sha256.Sum256(buf)
	return fmt.Sprintf("%x", h[:12])
}

func snapSum(b *ledger.SnapshotBlock) string {
	buf, err := b.Serialize()
	if err != nil {
		return "err " + err.Error()
	}
	h := sha256.Sum256(buf)
	return fmt.Sprintf("%x", h[:12])
}

// Fingerprint queries the node for every fact reachable through its interface.
func Fingerprint(n *Node, o FPOpt) FP {
	f := FP{}
	c := n.Chain
	head := c.GetLatestSnapshotBlock()
	f["head"] = fmt.Sprintf("%d %s", head.Height, head.Hash)
	for h := uint64(1); h <= head.Height; h++ {
		sb, err := c.GetSnapshotBlockByHeight(h)
		if err != nil || sb == nil {
			f[fmt.Sprintf("snap/%d", h)] = fmt.Sprintf("missing %v", err)
			continue
		}
		f[fmt.Sprintf("snap/%d", h)] = snapSum(sb)
	}
	if sb, _ := c.GetSnapshotBlockByHeight(head.Height + 1); sb != nil {
		f["snap/above"] = "present"
	}
	var un []string
	for _, b := range c.GetAllUnconfirmedBlocks() {
		un = append(un, b.Hash.String()[:12])
	}
	sort.Strings(un)
	f["unconfirmed"] = strings.Join(un, ",")
	addrs := map[types.Address]bool{}
	c.IterateAccounts(func(a types.Address, id uint64, err error) bool { addrs[a] = true; return true })
	for _, a := range types.BuiltinContracts {
		addrs[a] = true
	}
	for _, k := range n.W.ByAddr {
		addrs[k.Addr] = true
	}
	var contracts []string
	c.IterateContracts(func(a types.Address, m *ledger.ContractMeta, err error) bool {
		if err == nil && m != nil {
			contracts = append(contracts, fmt.Sprintf("%s:%s/%d/%d/%d", a.String()[:16], m.Gid.Hex()[:6], m.SendConfirmedTimes, m.SeedConfirmedTimes, m.QuotaRatio))
			addrs[a] = true
		}
		return true
	})
	sort.Strings(contracts)
	f["contracts"] = strings.Join(contracts, " ")
	if !o.NoGidList {
		l, err := c.GetContractList(types.DELEGATE_GID)
		var s []string
		for _, a := range l {
			s = append(s, a.String()[:16])
			addrs[a] = true
		}
		sort.Strings(s)
		f["gidlist"] = fmt.Sprintf("%v %v", s, err)
	}
	raw, err := c.LoadAllOnRoad()
	if err != nil {
		f["onroad"] = err.Error()
	}
	for a, l := range raw {
		var s []string
		for _, h := range l {
			s = append(s, h.String()[:12])
		}
		sort.Strings(s)
		if len(s) > 0 {
			f["acc/"+a.String()+"/pending"] = strings.Join(s, ",")
		}
	}
	for a := range addrs {
		p := "acc/" + a.String() + "/"
		h, err := c.GetLatestAccountHeight(a)
		if err != nil {
			f[p+"height"] = err.Error()
			continue
		}
		lb, _ := c.GetLatestAccountBlock(a)
		if h == 0 && lb == nil {
			// no chain: only state that exists independent of a chain counts
		} else {
			f[p+"head"] = fmt.Sprintf("%d %s", h, lb.Hash)
		}
		m, err := c.GetBalanceMap(a)
		var bs []string
		for t, v := range m {
			if v.Sign() != 0 {
				bs = append(bs, t.String()+"="+v.String())
			}
		}
		sort.Strings(bs)
		if len(bs) > 0 || err != nil {
			f[p+"balance"] = fmt.Sprintf("%v %v", bs, err)
		}
		var road []string
		for page := 0; ; page++ {
			l, err := c.GetOnRoadBlocksByAddr(a, page, 100)
			if err != nil {
				road = append(road, err.Error())
				break
			}
			for _, b := range l {
				road = append(road, b.Hash.String()[:12])
			}
			if len(l) < 100 {
				break
			}
		}
		sort.Strings(road)
		if len(road) > 0 {
			f[p+"unreceived"] = strings.Join(road, ",")
		}
		if types.IsContractAddr(a) {
			if !types.IsBuiltinContractAddr(a) {
				meta, err := c.GetContractMeta(a)
				if meta != nil {
					f[p+"meta"] = fmt.Sprintf("%s/%d/%d/%d/%s %v", meta.Gid.Hex(), meta.SendConfirmedTimes, meta.SeedConfirmedTimes, meta.QuotaRatio, meta.CreateBlockHash, err)
				}
				code, err := c.GetContractCode(a)
				if len(code) > 0 || err != nil {
					f[p+"code"] = fmt.Sprintf("%s %v", hexs(code), err)
				}
			}
			var fr []string
			for _, b := range n.Front(a) {
				fr = append(fr, b.Hash.String()[:12])
			}
			sort.Strings(fr)
			if len(fr) > 0 {
				f[p+"front"] = strings.Join(fr, ",")
			}
			for k, v := range StorageOf(n, a) {
				f[p+"storage/"+hexs([]byte(k))] = hexs(v)
			}
		}
		if !o.NoQuota {
			if _, q, err := c.GetStakeQuota(a); err == nil && q != nil && (q.Current() != 0 || q.SnapshotCurrent() != 0) {
				f[p+"quota"] = fmt.Sprintf("%d %d %d", q.Current(), q.SnapshotCurrent(), q.StakeQuotaPerSnapshotBlock())
			}
		}
		if amt, err := c.GetStakeBeneficialAmount(a); err != nil || amt.Sign() != 0 {
			f[p+"stake"] = fmt.Sprintf("%v %v", amt, err)
		}
		for i := uint64(1); i <= h; i++ {
			b, err := c.GetAccountBlockByHeight(a, i)
			q := fmt.Sprintf("%sb/%d", p, i)
			if err != nil || b == nil {
				f[q] = fmt.Sprintf("missing %v", err)
				continue
			}
			t, err := c.GetConfirmedTimes(b.Hash)
			s := blockSum(b) + fmt.Sprintf(" confirmed=%d/%v", t, err)
			sb, err := c.GetConfirmSnapshotHeaderByAbHash(b.Hash)
			if sb != nil {
				s += fmt.Sprintf(" by=%d", sb.Height)
			} else if err != nil {
				s += " by=" + err.Error()
			}
			if b.LogHash != nil {
				l, err := c.GetVmLogList(b.LogHash)
				s += fmt.Sprintf(" logs=%d/%v", len(l), err)
				for _, x := range l {
					s += fmt.Sprintf("[%v %s]", x.Topics, hexs(x.Data))
				}
			}
			sends := b.SendBlockList
			if b.IsSendBlock() {
				sends = []*ledger.AccountBlock{b}
			}
			for _, x := range sends {
				r, err := c.GetReceiveAbBySendAb(x.Hash)
				if r != nil {
					s += " recv=" + r.Hash.String()[:12]
				} else if err != nil {
					s += " recv=" + err.Error()
				}
				d, err := c.GetCallDepth(x.Hash)
				s += fmt.Sprintf(" depth=%d/%v", d, err)
			}
			f[q] = s
		}
	}
	toks, err := c.GetAllTokenInfo()
	f["tokens"] = fmt.Sprintf("%d %v", len(toks), err)
	for t, i := range toks {
		f["token/"+t.String()] = fmt.Sprintf("%+v", *i)
	}
	regs, err := c.GetAllRegisterList(head.Hash, types.SNAPSHOT_GID)
	f["registers"] = fmt.Sprintf("%v", err)
	for _, r := range regs {
		f["register/"+r.Name] = fmt.Sprintf("%+v", *r)
	}
	votes, err := c.GetVoteList(head.Hash, types.SNAPSHOT_GID)
	var vs []string
	for _, v := range votes {
		vs = append(vs, v.VoteAddr.String()[:16]+">"+v.SbpName)
	}
	sort.Strings(vs)
	f["votes"] = fmt.Sprintf("%v %v", vs, err)
	return f
}

// StorageOf dumps the storage of a contract.
func StorageOf(n *Node, a types.Address) map[string][]byte {
	out := map[string][]byte{}
	it, err := n.Chain.GetStorageIterator(a, nil)
	if err != nil {
		out["<err>"] = []byte(err.Error())
		return out
	}
	defer it.Release()
	var last []byte
	for it.Next() {
		k := append([]byte{}, it.Key()...)
		if last != nil && bytes.Compare(last, k) >= 0 {
			out["<order>"] = append([]byte{}, k...)
		}
		last = k
		out[string(k)] = append([]byte{}, it.Value()...)
	}
	if err := it.Error(); err != nil {
		out["<err>"] = []byte(err.Error())
	}
	return out
}

// Diff lists what differs between two fingerprints.
func Diff(want, got FP) []string {
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var out []string
	for k := range keys {
		if want[k] != got[k] {
			out = append(out, fmt.Sprintf("%s: expected %q, got %q", k, want[k], got[k]))
		}
	}
	sort.Strings(out)
	return out
}

// SerAB and SerSB are the stored forms used to compare blocks.
func SerAB(b *ledger.AccountBlock) []byte {
	buf, err := b.Serialize()
	if err != nil {
		return []byte("err " + err.Error())
	}
	return buf
}
func SerSB(b *ledger.SnapshotBlock) []byte {
	buf, err := b.Serialize()
	if err != nil {
		return []byte("err " + err.Error())
	}
	return buf
}
