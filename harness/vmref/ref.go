package main

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

// The reference interpreter: written from the definition of the instruction set, on plain
// big integers that are never shared between two places.

var (
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
	two255 = new(big.Int).Lsh(big.NewInt(1), 255)
	one    = big.NewInt(1)
)

func wrap(x *big.Int) *big.Int { return new(big.Int).Mod(x, two256) }
func signed(x *big.Int) *big.Int {
	if x.Cmp(two255) >= 0 {
		return new(big.Int).Sub(x, two256)
	}
	return new(big.Int).Set(x)
}
func boolInt(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}
func word(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return b
}

// outcome classes
const (
	oOK = iota
	oFail
	oQuota
	oRetry
)

type sendReq struct {
	to    types.Address
	token types.TokenTypeId
	amt   *big.Int
	data  []byte
}

type ref struct {
	e         *env
	code      []byte
	data      []byte
	quota     uint64
	offchain  bool
	t         *util.QuotaTable
	caller    types.Address
	value     *big.Int
	token     types.TokenTypeId
	from      types.Hash
	st        []*big.Int
	mem       []byte
	memCost   uint64
	pc        uint64
	storage   map[types.Hash][]byte // current, contract level
	touched   map[types.Hash]bool
	written   map[types.Hash]bool
	logs      []*ledger.VmLog
	sends     []sendReq
	ret       []byte
	balances  map[types.TokenTypeId]*big.Int
	unmodeled string
	noStatus  bool // a status instruction ran without a status
	steps     int
	ops       map[byte]int
	randomN   int
	dests     map[uint64]bool
	pre       func(op byte, st []*big.Int) // observer
}

func (r *ref) jumpdests() {
	r.dests = map[uint64]bool{}
	for i := 0; i < len(r.code); i++ {
		op := r.code[i]
		if op == 0x5b {
			r.dests[uint64(i)] = true
		}
		if op >= 0x60 && op <= 0x7f {
			i += int(op-0x60) + 1
		}
	}
}

type opInfo struct{ pop, push int }

var opTable = map[byte]opInfo{
	0x00: {0, 0}, 0x01: {2, 1}, 0x02: {2, 1}, 0x03: {2, 1}, 0x04: {2, 1}, 0x05: {2, 1}, 0x06: {2, 1}, 0x07: {2, 1},
	0x08: {3, 1}, 0x09: {3, 1}, 0x0a: {2, 1}, 0x0b: {2, 1},
	0x10: {2, 1}, 0x11: {2, 1}, 0x12: {2, 1}, 0x13: {2, 1}, 0x14: {2, 1}, 0x15: {1, 1}, 0x16: {2, 1}, 0x17: {2, 1},
	0x18: {2, 1}, 0x19: {1, 1}, 0x1a: {2, 1}, 0x1b: {2, 1}, 0x1c: {2, 1}, 0x1d: {2, 1},
	0x20: {2, 1}, 0x21: {2, 1},
	0x30: {0, 1}, 0x31: {1, 1}, 0x33: {0, 1}, 0x34: {0, 1}, 0x35: {1, 1}, 0x36: {0, 1}, 0x37: {3, 0}, 0x38: {0, 1}, 0x39: {3, 0},
	0x3d: {0, 1}, 0x3e: {3, 0},
	0x42: {0, 1}, 0x43: {0, 1}, 0x46: {0, 1}, 0x47: {0, 1}, 0x48: {0, 1}, 0x49: {0, 1}, 0x4a: {0, 1}, 0x4b: {0, 1},
	0x50: {1, 0}, 0x51: {1, 1}, 0x52: {2, 0}, 0x53: {2, 0}, 0x54: {1, 1}, 0x55: {2, 0}, 0x56: {1, 0}, 0x57: {2, 0},
	0x58: {0, 1}, 0x59: {0, 1}, 0x5b: {0, 0},
	0xa0: {2, 0}, 0xa1: {3, 0}, 0xa2: {4, 0}, 0xa3: {5, 0}, 0xa4: {6, 0},
	0xf1: {5, 0}, 0xf2: {5, 1}, 0xf3: {2, 0}, 0xfd: {2, 0},
}

func init() {
	for i := 0; i < 32; i++ {
		opTable[byte(0x60+i)] = opInfo{0, 1}
	}
	for i := 1; i <= 16; i++ {
		opTable[byte(0x7f+i)] = opInfo{i, i + 1}
		opTable[byte(0x8f+i)] = opInfo{i + 1, i + 1}
	}
}

// sarZero: what the machine answers for an arithmetic right shift of zero by 256 or more
// (see known-findings); found out by a probe.
var sarZero = new(big.Int)

func (r *ref) top(i int) *big.Int { return r.st[len(r.st)-1-i] }
func (r *ref) pop() *big.Int {
	x := r.st[len(r.st)-1]
	r.st = r.st[:len(r.st)-1]
	return x
}
func (r *ref) push(x *big.Int) { r.st = append(r.st, wrap(x)) }

// extent returns the memory size an access needs, or false.
func extent(off, l *big.Int) (uint64, bool) {
	if l.Sign() == 0 {
		return 0, true
	}
	end := new(big.Int).Add(off, l)
	if end.BitLen() > 40 || end.Uint64() > 0xffffffffe0 {
		return 0, false
	}
	return (end.Uint64() + 31) / 32 * 32, true
}

func (r *ref) charge(n uint64) bool {
	if n > r.quota {
		r.quota = 0
		return false
	}
	r.quota -= n
	return true
}

func (r *ref) slice(src []byte, off, l *big.Int) []byte {
	n := int(l.Uint64())
	out := make([]byte, n)
	if off.BitLen() <= 32 && off.Uint64() < uint64(len(src)) {
		copy(out, src[off.Uint64():])
	}
	return out
}

func (r *ref) getStorage(k types.Hash) []byte {
	if v, ok := r.storage[k]; ok {
		return v
	}
	return r.e.chain.storage[k]
}

func toAddr(x *big.Int) (a types.Address) {
	if x.BitLen() <= 8*21 {
		b := make([]byte, 21)
		x.FillBytes(b)
		copy(a[:], b)
	}
	return
}
func toToken(x *big.Int) (a types.TokenTypeId) {
	if x.BitLen() <= 80 {
		b := make([]byte, 10)
		x.FillBytes(b)
		copy(a[:], b)
	}
	return
}
func toHash(x *big.Int) (h types.Hash) {
	copy(h[:], word(x))
	return
}

// callQuota is the quota of an outgoing call, or a failure class.
func (r *ref) callQuota(to types.Address, dlen uint64) (uint64, int) {
	ratio := uint64(10)
	if to[20] == 1 {
		if types.IsBuiltinContractAddrInUse(to) {
			r.unmodeled = "call to a built-in contract"
			return 0, oFail
		}
		var meta *ledger.ContractMeta
		switch {
		case !r.offchain && r.e.status != nil:
			meta = r.e.chain.metas[to]
			if meta == nil {
				return 0, oFail
			}
		case r.e.chain.confirmed:
			meta = r.e.chain.metas[to]
			if meta == nil {
				return 0, oFail
			}
		default:
			meta = r.e.chain.metas[to]
			if meta == nil {
				return 0, oRetry
			}
		}
		ratio = uint64(meta.QuotaRatio)
	}
	cost := r.t.TxQuota + dlen*r.t.TxDataQuota
	if ratio != 10 {
		cost = cost * ratio / 10
	}
	if cost > r.t.CallMinusQuota {
		return cost - r.t.CallMinusQuota, oOK
	}
	return 0, oOK
}

// run executes the code; it returns the class of the outcome.
func (r *ref) run() int {
	r.jumpdests()
	t := r.t
	for {
		r.steps++
		if r.steps > 3000000 {
			r.unmodeled = "does not terminate in the reference"
			return oFail
		}
		op := byte(0)
		if r.pc < uint64(len(r.code)) {
			op = r.code[r.pc]
		}
		info, ok := opTable[op]
		if !ok {
			return oFail
		}
		if len(r.st) < info.pop || len(r.st)-info.pop+info.push > 1024 {
			return oFail
		}
		r.ops[op]++
		if r.pre != nil {
			r.pre(op, r.st)
		}
		// memory
		var need uint64
		fit := true
		switch op {
		case 0x20, 0x21, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xf3, 0xfd:
			need, fit = extent(r.top(0), r.top(1))
		case 0x37, 0x39, 0x3e:
			need, fit = extent(r.top(0), r.top(2))
		case 0x51, 0x52:
			need, fit = extent(r.top(0), big.NewInt(32))
		case 0x53:
			need, fit = extent(r.top(0), one)
		case 0xf1, 0xf2:
			need, fit = extent(r.top(3), r.top(4))
		}
		if !fit {
			return oFail
		}
		var memFee uint64
		if need > uint64(len(r.mem)) {
			w := need / 32
			total := w*t.MemQuota + w*w/t.MemQuotaDivision
			memFee = total - r.memCost
			r.memCost = total
		}
		words := func(x *big.Int) uint64 { return (x.Uint64() + 31) / 32 }
		var cost, back uint64
		switch op {
		case 0x00:
		case 0x01:
			cost = t.AddQuota
		case 0x02:
			cost = t.MulQuota
		case 0x03:
			cost = t.SubQuota
		case 0x04:
			cost = t.DivQuota
		case 0x05:
			cost = t.SDivQuota
		case 0x06:
			cost = t.ModQuota
		case 0x07:
			cost = t.SModQuota
		case 0x08:
			cost = t.AddModQuota
		case 0x09:
			cost = t.MulModQuota
		case 0x0a:
			cost = t.ExpQuota + uint64((r.top(1).BitLen()+7)/8)*t.ExpByteQuota
		case 0x0b:
			cost = t.SignExtendQuota
		case 0x10:
			cost = t.LtQuota
		case 0x11:
			cost = t.GtQuota
		case 0x12:
			cost = t.SltQuota
		case 0x13:
			cost = t.SgtQuota
		case 0x14:
			cost = t.EqQuota
		case 0x15:
			cost = t.IsZeroQuota
		case 0x16:
			cost = t.AndQuota
		case 0x17:
			cost = t.OrQuota
		case 0x18:
			cost = t.XorQuota
		case 0x19:
			cost = t.NotQuota
		case 0x1a:
			cost = t.ByteQuota
		case 0x1b:
			cost = t.ShlQuota
		case 0x1c:
			cost = t.ShrQuota
		case 0x1d:
			cost = t.SarQuota
		case 0x20, 0x21:
			cost = t.Blake2bQuota + words(r.top(1))*t.Blake2bWordQuota
		case 0x30:
			cost = t.AddressQuota
		case 0x31:
			cost = t.BalanceQuota
		case 0x33:
			cost = t.CallerQuota
		case 0x34:
			cost = t.CallValueQuota
		case 0x35:
			cost = t.CallDataLoadQuota
		case 0x36:
			cost = t.CallDataSizeQuota
		case 0x37:
			cost = t.CallDataCopyQuota + words(r.top(2))*t.MemCopyWordQuota
		case 0x38:
			cost = t.CodeSizeQuota
		case 0x39:
			cost = t.CodeCopyQuota + words(r.top(2))*t.MemCopyWordQuota
		case 0x3d:
			cost = t.ReturnDataSizeQuota
		case 0x3e:
			cost = t.ReturnDataCopyQuota + words(r.top(2))*t.MemCopyWordQuota
		case 0x42:
			cost = t.TimestampQuota
		case 0x43:
			cost = t.HeightQuota
		case 0x46:
			cost = t.TokenIDQuota
		case 0x47:
			cost = t.AccountHeightQuota
		case 0x48:
			cost = t.PreviousHashQuota
		case 0x49:
			cost = t.FromBlockHashQuota
		case 0x4a:
			cost = t.SeedQuota
		case 0x4b:
			cost = t.RandomQuota
		case 0x50:
			cost = t.PopQuota
		case 0x51:
			cost = t.MloadQuota
		case 0x52:
			cost = t.MstoreQuota
		case 0x53:
			cost = t.Mstore8Quota
		case 0x54:
			cost = t.SloadQuota
		case 0x55:
			k := toHash(r.top(0))
			r.touched[k] = true
			if !r.offchain && len(r.touched) > 100 {
				return oFail
			}
			val := string(r.top(1).Bytes())
			cur := string(r.getStorage(k))
			orig := string(r.e.chain.storage[k])
			switch {
			case val == cur:
				cost = t.SstoreNoopQuota
			case cur == orig && orig == "":
				cost = t.SstoreInitQuota
			case cur == orig && val == "":
				cost = t.SstoreCleanQuota
			case cur == orig:
				cost = t.SstoreResetQuota
			case val == orig && orig == "":
				back = t.SstoreInitQuota - t.SstoreMemQuota - t.SstoreNoopQuota
			case val == orig && cur == "":
				cost = t.SstoreNoopQuota + t.SstoreMemQuota - t.SstoreCleanQuota
			case val == orig:
				back = t.SstoreResetQuota - t.SstoreMemQuota - t.SstoreNoopQuota
			case orig != "" && cur == "":
				cost = t.SstoreResetQuota + t.SstoreMemQuota - t.SstoreCleanQuota
			case orig != "" && val == "":
				back = t.SstoreResetQuota - t.SstoreMemQuota - t.SstoreCleanQuota
			default:
				cost = t.SstoreMemQuota
			}
		case 0x56:
			cost = t.JumpQuota
		case 0x57:
			cost = t.JumpiQuota
		case 0x58:
			cost = t.PcQuota
		case 0x59:
			cost = t.MsizeQuota
		case 0x5b:
			cost = t.JumpdestQuota
		case 0xa0, 0xa1, 0xa2, 0xa3, 0xa4:
			cost = t.LogQuota + uint64(op-0xa0)*t.LogTopicQuota + r.top(1).Uint64()*t.LogDataQuota
		case 0xf1, 0xf2:
			if memFee > r.quota {
				r.quota = 0
				return oQuota
			}
			// data beyond the memory in use is not charged for
			dlen := r.top(4).Uint64()
			if dlen == 0 || r.top(3).Uint64() >= uint64(len(r.mem)) {
				dlen = 0
			}
			c, cl := r.callQuota(toAddr(r.top(0)), dlen)
			if cl != oOK {
				return cl
			}
			cost = c
		case 0xf3, 0xfd:
		default:
			switch {
			case op >= 0x60 && op <= 0x7f:
				cost = t.PushQuota
			case op >= 0x80 && op <= 0x8f:
				cost = t.DupQuota
			case op >= 0x90 && op <= 0x9f:
				cost = t.SwapQuota
			}
		}
		if back > 0 {
			r.quota += back
		} else if !r.charge(cost + memFee) {
			return oQuota
		}
		if need > uint64(len(r.mem)) {
			r.mem = append(r.mem, make([]byte, need-uint64(len(r.mem)))...)
		}
		if !r.offchain && r.e.status == nil {
			switch op {
			case 0x42, 0x43, 0x4a, 0x4b:
				r.noStatus = true
				return oFail
			}
		}
		area := func(off, l *big.Int) []byte {
			if l.Sign() == 0 {
				return nil
			}
			return append([]byte{}, r.mem[off.Uint64():off.Uint64()+l.Uint64()]...)
		}
		next := r.pc + 1
		switch op {
		case 0x00:
			return oOK
		case 0x01:
			x, y := r.pop(), r.pop()
			r.push(new(big.Int).Add(x, y))
		case 0x02:
			x, y := r.pop(), r.pop()
			r.push(new(big.Int).Mul(x, y))
		case 0x03:
			x, y := r.pop(), r.pop()
			r.push(new(big.Int).Sub(x, y))
		case 0x04:
			x, y := r.pop(), r.pop()
			if y.Sign() == 0 {
				r.push(new(big.Int))
			} else {
				r.push(new(big.Int).Quo(x, y))
			}
		case 0x05:
			x, y := signed(r.pop()), signed(r.pop())
			if y.Sign() == 0 {
				r.push(new(big.Int))
			} else {
				r.push(new(big.Int).Quo(x, y))
			}
		case 0x06:
			x, y := r.pop(), r.pop()
			if y.Sign() == 0 {
				r.push(new(big.Int))
			} else {
				r.push(new(big.Int).Rem(x, y))
			}
		case 0x07:
			x, y := signed(r.pop()), signed(r.pop())
			if y.Sign() == 0 {
				r.push(new(big.Int))
			} else {
				r.push(new(big.Int).Rem(x, y))
			}
		case 0x08, 0x09:
			x, y, z := r.pop(), r.pop(), r.pop()
			if z.Sign() == 0 {
				r.push(new(big.Int))
			} else if op == 0x08 {
				r.push(new(big.Int).Rem(new(big.Int).Add(x, y), z))
			} else {
				r.push(new(big.Int).Rem(new(big.Int).Mul(x, y), z))
			}
		case 0x0a:
			x, y := r.pop(), r.pop()
			r.push(new(big.Int).Exp(x, y, two256))
		case 0x0b:
			k, x := r.pop(), r.pop()
			if k.Cmp(big.NewInt(31)) < 0 {
				bits := uint(k.Uint64()*8 + 8)
				mod := new(big.Int).Lsh(one, bits)
				x = new(big.Int).Mod(x, mod)
				if x.Bit(int(bits)-1) == 1 {
					x.Sub(x, mod)
				}
			}
			r.push(x)
		case 0x10:
			x, y := r.pop(), r.pop()
			r.push(boolInt(x.Cmp(y) < 0))
		case 0x11:
			x, y := r.pop(), r.pop()
			r.push(boolInt(x.Cmp(y) > 0))
		case 0x12:
			x, y := signed(r.pop()), signed(r.pop())
			r.push(boolInt(x.Cmp(y) < 0))
		case 0x13:
			x, y := signed(r.pop()), signed(r.pop())
			r.push(boolInt(x.Cmp(y) > 0))
		case 0x14:
			x, y := r.pop(), r.pop()
			r.push(boolInt(x.Cmp(y) == 0))
		case 0x15:
			r.push(boolInt(r.pop().Sign() == 0))
		case 0x16, 0x17, 0x18:
			a, b := word(r.pop()), word(r.pop())
			for i := range a {
				switch op {
				case 0x16:
					a[i] &= b[i]
				case 0x17:
					a[i] |= b[i]
				default:
					a[i] ^= b[i]
				}
			}
			r.push(new(big.Int).SetBytes(a))
		case 0x19:
			a := word(r.pop())
			for i := range a {
				a[i] = ^a[i]
			}
			r.push(new(big.Int).SetBytes(a))
		case 0x1a:
			i, x := r.pop(), r.pop()
			if i.Cmp(big.NewInt(32)) < 0 {
				r.push(big.NewInt(int64(word(x)[i.Uint64()])))
			} else {
				r.push(new(big.Int))
			}
		case 0x1b, 0x1c, 0x1d:
			s, x := r.pop(), r.pop()
			big256 := s.Cmp(big.NewInt(256)) >= 0
			switch {
			case op == 0x1d && big256:
				switch signed(x).Sign() {
				case -1:
					r.push(big.NewInt(-1))
				case 0:
					r.push(sarZero)
				default:
					r.push(new(big.Int))
				}
			case big256:
				r.push(new(big.Int))
			case op == 0x1b:
				r.push(new(big.Int).Mul(x, new(big.Int).Lsh(one, uint(s.Uint64()))))
			case op == 0x1c:
				r.push(new(big.Int).Quo(x, new(big.Int).Lsh(one, uint(s.Uint64()))))
			default:
				// floor division of the signed value
				d := new(big.Int).Lsh(one, uint(s.Uint64()))
				r.push(new(big.Int).Div(signed(x), d))
			}
		case 0x20:
			o, l := r.pop(), r.pop()
			r.push(new(big.Int).SetBytes(keccak(area(o, l))))
		case 0x21:
			o, l := r.pop(), r.pop()
			r.push(new(big.Int).SetBytes(crypto.Hash256(area(o, l))))
		case 0x30:
			r.push(new(big.Int).SetBytes(r.e.self[:]))
		case 0x31:
			tk := toToken(r.pop())
			b := r.balances[tk]
			if b == nil {
				b = new(big.Int)
			}
			r.push(b)
		case 0x33:
			if r.offchain {
				r.push(new(big.Int))
			} else {
				r.push(new(big.Int).SetBytes(r.caller[:]))
			}
		case 0x34:
			if r.offchain {
				r.push(new(big.Int))
			} else {
				r.push(r.value)
			}
		case 0x35:
			r.push(new(big.Int).SetBytes(r.slice(r.data, r.pop(), big.NewInt(32))))
		case 0x36:
			r.push(big.NewInt(int64(len(r.data))))
		case 0x37, 0x39:
			m, o, l := r.pop(), r.pop(), r.pop()
			src := r.data
			if op == 0x39 {
				src = r.code
			}
			if l.Sign() > 0 {
				copy(r.mem[m.Uint64():], r.slice(src, o, l))
			}
		case 0x38:
			r.push(big.NewInt(int64(len(r.code))))
		case 0x3d:
			r.push(new(big.Int))
		case 0x3e:
			_, o, l := r.pop(), r.pop(), r.pop()
			if o.Sign() > 0 || l.Sign() > 0 {
				return oFail
			}
		case 0x42, 0x43, 0x46, 0x49, 0x4a, 0x4b:
			if r.offchain {
				r.push(new(big.Int))
				break
			}
			switch op {
			case 0x42:
				r.push(big.NewInt(r.e.status.sb.Timestamp.Unix()))
			case 0x43:
				r.push(new(big.Int).SetUint64(r.e.status.sb.Height))
			case 0x46:
				r.push(new(big.Int).SetBytes(r.token[:]))
			case 0x49:
				r.push(new(big.Int).SetBytes(r.from[:]))
			case 0x4a:
				r.push(new(big.Int).SetUint64(r.e.status.seed))
			case 0x4b:
				r.randomN++
				r.push(new(big.Int).SetUint64(randomAt(r.e.status.seed, r.randomN)))
			}
		case 0x47:
			h := uint64(0)
			if r.e.chain.prev != nil {
				h = r.e.chain.prev.Height
			}
			r.push(new(big.Int).SetUint64(h))
		case 0x48:
			if r.e.chain.prev != nil {
				r.push(new(big.Int).SetBytes(r.e.chain.prev.Hash[:]))
			} else {
				r.push(new(big.Int))
			}
		case 0x50:
			r.pop()
		case 0x51:
			r.push(new(big.Int).SetBytes(area(r.pop(), big.NewInt(32))))
		case 0x52:
			o, x := r.pop(), r.pop()
			copy(r.mem[o.Uint64():], word(x))
		case 0x53:
			o, x := r.pop(), r.pop()
			r.mem[o.Uint64()] = word(x)[31]
		case 0x54:
			r.push(new(big.Int).SetBytes(r.getStorage(toHash(r.pop()))))
		case 0x55:
			k, x := toHash(r.pop()), r.pop()
			if !r.offchain {
				r.storage[k] = x.Bytes()
				r.written[k] = true
			}
		case 0x56, 0x57:
			d := r.pop()
			take := true
			if op == 0x57 {
				take = r.pop().Sign() != 0
			}
			if take {
				if d.BitLen() > 32 || !r.dests[d.Uint64()] {
					return oFail
				}
				next = d.Uint64()
			}
		case 0x58:
			r.push(new(big.Int).SetUint64(r.pc))
		case 0x59:
			r.push(big.NewInt(int64(len(r.mem))))
		case 0x5b:
		case 0xa0, 0xa1, 0xa2, 0xa3, 0xa4:
			o, l := r.pop(), r.pop()
			lg := &ledger.VmLog{Topics: []types.Hash{}}
			for i := byte(0); i < op-0xa0; i++ {
				lg.Topics = append(lg.Topics, toHash(r.pop()))
			}
			lg.Data = area(o, l)
			if !r.offchain {
				r.logs = append(r.logs, lg)
			}
		case 0xf1, 0xf2:
			to, tk, amt, o, l := r.pop(), r.pop(), r.pop(), r.pop(), r.pop()
			if !r.offchain {
				s := sendReq{toAddr(to), toToken(tk), new(big.Int).Set(amt), area(o, l)}
				r.sends = append(r.sends, s)
				if op == 0xf2 {
					sb := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: r.e.self, ToAddress: s.to, Amount: s.amt, TokenId: s.token, Data: s.data, Fee: new(big.Int)}
					h := sb.ComputeSendHash(r.e.block, uint8(len(r.sends)-1))
					r.push(new(big.Int).SetBytes(h[:]))
				}
			} else if op == 0xf2 {
				r.push(new(big.Int))
			}
		case 0xf3:
			o, l := r.pop(), r.pop()
			r.ret = area(o, l)
			return oOK
		case 0xfd:
			if r.offchain {
				r.ret = nil
				return oOK
			}
			return oFail
		default:
			switch {
			case op >= 0x60 && op <= 0x7f:
				n := int(op-0x60) + 1
				b := make([]byte, n)
				if r.pc+1 < uint64(len(r.code)) {
					copy(b, r.code[r.pc+1:])
				}
				r.push(new(big.Int).SetBytes(b))
				next = r.pc + 1 + uint64(n)
			case op >= 0x80 && op <= 0x8f:
				r.push(r.top(int(op - 0x80)))
			case op >= 0x90 && op <= 0x9f:
				n := int(op-0x90) + 1
				i, j := len(r.st)-1, len(r.st)-1-n
				r.st[i], r.st[j] = r.st[j], r.st[i]
			}
		}
		r.pc = next
	}
}
