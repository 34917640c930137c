package sim

import (
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// A tiny assembler with labels, and the "toy" contract whose effects are chosen by calldata
// flags, so that the expected effects of any call can be computed independently.

type Asm struct {
	code   []byte
	labels map[string]int
	refs   map[int]string
}

func NewAsm() *Asm { return &Asm{labels: map[string]int{}, refs: map[int]string{}} }

var opByName = map[string]byte{
	"STOP": 0, "ADD": 1, "MUL": 2, "SUB": 3, "DIV": 4, "LT": 0x10, "GT": 0x11, "EQ": 0x14, "ISZERO": 0x15, "AND": 0x16, "OR": 0x17, "SHA3": 0x20, "BLAKE2B": 0x21,
	"ADDRESS": 0x30, "BALANCE": 0x31, "CALLER": 0x33, "CALLVALUE": 0x34, "CALLDATALOAD": 0x35, "CALLDATASIZE": 0x36, "CALLDATACOPY": 0x37, "CODESIZE": 0x38, "CODECOPY": 0x39,
	"TIMESTAMP": 0x42, "HEIGHT": 0x43, "TOKENID": 0x46, "ACCOUNTHEIGHT": 0x47, "PREVHASH": 0x48, "FROMHASH": 0x49, "SEED": 0x4a, "RANDOM": 0x4b,
	"POP": 0x50, "MLOAD": 0x51, "MSTORE": 0x52, "MSTORE8": 0x53, "SLOAD": 0x54, "SSTORE": 0x55, "JUMP": 0x56, "JUMPI": 0x57, "PC": 0x58, "MSIZE": 0x59, "GAS": 0x5a, "JUMPDEST": 0x5b,
	"DUP1": 0x80, "DUP2": 0x81, "DUP3": 0x82, "SWAP1": 0x90, "SWAP2": 0x91, "LOG0": 0xa0, "LOG1": 0xa1, "LOG2": 0xa2,
	"CREATE": 0xf0, "CALL": 0xf1, "CALL2": 0xf2, "RETURN": 0xf3, "DELEGATECALL": 0xf4, "REVERT": 0xfd, "INVALID": 0xfe,
}

func (a *Asm) Op(names ...string) *Asm {
	for _, n := range names {
		b, ok := opByName[n]
		if !ok {
			panic("op " + n)
		}
		a.code = append(a.code, b)
	}
	return a
}

func (a *Asm) Push(v interface{}) *Asm {
	var b []byte
	switch x := v.(type) {
	case int:
		b = big.NewInt(int64(x)).Bytes()
	case []byte:
		b = x
	case *big.Int:
		b = x.Bytes()
	case types.Address:
		b = x.Bytes()
	default:
		panic("push")
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	a.code = append(a.code, 0x60+byte(len(b)-1))
	a.code = append(a.code, b...)
	return a
}

func (a *Asm) PushLabel(l string) *Asm {
	a.code = append(a.code, 0x61)
	a.refs[len(a.code)] = l
	a.code = append(a.code, 0, 0)
	return a
}
func (a *Asm) Label(l string) *Asm {
	a.labels[l] = len(a.code)
	a.code = append(a.code, 0x5b)
	return a
}
func (a *Asm) Bytes() []byte {
	out := append([]byte{}, a.code...)
	for p, l := range a.refs {
		t, ok := a.labels[l]
		if !ok {
			panic("label " + l)
		}
		out[p], out[p+1] = byte(t>>8), byte(t)
	}
	return out
}

// InitCode wraps runtime code in a constructor; storing (slot 1 -> v) and optionally failing.
func InitCode(runtime []byte, v int, fail string) []byte {
	build := func(off int) []byte {
		a := NewAsm()
		if v != 0 {
			a.Push(v).Push(1).Op("SSTORE")
		}
		switch fail {
		case "revert":
			a.Push(0).Push(0).Op("REVERT")
		case "invalid":
			a.Op("INVALID")
		case "poor": // ends normally, but cannot pay for the call it made
			a.Push(0).Push(0).Push([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}).Push(Vite.Bytes()).Push(MakeKey("sink").Addr.Bytes()).Op("CALL")
		case "calls":
			a.Push(0).Push(0).Push(0).Push(Vite.Bytes()).Push(MakeKey("sink").Addr.Bytes()).Op("CALL")
			a.Push(0).Push(0).Op("LOG0")
		}
		a.Push([]byte{byte(len(runtime) >> 8), byte(len(runtime))}).Push([]byte{byte(off >> 8), byte(off)}).Push(0).Op("CODECOPY")
		a.Push([]byte{byte(len(runtime) >> 8), byte(len(runtime))}).Push(0).Op("RETURN")
		return a.Bytes()
	}
	n := len(build(0))
	return append(build(n), runtime...)
}

// Flags of a toy call.
const (
	FStore = 1 << iota
	FCount
	FMany
	FDelete
	FLog
	FCall
	FCall2
	FLib
	FRevert
	FInvalid
	FLoop
	FUnderflow
	FBadJump
	FEnv
	FSelf
	FLast
)

const FailMask = FRevert | FInvalid | FLoop | FUnderflow | FBadJump

const counterSlot = 0x7777
const envSlot = 0x8888

// ToyRuntime is the code of the toy contract; FLib attempts a delegate call to lib, which must fail.
func ToyRuntime(t *Toy) []byte {
	lib, variant := t.Lib, t.Variant
	a := NewAsm()
	n := 0
	when := func(flag int, body func()) {
		n++
		skip := fmt.Sprintf("skip%d", n)
		a.Push(0).Op("CALLDATALOAD").Push(flag).Op("AND", "ISZERO").PushLabel(skip).Op("JUMPI")
		body()
		a.Label(skip)
	}
	word := func(i int) { a.Push(32 * i).Op("CALLDATALOAD") }
	when(FStore, func() { word(2); word(1); a.Op("SSTORE") })
	when(FCount, func() {
		a.Push(variant+1).Push([]byte{0x77, 0x77}).Op("SLOAD", "ADD").Push([]byte{0x77, 0x77}).Op("SSTORE")
	})
	when(FMany, func() {
		for i := 0; i < 6; i++ {
			a.Push(i)
			word(2)
			a.Op("ADD")
			word(1)
			a.Push(16+i).Op("ADD", "SSTORE")
		}
	})
	when(FDelete, func() { a.Push(0); word(1); a.Op("SSTORE") })
	when(FLog, func() {
		word(1)
		a.Push(0).Op("MSTORE")
		word(2)
		a.Push(32).Push(0).Op("LOG1")
		a.Push(17).Push(3).Op("LOG0") // mem[3:20]
	})
	when(FCall, func() {
		// nested calldata = calldata[224:]
		a.Push(224).Op("CALLDATASIZE", "SUB").Push(224).Push(64).Op("CALLDATACOPY")
		a.Push(224).Op("CALLDATASIZE", "SUB").Push(64)
		word(5)
		word(4)
		word(3)
		a.Op("CALL")
	})
	when(FSelf, func() { // call itself with the same arguments
		a.Op("CALLDATASIZE").Push(0).Push(64).Op("CALLDATACOPY")
		a.Op("CALLDATASIZE").Push(64)
		word(5)
		word(4)
		a.Op("ADDRESS", "CALL")
	})
	when(FCall2, func() {
		a.Push(0).Push(0)
		word(6)
		word(4)
		word(3)
		a.Op("CALL2")
		a.Push([]byte{0x66, 0x66}).Op("SSTORE")
	})
	if t.HasLib {
		when(FLib, func() {
			a.Push(0).Push(0).Push(0).Push(0).Push(lib).Op("DELEGATECALL")
			a.Push([]byte{0x55, 0x55}).Op("SSTORE")
		})
	}
	when(FEnv, func() {
		// fold environment values that every node must agree on into storage
		a.Op("CALLER", "CALLVALUE", "ADD", "ADDRESS", "ADD", "ACCOUNTHEIGHT", "ADD", "FROMHASH", "ADD", "PREVHASH", "ADD", "TOKENID", "ADD")
		a.Push([]byte{0x88, 0x88}).Op("SSTORE")
		if t.Confirm > 0 {
			a.Op("HEIGHT", "TIMESTAMP", "ADD").Push([]byte{0x88, 0x89}).Op("SSTORE")
		}
		if t.Seed > 0 {
			a.Op("RANDOM", "SEED", "ADD").Push([]byte{0x88, 0x8a}).Op("SSTORE")
		}
	})
	when(FRevert, func() { a.Push(0).Push(0).Op("REVERT") })
	when(FInvalid, func() { a.Op("INVALID") })
	when(FLoop, func() { a.Label("loop").PushLabel("loop").Op("JUMP") })
	when(FUnderflow, func() { a.Op("POP") })
	when(FBadJump, func() { a.Push(1).Op("JUMP") })
	a.Op("STOP")
	return a.Bytes()
}

// LibRuntime is delegate-called: it stores value+1 at slot key+100 and logs.
func LibRuntime() []byte {
	a := NewAsm()
	a.Push(1).Push(64).Op("CALLDATALOAD", "ADD").Push(100).Push(32).Op("CALLDATALOAD", "ADD", "SSTORE")
	a.Push(0).Push(0).Op("LOG0", "STOP")
	return a.Bytes()
}

func Word(v interface{}) []byte {
	var b []byte
	switch x := v.(type) {
	case int:
		b = big.NewInt(int64(x)).Bytes()
	case *big.Int:
		b = x.Bytes()
	case types.Address:
		b = x.Bytes()
	case types.TokenTypeId:
		b = x.Bytes()
	case types.Hash:
		b = x.Bytes()
	case []byte:
		b = x
	}
	out := make([]byte, 32)
	copy(out[32-len(b):], b)
	return out
}

// ToyCall is the decoded form of a toy call's calldata.
type ToyCall struct {
	Flags   int
	Slot    *big.Int
	Value   *big.Int
	To      types.Address
	Token   types.TokenTypeId
	Amount  *big.Int
	Amount2 *big.Int
	Nested  []byte
}

func (t *ToyCall) Data() []byte {
	var b []byte
	z := func(x *big.Int) *big.Int {
		if x == nil {
			return new(big.Int)
		}
		return x
	}
	b = append(b, Word(t.Flags)...)
	b = append(b, Word(z(t.Slot))...)
	b = append(b, Word(z(t.Value))...)
	b = append(b, Word(t.To)...)
	b = append(b, Word(t.Token)...)
	b = append(b, Word(z(t.Amount))...)
	b = append(b, Word(z(t.Amount2))...)
	return append(b, t.Nested...)
}

func ParseToyCall(d []byte) *ToyCall {
	w := func(i int) []byte {
		out := make([]byte, 32)
		if i*32 < len(d) {
			copy(out, d[i*32:])
		}
		return out
	}
	t := &ToyCall{}
	f := new(big.Int).SetBytes(w(0))
	t.Flags = int(new(big.Int).And(f, big.NewInt(1<<30-1)).Int64())
	t.Slot, t.Value = new(big.Int).SetBytes(w(1)), new(big.Int).SetBytes(w(2))
	copy(t.To[:], w(3)[32-types.AddressSize:])
	copy(t.Token[:], w(4)[32-types.TokenTypeIdSize:])
	t.Amount, t.Amount2 = new(big.Int).SetBytes(w(5)), new(big.Int).SetBytes(w(6))
	if len(d) > 224 {
		t.Nested = d[224:]
	}
	return t
}

type ToySend struct {
	To     types.Address
	Token  types.TokenTypeId
	Amount *big.Int
	Data   []byte
}
type ToyLog struct {
	Topics []types.Hash
	Data   []byte
}

// ToyEffects is what a successful call must do, computed without the virtual machine.
type ToyEffects struct {
	Fail   bool
	Writes map[string]*big.Int // slot word -> value (nil: unchecked)
	Sends  []ToySend
	Logs   []ToyLog
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func mod256(x *big.Int) *big.Int { return new(big.Int).Mod(x, two256) }

// Toy describes one deployed toy contract.
type Toy struct {
	Addr    types.Address
	Lib     types.Address
	HasLib  bool
	IsLib   bool
	Variant int
	Confirm uint8
	Seed    uint8

	Init int    // what the constructor stores in slot 1
	Fail string // how the constructor is made to fail
	Code []byte
}

// Effects computes the expected effects. read returns the storage word before the call.
func (t *Toy) Effects(recv, send *ledger.AccountBlock, read func(slot []byte) *big.Int) *ToyEffects {
	c := ParseToyCall(send.Data)
	e := &ToyEffects{Writes: map[string]*big.Int{}}
	put := func(slot, v *big.Int) { e.Writes[string(Word(mod256(slot)))] = mod256(v) }
	get := func(slot *big.Int) *big.Int {
		if v, ok := e.Writes[string(Word(mod256(slot)))]; ok {
			return v
		}
		return read(Word(mod256(slot)))
	}
	add := func(a *big.Int, b int64) *big.Int { return new(big.Int).Add(a, big.NewInt(b)) }
	if t.IsLib {
		put(add(c.Slot, 100), add(c.Value, 1))
		e.Logs = append(e.Logs, ToyLog{})
		return e
	}
	if c.Flags&FStore != 0 {
		put(c.Slot, c.Value)
	}
	if c.Flags&FCount != 0 {
		put(big.NewInt(counterSlot), add(get(big.NewInt(counterSlot)), int64(t.Variant+1)))
	}
	if c.Flags&FMany != 0 {
		for i := int64(0); i < 6; i++ {
			put(add(c.Slot, 16+i), add(c.Value, i))
		}
	}
	if c.Flags&FDelete != 0 {
		put(c.Slot, new(big.Int))
	}
	if c.Flags&FLog != 0 {
		h, _ := types.BytesToHash(Word(c.Value))
		e.Logs = append(e.Logs, ToyLog{Topics: []types.Hash{h}, Data: Word(c.Slot)})
		e.Logs = append(e.Logs, ToyLog{Data: Word(c.Slot)[3:20]})
	}
	if c.Flags&FCall != 0 {
		e.Sends = append(e.Sends, ToySend{c.To, c.Token, c.Amount, c.Nested})
	}
	if c.Flags&FSelf != 0 {
		e.Sends = append(e.Sends, ToySend{recv.AccountAddress, c.Token, c.Amount, send.Data})
	}
	if c.Flags&FCall2 != 0 {
		e.Sends = append(e.Sends, ToySend{c.To, c.Token, c.Amount2, nil})
		e.Writes[string(Word(0x6666))] = nil
	}
	if c.Flags&FEnv != 0 {
		v := new(big.Int)
		for _, x := range [][]byte{send.AccountAddress.Bytes(), send.Amount.Bytes(), recv.AccountAddress.Bytes(), new(big.Int).SetUint64(recv.Height - 1).Bytes(), send.Hash.Bytes(), recv.PrevHash.Bytes(), send.TokenId.Bytes()} {
			v.Add(v, new(big.Int).SetBytes(x))
		}
		put(big.NewInt(envSlot), v)
		if t.Confirm > 0 {
			e.Writes[string(Word(envSlot+1))] = nil
		}
		if t.Seed > 0 {
			e.Writes[string(Word(envSlot+2))] = nil
		}
	}
	// DELEGATECALL is not part of the instruction set
	e.Fail = c.Flags&FailMask != 0 || c.Flags&FLib != 0 && t.HasLib
	return e
}
