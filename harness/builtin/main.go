// Command builtin decides the properties of the built-in contracts: staking (C12), tokens (C13),
// governance (C14), exchange funds (C15) and order matching (C16). Every call runs through the
// real vm on an in-memory ledger and is compared with a model written from the contracts' rules.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

var rules = map[string]string{
	"C12": "one call of the staking contract received, with the contract's whole state compared with the model; distinct by method, outcome and shape of the state",
	"C13": "one call of the token contract received, with all token records and all balances compared with the model; distinct by method, outcome and token kind",
	"C14": "one call of the governance contract received, with all records compared with the model; distinct by method, outcome and record state",
	"C15": "one call of the exchange received, with all fund records, the order book and the contract balances compared; distinct by method, outcome and shape",
	"C16": "one taker order run through the matcher, its trades and the book compared with a reference book; distinct by shape of the result",
}

type prop struct {
	quick, thorough, workers int
	run                      func(c *ctx)
}

var props = map[string]prop{}

type ctx struct {
	r    *vrep.R
	rnd  *rand.Rand
	name string
	i    int
	log  []string
	w    *world
	bad  bool
}

func (c *ctx) fail(key, format string, a ...interface{}) {
	t := c.log
	if len(t) > 30 {
		t = t[len(t)-30:]
	}
	c.bad = true
	c.r.Violate(c.name, key, "%s\nlast operations: %v", fmt.Sprintf(format, a...), t)
}

// known reports a violation that does not stop the history.
func (c *ctx) known(key, format string, a ...interface{}) {
	c.r.Violate(c.name, key, format, a...)
}

func (c *ctx) note(format string, a ...interface{}) {
	if len(c.log) > 400 {
		c.log = append([]string{}, c.log[200:]...)
	}
	c.log = append(c.log, fmt.Sprintf(format, a...))
}

func (c *ctx) bytes(n int) []byte {
	b := make([]byte, n)
	c.rnd.Read(b)
	return b
}
func (c *ctx) p(n int) bool { return c.rnd.Intn(n) == 0 }

var attov = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func vite(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), attov) }

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// user is the i-th user address.
func user(i int) types.Address {
	a, _ := types.BytesToAddress(append(types.DataHash([]byte(fmt.Sprintf("user %d", i))).Bytes()[:20], 0))
	return a
}

// contractAddr is the i-th user contract's address.
func contractAddr(i int) types.Address {
	a, _ := types.BytesToAddress(append(types.DataHash([]byte(fmt.Sprintf("contract %d", i))).Bytes()[:20], 1))
	return a
}

// want is a send the model expects a receive to produce.
type want struct {
	to   types.Address
	typ  byte
	tok  types.TokenTypeId
	amt  *big.Int
	data []byte
}

// expect is what the model says about a receive.
type expect struct {
	ok    bool
	sends []want
	// on failure
	refund   []byte
	callback bool
}

func (c *ctx) refunds(s *ledger.AccountBlock, e expect) []want {
	var o []want
	add := func(t types.TokenTypeId, n *big.Int) {
		o = append(o, want{s.AccountAddress, ledger.BlockTypeSendCall, t, n, e.refund})
	}
	switch {
	case s.Amount.Sign() > 0 && s.Fee.Sign() > 0 && s.TokenId == ledger.ViteTokenId:
		add(ledger.ViteTokenId, new(big.Int).Add(s.Amount, s.Fee))
	default:
		if s.Amount.Sign() > 0 {
			add(s.TokenId, s.Amount)
		}
		if s.Fee.Sign() > 0 {
			add(ledger.ViteTokenId, s.Fee)
		}
	}
	if len(o) == 0 && e.callback {
		add(ledger.ViteTokenId, new(big.Int))
	}
	return o
}

func (c *ctx) show(b *ledger.AccountBlock) string {
	return fmt.Sprintf("{to %s type %d token %s amount %s data %x}", b.ToAddress, b.BlockType, b.TokenId, b.Amount, b.Data)
}

// judge compares a receive of a built-in contract with the model. It returns false when the two disagree.
func (c *ctx) judge(method string, s *ledger.AccountBlock, e expect, r result, p interface{}, before map[types.TokenTypeId]*big.Int) bool {
	if p != nil {
		c.fail("panic-"+method, "receiving %s panics: %v", method, p)
		return false
	}
	if r.none {
		c.fail("no-block-"+method, "receiving %s gives no block (error %v, retry %v)", method, r.err, r.retry)
		return false
	}
	if (r.err == nil) != e.ok {
		c.fail("outcome-"+method, "%s by %s with %s (fee %s): the contract says %v, the rules say ok=%v", method, s.AccountAddress, c.show(s), s.Fee, r.err, e.ok)
		return false
	}
	ws := e.sends
	if !e.ok {
		ws = c.refunds(s, e)
		if len(r.set) > 0 {
			c.fail("failed-call-changes-state-"+method, "a failed %s wrote %d keys", method, len(r.set))
			return false
		}
	}
	if len(ws) != len(r.sends) {
		c.fail("sends-"+method, "%s (ok=%v) produced %d sends, expected %d", method, e.ok, len(r.sends), len(ws))
		return false
	}
	for i, x := range ws {
		g := r.sends[i]
		if g.ToAddress != x.to || g.BlockType != x.typ || g.Amount.Cmp(x.amt) != 0 || (x.amt.Sign() != 0 && g.TokenId != x.tok) || !bytes.Equal(g.Data, x.data) || (g.Fee != nil && g.Fee.Sign() != 0) {
			c.fail("sends-"+method, "%s (ok=%v) produced %s, expected {to %s type %d token %s amount %s data %x}", method, e.ok, c.show(g), x.to, x.typ, x.tok, x.amt, x.data)
			return false
		}
	}
	code := byte(0)
	if !e.ok {
		code = 1
	}
	if d := r.block.Data; len(d) != 33 || d[32] != code {
		c.fail("result-code-"+method, "%s (ok=%v) has result data %x", method, e.ok, d)
		return false
	}
	if !e.ok {
		for t, b := range before {
			if g := c.w.balance(s.ToAddress, t); g.Cmp(b) != 0 {
				c.fail("failed-call-keeps-funds-"+method, "a failed %s changed the contract's balance of %s from %s to %s", method, t, b, g)
				return false
			}
		}
	}
	return true
}

// sent checks the send half of a call: the model says whether it is acceptable.
func (c *ctx) sent(method string, from types.Address, ok bool, r result, p interface{}, before map[types.TokenTypeId]*big.Int, amt, fee *big.Int, tok types.TokenTypeId) bool {
	if p != nil {
		c.fail("panic-send-"+method, "sending %s panics: %v", method, p)
		return false
	}
	if (r.err == nil && !r.none) != ok {
		c.fail("send-outcome-"+method, "sending %s by %s amount %s %s: the vm says %v, the rules say ok=%v", method, from, amt, tok, r.err, ok)
		return false
	}
	for t, b := range before {
		x := new(big.Int).Set(b)
		if ok {
			if t == tok {
				x.Sub(x, amt)
			}
			if t == ledger.ViteTokenId {
				x.Sub(x, fee)
			}
		}
		if g := c.w.balance(from, t); g.Cmp(x) != 0 {
			c.fail("send-balance-"+method, "sending %s (ok=%v) leaves the sender %s of %s, expected %s", method, ok, g, t, x)
			return false
		}
	}
	return true
}

func (c *ctx) balances(a types.Address) map[types.TokenTypeId]*big.Int {
	o := map[types.TokenTypeId]*big.Int{}
	for t, b := range c.w.bal[a] {
		o[t] = new(big.Int).Set(b)
	}
	return o
}

// deliver receives everything pending for an address that is not a built-in contract.
func (c *ctx) deliver() {
	for _, s := range append([]*ledger.AccountBlock{}, c.w.pend...) {
		if types.IsBuiltinContractAddrInUse(s.ToAddress) {
			continue
		}
		if types.IsContractAddr(s.ToAddress) { // a contract without code here: it takes what it gets
			c.w.take(s)
			c.w.give(s.ToAddress, s.TokenId, s.Amount)
			continue
		}
		if _, p := c.w.receive(s); p != nil {
			c.fail("panic-user-receive", "a user's receive panics: %v", p)
		}
	}
}

func main() {
	initForks()
	id := os.Args[1]
	p := props[id]
	r := vrep.Open(id, rules[id])
	defer r.Close()
	n := r.Scale(p.quick, p.thorough)
	vrep.Parallel(n, p.workers, func(i int) {
		name := fmt.Sprintf("h%d", i)
		if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
			return
		}
		c := &ctx{r: r, rnd: r.Rand(name), name: name, i: i}
		r.Guard(name, "panic", func() { p.run(c) })
		r.Count("histories", 1)
	})
}
