package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
)

// model text forms

func addrText(b []byte) string {
	sum := b2(5, b[:20])
	if b[20] == 1 {
		for i := range sum {
			sum[i] ^= 0xff
		}
	}
	return "vite_" + hex.EncodeToString(b[:20]) + hex.EncodeToString(sum)
}

func tokText(b []byte) string { return "tti_" + hex.EncodeToString(b) + hex.EncodeToString(b2(2, b)) }

// kind describes one identifier type.
type kind struct {
	name   string
	size   int
	prefix string
	text   func(b []byte) string
	parse  func(s string) ([]byte, error)
	str    func(b []byte) (string, string)
	json   func(b []byte) ([]byte, error)
	unjson func(j []byte) ([]byte, error)
	mapKey func(b []byte) ([]byte, error) // through JSON as a map key and back
	set    func(b []byte) ([]byte, error)
	big    func(n *big.Int) ([]byte, error)
}

var kinds = []kind{
	{"address", 21, "vite_", addrText,
		func(s string) ([]byte, error) { a, e := types.HexToAddress(s); return a.Bytes(), e },
		func(b []byte) (string, string) { a, _ := types.BytesToAddress(b); return a.String(), a.Hex() },
		func(b []byte) ([]byte, error) { a, _ := types.BytesToAddress(b); return json.Marshal(a) },
		func(j []byte) ([]byte, error) { var a types.Address; e := json.Unmarshal(j, &a); return a.Bytes(), e },
		func(b []byte) ([]byte, error) {
			a, _ := types.BytesToAddress(b)
			j, e := json.Marshal(map[types.Address]int{a: 1})
			if e != nil {
				return nil, e
			}
			m := map[types.Address]int{}
			if e = json.Unmarshal(j, &m); e != nil {
				return nil, e
			}
			for k := range m {
				return k.Bytes(), nil
			}
			return nil, nil
		},
		func(b []byte) ([]byte, error) { a, e := types.BytesToAddress(b); return a.Bytes(), e },
		func(n *big.Int) ([]byte, error) { a, e := types.BigToAddress(n); return a.Bytes(), e }},
	{"token", 10, "tti_", tokText,
		func(s string) ([]byte, error) { a, e := types.HexToTokenTypeId(s); return a.Bytes(), e },
		func(b []byte) (string, string) { a, _ := types.BytesToTokenTypeId(b); return a.String(), a.Hex() },
		func(b []byte) ([]byte, error) { a, _ := types.BytesToTokenTypeId(b); return json.Marshal(a) },
		func(j []byte) ([]byte, error) {
			var a types.TokenTypeId
			e := json.Unmarshal(j, &a)
			return a.Bytes(), e
		},
		func(b []byte) ([]byte, error) {
			a, _ := types.BytesToTokenTypeId(b)
			j, e := json.Marshal(map[types.TokenTypeId]int{a: 1})
			if e != nil {
				return nil, e
			}
			m := map[types.TokenTypeId]int{}
			if e = json.Unmarshal(j, &m); e != nil {
				return nil, e
			}
			for k := range m {
				return k.Bytes(), nil
			}
			return nil, nil
		},
		func(b []byte) ([]byte, error) { a, e := types.BytesToTokenTypeId(b); return a.Bytes(), e },
		func(n *big.Int) ([]byte, error) { a, e := types.BigToTokenTypeId(n); return a.Bytes(), e }},
	{"hash", 32, "", hex.EncodeToString,
		func(s string) ([]byte, error) { a, e := types.HexToHash(s); return a.Bytes(), e },
		func(b []byte) (string, string) { a, _ := types.BytesToHash(b); return a.String(), a.Hex() },
		func(b []byte) ([]byte, error) { a, _ := types.BytesToHash(b); return json.Marshal(a) },
		func(j []byte) ([]byte, error) { var a types.Hash; e := json.Unmarshal(j, &a); return a.Bytes(), e },
		nil,
		func(b []byte) ([]byte, error) { a, e := types.BytesToHash(b); return a.Bytes(), e },
		func(n *big.Int) ([]byte, error) { a, e := types.BigToHash(n); return a.Bytes(), e }},
	{"gid", 10, "", hex.EncodeToString,
		func(s string) ([]byte, error) { a, e := types.HexToGid(s); return a.Bytes(), e },
		func(b []byte) (string, string) { a, _ := types.BytesToGid(b); return a.String(), a.Hex() },
		func(b []byte) ([]byte, error) { a, _ := types.BytesToGid(b); return json.Marshal(a) },
		func(j []byte) ([]byte, error) { var a types.Gid; e := json.Unmarshal(j, &a); return a.Bytes(), e },
		nil,
		func(b []byte) ([]byte, error) { a, e := types.BytesToGid(b); return a.Bytes(), e },
		func(n *big.Int) ([]byte, error) { a, e := types.BigToGid(n); return a.Bytes(), e }},
}

// model says what a text means: nil when it is no identifier of the kind.
func (k kind) model(s string) []byte {
	if !strings.HasPrefix(s, k.prefix) {
		return nil
	}
	b, err := hex.DecodeString(s[len(k.prefix):])
	if err != nil {
		return nil
	}
	low := strings.ToLower(s[len(k.prefix):])
	var cands [][]byte
	switch k.name {
	case "address":
		if len(b) == 25 {
			cands = [][]byte{append(append([]byte{}, b[:20]...), 0), append(append([]byte{}, b[:20]...), 1)}
		}
	case "token":
		if len(b) == 12 {
			cands = [][]byte{b[:10]}
		}
	default:
		if len(b) == k.size {
			cands = [][]byte{b}
		}
	}
	for _, c := range cands {
		if k.text(c) == k.prefix+low {
			return c
		}
	}
	return nil
}

func runC20(c *ctx) {
	for _, k := range kinds {
		b := c.bytes(k.size)
		switch c.rnd.Intn(8) {
		case 0:
			for i := range b {
				b[i] = 0
			}
			b[c.rnd.Intn(len(b))] = byte(c.rnd.Intn(4))
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		}
		if k.name == "address" {
			b[20] = byte(c.rnd.Intn(2))
		}
		want := k.text(b)
		s, h := k.str(b)
		if s != want || h != want {
			c.fail(k.name+"-text", "%s %x is written %s / %s, the definition gives %s", k.name, b, s, h, want)
			return
		}
		if r, err := k.parse(s); err != nil || string(r) != string(b) {
			c.fail(k.name+"-parse", "%s reads back as %x (%v), want %x", s, r, err, b)
		}
		if r, err := k.set(b); err != nil || string(r) != string(b) {
			c.fail(k.name+"-bytes", "%x reads back from bytes as %x (%v)", b, r, err)
		}
		j, err := k.json(b)
		if err != nil || string(j) != `"`+want+`"` {
			c.fail(k.name+"-json", "%x is %s in JSON (%v)", b, j, err)
		}
		if r, err := k.unjson(j); err != nil || string(r) != string(b) {
			c.fail(k.name+"-json", "%s reads back from JSON as %x (%v), want %x", j, r, err, b)
		}
		if k.mapKey != nil {
			if r, err := k.mapKey(b); err != nil || string(r) != string(b) {
				c.fail(k.name+"-jsonkey", "%s as a JSON object key reads back as %x (%v)", want, r, err)
			}
		}
		if r, err := k.big(new(big.Int).SetBytes(b)); err != nil || string(r) != string(b) {
			c.fail(k.name+"-big", "%x reads back from its number as %x (%v)", b, r, err)
		}
		c.r.Eval(want, true)
		for _, n := range []int{0, 1, k.size - 1, k.size + 1, 2 * k.size} {
			if _, err := k.set(c.bytes(n)); err == nil {
				c.fail(k.name+"-bytes-len", "%d bytes are accepted as %s", n, k.name)
			}
		}
		// altered forms
		var alt []string
		chars := "0123456789abcdefABCDEFghzG_ \x00\"'\\-+.é"
		for n := 0; n < 24; n++ {
			t := []byte(want)
			switch c.rnd.Intn(8) {
			case 0, 1, 2, 3:
				t[c.rnd.Intn(len(t))] = chars[c.rnd.Intn(len(chars))]
			case 4:
				i, j := c.rnd.Intn(len(t)), c.rnd.Intn(len(t))
				t[i], t[j] = t[j], t[i]
			case 5:
				i := c.rnd.Intn(len(t))
				t = append(t[:i], t[i+1:]...)
			case 6:
				i := c.rnd.Intn(len(t) + 1)
				t = append(t[:i:i], append([]byte{chars[c.rnd.Intn(len(chars))]}, t[i:]...)...)
			case 7:
				t = []byte(strings.ToUpper(want))
			}
			alt = append(alt, string(t))
		}
		alt = append(alt, "", k.prefix, want+want, strings.TrimPrefix(want, k.prefix), "0x"+want, " "+want, want+"\n")
		if k.name == "address" { // the other kind's checksum on the same core
			o := append([]byte{}, b...)
			o[20] ^= 1
			alt = append(alt, k.text(o))
			m := addrText(b)
			ot := addrText(o)
			alt = append(alt, m[:45]+m[45:50]+ot[50:], m[:len(m)-2]+ot[len(ot)-2:])
		}
		for _, t := range alt {
			want := k.model(t)
			c.safe(k.name+"-panic", fmt.Sprintf("reading %q", t), func() {
				r, err := k.parse(t)
				if want == nil && err == nil {
					c.fail(k.name+"-altered", "%q, which is no valid text form, is read as %x", t, r)
				}
				if want != nil && strings.ToLower(t) == t && (err != nil || string(r) != string(want)) {
					c.fail(k.name+"-parse", "%q reads as %x (%v), want %x", t, r, err, want)
				}
				if want != nil && err == nil && string(r) != string(want) {
					c.fail(k.name+"-parse", "%q reads as %x, want %x", t, r, want)
				}
				j, _ := json.Marshal(t)
				r, err = k.unjson(j)
				if want == nil && err == nil && !strings.Contains(t, `"`) && !strings.Contains(string(j), `\`) {
					c.fail(k.name+"-altered-json", "JSON %s, which is no valid text form, is read as %x", j, r)
				}
				if want != nil && err == nil && string(r) != string(want) {
					c.fail(k.name+"-json", "JSON %s reads as %x, want %x", j, r, want)
				}
			})
			c.r.Eval(k.name+t, true)
			c.r.Count("altered", 1)
		}
		for _, j := range []string{"null", "1", "[]", "{}", "true", `""`, `"`} {
			c.safe(k.name+"-panic", "reading JSON "+j, func() {
				if _, err := k.unjson([]byte(j)); err == nil && j != "null" {
					c.fail(k.name+"-json-kind", "JSON %s is accepted as %s", j, k.name)
				}
			})
		}
	}
	c.hexText()
	// derived identifiers
	pk := c.bytes(32)
	if a := types.PubkeyToAddress(pk); string(a.Bytes()) != string(append(b2(20, pk), 0)) {
		c.fail("derive-address", "address of key %x is %x", pk, a.Bytes())
	}
	parts := [][]byte{c.bytes(c.rnd.Intn(40)), c.bytes(c.rnd.Intn(40)), c.bytes(c.rnd.Intn(40))}
	all := cat(parts...)
	if a := types.CreateContractAddress(parts...); string(a.Bytes()) != string(append(b2(20, all), 1)) {
		c.fail("derive-contract", "contract address of %x is %x", all, a.Bytes())
	}
	if t := types.CreateTokenTypeId(parts...); string(t.Bytes()) != string(b2(10, all)) {
		c.fail("derive-token", "token id of %x is %x", all, t.Bytes())
	}
	if g := types.DataToGid(parts...); string(g.Bytes()) != string(b2(10, all)) {
		c.fail("derive-gid", "group id of %x is %x", all, g.Bytes())
	}
	for _, n := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 255} {
		var a types.Address
		a[19], a[20] = n, byte(c.rnd.Intn(2))
		if got, want := types.IsBuiltinContractAddr(a), n != 0 && a[20] == 1; got != want {
			c.fail("builtin", "%x counts as built-in contract: %v", a.Bytes(), got)
		}
		if got, want := types.IsBuiltinContractAddrInUse(a), n >= 3 && n <= 7 && a[20] == 1; got != want {
			c.fail("builtin", "%x counts as built-in contract in use: %v", a.Bytes(), got)
		}
		if types.IsContractAddr(a) != (a[20] == 1) {
			c.fail("contract-kind", "%x counts as contract: %v", a.Bytes(), a[20] != 1)
		}
	}
}
