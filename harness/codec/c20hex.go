package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/hexutil"
)

// hexBytes says what a prefixed hex text means.
func hexBytes(s string) ([]byte, bool) {
	if len(s) < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X') {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])
	return b, err == nil
}

// hexNumber says what a prefixed hex number of at most the given bits means; numbers have no
// leading zero digits.
func hexNumber(s string, bits int) (*big.Int, bool) {
	if len(s) < 3 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X') {
		return nil, false
	}
	d := s[2:]
	if len(d) > 1 && d[0] == '0' {
		return nil, false
	}
	for _, r := range d {
		if !strings.ContainsRune("0123456789abcdefABCDEF", r) {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(d, 16)
	return n, ok && n.BitLen() <= bits
}

// hexText compares the prefixed hex forms of byte strings and numbers with their definition.
func (c *ctx) hexText() {
	b := c.bytes(c.rnd.Intn(40))
	n := new(big.Int).SetBytes(c.bytes(c.rnd.Intn(33)))
	if c.rnd.Intn(3) == 0 {
		n.Lsh(big.NewInt(1), uint(c.rnd.Intn(256)))
		if c.rnd.Intn(2) == 0 {
			n.Sub(n, big.NewInt(1))
		}
	}
	u := new(big.Int).And(n, new(big.Int).SetUint64(^uint64(0))).Uint64()
	if s := hexutil.Encode(b); s != "0x"+hex.EncodeToString(b) || hexutil.Bytes(b).String() != s {
		c.fail("hex-bytes", "%x is written %s", b, s)
	}
	if s := hexutil.EncodeUint64(u); s != fmt.Sprintf("0x%x", u) || hexutil.Uint64(u).String() != s {
		c.fail("hex-uint64", "%d is written %s", u, s)
	}
	if s := hexutil.EncodeBig(n); s != fmt.Sprintf("0x%x", n) || (*hexutil.Big)(n).String() != s {
		c.fail("hex-big", "%d is written %s", n, s)
	}
	texts := []string{"0x" + hex.EncodeToString(b), fmt.Sprintf("0x%x", u), fmt.Sprintf("0x%x", n), fmt.Sprintf("0x%x", new(big.Int).Lsh(n, uint(c.rnd.Intn(9)))), "0x", "0x0", "0x00", "", "0",
		"0x1" + strings.Repeat("0", 16), "0x" + strings.Repeat("f", 16), "0x" + strings.Repeat("f", 64), "0x1" + strings.Repeat("0", 64), "0x0" + fmt.Sprintf("%x", n)}
	for i := 0; i < 10; i++ {
		t := []byte(texts[c.rnd.Intn(4)])
		chars := "0123456789abcdefABCDEFxXgG _-+."
		switch k := c.rnd.Intn(len(t)); c.rnd.Intn(4) {
		case 0, 1:
			t[k] = chars[c.rnd.Intn(len(chars))]
		case 2:
			t = append(t[:k:k], t[k+1:]...)
		default:
			t = append(t[:k:k], append([]byte{chars[c.rnd.Intn(len(chars))]}, t[k:]...)...)
		}
		texts = append(texts, string(t))
	}
	for _, s := range texts {
		j, _ := json.Marshal(s)
		wb, okb := hexBytes(s)
		w64, ok64 := hexNumber(s, 64)
		w256, ok256 := hexNumber(s, 256)
		c.safe("hex-panic", fmt.Sprintf("reading %q", s), func() {
			if g, err := hexutil.Decode(s); (err == nil) != okb || (okb && string(g) != string(wb)) {
				c.fail("hex-bytes-read", "%q reads as %x (%v), the definition gives %x %v", s, g, err, wb, okb)
			}
			if g, err := hexutil.DecodeUint64(s); (err == nil) != ok64 || (ok64 && g != w64.Uint64()) {
				c.fail("hex-uint64-read", "%q reads as %d (%v), the definition gives %v %v", s, g, err, w64, ok64)
			}
			// a number of 64 digits or fewer has at most 256 bits
			if g, err := hexutil.DecodeBig(s); (err == nil) != ok256 || (ok256 && g.Cmp(w256) != 0) {
				c.fail("hex-big-read", "%q reads as %v (%v), the definition gives %v %v", s, g, err, w256, ok256)
			}
			if s == "" { // the JSON forms read an empty text as nothing
				return
			}
			var gb hexutil.Bytes
			if err := json.Unmarshal(j, &gb); (err == nil) != okb || (okb && string(gb) != string(wb)) {
				c.fail("hex-bytes-json", "JSON %s reads as %x (%v), the definition gives %x %v", j, []byte(gb), err, wb, okb)
			}
			var gu hexutil.Uint64
			if err := json.Unmarshal(j, &gu); (err == nil) != ok64 || (ok64 && uint64(gu) != w64.Uint64()) {
				c.fail("hex-uint64-json", "JSON %s reads as %d (%v), the definition gives %v %v", j, uint64(gu), err, w64, ok64)
			}
			var gi hexutil.Big
			if err := json.Unmarshal(j, &gi); (err == nil) != ok256 || (ok256 && gi.ToInt().Cmp(w256) != 0) {
				c.fail("hex-big-json", "JSON %s reads as %v (%v), the definition gives %v %v", j, gi.ToInt(), err, w256, ok256)
			}
			out := make([]byte, len(wb))
			if okb {
				if c.rnd.Intn(4) == 0 {
					out = append(out, 0)
				}
			} else {
				out = make([]byte, len(s)/2)
				if len(s) > 2 && c.rnd.Intn(2) == 0 {
					out = out[:(len(s)-2)/2]
				}
			}
			fits := okb && len(out) == len(wb)
			err := hexutil.UnmarshalFixedText("t", []byte(s), out)
			if (err == nil) != fits || (fits && string(out) != string(wb)) {
				c.fail("hex-fixed", "%q reads as %d bytes %x (%v), the definition gives %x %v", s, len(out), out, err, wb, okb)
			}
			err = hexutil.UnmarshalFixedJSON(reflect.TypeOf(wb), j, out)
			if (err == nil) != fits || (fits && string(out) != string(wb)) {
				c.fail("hex-fixed-json", "JSON %s reads as %d bytes %x (%v), the definition gives %x %v", j, len(out), out, err, wb, okb)
			}
			if len(s) >= 2 && s[:2] == "0x" { // the prefix may be left out
				err = hexutil.UnmarshalFixedUnprefixedText("t", []byte(s[2:]), out)
				if o := s[2:]; o != "" && !strings.HasPrefix(o, "0x") && !strings.HasPrefix(o, "0X") && ((err == nil) != fits || (fits && string(out) != string(wb))) {
					c.fail("hex-fixed-noprefix", "%q reads as %d bytes %x (%v), the definition gives %x %v", o, len(out), out, err, wb, okb)
				}
			}
		})
		c.r.Eval("hex"+s, true)
		c.r.Count("hex_texts", 1)
	}
}
