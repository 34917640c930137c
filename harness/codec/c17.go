package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/abi"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

// ty is the model of an argument type.
type ty struct {
	name string
	base string
	bits int // integers: width; fixed bytes: size
	arr  int // 0 none, -1 dynamic, n fixed
}

func (t ty) String() string {
	switch {
	case t.arr == -1:
		return t.name + "[]"
	case t.arr > 0:
		return fmt.Sprintf("%s[%d]", t.name, t.arr)
	}
	return t.name
}

func (t ty) dynamic() bool {
	return t.arr == -1 || t.arr == 0 && (t.base == "string" || t.base == "bytes")
}

func (t ty) words() int {
	if t.arr > 0 {
		return t.arr
	}
	return 1
}

func (c *ctx) ty() ty {
	var t ty
	switch c.rnd.Intn(10) {
	case 0, 1, 2:
		t.bits = []int{8, 16, 32, 64, 128, 256, 24, 40, 72, 160, 248}[c.rnd.Intn(11)]
		t.base = []string{"int", "uint"}[c.rnd.Intn(2)]
		t.name = fmt.Sprintf("%s%d", t.base, t.bits)
	case 3:
		t.base, t.name = "bool", "bool"
	case 4:
		t.base, t.name = "address", "address"
	case 5:
		t.base, t.name = "gid", "gid"
	case 6:
		t.base, t.name = "tokenId", "tokenId"
	case 7:
		t.bits = 1 + c.rnd.Intn(32)
		t.base, t.name = "fixed", fmt.Sprintf("bytes%d", t.bits)
	case 8:
		t.base, t.name = "string", "string"
		return t
	case 9:
		t.base, t.name = "bytes", "bytes"
		return t
	}
	switch c.rnd.Intn(5) {
	case 0:
		t.arr = -1
	case 1:
		t.arr = 1 + c.rnd.Intn(4)
	}
	return t
}

// native reports the width a Go integer is used for.
func native(bits int) bool { return bits == 8 || bits == 16 || bits == 32 || bits == 64 }

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// elem draws a value of the element type: the Go value to pack and its word (or content).
func (c *ctx) elem(t ty) (interface{}, []byte) {
	switch t.base {
	case "int", "uint":
		lim := new(big.Int).Lsh(big.NewInt(1), uint(t.bits))
		n := new(big.Int)
		switch c.rnd.Intn(4) {
		case 0:
			n.SetInt64(int64(c.rnd.Intn(3)))
		case 1:
			n.Sub(lim, big.NewInt(1+int64(c.rnd.Intn(2))))
		case 2:
			n.Add(new(big.Int).Rsh(lim, 1), big.NewInt(int64(c.rnd.Intn(3)-1)))
		default:
			n.Rand(c.rnd, lim)
		}
		if t.base == "int" {
			n.Sub(n, new(big.Int).Rsh(lim, 1))
		}
		w := pad32(new(big.Int).Mod(n, two256))
		if !native(t.bits) {
			return n, w
		}
		switch t.name {
		case "int8":
			return int8(n.Int64()), w
		case "int16":
			return int16(n.Int64()), w
		case "int32":
			return int32(n.Int64()), w
		case "int64":
			return n.Int64(), w
		case "uint8":
			return uint8(n.Uint64()), w
		case "uint16":
			return uint16(n.Uint64()), w
		case "uint32":
			return uint32(n.Uint64()), w
		}
		return n.Uint64(), w
	case "bool":
		b := c.rnd.Intn(2)
		return b == 1, pad32(big.NewInt(int64(b)))
	case "address":
		a := c.addr()
		return a, pad32(new(big.Int).SetBytes(a[:]))
	case "gid":
		var g types.Gid
		copy(g[:], c.bytes(10))
		return g, pad32(new(big.Int).SetBytes(g[:]))
	case "tokenId":
		var g types.TokenTypeId
		copy(g[:], c.bytes(10))
		return g, pad32(new(big.Int).SetBytes(g[:]))
	case "fixed":
		v := reflect.New(reflect.ArrayOf(t.bits, reflect.TypeOf(byte(0)))).Elem()
		b := c.bytes(t.bits)
		reflect.Copy(v, reflect.ValueOf(b))
		w := make([]byte, 32)
		copy(w, b)
		return v.Interface(), w
	case "string":
		b := c.bytes(c.rnd.Intn(80))
		return string(b), b
	}
	b := c.bytes(c.rnd.Intn(80))
	if c.rnd.Intn(3) == 0 {
		b = c.bytes(32 * c.rnd.Intn(3))
	}
	return b, b
}

// value draws a value: the Go value, and its encoding (tail for dynamic types).
func (c *ctx) value(t ty) (interface{}, []byte) {
	if t.arr == 0 {
		v, w := c.elem(t)
		if t.dynamic() {
			p := cat(pad32(big.NewInt(int64(len(w)))), w)
			for len(p)%32 != 0 {
				p = append(p, 0)
			}
			return v, p
		}
		return v, w
	}
	n := t.arr
	if n < 0 {
		n = c.rnd.Intn(5)
	}
	v0, _ := c.elem(t)
	var out reflect.Value
	if t.arr < 0 {
		out = reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v0)), n, n)
	} else {
		out = reflect.New(reflect.ArrayOf(n, reflect.TypeOf(v0))).Elem()
	}
	var enc []byte
	if t.arr < 0 {
		enc = pad32(big.NewInt(int64(n)))
	}
	for i := 0; i < n; i++ {
		v, w := c.elem(t)
		out.Index(i).Set(reflect.ValueOf(v))
		enc = cat(enc, w)
	}
	return out.Interface(), enc
}

func showVals(v []interface{}) string {
	s := ""
	for _, x := range v {
		s += show(x) + ";"
	}
	return s
}

func show(x interface{}) string {
	switch v := x.(type) {
	case *big.Int:
		return v.String()
	case []byte:
		return zb(v)
	case string:
		return "s" + zb([]byte(v))
	case types.Address:
		return zb(v[:])
	case types.TokenTypeId:
		return zb(v[:])
	case types.Gid:
		return zb(v[:])
	case types.Hash:
		return zb(v[:])
	}
	r := reflect.ValueOf(x)
	if k := r.Kind(); k == reflect.Slice || k == reflect.Array {
		s := "["
		for i := 0; i < r.Len(); i++ {
			s += show(r.Index(i).Interface()) + ","
		}
		return s + "]"
	}
	return fmt.Sprint(x)
}

func jsonABI(kind, name string, ts []ty, indexed []bool) string {
	var in []string
	for i, t := range ts {
		x := ""
		if indexed != nil && indexed[i] {
			x = `,"indexed":true`
		}
		in = append(in, fmt.Sprintf(`{"name":"arg%d","type":"%s"%s}`, i, t, x))
	}
	return fmt.Sprintf(`{"type":"%s","name":"%s","inputs":[%s],"outputs":[%s]}`, kind, name, strings.Join(in, ","), strings.Join(in, ","))
}

func encodeArgs(ts []ty, tails [][]byte) []byte {
	head := 0
	for _, t := range ts {
		head += 32 * t.words()
	}
	var h, tail []byte
	for i, t := range ts {
		if t.dynamic() {
			h = cat(h, pad32(big.NewInt(int64(head+len(tail)))))
			tail = cat(tail, tails[i])
		} else {
			h = cat(h, tails[i])
		}
	}
	return cat(h, tail)
}

var builtins = []struct {
	name string
	abi  *abi.ABIContract
}{{"asset", &cabi.ABIAsset}, {"quota", &cabi.ABIQuota}, {"governance", &cabi.ABIGovernance}, {"dexFund", &cabi.ABIDexFund}, {"dexTrade", &cabi.ABIDexTrade}}

func runC17(c *ctx) {
	if c.i == 0 {
		c.dynamicElements()
	}
	switch c.i % 12 {
	case 10:
		c.hostileJSON()
		return
	case 11:
		c.builtinMethods()
		return
	}
	n := c.rnd.Intn(6)
	ts := make([]ty, n)
	vals := make([]interface{}, n)
	encs := make([][]byte, n)
	for i := range ts {
		ts[i] = c.ty()
		vals[i], encs[i] = c.value(ts[i])
	}
	before := showVals(vals)
	indexed := make([]bool, n)
	k := 0
	for i := range indexed {
		if k < 3 && c.rnd.Intn(3) == 0 {
			indexed[i] = true
			k++
		}
	}
	name := fmt.Sprintf("m%d", c.rnd.Intn(100))
	items := []string{jsonABI("function", name, ts, nil), jsonABI("offchain", "off", ts, nil), jsonABI("callback", "cb", ts, nil), jsonABI("event", "Ev", ts, indexed), jsonABI("constructor", "", ts, nil)}
	if n > 0 {
		items = append(items, jsonABI("variable", "va", ts, nil))
	}
	js := "[" + strings.Join(items, ",") + "]"
	ab, err := abi.JSONToABIContract(strings.NewReader(js))
	if err != nil {
		c.fail("abi-parse", "%s: %v", js, err)
		return
	}
	want := encodeArgs(ts, encs)
	var tn []string
	for _, t := range ts {
		tn = append(tn, t.String())
	}
	sig := name + "(" + strings.Join(tn, ",") + ")"
	id := b2(32, []byte(sig))[:4]
	got, err := ab.PackMethod(name, vals...)
	if err != nil || !bytes.Equal(got, cat(id, want)) {
		c.fail("encode", "%s with %s encodes to %x (%v), the standard layout is %x%x", sig, before, got, err, id, want)
		return
	}
	if g, err := ab.PackMethod("", vals...); err != nil || !bytes.Equal(g, want) {
		c.fail("encode-constructor", "constructor of %s with %s encodes to %x (%v)", sig, before, g, err)
	}
	if g, err := ab.PackOffChain("off", vals...); err != nil || !bytes.Equal(g[4:], want) {
		c.fail("encode-offchain", "%s with %s encodes to %x (%v)", sig, before, g, err)
	}
	if g, err := ab.PackCallback("cb", vals...); err != nil || !bytes.Equal(g[4:], want) {
		c.fail("encode-callback", "%s with %s encodes to %x (%v)", sig, before, g, err)
	}
	if s := showVals(vals); s != before {
		c.fail("encode-mutates", "encoding %s changed the arguments from %s to %s", sig, before, s)
		return
	}
	if _, err := ab.PackMethod(name, append(vals[:n:n], 1)...); err == nil {
		c.fail("encode-count", "%s accepts %d arguments", sig, n+1)
	}
	if n > 0 {
		r, err := ab.DirectUnpackMethodInput(name, got)
		if err != nil || showVals(r) != before {
			c.fail("decode", "%s with %s decodes to %s (%v)", sig, before, showVals(r), err)
		}
		for i, v := range r {
			if reflect.TypeOf(v) != reflect.TypeOf(vals[i]) {
				c.fail("decode-type", "%s argument %d decodes to a %T, encoded was a %T", sig, i, v, vals[i])
			}
		}
		if r, err := ab.DirectUnpackOffchainOutput("off", want); err != nil || showVals(r) != before {
			c.fail("decode-offchain", "%s with %s decodes to %s (%v)", sig, before, showVals(r), err)
		}
		// into variables
		ptrs := make([]interface{}, n)
		for i := range vals {
			ptrs[i] = reflect.New(reflect.TypeOf(vals[i])).Interface()
		}
		var err2 error
		if n > 1 {
			err2 = ab.UnpackMethod(&ptrs, name, got)
		} else {
			err2 = ab.UnpackMethod(ptrs[0], name, got)
		}
		var back []interface{}
		for _, p := range ptrs {
			back = append(back, reflect.ValueOf(p).Elem().Interface())
		}
		if err2 != nil || showVals(back) != before {
			c.fail("decode-into", "%s with %s decodes into variables as %s (%v)", sig, before, showVals(back), err2)
		}
		pv, err := ab.PackVariable("va", vals...)
		if err != nil || !bytes.Equal(pv, want) {
			c.fail("encode-variable", "variable %s with %s encodes to %x (%v)", sig, before, pv, err)
		}
	}
	c.r.Eval(sig+string(got), n > 0)
	// events
	topics, data, err := ab.PackEvent("Ev", vals...)
	if err != nil {
		c.fail("event-encode", "event %s with %s: %v", sig, before, err)
		return
	}
	eid := b2(32, []byte("Ev("+strings.Join(tn, ",")+")"))
	if len(topics) != k+1 || !bytes.Equal(topics[0][:], eid) {
		c.fail("event-id", "event %s has topics %v, want id %x and %d more", sig, topics, eid, k)
		return
	}
	var nts []ty
	var nenc [][]byte
	j := 1
	wantEv := ""
	for i, t := range ts {
		if !indexed[i] {
			nts, nenc = append(nts, t), append(nenc, encs[i])
			wantEv += show(vals[i]) + ";"
			continue
		}
		tp := topics[j]
		j++
		if len(encs[i]) == 32 && t.arr == 0 && !t.dynamic() {
			if !bytes.Equal(tp[:], encs[i]) {
				c.fail("event-topic", "event %s argument %d has topic %s, want %x", sig, i, tp, encs[i])
			}
			wantEv += show(vals[i]) + ";"
		} else {
			wantEv += show(tp) + ";"
		}
	}
	if len(nts) > 0 && !bytes.Equal(data, encodeArgs(nts, nenc)) || len(nts) == 0 && len(data) != 0 {
		c.fail("event-data", "event %s with %s has data %x", sig, before, data)
	}
	if _, r, err := ab.DirectUnpackEvent(topics, data); err != nil || showVals(r) != wantEv {
		c.fail("event-decode", "event %s with %s decodes to %s (%v), want %s", sig, before, showVals(r), err, wantEv)
	}
	if n == 0 {
		return
	}
	// hostile data
	args := ab.Methods[name].Inputs
	for q := 0; q < 8; q++ {
		m := c.mutate(want)
		if c.rnd.Intn(6) == 0 {
			m = c.bytes(c.rnd.Intn(200))
		}
		if c.rnd.Intn(2) == 0 { // nothing may be read behind the end
			big := append(m, 0xa5, 0xa5, 0xa5, 0xa5)
			m = big[:len(m)]
		}
		c.hostileData(sig, ts, args, m)
	}
}

func (c *ctx) hostileData(sig string, ts []ty, args abi.Arguments, m []byte) {
	keep := append([]byte{}, m...)
	var r []interface{}
	var err error
	if !c.safe("decode-panic", fmt.Sprintf("decoding %x as %s", m, sig), func() { r, err = args.DirectUnpack(m) }) {
		return
	}
	c.r.Eval(sig+string(m), true)
	c.r.Count("hostile", 1)
	if !bytes.Equal(m, keep) {
		c.fail("decode-mutates", "decoding changed its input %x", keep)
	}
	if err != nil {
		c.r.Count("hostile_refused", 1)
		return
	}
	// what was accepted re-encodes, and decodes to the same values again
	enc, err := args.Pack(r...)
	if err != nil {
		c.fail("accepted-unencodable", "%x decodes as %s to %s, which cannot be encoded: %v", m, sig, showVals(r), err)
		return
	}
	r2, err := args.DirectUnpack(enc)
	if err != nil || showVals(r2) != showVals(r) {
		c.fail("accepted-unstable", "%x decodes as %s to %s, encoded again and decoded %s (%v)", m, sig, showVals(r), showVals(r2), err)
	}
	if len(enc) > 3*len(m)+64*len(args) && len(enc) > 64*(len(m)+32*len(args)) {
		c.fail("accepted-blowup", "%d bytes decode to values of %d bytes", len(m), len(enc))
	}
	// independent bounds: every dynamic part lies within the data
	head := 0
	for i, t := range ts {
		if t.dynamic() {
			off := new(big.Int).SetBytes(m[head : head+32])
			lim := big.NewInt(int64(len(m)))
			if new(big.Int).Add(off, big.NewInt(32)).Cmp(lim) > 0 {
				c.fail("accepted-outside", "%x is accepted as %s though argument %d points outside", m, sig, i)
				return
			}
			o := off.Int64()
			l := new(big.Int).SetBytes(m[o : o+32])
			if t.arr == -1 {
				l.Mul(l, big.NewInt(32))
			}
			if l.Add(l, big.NewInt(o+32)).Cmp(lim) > 0 {
				c.fail("accepted-outside", "%x is accepted as %s though argument %d ends outside", m, sig, i)
				return
			}
		}
		head += 32 * t.words()
	}
}

// hostileJSON parses descriptions nobody would write.
func (c *ctx) hostileJSON() {
	names := []string{"", "[]", "[3]", "uint", "int", "uint0", "int8[0]", "bytes0", "bytes33", "bytes64", "string[2]x", "uint256[", "uint256]", "]uint256[", "uint256[][]", "uint256[2][2]",
		"uint256[99999999999999999999]", "uint256[9223372036854775807]", "bytes9223372036854775807", "address20", "7", "é", "fixed128", "tuple", "function", "uint256[-1]", "uint256[a]", "uint256[1,2]", "[uint256]", "bool8", "uint7", "uint512", "uint99999999999999999999"}
	t := names[c.rnd.Intn(len(names))]
	kind := []string{"function", "event", "constructor", "variable", "callback", "offchain", "", "nonsense"}[c.rnd.Intn(8)]
	js := fmt.Sprintf(`[{"type":"%s","name":"x","inputs":[{"name":"a","type":"%s"}]}]`, kind, t)
	if c.rnd.Intn(3) == 0 {
		js = string(c.mutate([]byte(js)))
	}
	var ab abi.ABIContract
	var err error
	if !c.safe("abi-json-panic", "reading the description "+js, func() { ab, err = abi.JSONToABIContract(strings.NewReader(js)) }) {
		return
	}
	c.r.Eval(js, true)
	c.r.Count("hostile_descriptions", 1)
	if err != nil {
		return
	}
	m, ok := ab.Methods["x"]
	if !ok || len(m.Inputs) == 0 {
		return
	}
	data := make([]byte, 320)
	data[31] = 32
	back := append(data, bytes.Repeat([]byte{0xee}, 64)...)
	c.safe("abi-odd-type-panic", "decoding with the accepted description "+js, func() {
		r, err := m.Inputs.DirectUnpack(back[:320:384])
		if err == nil && strings.Contains(showVals(r), "eeee") {
			c.fail("abi-odd-type-reads-behind", "decoding with the accepted description %s reads behind the end of its input", js)
		}
		m.Inputs.DirectUnpack(back[:32:384])
		if r, err := m.Inputs.DirectUnpack(data[:32:32]); err == nil {
			_ = r
		}
	})
}

// dynamicElements: lists whose elements are themselves of variable length.
func (c *ctx) dynamicElements() {
	for _, t := range []string{"string", "bytes"} {
		a, err := abi.JSONToABIContract(strings.NewReader(`[{"type":"function","name":"x","inputs":[{"name":"a","type":"` + t + `[]"}]}]`))
		if err != nil {
			continue // refused: fine
		}
		var v interface{} = []string{"first element", "", "third element of a list, longer than a word"}
		if t == "bytes" {
			v = [][]byte{[]byte("first element"), []byte("2"), []byte("third element of a list, longer than a word")}
		}
		data, err := a.PackMethod("x", v)
		if err != nil {
			continue
		}
		r, err := a.DirectUnpackMethodInput("x", data)
		if err != nil || showVals(r) != showVals([]interface{}{v}) {
			c.fail("list-of-variable-length-elements", "%s[] with %s decodes to %s (%v)", t, showVals([]interface{}{v}), showVals(r), err)
		}
	}
}

// builtinMethods decodes hostile data with the descriptions of the built-in contracts.
func (c *ctx) builtinMethods() {
	b := builtins[c.rnd.Intn(len(builtins))]
	for name, m := range b.abi.Methods {
		if c.rnd.Intn(3) > 0 {
			continue
		}
		var ts []ty
		var encs [][]byte
		var vals []interface{}
		for _, in := range m.Inputs {
			t := parseTy(in.Type.String())
			v, e := c.value(t)
			ts, encs, vals = append(ts, t), append(encs, e), append(vals, v)
		}
		want := encodeArgs(ts, encs)
		before := showVals(vals)
		got, err := b.abi.PackMethod(name, vals...)
		if err != nil || !bytes.Equal(got, cat(b2(32, []byte(m.Sig()))[:4], want)) {
			c.fail("builtin-encode", "%s.%s with %s encodes to %x (%v)", b.name, name, before, got, err)
			continue
		}
		if len(ts) == 0 {
			continue
		}
		r, err := b.abi.DirectUnpackMethodInput(name, got)
		if err != nil || showVals(r) != before {
			c.fail("builtin-decode", "%s.%s with %s decodes to %s (%v)", b.name, name, before, showVals(r), err)
		}
		found, err := b.abi.MethodById(got[:4])
		if err != nil || found.Name != name {
			c.fail("builtin-id", "%s.%s is found as %v", b.name, name, found)
		}
		c.r.Eval(b.name+name+string(got), true)
		for q := 0; q < 3; q++ {
			c.hostileData(b.name+"."+m.Sig(), ts, m.Inputs, c.mutate(want))
		}
	}
}

func parseTy(s string) ty {
	var t ty
	if strings.HasSuffix(s, "[]") {
		t.arr = -1
		s = s[:len(s)-2]
	}
	t.name = s
	switch {
	case strings.HasPrefix(s, "uint"):
		t.base = "uint"
		fmt.Sscanf(s, "uint%d", &t.bits)
	case strings.HasPrefix(s, "int"):
		t.base = "int"
		fmt.Sscanf(s, "int%d", &t.bits)
	case s == "bytes" || s == "string" || s == "bool" || s == "address" || s == "gid" || s == "tokenId":
		t.base = s
	case strings.HasPrefix(s, "bytes"):
		t.base = "fixed"
		fmt.Sscanf(s, "bytes%d", &t.bits)
	default:
		panic("type " + s)
	}
	return t
}
