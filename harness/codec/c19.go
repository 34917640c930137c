package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
)

func (c *ctx) split(b []byte) (out [][]byte) {
	for len(b) > 0 {
		n := c.rnd.Intn(len(b) + 1)
		if c.rnd.Intn(3) == 0 && n > 3 {
			n = c.rnd.Intn(3)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	if c.rnd.Intn(2) == 0 {
		out = append(out, nil)
	}
	return
}

func runC19(c *ctx) {
	// hashes: every length around the block sizes, any chunking
	for k := 0; k < 24; k++ {
		n := c.rnd.Intn(600)
		if c.rnd.Intn(3) == 0 {
			n = []int{0, 1, 63, 64, 65, 127, 128, 129, 135, 136, 137, 255, 256, 257, 271, 272, 273}[c.rnd.Intn(17)]
		}
		b := c.bytes(n)
		parts := c.split(b)
		size := 1 + c.rnd.Intn(64)
		for _, t := range []struct {
			name      string
			got, want []byte
		}{
			{"Hash256", crypto.Hash256(parts...), b2(32, b)},
			{"Hash512", crypto.Hash512(parts...), b2(64, b)},
			{"Hash", crypto.Hash(size, parts...), b2(size, b)},
			{"Keccak256", crypto.Keccak256(parts...), keccak256(b)},
			{"DataListHash", types.DataListHash(parts...).Bytes(), b2(32, b)},
			{"DataHash", types.DataHash(b).Bytes(), b2(32, b)},
		} {
			if !bytes.Equal(t.got, t.want) {
				c.fail("hash-"+t.name, "%s of %x in %d parts is %x, the definition gives %x", t.name, b, len(parts), t.got, t.want)
			}
			c.r.Eval(t.name+string(b), true)
		}
		c.r.Count("hashes", 6)
	}
	// keys and signatures
	var seed [32]byte
	c.rnd.Read(seed[:])
	if c.i%17 == 0 {
		seed = [32]byte{}
	}
	pub, priv, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		c.fail("keygen", "%v", err)
		return
	}
	if want := edPub(seed[:]); !bytes.Equal(pub, want) || !bytes.Equal(priv[32:], want) || !bytes.Equal(priv[:32], seed[:]) {
		c.fail("keygen", "key of seed %x is %x, the definition gives %x", seed, pub, want)
	}
	if !bytes.Equal(priv.PubByte(), pub) || !ed25519.IsValidPrivateKey(priv) {
		c.fail("keygen", "the generated private key of seed %x is not accepted as valid", seed)
	}
	bad := append(ed25519.PrivateKey{}, priv...)
	bad[32+c.rnd.Intn(32)] ^= 1 << uint(c.rnd.Intn(8))
	if ed25519.IsValidPrivateKey(bad) {
		c.fail("keygen-validity", "a private key with an altered public half is accepted as valid")
	}
	h, err := ed25519.HexToPrivateKey(priv.Hex())
	if err != nil || !bytes.Equal(h, priv) {
		c.fail("key-hex", "private key text form does not read back: %v", err)
	}
	hp, err := ed25519.HexToPublicKey(pub.Hex())
	if err != nil || !bytes.Equal(hp, pub) {
		c.fail("key-hex", "public key text form does not read back: %v", err)
	}
	msg := c.bytes(c.rnd.Intn(200))
	if c.i%5 == 0 {
		msg = nil
	}
	sig := ed25519.Sign(priv, msg)
	if want := edSign(seed[:], pub, msg); !bytes.Equal(sig, want) {
		c.fail("sign", "signature with seed %x of %x is %x, the definition gives %x", seed, msg, sig, want)
	}
	both := func(p ed25519.PublicKey, m, s []byte) (bool, bool) {
		a := false
		c.safe("verify-panic", "Verify", func() { a, _ = crypto.VerifySig(p, m, s) })
		b := ed25519.VerifySig(p, m, s) == nil
		if a != b {
			c.fail("verify-disagree", "the two verifiers disagree on key %x message %x signature %x: %v %v", p, m, s, a, b)
		}
		return a, b
	}
	if ok, _ := both(pub, msg, sig); !ok {
		c.fail("verify-honest", "an honest signature is refused: seed %x message %x", seed, msg)
	}
	c.r.Eval("sig"+string(sig), true)
	// altered
	type tri struct {
		p, m, s []byte
		what    string
	}
	var l []tri
	flip := func(b []byte, i int) []byte {
		o := append([]byte{}, b...)
		o[i] ^= 1 << uint(c.rnd.Intn(8))
		return o
	}
	for k := 0; k < 3; k++ {
		l = append(l, tri{pub, msg, flip(sig, c.rnd.Intn(32)), "R altered"})
		l = append(l, tri{pub, msg, flip(sig, 32+c.rnd.Intn(32)), "s altered"})
		l = append(l, tri{flip(pub, c.rnd.Intn(32)), msg, sig, "key altered"})
		if len(msg) > 0 {
			l = append(l, tri{pub, flip(msg, c.rnd.Intn(len(msg))), sig, "message altered"})
		}
	}
	l = append(l, tri{pub, append(append([]byte{}, msg...), 0), sig, "message extended"})
	if len(msg) > 0 {
		l = append(l, tri{pub, msg[:len(msg)-1], sig, "message shortened"})
	}
	s := le(sig[32:])
	for m := int64(1); m <= 15; m++ {
		t := new(big.Int).Add(s, new(big.Int).Mul(edL, big.NewInt(m)))
		if t.BitLen() <= 256 {
			l = append(l, tri{pub, msg, cat(sig[:32], toLE(t)), "s plus a multiple of the group order"})
		}
	}
	l = append(l, tri{pub, msg, sig[:63], "short"}, tri{pub, msg, append(append([]byte{}, sig...), 0), "long"}, tri{pub, msg, nil, "empty"})
	l = append(l, tri{pub, msg, cat(sig[:32], toLE(new(big.Int).Sub(edL, s))), "s negated"})
	other, _, _ := ed25519.GenerateKeyFromD([32]byte{1, byte(c.i)})
	l = append(l, tri{other, msg, sig, "another key"})
	// small-order keys and R
	id := append([]byte{1}, make([]byte, 31)...)
	l = append(l, tri{id, msg, cat(id, make([]byte, 32)), "identity key"})
	l = append(l, tri{id, msg, cat(edB.bytes(), append([]byte{1}, make([]byte, 31)...)), "identity key, s=1"})
	l = append(l, tri{pub, msg, cat(id, make([]byte, 32)), "identity R, s=0"})
	for _, t := range l {
		got, _ := both(t.p, t.m, t.s)
		want, canon := edVerify(t.p, t.m, t.s)
		if !canon {
			continue
		}
		if got != want {
			c.fail("verify-altered", "%s: key %x message %x signature %x: verdict %v, the definition gives %v", t.what, t.p, t.m, t.s, got, want)
		}
		c.r.Eval(t.what+string(t.s)+string(t.m)+string(t.p), true)
		c.r.Count("altered", 1)
	}
	for _, n := range []int{0, 31, 33} {
		c.safe("verify-panic", "VerifySig with a key of a wrong length", func() {
			if ok, err := crypto.VerifySig(make([]byte, n), msg, sig); ok || err == nil {
				c.fail("verify-keylen", "a key of %d bytes is accepted", n)
			}
		})
	}
	// key agreement
	x := priv.ToX25519Sk()
	px := pub.ToX25519Pk()
	if want := x25519(x, append([]byte{9}, make([]byte, 31)...)); !bytes.Equal(px, want) {
		c.fail("x25519-key", "agreement key of seed %x is %x, the definition gives %x", seed, px, want)
	}
	opub, opriv, _ := ed25519.GenerateKeyFromD([32]byte{2, byte(c.i), byte(c.i >> 8)})
	s1, e1 := crypto.X25519ComputeSecret(x, opub.ToX25519Pk())
	s2, e2 := crypto.X25519ComputeSecret(opriv.ToX25519Sk(), px)
	if e1 != nil || e2 != nil || !bytes.Equal(s1, s2) || !bytes.Equal(s1, x25519(x, opub.ToX25519Pk())) {
		c.fail("x25519", "the two sides derive %x and %x (%v %v)", s1, s2, e1, e2)
	}
	c.r.Eval("x"+string(s1), true)
	if _, err := crypto.X25519ComputeSecret(x[:31], px); err == nil {
		c.fail("x25519-len", "a private key of 31 bytes is accepted")
	}
	// ciphers
	key := c.bytes([]int{16, 24, 32}[c.rnd.Intn(3)])
	plain := c.bytes(c.rnd.Intn(100))
	ct, nonce, err := crypto.AesGCMEncrypt(key, plain)
	if err != nil {
		c.fail("gcm", "%v", err)
		return
	}
	back, err := crypto.AesGCMDecrypt(key, ct, nonce)
	if err != nil || !bytes.Equal(back, plain) {
		c.fail("gcm", "decryption of an honest ciphertext yields %x %v, want %x", back, err, plain)
	}
	blk, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(blk)
	if want := g.Seal(nil, nonce, plain, []byte("vite")); !bytes.Equal(want, ct) {
		c.fail("gcm-spec", "ciphertext is not AES-GCM of the text")
	}
	for k := 0; k < 4; k++ {
		if r, err := crypto.AesGCMDecrypt(key, flip(ct, c.rnd.Intn(len(ct))), nonce); err == nil {
			c.fail("gcm-altered", "an altered ciphertext decrypts to %x", r)
		}
		if r, err := crypto.AesGCMDecrypt(flip(key, c.rnd.Intn(len(key))), ct, nonce); err == nil {
			c.fail("gcm-altered", "another key decrypts to %x", r)
		}
		if r, err := crypto.AesGCMDecrypt(key, ct, flip(nonce, c.rnd.Intn(len(nonce)))); err == nil {
			c.fail("gcm-altered", "another nonce decrypts to %x", r)
		}
	}
	iv := c.bytes(16)
	e, err := crypto.AesCTRXOR(key, plain, iv)
	want := make([]byte, len(plain))
	cipher.NewCTR(blk, iv).XORKeyStream(want, plain)
	if err != nil || !bytes.Equal(e, want) {
		c.fail("ctr", "AES-CTR gives %x (%v), want %x", e, err, want)
	}
	if _, n2, _ := crypto.AesGCMEncrypt(key, plain); bytes.Equal(n2, nonce) {
		c.fail("gcm-nonce", "a nonce was used twice with the same key")
	}
	c.r.Eval("aes"+string(ct), true)
}
