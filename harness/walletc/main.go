// Command walletc decides that wallet keys are recoverable with the password or the mnemonic
// only, and follow the published derivation (C29).
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/tyler-smith/go-bip39/wordlists"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/entropystore"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

// ---- reference: BIP-39, SLIP-10 with the vite seed key, and the store's file format

func refMnemonic(e []byte) string {
	h := sha256.Sum256(e)
	n := new(big.Int).SetBytes(e)
	cs := uint(len(e) / 4)
	n.Lsh(n, cs)
	n.Or(n, big.NewInt(int64(h[0]>>(8-cs))))
	words := make([]string, (len(e)*8+int(cs))/11)
	m := big.NewInt(2048)
	for i := len(words) - 1; i >= 0; i-- {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(n, m, r)
		words[i] = wordlists.English[r.Int64()]
		n = q
	}
	return strings.Join(words, " ")
}

func refSeed(mnemonic string) []byte {
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"), 2048, 64, sha512.New)
}

func mac(key, data []byte) (l, r []byte) {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	s := h.Sum(nil)
	return s[:32], s[32:]
}

func refDerive(seed []byte, path []uint32) (key []byte) {
	k, c := mac([]byte("ed25519 blake2b seed"), seed)
	for _, i := range path {
		d := append([]byte{0}, k...)
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i|0x80000000)
		k, c = mac(c, append(d, b[:]...))
	}
	return k
}

func refAddr(seed []byte, index uint32) (types.Address, ed25519.PrivateKey) {
	var d [32]byte
	copy(d[:], refDerive(seed, []uint32{44, 666666, index}))
	pub, priv, err := ed25519.GenerateKeyFromD(d)
	if err != nil {
		panic(err)
	}
	return types.PubkeyToAddress(pub), priv
}

type params struct {
	N      int64  `json:"n"`
	R      int64  `json:"r"`
	P      int64  `json:"p"`
	KeyLen int64  `json:"keylen"`
	Salt   string `json:"salt"`
}
type cryptoFile struct {
	CipherName string `json:"ciphername"`
	CipherText string `json:"ciphertext"`
	Nonce      string `json:"nonce"`
	KDF        string `json:"kdf"`
	Params     params `json:"scryptparams"`
}
type storeFile struct {
	PrimaryAddress string     `json:"primaryAddress"`
	Crypto         cryptoFile `json:"crypto"`
	Version        int        `json:"seedstoreversion"`
	Timestamp      int64      `json:"timestamp"`
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// refFile writes a store with cheap key stretching.
func refFile(g *rand.Rand, entropy []byte, addr types.Address, pass string) *storeFile {
	salt, nonce := make([]byte, 32), make([]byte, 12)
	g.Read(salt)
	g.Read(nonce)
	k, err := scrypt.Key([]byte(pass), salt, 16, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	return &storeFile{addr.String(), cryptoFile{"aes-256-gcm", hex.EncodeToString(gcm(k).Seal(nil, nonce, entropy, []byte("vite"))), hex.EncodeToString(nonce), "scrypt", params{16, 8, 1, 32, hex.EncodeToString(salt)}}, 1, 1600000000}
}

func refOpen(b []byte, pass string) ([]byte, error) {
	var f storeFile
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	salt, _ := hex.DecodeString(f.Crypto.Params.Salt)
	nonce, _ := hex.DecodeString(f.Crypto.Nonce)
	ct, _ := hex.DecodeString(f.Crypto.CipherText)
	p := f.Crypto.Params
	k, err := scrypt.Key([]byte(pass), salt, int(p.N), int(p.R), int(p.P), int(p.KeyLen))
	if err != nil {
		return nil, err
	}
	return gcm(k).Open(nil, nonce, ct, []byte("vite"))
}

func (f *storeFile) bytes() []byte {
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	return b
}

// ---- inputs

func newEntropy(g *rand.Rand) []byte {
	e := make([]byte, []int{16, 20, 24, 28, 32, 32, 32}[g.Intn(7)])
	g.Read(e)
	switch g.Intn(5) {
	case 0:
		for i := 0; i < 1+g.Intn(4); i++ {
			e[i] = 0
		}
	case 1:
		for i := range e {
			e[i] = []byte{0, 0xff, 0x80, 0x7f}[g.Intn(4)]
		}
	}
	return e
}

// newPass avoids the equal passwords of HMAC: trailing zero bytes and more than 64 bytes.
func newPass(g *rand.Rand) string {
	switch g.Intn(8) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return "密码пароль" + string(rune(0x4e00+g.Intn(1000)))
	case 3:
		return strings.Repeat("a", 1+g.Intn(60)) + "b"
	}
	b := make([]byte, 1+g.Intn(20))
	for i := range b {
		b[i] = byte(33 + g.Intn(94))
	}
	return string(b)
}

func otherPass(g *rand.Rand, p string) string {
	for {
		q := newPass(g)
		switch g.Intn(7) {
		case 0:
			q = p + " "
		case 1:
			q = strings.ToUpper(p)
		case 2:
			if len(p) > 0 {
				q = p[:len(p)-1]
			}
		case 3:
			if len(p) > 0 {
				b := []byte(p)
				b[g.Intn(len(b))] ^= 1
				q = string(b)
			}
		case 4:
			q = strings.TrimSpace(p)
		}
		if strings.TrimRight(q, "\x00") != strings.TrimRight(p, "\x00") && len(q) <= 64 {
			return q
		}
	}
}

var dirs string

// ---- derivation

func paths(r *vrep.R, g *rand.Rand, name string) {
	seed := make([]byte, []int{16, 32, 64, 64, 64}[g.Intn(5)])
	g.Read(seed)
	for i := 0; i < 60; i++ {
		var p []uint32
		s := "m"
		for j, n := 0, 1+g.Intn(6); j < n; j++ {
			x := uint32(g.Intn(100))
			switch g.Intn(4) {
			case 0:
				x = g.Uint32() >> 1
			case 1:
				x = []uint32{0, 1, 1<<31 - 1, 44, 666666}[g.Intn(5)]
			}
			p = append(p, x)
			s += fmt.Sprintf("/%d'", x)
		}
		k, err := derivation.DeriveForPath(s, seed)
		if err != nil {
			r.Violate(name, "a valid path is refused", "%s: %v", s, err)
			continue
		}
		if !bytes.Equal(k.Key, refDerive(seed, p)) {
			r.Violate(name, "derived key differs", "path %s", s)
			continue
		}
		var d [32]byte
		copy(d[:], k.Key)
		pub, _, _ := ed25519.GenerateKeyFromD(d)
		a, err := k.Address()
		if err != nil || *a != types.PubkeyToAddress(pub) {
			r.Violate(name, "derived address differs", "path %s", s)
		}
		msg := make([]byte, g.Intn(100))
		g.Read(msg)
		sig, pk, err := k.SignData(msg)
		if err != nil || !bytes.Equal(pk, pub) || !ed25519.Verify(pk, msg, sig) {
			r.Violate(name, "signature of a derived key", "path %s: %v", s, err)
		}
		r.Eval(fmt.Sprintf("path of %d", len(p)), true)
		bad := s
		switch g.Intn(9) {
		case 0:
			bad = strings.TrimSuffix(s, "'")
		case 1:
			bad = s + "/"
		case 2:
			bad = "/" + s
		case 3:
			bad = strings.Replace(s, "'", "", 1)
		case 4:
			bad = s + fmt.Sprintf("/%d'", uint64(1<<31)+uint64(g.Uint32()))
		case 5:
			bad = s + "/-1'"
		case 6:
			bad = s + "/x'"
		case 7:
			bad = s[1:]
		case 8:
			bad = s + "\n"
		}
		if k, err := derivation.DeriveForPath(bad, seed); err == nil {
			r.Violate(name, "an invalid path gives a key", "%q: %x", bad, k.Key)
		}
		r.Count("paths", 2)
	}
	for _, i := range []uint32{0, 1, uint32(g.Intn(1000)), 1<<31 - 1} {
		k, err := derivation.DeriveWithIndex(i, seed)
		want, _ := refAddr(seed, i)
		if err != nil {
			r.Violate(name, "an index is refused", "%d: %v", i, err)
			continue
		}
		if a, err := k.Address(); err != nil || *a != want {
			r.Violate(name, "address at an index differs", "index %d", i)
		}
	}
	a, err := derivation.GetPrimaryAddress(seed)
	want, _ := refAddr(seed, 0)
	if err != nil || *a != want {
		r.Violate(name, "primary address differs", "%v", err)
	}
}

// ---- files: reading stores, good and altered ones

func files(r *vrep.R, g *rand.Rand, name string) {
	e := newEntropy(g)
	mn := refMnemonic(e)
	seed := refSeed(mn)
	addr, _ := refAddr(seed, 0)
	pass := newPass(g)
	f := refFile(g, e, addr, pass)
	got, err := entropystore.DecryptEntropy(f.bytes(), pass)
	if err != nil || !bytes.Equal(got, e) {
		r.Violate(name, "a store does not open with its password", "entropy of %d bytes: %v", len(e), err)
		return
	}
	file := filepath.Join(dirs, name)
	ioutil.WriteFile(file, f.bytes(), 0600)
	defer os.Remove(file)
	m := entropystore.NewManager(file, addr, 10)
	if s, err := m.ExtractMnemonic(pass); err != nil || s != mn {
		r.Violate(name, "a store yields another mnemonic", "%v", err)
	}
	for i := 0; i < 4; i++ {
		q := otherPass(g, pass)
		if got, err := entropystore.DecryptEntropy(f.bytes(), q); err == nil {
			r.Violate(name, "a store opens with another password", "password %q, opened with %q: %x", pass, q, got)
		}
		if err := m.Unlock(q); err == nil || m.IsUnlocked() {
			r.Violate(name, "a store is unlocked by another password", "password %q, opened with %q", pass, q)
		}
	}
	r.Eval(fmt.Sprintf("store %d", len(e)), true)
	r.Count("stores read", 1)
	for i := 0; i < 40; i++ {
		h := *f
		kind := ""
		flip := func(s string) string {
			b := []byte(s)
			k := g.Intn(len(b))
			for {
				c := "0123456789abcdef"[g.Intn(16)]
				if c != b[k] {
					b[k] = c
					return string(b)
				}
			}
		}
		cut := func(s string) string {
			switch g.Intn(4) {
			case 0:
				return ""
			case 1:
				return s[:len(s)-2]
			case 2:
				return s + "00"
			}
			return s + s
		}
		c := &h.Crypto
		var b []byte
		must := true // must be unreadable
		switch k := g.Intn(16); k {
		case 0:
			kind, c.CipherText = "ciphertext digit", flip(c.CipherText)
		case 1:
			kind, c.Nonce = "nonce digit", flip(c.Nonce)
		case 2:
			kind, c.Params.Salt = "salt digit", flip(c.Params.Salt)
		case 3:
			kind, c.CipherText = "ciphertext length", cut(c.CipherText)
		case 4:
			kind, c.Nonce = "nonce length", cut(c.Nonce)
		case 5:
			kind, c.Params.Salt = "salt length", cut(c.Params.Salt)
			must = c.Params.Salt != f.Crypto.Params.Salt
		case 6:
			kind = "address"
			o, _ := refAddr(seed, 1+uint32(g.Intn(9)))
			h.PrimaryAddress = o.String()
		case 7:
			kind, h.Version = "version", 2+g.Intn(5)
		case 8:
			kind, c.CipherName = "cipher", "aes-128-gcm"
		case 9:
			kind, c.KDF = "kdf", "pbkdf2"
		case 10:
			kind = "stretching"
			switch g.Intn(3) {
			case 0:
				c.Params.N = []int64{0, -1, 1, 3, 15, 17, 32, 1 << 62}[g.Intn(8)]
			case 1:
				c.Params.R = []int64{0, -1, 1, 7, 1 << 40}[g.Intn(5)]
			case 2:
				c.Params.P = []int64{0, -1, 2, 1 << 40}[g.Intn(4)]
			}
		case 11:
			kind = "key length"
			c.Params.KeyLen = []int64{0, -1, 1, 16, 31, 33, 64, 1 << 40}[g.Intn(8)]
			must = false
		case 12:
			kind = "another store's content"
			e2 := newEntropy(g)
			s2 := refSeed(refMnemonic(e2))
			a2, _ := refAddr(s2, 0)
			c2 := refFile(g, e2, a2, pass).Crypto
			must = a2 != addr
			h.Crypto = c2
		case 13:
			kind = "cut file"
			b = h.bytes()
			b = b[:g.Intn(len(b))]
		case 14:
			kind = "any byte"
			b = h.bytes()
			k := g.Intn(len(b))
			b[k] = byte(32 + g.Intn(95))
			must = false
		case 15:
			kind = "rubbish"
			b = make([]byte, g.Intn(400))
			g.Read(b)
		}
		if b == nil {
			b = h.bytes()
		}
		var got []byte
		var err error
		if r.Guard(name, "an altered store crashes the reader: "+kind, func() { got, err = entropystore.DecryptEntropy(b, pass) }) {
			continue
		}
		if err == nil && !bytes.Equal(got, e) {
			r.Violate(name, "an altered store yields other keys: "+kind, "%x instead of %x", got, e)
		} else if err == nil && must {
			r.Violate(name, "an altered store opens: "+kind, "file %s", b)
		}
		ioutil.WriteFile(file, b, 0600)
		r.Guard(name, "an altered store crashes the wallet: "+kind, func() {
			m := entropystore.NewManager(file, addr, 10)
			if err2 := m.Unlock(pass); (err2 == nil) != (err == nil) || m.IsUnlocked() != (err2 == nil) {
				r.Violate(name, "unlocking an altered store", "%s: %v, reading gave %v", kind, err2, err)
			}
			entropystore.IsMayValidEntropystoreFile(file)
		})
		r.Eval("altered "+kind, true)
		r.Count("altered files", 1)
	}
}

// ---- wallet: whole life of a store, with the real key stretching

var heavy = make(chan bool, 6)

func lives(r *vrep.R, g *rand.Rand, name string) {
	heavy <- true
	defer func() { <-heavy }()
	dir := filepath.Join(dirs, name)
	defer os.RemoveAll(dir)
	max := uint32(1 + g.Intn(6))
	w := wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: max})
	os.MkdirAll(dir, 0700)
	if err := w.Start(); err != nil {
		r.Violate(name, "wallet does not start", "%v", err)
		return
	}
	e := newEntropy(g)
	mn := refMnemonic(e)
	seed := refSeed(mn)
	addr, _ := refAddr(seed, 0)
	pass := newPass(g)
	given := mn
	form := "plain"
	switch g.Intn(5) {
	case 0:
		form, given = "two spaces", strings.Replace(mn, " ", "  ", 1+g.Intn(3))
	case 1:
		form, given = "end of line", mn+"\n"
	case 2:
		form, given = "tab", " "+strings.Replace(mn, " ", "\t", 1)
	}
	var m *entropystore.Manager
	var err error
	if g.Intn(4) == 0 {
		form = "new"
		mn, m, err = w.NewMnemonicAndEntropyStore(pass)
		seed = refSeed(mn)
		addr, _ = refAddr(seed, 0)
	} else {
		m, err = w.RecoverEntropyStoreFromMnemonic(given, pass)
	}
	if err != nil {
		if form == "plain" || form == "new" {
			r.Violate(name, "a mnemonic is refused", "%d words: %v", len(strings.Fields(mn)), err)
		}
		// refusing odd white space is as good as accepting it
		return
	}
	if m.GetPrimaryAddr() != addr || filepath.Base(m.GetEntropyStoreFile()) != addr.Hex() {
		r.Violate(name, "a store is made for another address", "mnemonic with %s: address %s, recorded %s", form, addr, m.GetPrimaryAddr())
		return
	}
	b, err := ioutil.ReadFile(m.GetEntropyStoreFile())
	if err != nil {
		r.Violate(name, "a store has no file", "%v", err)
		return
	}
	if got, err := refOpen(b, pass); err != nil || refMnemonic(got) != mn {
		r.Violate(name, "a store's file does not follow the format", "%v", err)
	}
	if bytes.Contains(b, []byte(hex.EncodeToString(e))) || (len(pass) > 5 && bytes.Contains(b, []byte(pass))) {
		r.Violate(name, "a store's file shows the secret", "%s", b)
	}
	// another wallet over the same folder
	w2 := wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: max})
	if err := w2.Start(); err != nil {
		r.Violate(name, "wallet does not start", "%v", err)
		return
	}
	file := m.GetEntropyStoreFile()
	ref := addr.Hex()
	if g.Intn(2) == 0 {
		ref = file
	}
	if l := w2.ListAllEntropyFiles(); len(l) != 1 || l[0] != file {
		r.Violate(name, "a store is not found again", "%v", l)
		return
	}
	last, _ := refAddr(seed, max-1)
	beyond, _ := refAddr(seed, max)
	locked := func(when string) {
		if w2.IsUnlocked(ref) {
			r.Violate(name, "a locked store is open", "%s", when)
		}
		if _, err := w2.Account(addr); err == nil {
			r.Violate(name, "a locked store gives keys", "%s: account", when)
		}
		if _, err := w2.AccountAtIndex(ref, addr, 0); err == nil {
			r.Violate(name, "a locked store gives keys", "%s: account at index", when)
		}
		k, err := w2.GetEntropyStoreManager(ref)
		if err != nil {
			r.Violate(name, "a store is not found again", "%s: %v", when, err)
			return
		}
		if _, _, err := k.SignData(addr, []byte("x")); err == nil {
			r.Violate(name, "a locked store gives keys", "%s: sign", when)
		}
		if _, err := k.GetPrivateKey(addr); err == nil {
			r.Violate(name, "a locked store gives keys", "%s: private key", when)
		}
		if _, err := k.ListAddress(0, 2); err == nil {
			r.Violate(name, "a locked store gives addresses", "%s", when)
		}
		if _, _, err := k.DeriveForIndexPath(0); err == nil {
			r.Violate(name, "a locked store gives keys", "%s: derive", when)
		}
	}
	events := 0
	w2.AddLockEventListener(func(ev entropystore.UnlockEvent) { events++ })
	locked("fresh")
	if err := w2.Unlock(ref, otherPass(g, pass)); err == nil {
		r.Violate(name, "a store is unlocked by another password", "password %q", pass)
	}
	locked("after a wrong password")
	if err := w2.Unlock(ref, pass); err != nil || !w2.IsUnlocked(ref) {
		r.Violate(name, "a store does not open with its password", "mnemonic with %s, password %q: %v", form, pass, err)
		return
	}
	k, _ := w2.GetEntropyStoreManager(ref)
	l, err := k.ListAddress(0, max+2)
	if err != nil || len(l) != int(max+2) {
		r.Violate(name, "addresses cannot be listed", "%v", err)
	}
	for i, a := range l {
		if want, _ := refAddr(seed, uint32(i)); a != want {
			r.Violate(name, "a store yields another address", "index %d", i)
		}
	}
	for i := uint32(0); i < max; i++ {
		a, priv := refAddr(seed, i)
		acc, err := w2.Account(a)
		if err != nil || acc.Address() != a {
			r.Violate(name, "an unlocked store does not give its account", "index %d of %d: %v", i, max, err)
			continue
		}
		p, _ := acc.PrivateKey()
		if !bytes.Equal(p, priv) {
			r.Violate(name, "a store yields another key", "index %d", i)
		}
		sig, pub, err := k.SignData(a, []byte(name))
		if err != nil || types.PubkeyToAddress(pub) != a || !ed25519.Verify(pub, []byte(name), sig) {
			r.Violate(name, "a store's signature is wrong", "index %d: %v", i, err)
		}
		if _, ix, err := k.FindAddr(a); err != nil || ix != i {
			r.Violate(name, "an address is found at another index", "%d instead of %d (%v)", ix, i, err)
		}
	}
	if _, err := w2.Account(beyond); err == nil {
		r.Violate(name, "an address beyond the search range is found", "%d", max)
	}
	if _, err := w2.AccountAtIndex(ref, last, max-1); err != nil {
		r.Violate(name, "account at index", "%v", err)
	}
	if _, err := w2.AccountAtIndex(ref, last, max); err == nil {
		r.Violate(name, "account at a wrong index", "%d", max)
	}
	if err := w2.MatchAddress(ref, addr, 0); err != nil {
		r.Violate(name, "address does not match", "%v", err)
	}
	if s, err := w2.ExtractMnemonic(ref, pass); err != nil || s != mn {
		r.Violate(name, "a store yields another mnemonic", "%v", err)
	}
	w2.Lock(ref)
	locked("after locking")
	if events != 2 {
		r.Violate(name, "lock events", "%d events for one unlock and one lock", events)
	}
	// the mnemonic with a new password replaces the old one
	if g.Intn(2) == 0 {
		p2 := otherPass(g, pass)
		// whoever looks meanwhile finds the old file or the new one
		was, _ := ioutil.ReadFile(file)
		done, seen := make(chan bool), make(chan map[string]bool)
		for i := 0; i < 2; i++ {
			go func() {
				m := map[string]bool{}
				for {
					x, err := ioutil.ReadFile(file)
					if err != nil {
						x = []byte("error: " + err.Error())
					}
					m[string(x)] = true
					select {
					case <-done:
						seen <- m
						return
					default:
					}
				}
			}()
		}
		_, err := w2.RecoverEntropyStoreFromMnemonic(mn, p2)
		close(done)
		now, _ := ioutil.ReadFile(file)
		for i := 0; i < 2; i++ {
			for x := range <-seen {
				if x != string(was) && x != string(now) {
					r.Violate(name, "a store is not there while being replaced", "its file was seen as %.200q", x)
				}
				r.Count("states of a store being replaced", 1)
			}
		}
		if err != nil {
			r.Violate(name, "a mnemonic is refused", "%v", err)
		} else {
			if err := w2.Unlock(ref, pass); err == nil {
				r.Violate(name, "a replaced password still opens the store", "")
			}
			if err := w2.Unlock(ref, p2); err != nil || w2.Lock(ref) != nil {
				r.Violate(name, "a store does not open with its password", "after recovery: %v", err)
			}
			locked("after recovery")
		}
	}
	w2.Stop()
	left, _ := ioutil.ReadDir(dir)
	if len(left) != 1 {
		r.Violate(name, "files left behind", "%d files in the folder", len(left))
	}
	r.Eval(fmt.Sprintf("life %s %d", form, len(e)), true)
	r.Count("stores made", 1)
}

func mnemonics(r *vrep.R, g *rand.Rand, name string) {
	for i := 0; i < 30; i++ {
		e := newEntropy(g)
		mn := refMnemonic(e)
		want, _ := refAddr(refSeed(mn), 0)
		a, err := entropystore.MnemonicToPrimaryAddr(mn)
		if err != nil || *a != want {
			r.Violate(name, "mnemonic to address", "%s: %v", mn, err)
		}
		r.Eval(fmt.Sprintf("mnemonic %d", len(e)), true)
	}
	for _, f := range []func() (types.Address, ed25519.PrivateKey, string, error){wallet.RandomMnemonic12, wallet.RandomMnemonic24} {
		a, p, mn, err := f()
		if err != nil {
			r.Violate(name, "no random mnemonic", "%v", err)
			continue
		}
		want, priv := refAddr(refSeed(mn), 0)
		if a != want || !bytes.Equal(p, priv) {
			r.Violate(name, "random mnemonic with another key", "%s", mn)
		}
	}
	acc, err := wallet.RandomAccount()
	if err != nil {
		r.Violate(name, "no random account", "%v", err)
		return
	}
	p, _ := acc.PrivateKey()
	acc2, err := wallet.NewAccountFromHexKey(hex.EncodeToString(p))
	if err != nil || acc2.Address() != acc.Address() || types.PrikeyToAddress(p) != acc.Address() {
		r.Violate(name, "account from its key", "%v", err)
		return
	}
	sig, pub, err := acc.Sign([]byte(name))
	if err != nil || acc2.Verify(pub, []byte(name), sig) != nil || acc2.Verify(pub, []byte(name+"x"), sig) == nil {
		r.Violate(name, "account signature", "%v", err)
	}
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	r := vrep.Open("C29", "one path, mnemonic, store file, altered store file or whole store life compared with an independent implementation of the published formats; distinct by kind and size")
	var err error
	dirs, err = ioutil.TempDir("", "vwallet-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dirs)
	var wg sync.WaitGroup
	for _, k := range []struct {
		name string
		n, t int
		f    func(r *vrep.R, g *rand.Rand, name string)
	}{{"life", 18, 160, lives}, {"file", 300, 6000, files}, {"path", 300, 6000, paths}, {"mnem", 60, 600, mnemonics}} {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			vrep.Parallel(r.Scale(k.n, k.t), 6, func(i int) {
				name := fmt.Sprintf("%s%d", k.name, i)
				if !r.Want(name) || r.NumViolations() > 12 || r.OverBudget() {
					return
				}
				g := r.Rand(name)
				r.Guard(name, k.name+" panic", func() { k.f(r, g, name) })
				r.Count(k.name, 1)
			})
		}()
	}
	wg.Wait()
	os.RemoveAll(dirs)
	r.Close()
}
