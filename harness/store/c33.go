package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/golang/snappy"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain/sync_cache"
)

func init() {
	props["C33"] = prop{900, 12000, 8, runC33}
	props["C33race"] = prop{40, 400, 4, func(c *ctx) { c.chunkRace() }}
	rules["C33race"] = "one concurrent run under the race detector; distinct by run"
}

// chunk is what the model knows about one cached range.
type chunk struct {
	seg      interfaces.Segment
	data     []byte
	blocks   [][]byte // serialized, first byte 'a' or 's'
	verified bool
	done     bool
	w        io.WriteCloser
	sent     int
}

func (c *ctx) hash() (h types.Hash) {
	c.rnd.Read(h[:])
	return
}

func (c *ctx) addr() (a types.Address) {
	c.rnd.Read(a[:])
	return
}

func (c *ctx) amount() *big.Int {
	if c.rnd.Intn(4) == 0 {
		return big.NewInt(0)
	}
	return new(big.Int).SetBytes(c.bytes(1 + c.rnd.Intn(20)))
}

func (c *ctx) accountBlock(max int) *ledger.AccountBlock {
	b := &ledger.AccountBlock{
		BlockType:      byte(1 + c.rnd.Intn(5)),
		Hash:           c.hash(),
		Height:         2 + uint64(c.rnd.Intn(1<<30)),
		PrevHash:       c.hash(),
		AccountAddress: c.addr(),
		PublicKey:      c.bytes(32),
		Signature:      c.bytes(64),
	}
	if b.IsSendBlock() {
		b.ToAddress = c.addr()
		b.Amount = c.amount()
		b.Fee = c.amount()
		c.rnd.Read(b.TokenId[:])
	} else {
		b.FromBlockHash = c.hash()
		for i := c.rnd.Intn(3) - 1; i > 0; i-- {
			s := &ledger.AccountBlock{BlockType: 2, Hash: c.hash(), AccountAddress: b.AccountAddress, ToAddress: c.addr(), Amount: c.amount(), Fee: c.amount()}
			c.rnd.Read(s.TokenId[:])
			b.SendBlockList = append(b.SendBlockList, s)
		}
	}
	if n := c.rnd.Intn(max + 1); n > 0 {
		b.Data = c.bytes(n)
		if c.rnd.Intn(3) == 0 {
			b.Data = bytes.Repeat([]byte{byte(c.rnd.Intn(3))}, n)
		}
	}
	return b
}

func (c *ctx) snapshotBlock() *ledger.SnapshotBlock {
	now := time.Unix(1500000000+int64(c.rnd.Intn(1<<28)), 0)
	b := &ledger.SnapshotBlock{
		Hash: c.hash(), PrevHash: c.hash(), Height: 2 + uint64(c.rnd.Intn(1<<30)), PublicKey: c.bytes(32), Signature: c.bytes(64),
		Timestamp: &now, Seed: uint64(c.rnd.Intn(1 << 30)), SnapshotContent: ledger.SnapshotContent{}, Version: 1,
	}
	for i := c.rnd.Intn(5); i > 0; i-- {
		b.SnapshotContent[c.addr()] = &ledger.HashHeight{Height: uint64(1 + c.rnd.Intn(1000)), Hash: c.hash()}
	}
	return b
}

func ser(ab *ledger.AccountBlock, sb *ledger.SnapshotBlock) []byte {
	if ab != nil {
		d, err := ab.Serialize()
		if err != nil {
			panic(err)
		}
		return append([]byte{'a'}, d...)
	}
	d, err := sb.Serialize()
	if err != nil {
		panic(err)
	}
	return append([]byte{'s'}, d...)
}

// frame is the form blocks have in a chunk file.
func frame(code byte, d []byte) []byte {
	z := snappy.Encode(nil, d)
	o := make([]byte, 5, 5+len(z))
	binary.BigEndian.PutUint32(o, uint32(len(z)+1))
	o[4] = code
	return append(o, z...)
}

func (c *ctx) content() (data []byte, blocks [][]byte) {
	for n := 1 + c.rnd.Intn(6); n > 0; n-- {
		if k := len(blocks); k > 0 && c.rnd.Intn(2) == 0 {
			blocks = append(blocks, blocks[k-1])
			code := byte(1)
			if blocks[k-1][0] == 's' {
				code = 2
			}
			data = append(data, frame(code, blocks[k-1][1:])...)
		} else if c.rnd.Intn(2) == 0 {
			s := ser(c.accountBlock([]int{10, 300, 20000}[c.rnd.Intn(3)]), nil)
			blocks = append(blocks, s)
			data = append(data, frame(1, s[1:])...)
		} else {
			s := ser(nil, c.snapshotBlock())
			blocks = append(blocks, s)
			data = append(data, frame(2, s[1:])...)
		}
	}
	return
}

func copyTree(from, to string) {
	filepath.Walk(from, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		if st.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		d, err := ioutil.ReadFile(p)
		if err != nil {
			return nil
		}
		return ioutil.WriteFile(filepath.Join(to, rel), d, 0644)
	})
}

// tree names every file with its size.
func tree(dir string) (o string) {
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err == nil {
			o += fmt.Sprintf("%s %d %v\n", p, st.Size(), st.ModTime().UnixNano())
		}
		return nil
	})
	return
}

func (c *ctx) scratch() string {
	d, err := ioutil.TempDir("", "vsim-st")
	if err != nil {
		panic(err)
	}
	return d
}

func runC33(c *ctx) {
	base := c.scratch()
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "cache")
	cache, err := sync_cache.NewSyncCache(dir)
	if err != nil {
		c.fail("open", "%v", err)
		return
	}
	defer func() {
		if cache != nil {
			cache.Close()
		}
	}()
	var all []*chunk // done and being written
	var spans [][2]uint64
	sortAll := func() { sort.Slice(all, func(i, j int) bool { return all[i].seg.From < all[j].seg.From }) }
	check := func(what string) bool {
		got := cache.Chunks()
		var want []interfaces.Segment
		for _, k := range all {
			if k.done {
				want = append(want, k.seg)
			}
		}
		bad := len(got) != len(want)
		for i := 0; !bad && i < len(got); i++ {
			bad = !got[i].Equal(want[i]) || len(got[i].Points) != len(want[i].Points)
			for p := 0; !bad && p < len(got[i].Points); p++ {
				bad = *got[i].Points[p] != *want[i].Points[p]
			}
		}
		if bad {
			c.fail("chunks/"+what, "%s: chunks are %v, should be %v", what, names(got), names(want))
			return false
		}
		c.r.Count("listings", 1)
		return true
	}
	read := func(k *chunk, what string) bool {
		rd, err := cache.NewReader(k.seg)
		if err != nil {
			c.fail("read/"+what, "chunk %s cannot be opened %s: %v", name(k.seg), what, err)
			return false
		}
		defer rd.Close()
		if rd.Size() != int64(len(k.data)) || rd.Verified() != k.verified {
			c.fail("state/"+what, "chunk %s: size %d verified %v, should be %d %v", name(k.seg), rd.Size(), rd.Verified(), len(k.data), k.verified)
			return false
		}
		for i := 0; ; i++ {
			ab, sb, err := rd.Read()
			if err == io.EOF && i == len(k.blocks) {
				break
			}
			if err != nil || i >= len(k.blocks) || (ab == nil) == (sb == nil) {
				c.fail("content/"+what, "chunk %s block %d of %d: %v", name(k.seg), i, len(k.blocks), err)
				return false
			}
			if !bytes.Equal(ser(ab, sb), k.blocks[i]) {
				c.fail("content/"+what, "chunk %s block %d of %d is another", name(k.seg), i, len(k.blocks))
				return false
			}
			c.r.Count("blocks_read", 1)
		}
		if !k.verified && c.rnd.Intn(3) == 0 {
			rd.Verify()
			k.verified = true
			c.note("verify %s", name(k.seg))
		}
		return true
	}
	drop := func(x *chunk) {
		for i, k := range all {
			if k == x {
				all = append(all[:i:i], all[i+1:]...)
				return
			}
		}
	}
	var lost []*chunk // deleted while they were written, the writer still open
	steps := 30 + c.rnd.Intn(60)
	for s := 0; s < steps; s++ {
		switch p := c.rnd.Intn(100); {
		case p < 30: // a new chunk
			f := uint64(1 + c.rnd.Intn(60))
			t := f + uint64(c.rnd.Intn(12))
			if len(spans) > 0 && c.rnd.Intn(3) == 0 { // a range used before
				x := spans[c.rnd.Intn(len(spans))]
				f, t = x[0], x[1]
			} else if len(all) > 0 && c.rnd.Intn(3) == 0 { // directly behind or before another
				k := all[c.rnd.Intn(len(all))]
				if c.rnd.Intn(2) == 0 {
					f, t = k.seg.To+1, k.seg.To+1+uint64(c.rnd.Intn(12))
				} else if k.seg.From > 1 {
					t = k.seg.From - 1
					f = t - uint64(c.rnd.Intn(int(t)))
					if f == 0 {
						f = 1
					}
				}
			}
			spans = append(spans, [2]uint64{f, t})
			k := &chunk{seg: interfaces.Segment{From: f, To: t, Hash: c.hash(), PrevHash: c.hash()}}
			for i := c.rnd.Intn(3); i > 0; i-- {
				k.seg.Points = append(k.seg.Points, &ledger.HashHeight{Height: f + uint64(i), Hash: c.hash()})
			}
			k.data, k.blocks = c.content()
			over := false
			for _, o := range all {
				if o.seg.From <= t && f <= o.seg.To {
					over = true
				}
			}
			w, err := cache.NewWriter(k.seg, int64(len(k.data)))
			c.note("new %s: %v", name(k.seg), err)
			if over != (err != nil) {
				c.fail("overlap", "a writer for %s was given: %v, it overlaps another: %v", name(k.seg), err == nil, over)
				return
			}
			if err != nil {
				c.r.Count("overlaps_refused", 1)
				continue
			}
			k.w = w
			all = append(all, k)
			sortAll()
		case p < 65: // write some
			var open []*chunk
			for _, k := range append(append([]*chunk{}, all...), lost...) {
				if k.w != nil {
					open = append(open, k)
				}
			}
			if len(open) == 0 {
				continue
			}
			k := open[c.rnd.Intn(len(open))]
			n := 1 + c.rnd.Intn(len(k.data)-k.sent+1)
			if c.rnd.Intn(2) == 0 || n > len(k.data)-k.sent {
				n = len(k.data) - k.sent
			}
			if _, err := k.w.Write(k.data[k.sent : k.sent+n]); err != nil {
				c.fail("write", "%v", err)
				return
			}
			k.sent += n
			if k.sent == len(k.data) {
				gone := true
				for _, x := range all {
					gone = gone && x != k
				}
				err := k.w.Close()
				c.note("close %s: %v", name(k.seg), err)
				if err != nil && !gone {
					c.fail("close", "closing the writer of %s: %v", name(k.seg), err)
					return
				}
				k.w = nil
				k.done = true
				c.r.Count("chunks_written", 1)
				if !gone && !read(k, "at once") {
					return
				}
			}
		case p < 75: // read one again
			for _, k := range all {
				if c.rnd.Intn(3) == 0 {
					if k.done {
						if !read(k, "later") {
							return
						}
					} else if rd, err := cache.NewReader(k.seg); err == nil {
						rd.Close()
						c.fail("unfinished", "a reader was given for the unfinished chunk %s", name(k.seg))
						return
					}
				}
			}
		case p < 85: // delete
			if len(all) == 0 || c.rnd.Intn(6) == 0 {
				if err := cache.Delete(interfaces.Segment{From: 1 + uint64(c.rnd.Intn(50)), To: 100, Hash: c.hash()}); err == nil {
					c.fail("delete-missing", "deleting a chunk that is not there succeeded")
				}
				continue
			}
			k := all[c.rnd.Intn(len(all))]
			if c.rnd.Intn(2) == 0 { // almost the same chunk: nothing to read or to delete
				o, what := k.seg, "hash"
				switch c.rnd.Intn(4) {
				case 0:
					o.Hash = c.hash()
				case 1:
					o.PrevHash, what = c.hash(), "previous hash"
				case 2:
					o.From, what = o.From+1, "start"
				default:
					o.To, what = o.To+1, "end"
				}
				if rd, err := cache.NewReader(o); err == nil {
					rd.Close()
					c.fail("read-other", "%s was given to one who asked for it with another %s", name(k.seg), what)
				}
				if c.rnd.Intn(2) == 0 {
					if err := cache.Delete(o); err == nil {
						c.fail("delete-other", "deleting %s with another %s succeeded", name(k.seg), what)
						return
					}
				}
				c.r.Count("near_misses_refused", 1)
				continue
			}
			err := cache.Delete(k.seg)
			c.note("delete %s (%v): %v", name(k.seg), k.done, err)
			if err != nil {
				c.fail("delete", "%v", err)
			}
			if !k.done {
				lost = append(lost, k)
			}
			drop(k)
			c.r.Count("deletes", 1)
		default: // reopen: as after a clean stop, or from what a kill leaves
			kill := c.rnd.Intn(2) == 0
			c.note("reopen, kill %v", kill)
			for _, k := range append(append([]*chunk{}, all...), lost...) {
				if k.w != nil && !kill && c.rnd.Intn(2) == 0 {
					f := k.w
					k.w = nil
					_ = f // the file stays open and unfinished
				}
			}
			if kill {
				// what a kill would leave, with everything still open; taken while the index
				// store has no background work, because copying is not instantaneous
				for try := 0; ; try++ {
					before := tree(dir)
					os.RemoveAll(dir + ".new")
					copyTree(dir, dir+".new")
					if tree(dir) == before || try > 50 {
						break
					}
					time.Sleep(time.Millisecond)
				}
				cache.Close()
				os.RemoveAll(dir)
				if err := os.Rename(dir+".new", dir); err != nil {
					panic(err)
				}
			} else if err := cache.Close(); err != nil {
				c.fail("stop", "%v", err)
				return
			}
			for i := 0; i < len(all); i++ {
				if !all[i].done {
					all = append(all[:i:i], all[i+1:]...)
					i--
				}
			}
			lost = nil
			cache, err = sync_cache.NewSyncCache(dir)
			if err != nil {
				c.fail("reopen", "%v", err)
				return
			}
			if !check("after reopening") {
				return
			}
			for _, k := range all {
				if !read(k, "after reopening") {
					return
				}
			}
			c.r.Count("reopens", 1)
		}
		if !check("during use") {
			return
		}
	}
	// A file that ends early or is damaged never reads back as if it were complete.
	for _, k := range all {
		if !k.done {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("f_%d_%d_*", k.seg.From, k.seg.To)))
		if len(fs) != 1 {
			continue // another layout
		}
		n := c.rnd.Intn(len(k.data))
		d := append([]byte{}, k.data[:n]...)
		grow := false
		if c.rnd.Intn(4) == 0 && n > 4 { // a length that cannot be right
			d = append([]byte{}, k.data...)
			binary.BigEndian.PutUint32(d, 0x00ffff00)
			grow, n = true, 0
		}
		ioutil.WriteFile(fs[0], d, 0644)
		rd, err := cache.NewReader(k.seg)
		if err != nil {
			continue
		}
		at := 0
		for i := 0; i < len(k.blocks); i++ {
			at += 4 + int(binary.BigEndian.Uint32(k.data[at:]))
			ab, sb, err := rd.Read()
			whole := at <= n
			if whole && (err != nil || !bytes.Equal(ser(ab, sb), k.blocks[i])) {
				c.fail("truncated-prefix", "block %d before the end of a truncated chunk: %v", i, err)
			}
			if !whole && err == nil {
				c.fail("truncated", "block %d of a chunk cut at byte %d (damaged length: %v) was returned though it ends at %d", i, n, grow, at)
			}
			if err != nil {
				break
			}
		}
		rd.Close()
		c.r.Count("damaged_files_read", 1)
	}
	c.r.Eval(fmt.Sprint(c.log), true)
}

func name(s interfaces.Segment) string { return fmt.Sprintf("%d-%d %x", s.From, s.To, s.Hash[:3]) }
func names(l []interfaces.Segment) (o []string) {
	for _, s := range l {
		o = append(o, name(s))
	}
	return
}

// chunkRace runs downloads, listing, reading and deleting at the same time.
func (c *ctx) chunkRace() {
	base := c.scratch()
	defer os.RemoveAll(base)
	cache, err := sync_cache.NewSyncCache(filepath.Join(base, "cache"))
	if err != nil {
		c.fail("open", "%v", err)
		return
	}
	defer cache.Close()
	const n = 40
	ks := make([]*chunk, n)
	for i := range ks {
		k := &chunk{seg: interfaces.Segment{From: uint64(i*10 + 1), To: uint64(i*10 + 10), Hash: c.hash(), PrevHash: c.hash()}}
		k.data, k.blocks = c.content()
		ks[i] = k
	}
	seeds := c.rnd.Perm(n)
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for q := g; q < n; q += 3 {
				k := ks[seeds[q]]
				w, err := cache.NewWriter(k.seg, int64(len(k.data)))
				if err != nil {
					c.fail("race-writer", "%v", err)
					return
				}
				w.Write(k.data[:len(k.data)/2])
				w.Write(k.data[len(k.data)/2:])
				if err := w.Close(); err != nil {
					c.fail("race-close", "%v", err)
				}
			}
		}(g)
	}
	stop := make(chan struct{})
	var rg sync.WaitGroup
	byFrom := map[uint64]*chunk{}
	for _, k := range ks {
		byFrom[k.seg.From] = k
	}
	for g := 0; g < 2; g++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			for {
				cs := cache.Chunks()
				last := uint64(0)
				for _, s := range cs {
					if s.From <= last {
						c.fail("race-order", "chunks out of order: %v", names(cs))
					}
					last = s.To
					k := byFrom[s.From]
					rd, err := cache.NewReader(s)
					if err != nil {
						c.fail("race-read", "listed chunk %s: %v", name(s), err)
						continue
					}
					for i := 0; i < len(k.blocks); i++ {
						ab, sb, err := rd.Read()
						if err != nil || !bytes.Equal(ser(ab, sb), k.blocks[i]) {
							c.fail("race-content", "listed chunk %s block %d: %v", name(s), i, err)
							break
						}
					}
					rd.Close()
				}
				c.r.Count("concurrent_listings", 1)
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	if len(cache.Chunks()) != n {
		c.fail("race-lost", "%d of %d chunks listed", len(cache.Chunks()), n)
	}
	c.r.Eval(c.name, true)
}
