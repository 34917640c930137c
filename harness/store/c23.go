package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	chain_file_manager "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
)

func init() {
	props["C23"] = prop{600, 12000, 8, runC23}
}

type loc = chain_file_manager.Location

// rec is one block the model knows to be in the files.
type rec struct {
	at    loc // where the store said it wrote it
	data  []byte
	hash  types.Hash
	first bool // first of its chunk
	ab    *ledger.AccountBlock
	sb    *ledger.SnapshotBlock
}

type bfiles struct {
	*ctx
	dir   string
	size  int64
	max   int
	db    *chain_block.BlockDB
	live  []rec // what must be readable now
	disk  []rec // what a crash without redo log must leave
	phase int   // 0 idle, 1 prepared, 2 redo log taken
	prep  []rec
	redo  []byte
	ops   int
	span  int // chunks that crossed a file boundary
	cover map[string]int
}

func runC23(c *ctx) {
	dir := c.scratch()
	defer os.RemoveAll(dir)
	// file sizes from far below one block to many blocks; the block buffer must hold a block
	sizes := []int64{64, 200, 511, 700, 1500, 4096, 20000}
	b := &bfiles{ctx: c, dir: filepath.Join(dir, "0"), size: sizes[c.rnd.Intn(len(sizes))] + int64(c.rnd.Intn(40)), cover: map[string]int{}}
	b.max = []int{0, 60, 400, 3000}[c.rnd.Intn(4)]
	if b.size < 300 && b.max > 400 {
		b.max = 400
	}
	if !b.open() {
		return
	}
	defer func() {
		if b.db != nil {
			b.db.Close()
		}
	}()
	steps := c.r.Scale(60, 120)
	for i := 0; i < steps && c.r.NumViolations() <= 8; i++ {
		if !b.step(i, dir) {
			return
		}
		if i%5 == 0 && !b.check() {
			return
		}
	}
	b.check()
	c.r.Eval(fmt.Sprintf("%d/%d/%v", b.size, b.max, c.log), b.cover["rollback"] > 0 && b.cover["reopen"]+b.cover["crash"] > 0)
	for k, v := range b.cover {
		c.r.Count(k, int64(v))
	}
	if c.i%40 == 0 {
		b.concurrent()
	}
}

func (b *bfiles) open() bool {
	db, err := chain_block.NewBlockDBFixedSize(b.dir, b.size)
	if err != nil {
		b.fail("open", "opening the block files failed: %v", err)
		return false
	}
	b.db = db
	return true
}

func (b *bfiles) norm(l loc) loc {
	if l.Offset >= b.size {
		return loc{FileId: l.FileId + uint64(l.Offset/b.size), Offset: l.Offset % b.size}
	}
	return l
}

func (b *bfiles) same(a, c loc) bool { return b.norm(a) == b.norm(c) }

func (b *bfiles) write() bool {
	ch := &ledger.SnapshotChunk{SnapshotBlock: b.snapshotBlock()}
	for n := b.rnd.Intn(5); n > 0; n-- {
		ch.AccountBlocks = append(ch.AccountBlocks, b.accountBlock(b.max))
	}
	m, s, err := b.db.Write(ch)
	if err != nil {
		b.fail("write", "writing a chunk failed: %v", err)
		return false
	}
	for i, ab := range ch.AccountBlocks {
		l := m[ab.Hash]
		if l == nil {
			b.fail("no-location", "no location for account block %d", i)
			return false
		}
		b.live = append(b.live, rec{at: *l, data: ser(ab, nil), hash: ab.Hash, first: i == 0, ab: ab})
	}
	b.live = append(b.live, rec{at: *s, data: ser(nil, ch.SnapshotBlock), hash: ch.SnapshotBlock.Hash, first: len(ch.AccountBlocks) == 0, sb: ch.SnapshotBlock})
	b.note("write %d blocks -> %s", len(ch.AccountBlocks)+1, s)
	if k := len(b.live); k > 1 && b.live[k-2].at.FileId != s.FileId {
		b.cover["file boundaries crossed"]++
	}
	return true
}

// rollback to the start of record k.
func (b *bfiles) rollback(k int) bool {
	at := b.live[k].at
	chunks, err := b.db.PrepareRollback(&at)
	if err != nil {
		b.fail("prepare-rollback", "PrepareRollback(%s) failed: %v", at, err)
		return false
	}
	if !b.chunks("prepare-rollback", chunks, b.live[k:]) {
		return false
	}
	at = b.live[k].at
	if err := b.db.Rollback(&at); err != nil {
		b.fail("rollback", "Rollback(%s) failed: %v", at, err)
		return false
	}
	b.cover["rollback"]++
	if n := len(b.live) - k; b.live[len(b.live)-1].at.FileId > at.FileId+1 {
		b.cover["rollback over files"]++
		_ = n
	}
	b.live = append([]rec{}, b.live[:k]...)
	b.note("rollback to %s", at)
	return true
}

func (b *bfiles) step(i int, root string) bool {
	b.ops++
	switch p := b.rnd.Intn(100); {
	case p < 45 || len(b.live) == 0:
		for n := 1 + b.rnd.Intn(3); n > 0; n-- {
			if !b.write() {
				return false
			}
		}
	case p < 57:
		k := len(b.live) - 1
		back := 1 + b.rnd.Intn(4)
		if b.rnd.Intn(5) == 0 {
			back = 1 + b.rnd.Intn(40)
		}
		for k > 0 && (back > 0 || !b.live[k].first) {
			if b.live[k].first {
				back--
				if back == 0 {
					break
				}
			}
			k--
		}
		if !b.rollback(k) {
			return false
		}
	case p < 90:
		switch b.phase {
		case 0:
			b.db.Prepare()
			b.prep = append([]rec{}, b.live...)
			b.phase = 1
			b.note("prepare")
		case 1:
			if b.rnd.Intn(6) == 0 {
				b.db.CancelPrepare()
				b.phase = 0
				b.cover["cancel"]++
				b.note("cancel")
				return true
			}
			log, err := b.db.RedoLog()
			if err != nil {
				b.fail("redo-log", "RedoLog failed: %v", err)
				return false
			}
			b.redo = append([]byte{}, log...)
			b.phase = 2
			b.note("redo log")
		case 2:
			return b.commit(i, root)
		}
	case p < 94:
		return b.reopen(i, root)
	default:
		return b.check()
	}
	return true
}

// reopen without having committed: the files hold what the last commit left.
func (b *bfiles) reopen(i int, root string) bool {
	b.db.Close()
	b.db = nil
	b.live = append([]rec{}, b.disk...)
	b.phase = 0
	b.note("reopen")
	b.cover["reopen"]++
	return b.open() && b.check()
}

// commit writes the prepared range, and now and then also judges what recovery makes of a
// crash in the middle of the commit.
func (b *bfiles) commit(i int, root string) bool {
	before := readTree(b.dir)
	if err := b.db.Commit(); err != nil {
		b.fail("commit", "Commit failed: %v", err)
		return false
	}
	after := readTree(b.dir)
	b.disk = b.prep
	b.note("commit")
	b.cover["commit"]++
	if b.rnd.Intn(3) == 0 {
		if !b.crash(before, after, filepath.Join(root, fmt.Sprintf("crash%d", i))) {
			return false
		}
	}
	if !b.check() {
		return false
	}
	b.db.AfterCommit()
	b.phase = 0
	b.note("after commit")
	return true
}

type dirImage map[string][]byte

// crash builds directory images a crash during the commit can leave (file by file in order,
// the current one cut anywhere, then the removals), recovers each with the redo log and
// checks that exactly the prepared blocks are there.
func (b *bfiles) crash(before, after dirImage, dir string) bool {
	names := map[string]bool{}
	for n := range before {
		names[n] = true
	}
	for n := range after {
		names[n] = true
	}
	id := func(n string) int { k, _ := strconv.Atoi(filepath.Base(n)[1:]); return k }
	var order []string
	for n := range names {
		order = append(order, n)
	}
	sort.Slice(order, func(i, j int) bool { return id(order[i]) < id(order[j]) })
	var changed, removed []string
	for _, n := range order {
		a, ok := after[n]
		if !ok {
			removed = append([]string{n}, removed...)
		} else if o, had := before[n]; !had || !bytes.Equal(o, a) {
			changed = append(changed, n)
		}
	}
	stop := b.rnd.Intn(len(changed) + len(removed) + 1)
	img := dirImage{}
	for n, d := range before {
		img[n] = d
	}
	cut := -1
	for i, n := range append(append([]string{}, changed...), removed...) {
		if i > stop || (i == stop && i >= len(changed)) {
			break
		}
		if i >= len(changed) {
			delete(img, n)
			continue
		}
		a := after[n]
		if i < stop {
			if o := before[n]; len(o) > len(a) { // truncation comes last
				a = append(append([]byte{}, a...), o[len(a):]...)
			}
			img[n] = a
			continue
		}
		cut = b.rnd.Intn(len(a) + 1)
		o := before[n]
		m := append([]byte{}, a[:cut]...)
		if len(o) > cut {
			m = append(m, o[cut:]...)
		}
		img[n] = m
	}
	b.note("crash in commit after %d of %d+%d file changes, cut %d", stop, len(changed), len(removed), cut)
	b.cover["crash"]++
	if len(removed) > 0 {
		b.cover["crash with removals"]++
	}
	for n, d := range img {
		f := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := ioutil.WriteFile(f, d, 0644); err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(dir)
	c := &bfiles{ctx: b.ctx, dir: dir, size: b.size, max: b.max, cover: b.cover}
	if !c.open() {
		return false
	}
	defer func() { c.db.Close() }()
	c.db.BeforeRecover(b.redo)
	if err := c.db.PatchRedoLog(b.redo); err != nil {
		b.fail("recover", "PatchRedoLog failed: %v", err)
		return false
	}
	c.db.AfterRecover()
	c.live = append([]rec{}, b.prep...)
	c.disk = c.live
	if !c.check() {
		return false
	}
	// the recovered files must also work from here on
	if !c.write() || !c.check() {
		return false
	}
	if b.rnd.Intn(2) == 0 {
		c.db.Close()
		c.live = append([]rec{}, c.disk...)
		return c.open() && c.check()
	}
	c.db.Prepare()
	c.disk = append([]rec{}, c.live...)
	if _, err := c.db.RedoLog(); err != nil {
		b.fail("redo-log", "RedoLog after recovery failed: %v", err)
		return false
	}
	if err := c.db.Commit(); err != nil {
		b.fail("commit", "Commit after recovery failed: %v", err)
		return false
	}
	c.db.AfterCommit()
	c.db.Close()
	return c.open() && c.check()
}

func (b *bfiles) unit(sb *ledger.SnapshotBlock, ab *ledger.AccountBlock) []byte {
	if sb == nil && ab == nil {
		return nil
	}
	return ser(ab, sb)
}

// chunks compares a chunk list with the records it should hold.
func (b *bfiles) chunks(key string, list []*ledger.SnapshotChunk, want []rec) bool {
	k := 0
	next := func(d []byte) bool {
		if k >= len(want) || !bytes.Equal(d, want[k].data) {
			b.fail(key+"-wrong", "block %d of a range read differs from what was written (%d expected)", k, len(want))
			return false
		}
		k++
		return true
	}
	for i, ch := range list {
		for _, ab := range ch.AccountBlocks {
			if !next(ser(ab, nil)) {
				return false
			}
			if want[k-1].first != (ab == ch.AccountBlocks[0]) && k > 1 {
				b.fail(key+"-grouping", "block %d is in the wrong chunk", k-1)
				return false
			}
		}
		if ch.SnapshotBlock == nil {
			if i != len(list)-1 {
				b.fail(key+"-grouping", "chunk %d has no snapshot block", i)
				return false
			}
			continue
		}
		if !next(ser(nil, ch.SnapshotBlock)) {
			return false
		}
	}
	if k != len(want) {
		b.fail(key+"-short", "a range read gave %d blocks, %d expected", k, len(want))
		return false
	}
	b.r.Count("blocks read in ranges", int64(k))
	return true
}

// check reads everything back in several ways.
func (b *bfiles) check() bool {
	n := len(b.live)
	if n == 0 {
		return true
	}
	for i, r := range b.live {
		if n > 40 && i > 5 && i < n-12 && b.rnd.Intn(4) != 0 {
			continue
		}
		at := r.at
		d, err := b.db.Read(&at)
		if err != nil || !bytes.Equal(d, r.data[1:]) {
			b.fail("read", "block %d of %d at %s read back wrong (%d of %d bytes, error %v)", i, n, r.at, len(d), len(r.data)-1, err)
			return false
		}
		sb, ab, next, err := b.db.ReadUnit(&at)
		if err != nil || !bytes.Equal(b.unit(sb, ab), r.data) {
			b.fail("read-unit", "block %d of %d at %s: ReadUnit gave another block (error %v)", i, n, r.at, err)
			return false
		}
		nx, err := b.db.GetNextLocation(&at)
		if err != nil || nx == nil || !b.same(*nx, *next) {
			b.fail("next-location", "block %d at %s: GetNextLocation gives %v (%v), ReadUnit %v", i, r.at, nx, err, next)
			return false
		}
		if i+1 < n && !b.same(*next, b.live[i+1].at) {
			b.fail("next-location", "the block after %d (at %s) is at %s, but the sequence continues at %s", i, r.at, b.live[i+1].at, next)
			return false
		}
		if r.ab != nil {
			g, err := b.db.GetAccountBlock(&at)
			if err != nil || g == nil || g.Hash != r.hash {
				b.fail("get-account-block", "GetAccountBlock at %s: %v %v", r.at, g, err)
				return false
			}
		} else {
			g, err := b.db.GetSnapshotBlock(&at)
			if err != nil || g == nil || g.Hash != r.hash {
				b.fail("get-snapshot-block", "GetSnapshotBlock at %s: %v %v", r.at, g, err)
				return false
			}
			h, err := b.db.GetSnapshotHeader(&at)
			if err != nil || h == nil || h.Hash != r.hash {
				b.fail("get-snapshot-header", "GetSnapshotHeader at %s: %v %v", r.at, h, err)
				return false
			}
		}
		b.r.Count("blocks read", 1)
	}
	// nothing after the last block
	last := b.live[n-1]
	if nx, err := b.db.GetNextLocation(&last.at); err == nil && nx != nil {
		if sb, ab, _, err := b.db.ReadUnit(nx); err == nil && (sb != nil || ab != nil) {
			b.fail("phantom", "a block can be read after the last block (at %s)", nx)
			return false
		}
	}
	// a random range of whole chunks
	var starts, ends []int
	for i, r := range b.live {
		if r.first {
			starts = append(starts, i)
		}
		if r.sb != nil {
			ends = append(ends, i)
		}
	}
	s := starts[b.rnd.Intn(len(starts))]
	var e int
	for {
		if e = ends[b.rnd.Intn(len(ends))]; e >= s {
			break
		}
	}
	from, to := b.live[s].at, b.live[e].at
	list, err := b.db.ReadRange(&from, &to)
	if err != nil {
		b.fail("read-range", "ReadRange(%s, %s) failed: %v", from, to, err)
		return false
	}
	if !b.chunks("read-range", list, b.live[s:e+1]) {
		return false
	}
	ch, next, err := b.db.ReadChunk(from)
	if err != nil {
		b.fail("read-chunk", "ReadChunk(%s) failed: %v", from, err)
		return false
	}
	k := s
	for b.live[k].sb == nil {
		k++
	}
	if !b.chunks("read-chunk", []*ledger.SnapshotChunk{ch}, b.live[s:k+1]) {
		return false
	}
	if k+1 < n && !b.same(*next, b.live[k+1].at) {
		b.fail("next-location", "ReadChunk(%s) says the next chunk is at %s, it is at %s", from, next, b.live[k+1].at)
		return false
	}
	if b.rnd.Intn(4) == 0 {
		p := starts[b.rnd.Intn(len(starts))]
		at := b.live[p].at
		list, err := b.db.PrepareRollback(&at)
		if err != nil {
			b.fail("prepare-rollback", "PrepareRollback(%s) failed: %v", at, err)
			return false
		}
		if !b.chunks("prepare-rollback", list, b.live[p:]) {
			return false
		}
	}
	b.r.Count("full comparisons", 1)
	return true
}

// concurrent readers while blocks are appended and flushed; a settled block must always read
// back the same.
func (b *bfiles) concurrent() {
	if b.db == nil || len(b.live) == 0 {
		return
	}
	settled := append([]rec{}, b.live...)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	reads := int64(0)
	for w := 0; w < 3; w++ {
		wg.Add(1)
		rnd := b.r.Rand(fmt.Sprintf("%s/reader%d", b.name, w))
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					bad = fmt.Sprint("panic: ", p)
					mu.Unlock()
				}
			}()
			for {
				select {
				case <-stop:
					return
				default:
				}
				r := settled[rnd.Intn(len(settled))]
				at := r.at
				d, err := b.db.Read(&at)
				mu.Lock()
				reads++
				if err != nil || !bytes.Equal(d, r.data[1:]) {
					bad = fmt.Sprintf("block at %s read back wrong while blocks were appended: %v", r.at, err)
				}
				mu.Unlock()
			}
		}()
	}
	if b.phase != 0 {
		b.db.CancelPrepare()
		b.phase = 0
	}
	for i := 0; i < 60; i++ {
		if !b.write() {
			break
		}
		if i%6 == 5 {
			b.db.Prepare()
			b.db.RedoLog()
			if err := b.db.Commit(); err != nil {
				b.fail("commit", "Commit failed: %v", err)
				break
			}
			b.db.AfterCommit()
		}
	}
	close(stop)
	wg.Wait()
	b.r.Count("concurrent reads", reads)
	if bad != "" {
		b.fail("concurrent-read", "%s", bad)
		return
	}
	b.check()
}

func readTree(dir string) dirImage {
	o := dirImage{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() {
			d, err := ioutil.ReadFile(p)
			if err != nil {
				panic(err)
			}
			n, _ := filepath.Rel(dir, p)
			o[n] = d
		}
		return nil
	})
	return o
}
