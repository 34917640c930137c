package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/comparer"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/filter"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/iterator"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/memdb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/storage"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
)

func init() {
	props["C21"] = prop{1100, 30000, 8, runC21}
	props["C21race"] = prop{60, 600, 4, func(c *ctx) { c.concurrent(250) }}
	rules["C21race"] = "one concurrent run under the race detector; distinct by run"
}

func (c *ctx) options() *opt.Options {
	r := c.rnd
	o := &opt.Options{
		WriteBuffer:            []int{600, 2000, 8000, 64000, 4 << 20}[r.Intn(5)],
		CompactionTableSize:    []int{400, 2000, 10000, 2 << 20}[r.Intn(4)],
		CompactionTotalSize:    []int{2000, 10000, 100000, 10 << 20}[r.Intn(4)],
		CompactionL0Trigger:    1 + r.Intn(4),
		BlockSize:              []int{64, 256, 1024, 4096}[r.Intn(4)],
		BlockRestartInterval:   []int{1, 2, 5, 16}[r.Intn(4)],
		OpenFilesCacheCapacity: []int{2, 10, 500}[r.Intn(3)],
		IteratorSamplingRate:   []int{100, 5000, 1 << 20}[r.Intn(3)],
	}
	if r.Intn(2) == 0 {
		o.Filter = filter.NewBloomFilter(1 + r.Intn(12))
	}
	if r.Intn(2) == 0 {
		o.Compression = opt.NoCompression
	}
	if r.Intn(3) == 0 {
		o.BlockCacheCapacity = 1 + r.Intn(5000)
	}
	if r.Intn(4) == 0 {
		o.CompactionTotalSizeMultiplier = 2
	}
	if r.Intn(4) == 0 {
		o.DisableBufferPool = true
	}
	if r.Intn(4) == 0 {
		o.DisableBlockCache = true
	}
	if r.Intn(3) == 0 {
		o.DisableLargeBatchTransaction = true
	}
	return o
}

func (c *ctx) key() string {
	switch c.rnd.Intn(12) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("\xff", 1+c.rnd.Intn(3))
	case 2:
		return fmt.Sprintf("k%02d", c.rnd.Intn(40)) + strings.Repeat("\x00", c.rnd.Intn(3))
	case 3:
		return strings.Repeat("p", 20+c.rnd.Intn(60)) + fmt.Sprint(c.rnd.Intn(10))
	}
	return fmt.Sprintf("k%02d", c.rnd.Intn(60))
}

func (c *ctx) value(tag int) string {
	n := c.rnd.Intn(40)
	switch c.rnd.Intn(12) {
	case 0:
		n = c.rnd.Intn(3000)
	case 1:
		return ""
	case 2:
		if c.rnd.Intn(12) == 0 {
			n = 30000 + c.rnd.Intn(40000)
		}
	}
	if c.rnd.Intn(2) == 0 {
		return fmt.Sprintf("v%d", tag) + strings.Repeat("x", n)
	}
	return fmt.Sprintf("v%d", tag) + string(c.bytes(n))
}

type wop struct {
	del  bool
	k, v string
}

func apply(m map[string]string, w []wop) {
	for _, o := range w {
		if o.del {
			delete(m, o.k)
		} else {
			m[o.k] = o.v
		}
	}
}

func content(it iterator.Iterator) (map[string]string, string) {
	defer it.Release()
	m := map[string]string{}
	prev := ""
	first := true
	for it.Next() {
		k := string(it.Key())
		if !first && k <= prev {
			return m, fmt.Sprintf("iterator not ascending: %q after %q", k, prev)
		}
		prev, first = k, false
		m[k] = string(it.Value())
	}
	if err := it.Error(); err != nil {
		return m, "iterator error: " + err.Error()
	}
	return m, ""
}

type cursor struct {
	it   iterator.Iterator
	keys []string
	m    map[string]string
	pos  int // -1 before, len after
	what string
}

// move performs one random movement and compares.
func (c *ctx) move(u *cursor) bool {
	n := len(u.keys)
	var got, want bool
	var desc string
	switch c.rnd.Intn(10) {
	case 0:
		got = u.it.First()
		u.pos = 0
		if n == 0 {
			u.pos = -1
		}
		want = n > 0
		desc = "First"
		if n == 0 {
			u.pos = n
		}
	case 1:
		got = u.it.Last()
		u.pos = n - 1
		want = n > 0
		desc = "Last"
	case 2, 3:
		k := c.key()
		if n > 0 && c.rnd.Intn(2) == 0 {
			k = u.keys[c.rnd.Intn(n)]
			if c.rnd.Intn(2) == 0 {
				k += "\x00"
			}
		}
		got = u.it.Seek([]byte(k))
		u.pos = sort.SearchStrings(u.keys, k)
		want = u.pos < n
		desc = fmt.Sprintf("Seek(%q)", k)
	case 4, 5, 6:
		got = u.it.Next()
		if u.pos < n {
			u.pos++
		}
		want = u.pos < n
		desc = "Next"
	default:
		got = u.it.Prev()
		if u.pos >= 0 {
			u.pos--
		}
		want = u.pos >= 0
		desc = "Prev"
	}
	if got != want {
		c.fail("iterator-end", "%s: %s answers %v, should be %v (at %d of %d); error %v", u.what, desc, got, want, u.pos, n, u.it.Error())
		return false
	}
	if want {
		k := u.keys[u.pos]
		if string(u.it.Key()) != k || string(u.it.Value()) != u.m[k] {
			c.fail("iterator-entry", "%s: %s stands at %q=%.40q, should be %q=%.40q", u.what, desc, u.it.Key(), u.it.Value(), k, u.m[k])
			return false
		}
	} else {
		if u.it.Key() != nil || u.it.Valid() {
			c.fail("iterator-invalid", "%s: after %s beyond the end the iterator has key %q, valid %v", u.what, desc, u.it.Key(), u.it.Valid())
			return false
		}
	}
	return true
}

func (c *ctx) slice() *util.Range {
	switch c.rnd.Intn(6) {
	case 0, 1:
		return nil
	case 2:
		return util.BytesPrefix([]byte{'k', byte('0' + c.rnd.Intn(6))})
	case 3:
		return &util.Range{Start: []byte(c.key())}
	case 4:
		return &util.Range{Limit: []byte(c.key())}
	}
	a, b := c.key(), c.key()
	if a > b {
		a, b = b, a
	}
	return &util.Range{Start: []byte(a), Limit: []byte(b)}
}

func inSlice(k string, s *util.Range) bool {
	if s == nil {
		return true
	}
	return (s.Start == nil || k >= string(s.Start)) && (s.Limit == nil || k < string(s.Limit))
}

func newCursor(it iterator.Iterator, m map[string]string, s *util.Range, what string) *cursor {
	u := &cursor{it: it, m: m, pos: -1, what: what}
	for _, k := range sortedKeys(m) {
		if inSlice(k, s) {
			u.keys = append(u.keys, k)
		}
	}
	return u
}

type image struct {
	st             *cst
	started, acked int
	synced         int
	op             int
}

func runC21(c *ctx) {
	switch c.i % 11 {
	case 10:
		c.concurrent(60)
		return
	case 9:
		c.memdb()
		return
	case 8:
		c.merged()
		return
	}
	crash := c.i%11 < 5
	o := c.options()
	var st storage.Storage
	var cs *cst
	dir := ""
	if !crash && c.rnd.Intn(2) == 0 {
		var err error
		dir, err = ioutil.TempDir("", "vsim-kv")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
	} else {
		cs = newCst()
		st = cs
	}
	open := func() *leveldb.DB {
		var db *leveldb.DB
		var err error
		if dir != "" {
			db, err = leveldb.OpenFile(dir, o)
		} else {
			db, err = leveldb.Open(st, o)
		}
		if err != nil {
			c.fail("open", "store does not open: %v", err)
			return nil
		}
		return db
	}
	db := open()
	if db == nil {
		return
	}
	m := map[string]string{}
	var log [][]wop
	var syncs []bool
	var started, acked, synced int32
	var images []*image
	var imu sync.Mutex
	if crash {
		next := 1 + c.rnd.Intn(30)
		gap := 5 + c.rnd.Intn(60)
		rr := c.r.Rand(c.name + "images")
		cs.snap = func(op int) {
			if op >= next {
				next = op + 1 + rr.Intn(gap)
				im := &image{cs.image(), int(atomic.LoadInt32(&started)), int(atomic.LoadInt32(&acked)), int(atomic.LoadInt32(&synced)), op}
				imu.Lock()
				images = append(images, im)
				imu.Unlock()
			}
		}
	}
	type held struct {
		s *leveldb.Snapshot
		m map[string]string
	}
	var snaps []held
	var curs []*cursor
	drop := func() {
		for _, u := range curs {
			u.it.Release()
		}
		for _, s := range snaps {
			s.s.Release()
		}
		curs, snaps = nil, nil
	}
	steps := 60 + c.rnd.Intn(240)
	heavy := c.rnd.Intn(3)
	for s := 0; s < steps; s++ {
		switch p := c.rnd.Intn(100); {
		case p < 45: // write
			i := len(log)
			var w []wop
			n := 1 + c.rnd.Intn(4)
			if c.rnd.Intn(8) == 0 {
				n = 1 + c.rnd.Intn(40)
			}
			if heavy == 0 && c.rnd.Intn(10) == 0 {
				n = 100 + c.rnd.Intn(200)
			}
			single := c.rnd.Intn(5) == 0
			if single {
				if crash {
					w = []wop{{false, fmt.Sprintf("m%06d", i), c.value(i)}}
				} else if c.rnd.Intn(2) == 0 {
					w = []wop{{true, c.key(), ""}}
				} else {
					w = []wop{{false, c.key(), c.value(i)}}
				}
			} else {
				for k := 0; k < n; k++ {
					if c.rnd.Intn(4) == 0 {
						w = append(w, wop{true, c.key(), ""})
					} else {
						w = append(w, wop{false, c.key(), c.value(i)})
					}
				}
				if crash {
					at := c.rnd.Intn(len(w) + 1)
					w = append(w[:at:at], append([]wop{{false, fmt.Sprintf("m%06d", i), "x"}}, w[at:]...)...)
				}
			}
			log = append(log, w)
			sync := c.rnd.Intn(5) == 0
			var wo *opt.WriteOptions
			if sync {
				wo = &opt.WriteOptions{Sync: true}
			}
			if c.rnd.Intn(6) == 0 {
				if wo == nil {
					wo = &opt.WriteOptions{}
				}
				wo.NoWriteMerge = true
			}
			var err error
			c.note("write %d: %d records, sync %v", i, len(w), sync)
			atomic.StoreInt32(&started, int32(i+1))
			switch {
			case single && w[0].del:
				err = db.Delete([]byte(w[0].k), wo)
			case single:
				err = db.Put([]byte(w[0].k), []byte(w[0].v), wo)
			case c.rnd.Intn(7) == 0:
				sync = true
				tr, e := db.OpenTransaction()
				if e != nil {
					c.fail("transaction", "no transaction: %v", e)
					return
				}
				tm := clone(m)
				ch := c.rnd.Intn(len(w) + 1)
				for k, x := range w {
					if k == ch {
						b := new(leveldb.Batch)
						for _, y := range w[k:] {
							put(b, y)
						}
						e = tr.Write(b, wo)
						apply(tm, w[k:])
						break
					}
					if x.del {
						e = tr.Delete([]byte(x.k), wo)
					} else {
						e = tr.Put([]byte(x.k), []byte(x.v), wo)
					}
					apply(tm, w[k:k+1])
					if e != nil {
						break
					}
				}
				if e != nil {
					c.fail("transaction", "write in transaction: %v", e)
					return
				}
				for k := 0; k < 4; k++ {
					key := c.key()
					v, e := tr.Get([]byte(key), nil)
					c.same("transaction-read", key, v, e, tm)
				}
				got, bad := content(tr.NewIterator(nil, nil))
				if bad != "" || diff(got, tm) != "" {
					c.fail("transaction-iterate", "inside a transaction: %s%s", bad, diff(got, tm))
				}
				if c.rnd.Intn(3) == 0 {
					c.note("discarded")
					tr.Discard()
					log = log[:i]
					got, bad := content(db.NewIterator(nil, nil))
					if bad != "" || diff(got, m) != "" {
						c.fail("discarded-transaction", "after discarding: %s%s", bad, diff(got, m))
					}
					// the marker must not be found by an image taken meanwhile
					imu.Lock()
					for _, im := range images {
						if im.started == i+1 {
							im.started = i
						}
					}
					imu.Unlock()
					atomic.StoreInt32(&started, int32(i))
					c.r.Count("transactions_discarded", 1)
					continue
				}
				err = tr.Commit()
				c.r.Count("transactions", 1)
			default:
				b := new(leveldb.Batch)
				for _, x := range w {
					put(b, x)
				}
				if c.rnd.Intn(4) == 0 { // the same batch through its dump or appended
					b2 := new(leveldb.Batch)
					if c.rnd.Intn(2) == 0 {
						if err := b2.Load(append([]byte{}, b.Dump()...)); err != nil {
							c.fail("batch-load", "%v", err)
						}
					} else {
						b2.Append(b)
					}
					b = b2
				}
				err = db.Write(b, wo)
			}
			if err != nil {
				c.fail("write", "write refused: %v", err)
				return
			}
			syncs = append(syncs, sync)
			apply(m, w)
			atomic.StoreInt32(&acked, int32(i+1))
			if sync {
				atomic.StoreInt32(&synced, int32(i+1))
			}
			c.r.Count("writes", 1)
		case p < 60:
			for k := 0; k < 5; k++ {
				key := c.key()
				v, err := db.Get([]byte(key), nil)
				c.same("get", key, v, err, m)
				ok, err := db.Has([]byte(key), nil)
				_, want := m[key]
				if err != nil || ok != want {
					c.fail("has", "Has(%q) answers %v (%v), should be %v", key, ok, err, want)
				}
			}
			c.r.Count("reads", 10)
		case p < 64:
			s, err := db.GetSnapshot()
			if err != nil {
				c.fail("snapshot", "%v", err)
				return
			}
			snaps = append(snaps, held{s, clone(m)})
			c.note("snapshot")
			if len(snaps) > 5 {
				snaps[0].s.Release()
				snaps = snaps[1:]
			}
		case p < 72:
			if len(snaps) > 0 {
				h := snaps[c.rnd.Intn(len(snaps))]
				for k := 0; k < 5; k++ {
					key := c.key()
					v, err := h.s.Get([]byte(key), nil)
					c.same("snapshot-get", key, v, err, h.m)
				}
				if c.rnd.Intn(3) == 0 {
					got, bad := content(h.s.NewIterator(nil, nil))
					if bad != "" || diff(got, h.m) != "" {
						c.fail("snapshot-content", "snapshot changed: %s%s", bad, diff(got, h.m))
					}
				}
				c.r.Count("snapshot_reads", 1)
			}
		case p < 78:
			sl := c.slice()
			var u *cursor
			if len(snaps) > 0 && c.rnd.Intn(2) == 0 {
				h := snaps[c.rnd.Intn(len(snaps))]
				u = newCursor(h.s.NewIterator(sl, nil), h.m, sl, "snapshot iterator")
			} else {
				u = newCursor(db.NewIterator(sl, nil), clone(m), sl, "iterator")
			}
			curs = append(curs, u)
			if len(curs) > 4 {
				curs[0].it.Release()
				curs = curs[1:]
			}
		case p < 92:
			if len(curs) > 0 {
				u := curs[c.rnd.Intn(len(curs))]
				for k := 1 + c.rnd.Intn(12); k > 0; k-- {
					if !c.move(u) {
						return
					}
				}
				c.r.Count("iterator_moves", 6)
			}
		case p < 94:
			sl := util.Range{}
			if x := c.slice(); x != nil {
				sl = *x
			}
			c.note("compact %q %q", sl.Start, sl.Limit)
			if err := db.CompactRange(sl); err != nil {
				c.fail("compact", "%v", err)
			}
			c.r.Count("compactions_asked", 1)
		case p < 97:
			got, bad := content(db.NewIterator(nil, nil))
			if bad != "" || diff(got, m) != "" {
				c.fail("content", "%s%s", bad, diff(got, m))
				return
			}
		default:
			if c.rnd.Intn(2) == 0 {
				drop()
				c.note("reopen")
				if err := db.Close(); err != nil {
					c.fail("close", "%v", err)
				}
				if c.rnd.Intn(2) == 0 {
					o = c.options()
				}
				if db = open(); db == nil {
					return
				}
				got, bad := content(db.NewIterator(nil, nil))
				if bad != "" || diff(got, m) != "" {
					c.fail("reopened-content", "%s%s", bad, diff(got, m))
					return
				}
				c.r.Count("reopens", 1)
			}
		}
	}
	got, bad := content(db.NewIterator(nil, nil))
	if bad != "" || diff(got, m) != "" {
		c.fail("content", "%s%s", bad, diff(got, m))
		return
	}
	if v, err := db.GetProperty("leveldb.num-files-at-level1"); err == nil && v != "0" {
		c.r.Count("stores_with_deeper_levels", 1)
	}
	drop()
	if err := db.Close(); err != nil {
		c.fail("close", "%v", err)
	}
	c.r.Eval(c.name+fmt.Sprint(len(log), steps), len(log) > 0)
	if !crash {
		return
	}
	imu.Lock()
	ims := images
	imu.Unlock()
	c.rnd.Shuffle(len(ims), func(i, j int) { ims[i], ims[j] = ims[j], ims[i] })
	if len(ims) > 14 {
		ims = ims[:14]
	}
	for _, im := range ims {
		c.image(im, log, syncs)
	}
}

func put(b *leveldb.Batch, o wop) {
	if o.del {
		b.Delete([]byte(o.k))
	} else {
		b.Put([]byte(o.k), []byte(o.v))
	}
}

func (c *ctx) same(key, k string, v []byte, err error, m map[string]string) {
	want, ok := m[k]
	switch {
	case !ok && err != leveldb.ErrNotFound:
		c.fail(key, "%q reads %.40q (%v), it is absent", k, v, err)
	case ok && (err != nil || string(v) != want):
		c.fail(key, "%q reads %.40q (%v), should be %.40q", k, v, err, want)
	}
}

// image reopens what a crash left: kill (everything written is there), the newest journal
// torn, or every unsynced tail lost.
func (c *ctx) image(im *image, log [][]wop, syncs []bool) {
	mode := c.rnd.Intn(3)
	st := im.st
	switch mode {
	case 1:
		st.tear(c.rnd, false)
	case 2:
		st.tear(c.rnd, true)
	}
	name := []string{"kill", "newest journal torn", "unsynced tails lost"}[mode]
	o := c.options()
	db, err := leveldb.Open(st, o)
	if err != nil {
		c.fail("crash-open-"+fmt.Sprint(mode), "crash (%s) at storage operation %d: store does not open: %v", name, im.op, err)
		return
	}
	for again := 0; again < 2; again++ {
		got, bad := content(db.NewIterator(nil, nil))
		if bad != "" {
			c.fail("crash-content", "crash (%s): %s", name, bad)
			break
		}
		want := map[string]string{}
		gap := -1
		n := 0
		for i := range log {
			if _, ok := got[fmt.Sprintf("m%06d", i)]; ok {
				if i >= im.started {
					c.fail("crash-future", "crash (%s) at operation %d: write %d is there before it began", name, im.op, i)
				}
				if gap >= 0 && mode < 2 {
					c.fail("crash-hole", "crash (%s): write %d is there, earlier write %d is not", name, i, gap)
				}
				apply(want, log[i])
				n++
				continue
			}
			if gap < 0 {
				gap = i
			}
			if i < im.acked && (mode == 0 || syncs[i]) {
				c.fail("crash-lost", "crash (%s) at operation %d: acknowledged write %d (sync %v) of %d is lost", name, im.op, i, syncs[i], im.acked)
				break
			}
		}
		if d := diff(got, want); d != "" {
			c.fail("crash-mixture", "crash (%s) at operation %d: content is not what the %d surviving writes give:%s", name, im.op, n, d)
		}
		if n > 0 && n < im.acked {
			c.r.Count("images_losing_unsynced_writes", 1)
		}
		// it goes on working
		if again == 0 {
			if err := db.Put([]byte("zz"), []byte("after"), &opt.WriteOptions{Sync: true}); err != nil {
				c.fail("crash-write", "after a crash (%s) the store refuses writes: %v", name, err)
			}
			db.Delete([]byte("zz"), nil)
			if err := db.CompactRange(util.Range{}); err != nil {
				c.fail("crash-compact", "after a crash (%s): %v", name, err)
			}
			db.Close()
			if db, err = leveldb.Open(st, o); err != nil {
				c.fail("crash-reopen", "after a crash (%s) and a clean close the store does not open: %v", name, err)
				return
			}
		}
	}
	db.Close()
	c.r.Count("crash_images."+strings.Replace(name, " ", "_", -1), 1)
	c.r.Eval(fmt.Sprint(c.name, "image", im.op, mode), true)
}

// concurrent: writers and readers share one store.
func (c *ctx) concurrent(n int) {
	st := newCst()
	o := c.options()
	if o.WriteBuffer > 8000 {
		o.WriteBuffer = 2000
	}
	db, err := leveldb.Open(st, o)
	if err != nil {
		c.fail("open", "%v", err)
		return
	}
	const W, K = 4, 6
	var acked [W]int64
	var wg, rg sync.WaitGroup
	done := make(chan struct{})
	key := func(w, k int) []byte { return []byte(fmt.Sprintf("w%d-%d", w, k)) }
	for w := 0; w < W; w++ {
		w := w
		rnd := c.r.Rand(c.name + fmt.Sprint("w", w))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i <= n; i++ {
				b := new(leveldb.Batch)
				v := []byte(fmt.Sprintf("%06d%s", i, strings.Repeat("y", rnd.Intn(30))))
				for k := 0; k < K; k++ {
					if rnd.Intn(4) == 0 {
						b.Delete(key(w, k))
					}
					b.Put(key(w, k), v)
				}
				tmp := []byte(fmt.Sprintf("t%d-%d", w, i))
				b.Put(tmp, v)
				b.Delete([]byte(fmt.Sprintf("t%d-%d", w, i-1)))
				var wo *opt.WriteOptions
				if rnd.Intn(10) == 0 {
					wo = &opt.WriteOptions{Sync: true}
				}
				if err := db.Write(b, wo); err != nil {
					c.fail("concurrent-write", "%v", err)
					return
				}
				atomic.StoreInt64(&acked[w], int64(i))
				if got, err := db.Get(key(w, rnd.Intn(K)), nil); err != nil || string(got) != string(v) {
					c.fail("own-write", "writer %d reads %.20q (%v) right after writing %.20q", w, got, err, v)
				}
				if rnd.Intn(40) == 0 {
					db.CompactRange(util.Range{})
				}
			}
		}()
	}
	for q := 0; q < 3; q++ {
		q := q
		rg.Add(1)
		rnd := c.r.Rand(c.name + fmt.Sprint("r", q))
		go func() {
			defer rg.Done()
			var last [W]int64
			for {
				select {
				case <-done:
					return
				default:
				}
				var low [W]int64
				for w := range low {
					low[w] = atomic.LoadInt64(&acked[w])
				}
				var m map[string]string
				bad := ""
				switch rnd.Intn(3) {
				case 0:
					m, bad = content(db.NewIterator(nil, nil))
				default:
					s, err := db.GetSnapshot()
					if err != nil {
						c.fail("concurrent-snapshot", "%v", err)
						return
					}
					if rnd.Intn(2) == 0 {
						m, bad = content(s.NewIterator(nil, nil))
					} else {
						m = map[string]string{}
						for w := 0; w < W; w++ {
							for k := K - 1; k >= 0; k-- {
								if v, err := s.Get(key(w, k), nil); err == nil {
									m[string(key(w, k))] = string(v)
								} else if err != leveldb.ErrNotFound {
									bad = err.Error()
								}
							}
						}
						m["partial"] = ""
					}
					s.Release()
				}
				if bad != "" {
					c.fail("concurrent-read", "%s", bad)
					return
				}
				_, partial := m["partial"]
				for w := 0; w < W; w++ {
					v := m[string(key(w, 0))]
					for k := 1; k < K; k++ {
						if m[string(key(w, k))] != v {
							c.fail("torn-batch", "a snapshot sees %.12q and %.12q of one batch of writer %d", v, m[string(key(w, k))], w)
							return
						}
					}
					i := int64(0)
					if v != "" {
						fmt.Sscanf(v, "%06d", &i)
						if !partial && m[fmt.Sprintf("t%d-%d", w, i)] != v {
							c.fail("torn-batch", "a snapshot sees write %d of writer %d without its last record", i, w)
							return
						}
					}
					if i < low[w] || i < last[w] {
						c.fail("stale-read", "a snapshot sees write %d of writer %d, %d was acknowledged and %d seen before", i, w, low[w], last[w])
						return
					}
					last[w] = i
				}
				c.r.Count("concurrent_snapshots", 1)
			}
		}()
	}
	wg.Wait()
	close(done)
	rg.Wait()
	if err := db.Close(); err != nil {
		c.fail("close", "%v", err)
	}
	db, err = leveldb.Open(st, o)
	if err != nil {
		c.fail("reopen", "%v", err)
		return
	}
	m, bad := content(db.NewIterator(nil, nil))
	if bad != "" || len(m) != W*(K+1) {
		c.fail("concurrent-final", "%s %d keys, should be %d", bad, len(m), W*(K+1))
	}
	for w := 0; w < W; w++ {
		for k := 0; k < K; k++ {
			if !strings.HasPrefix(m[string(key(w, k))], fmt.Sprintf("%06d", n)) {
				c.fail("concurrent-final", "writer %d key %d ends with %.10q", w, k, m[string(key(w, k))])
			}
		}
	}
	db.Close()
	c.r.Count("concurrent_runs", 1)
	c.r.Eval(c.name+"concurrent", true)
}

// memdb: the in-memory table used below every layer.
func (c *ctx) memdb() {
	d := memdb.New(comparer.DefaultComparer, c.rnd.Intn(100))
	m := map[string]string{}
	type frozen struct {
		d *memdb.DB
		m map[string]string
	}
	var fr []frozen
	for s := 0; s < 400; s++ {
		k := c.key()
		switch c.rnd.Intn(9) {
		case 0, 1, 2, 3:
			v := c.value(s)
			if err := d.Put([]byte(k), []byte(v)); err != nil {
				c.fail("memdb-put", "%v", err)
			}
			m[k] = v
		case 4:
			err := d.Delete([]byte(k))
			if _, ok := m[k]; ok != (err == nil) {
				c.fail("memdb-delete", "deleting %q: %v, it was there: %v", k, err, ok)
			}
			delete(m, k)
		case 5:
			v, err := d.Get([]byte(k))
			if want, ok := m[k]; ok != (err == nil) || string(v) != want {
				c.fail("memdb-get", "%q reads %.30q (%v), should be %.30q (%v)", k, v, err, want, ok)
			}
			if d.Contains([]byte(k)) != (err == nil) {
				c.fail("memdb-contains", "Contains(%q) disagrees with Get", k)
			}
			fk, fv, err := d.Find([]byte(k))
			ks := sortedKeys(m)
			i := sort.SearchStrings(ks, k)
			if (i < len(ks)) != (err == nil) || (err == nil && (string(fk) != ks[i] || string(fv) != m[ks[i]])) {
				c.fail("memdb-find", "Find(%q) is %q (%v)", k, fk, err)
			}
		case 6:
			if c.rnd.Intn(4) == 0 {
				cp := d.Copy()
				if c.rnd.Intn(2) == 0 {
					cp = d.Copy2(func(n int) []byte { return make([]byte, n) }, func(n int) []int { return make([]int, n) })
				}
				if c.rnd.Intn(2) == 0 {
					fr = append(fr, frozen{d, clone(m)})
					d = cp
				} else {
					fr = append(fr, frozen{cp, clone(m)})
				}
			}
		default:
			sl := c.slice()
			u := newCursor(d.NewIterator(sl), m, sl, "memdb iterator")
			for k := 0; k < 10; k++ {
				if !c.move(u) {
					u.it.Release()
					return
				}
			}
			u.it.Release()
		}
		size := 0
		if d.Len() != len(m) {
			c.fail("memdb-len", "Len is %d, should be %d", d.Len(), len(m))
			return
		}
		if s%40 == 0 {
			for k, v := range m {
				size += len(k) + len(v)
			}
			if d.Size() != size {
				c.fail("memdb-size", "Size is %d, should be %d", d.Size(), size)
			}
		}
	}
	for _, f := range append(fr, frozen{d, m}) {
		got, bad := content(f.d.NewIterator(nil))
		if bad != "" || diff(got, f.m) != "" {
			c.fail("memdb-copy", "%s%s", bad, diff(got, f.m))
		}
	}
	c.r.Count("memory_tables", 1)
	c.r.Eval(c.name+"memdb", true)
}

// merged: the merged iterator over several sorted sources.
func (c *ctx) merged() {
	for round := 0; round < 30; round++ {
		var its []iterator.Iterator
		m := map[string]string{}
		n := c.rnd.Intn(5)
		for i := 0; i < n; i++ {
			d := memdb.New(comparer.DefaultComparer, 0)
			for k := c.rnd.Intn(12); k > 0; k-- {
				// sources share no key, as in the store (internal keys are unique)
				key := c.key() + string([]byte{byte(i)})
				if _, ok := m[key]; ok {
					continue
				}
				v := c.value(k)
				m[key] = v
				d.Put([]byte(key), []byte(v))
			}
			its = append(its, d.NewIterator(nil))
		}
		u := newCursor(iterator.NewMergedIterator(its, comparer.DefaultComparer, true), m, nil, "merged iterator")
		for k := 0; k < 40; k++ {
			if !c.move(u) {
				return
			}
		}
		u.it.Release()
		c.r.Count("merged_iterators", 1)
		c.r.Eval(fmt.Sprint(c.name, "merged", round), len(m) > 0)
	}
	_ = bytes.Equal
}
