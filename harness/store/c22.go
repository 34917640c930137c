package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/vitelabs/go-vite/v2/common/db"
	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/comparer"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/memdb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_db "github.com/vitelabs/go-vite/v2/ledger/chain/db"
	chain_flusher "github.com/vitelabs/go-vite/v2/ledger/chain/flusher"
)

func init() {
	props["C22"] = prop{260, 4000, 8, runC22}
	props["C22race"] = prop{24, 300, 4, func(c *ctx) { c.storeRace() }}
	rules["C22race"] = "one concurrent run of readers, writers and the flush loop under the race detector; distinct by run"
}

// write is one put (or delete) of a batch.
type write struct {
	k, v string
	del  bool
}

type unconf struct {
	hash types.Hash
	w    []write
}

// layer is the model of one store.
type layer struct {
	st    *chain_db.Store
	conf  map[string]string // all confirmed and direct writes
	un    [][]unconf        // by account, in order
	marks []map[string]string
	disk  map[string]string // what a crash without redo log leaves
	prep  map[string]string // conf at Prepare
}

func applyW(m map[string]string, ws []write) {
	for _, w := range ws {
		if w.del {
			delete(m, w.k)
		} else {
			m[w.k] = w.v
		}
	}
}

func (l *layer) view() map[string]string {
	m := clone(l.conf)
	for _, a := range l.un {
		for _, u := range a {
			applyW(m, u.w)
		}
	}
	return m
}

func (l *layer) batch(ws []write) *leveldb.Batch {
	b := l.st.NewBatch()
	for _, w := range ws {
		if w.del {
			b.Delete([]byte(w.k))
		} else {
			b.Put([]byte(w.k), []byte(w.v))
		}
	}
	return b
}

// back gives the writes that turn from into to.
func back(from, to map[string]string) (o []write) {
	for _, k := range sortedKeys(from) {
		if v, ok := to[k]; !ok {
			o = append(o, write{k: k, del: true})
		} else if v != from[k] {
			o = append(o, write{k: k, v: v})
		}
	}
	for _, k := range sortedKeys(to) {
		if _, ok := from[k]; !ok {
			o = append(o, write{k: k, v: to[k]})
		}
	}
	return
}

type layers struct {
	*ctx
	dir                  string
	l                    []*layer
	mu                   sync.RWMutex
	fl                   *chain_flusher.Flusher
	keys                 int
	crash                int
	seq                  int
	cover                map[string]int
	failRedo, failCommit bool
	pre                  *string // a copy of the stores before the commit
	stop                 bool
}

// hooked lets the harness act between the steps of a flush.
type hooked struct {
	*chain_db.Store
	x *layers
	i int
}

func (h *hooked) Prepare() {
	h.x.l[h.i].prep = clone(h.x.l[h.i].conf)
	h.Store.Prepare()
}
func (h *hooked) RedoLog() ([]byte, error) {
	if h.i == 0 {
		h.x.between("before redo log", false)
		if h.x.pre == nil && h.x.fl != nil && h.x.rnd.Intn(3) == 0 {
			d, err := ioutil.TempDir("", "vsim-st")
			if err != nil {
				panic(err)
			}
			copyStable(h.x.dir, d)
			h.x.pre = &d
		}
	}
	if h.x.failRedo && h.i == len(h.x.l)-1 {
		h.x.note("redo log fails")
		return nil, errors.New("injected: cannot make the redo log")
	}
	return h.Store.RedoLog()
}
func (h *hooked) PatchRedoLog(log []byte) error {
	if h.x.failCommit { // repairing a failed commit: what was written must be readable all along
		h.x.check("while a failed commit is repaired")
	}
	return h.Store.PatchRedoLog(log)
}
func (h *hooked) Commit() error {
	if h.x.failCommit && h.i == 0 {
		return errors.New("injected: cannot commit")
	}
	return h.Store.Commit()
}
func (h *hooked) AfterCommit() {
	if h.i == 0 {
		h.x.between("after commit", true)
	}
	h.Store.AfterCommit()
}

func (x *layers) open(dir string, stores int) (o []*chain_db.Store, fl *chain_flusher.Flusher, hs []chain_flusher.Storage, err error) {
	for i := 0; i < stores; i++ {
		st, err := chain_db.NewStore(filepath.Join(dir, fmt.Sprint("s", i)), fmt.Sprint("store", i))
		if err != nil {
			return nil, nil, nil, err
		}
		o = append(o, st)
		hs = append(hs, &hooked{st, x, i})
	}
	fl, err = chain_flusher.NewFlusher(hs, &x.mu, dir)
	return
}

func runC22(c *ctx) {
	root := c.scratch()
	defer os.RemoveAll(root)
	x := &layers{ctx: c, dir: filepath.Join(root, "live"), keys: 2 + c.rnd.Intn(8), cover: map[string]int{}}
	os.MkdirAll(x.dir, 0755)
	n := 1 + c.rnd.Intn(3)
	sts, fl, _, err := x.open(x.dir, n)
	if err != nil {
		c.fail("open", "%v", err)
		return
	}
	x.fl = fl
	accounts := 1 + c.rnd.Intn(4)
	for _, st := range sts {
		x.l = append(x.l, &layer{st: st, conf: map[string]string{}, disk: map[string]string{}, un: make([][]unconf, accounts)})
	}
	defer func() {
		for _, l := range x.l {
			l.st.Close()
		}
		x.fl.Close()
	}()
	steps := c.r.Scale(70, 140)
	for i := 0; i < steps && !x.stop && c.r.NumViolations() <= 8; i++ {
		switch p := c.rnd.Intn(100); {
		case p < 82:
			x.op()
			if c.rnd.Intn(3) == 0 {
				x.check("after an operation")
			}
		case p < 94:
			x.flush()
		default:
			x.reopen(root, i)
		}
	}
	if !x.stop {
		x.check("at the end")
	}
	x.merged()
	c.r.Eval(fmt.Sprint(n, accounts, x.keys, c.log), x.cover["flushes"] > 0 && x.cover["rollbacks"] > 0)
	for k, v := range x.cover {
		c.r.Count(k, int64(v))
	}
}

func (x *layers) val() string {
	x.seq++
	switch x.rnd.Intn(8) {
	case 0:
		return ""
	case 1:
		return string(x.bytes(600))
	}
	return fmt.Sprint("v", x.seq)
}

// writes makes the writes of one batch; del is likely so that layers hide older ones.
func (x *layers) writes(space string) (o []write) {
	for n := 1 + x.rnd.Intn(4); n > 0; n-- {
		k := space + string(rune('a'+x.rnd.Intn(x.keys)))
		if x.rnd.Intn(6) == 0 {
			k += "\xff"
		}
		o = append(o, write{k: k, v: x.val(), del: x.rnd.Intn(3) == 0})
	}
	return
}

func (x *layers) op() {
	// the same operation goes to every store, with other writes, as the chain does
	acc := x.rnd.Intn(len(x.l[0].un))
	switch p := x.rnd.Intn(100); {
	case p < 45:
		h := x.hash()
		x.note("block of %d", acc)
		for _, l := range x.l {
			ws := x.writes(fmt.Sprintf("a%d:", acc))
			if x.rnd.Intn(8) == 0 {
				ws = nil
			}
			l.st.WriteAccountBlock(l.batch(ws), &ledger.AccountBlock{Hash: h})
			l.un[acc] = append(l.un[acc], unconf{h, ws})
		}
		x.cover["blocks"]++
	case p < 62:
		// confirm a prefix of some accounts
		var bs []*ledger.AccountBlock
		take := make([]int, len(x.l[0].un))
		for a := range take {
			take[a] = x.rnd.Intn(len(x.l[0].un[a]) + 1)
			if x.rnd.Intn(3) == 0 {
				take[a] = len(x.l[0].un[a])
			}
			for _, u := range x.l[0].un[a][:take[a]] {
				bs = append(bs, &ledger.AccountBlock{Hash: u.hash})
			}
		}
		x.note("snapshot of %v", take)
		for _, l := range x.l {
			ws := x.writes("s:")
			l.marks = append(l.marks, clone(l.conf))
			if len(l.marks) > 6 {
				l.marks = l.marks[1:]
			}
			for a := range take {
				for _, u := range l.un[a][:take[a]] {
					applyW(l.conf, u.w)
				}
				if take[a] > 0 && take[a] == len(l.un[a]) && x.rnd.Intn(4) == 0 { // what the snapshot writes comes after what its blocks wrote
					ws = append(ws, x.writes(fmt.Sprintf("a%d:", a))...)
				}
				l.un[a] = append([]unconf{}, l.un[a][take[a]:]...)
			}
			applyW(l.conf, ws)
			l.st.WriteSnapshot(l.batch(ws), bs)
		}
		x.cover["snapshots"]++
	case p < 72:
		x.note("direct write")
		for _, l := range x.l {
			ws := x.writes("d:")
			applyW(l.conf, ws)
			l.st.WriteDirectly(l.batch(ws))
		}
	case p < 86:
		n := len(x.l[0].un[acc])
		if n == 0 {
			return
		}
		k := x.rnd.Intn(n)
		x.note("roll back unconfirmed %d to %d of %d", acc, k, n)
		for _, l := range x.l {
			from := l.view()
			var bs []*ledger.AccountBlock
			for _, u := range l.un[acc][k:] {
				bs = append(bs, &ledger.AccountBlock{Hash: u.hash})
			}
			l.un[acc] = append([]unconf{}, l.un[acc][:k]...)
			l.st.RollbackAccountBlocks(l.batch(back(from, l.view())), bs)
		}
		x.cover["rollbacks"]++
	default:
		m := len(x.l[0].marks)
		if m == 0 {
			return
		}
		k := x.rnd.Intn(m)
		x.note("roll back to mark %d of %d", k, m)
		keep := x.rnd.Intn(2) == 0
		for _, l := range x.l {
			from := l.view()
			to := clone(l.marks[k])
			for q := range to { // direct writes stay
				if strings.HasPrefix(q, "d:") {
					delete(to, q)
				}
			}
			for q, v := range l.conf {
				if strings.HasPrefix(q, "d:") {
					to[q] = v
				}
			}
			l.st.RollbackSnapshot(l.batch(back(from, to)))
			l.conf = to
			l.marks = l.marks[:k]
			old := l.un
			l.un = make([][]unconf, len(old))
			if keep { // and the unconfirmed ones are written again
				for a := range old {
					for _, u := range old[a] {
						l.st.WriteAccountBlockByHash(l.batch(u.w), u.hash)
						l.un[a] = append(l.un[a], u)
					}
				}
			}
		}
		x.cover["rollbacks"]++
	}
}

func (x *layers) flush() {
	x.note("flush{")
	x.failRedo = x.rnd.Intn(8) == 0
	x.failCommit = !x.failRedo && x.rnd.Intn(8) == 0
	x.fl.Flush()
	if x.pre != nil {
		os.RemoveAll(*x.pre)
		x.pre = nil
	}
	x.note("}")
	for _, l := range x.l {
		if l.prep == nil {
			x.fail("not-prepared", "a flush did not prepare every store")
			x.stop = true
			return
		}
		if x.failRedo { // cancelled: nothing may have reached the disk
			l.prep = nil
			continue
		}
		l.disk, l.prep = l.prep, nil
	}
	x.cover["flushes"]++
	if x.failRedo {
		x.cover["flushes cancelled"]++
	}
	if x.failCommit {
		x.cover["flushes repaired"]++
	}
	x.failRedo, x.failCommit = false, false
	x.check("after a flush")
}

// between runs in the middle of a flush: writers may go on, and the machine may stop.
func (x *layers) between(at string, committed bool) {
	if x.stop {
		return
	}
	x.note("[%s", at)
	x.check(at)
	if x.rnd.Intn(2) == 0 {
		x.crashHere(at, committed)
	}
	if !committed { // AfterCommit runs with writers locked out
		for n := x.rnd.Intn(5); n > 0; n-- {
			x.op()
			x.cover["operations during a flush"]++
		}
		x.check(at + ", after more writes")
	}
	x.note("]")
}

// crashHere copies the directory, recovers the copy and checks that it holds exactly the last
// committed state, or the prepared one once the commit began.
func (x *layers) crashHere(at string, committed bool) {
	x.crash++
	dir, err := ioutil.TempDir("", "vsim-st")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	copyStable(x.dir, dir)
	log := filepath.Join(dir, "flush.redo.log")
	if st, err := os.Stat(log); err == nil && !committed && st.Size() > 0 {
		os.Truncate(log, x.rnd.Int63n(st.Size()))
	}
	y := &layers{ctx: x.ctx, dir: dir, cover: map[string]int{}, stop: true, keys: x.keys}
	for range x.l {
		y.l = append(y.l, &layer{conf: map[string]string{}, un: make([][]unconf, 1)})
	}
	// some of the store commits may not have happened: the redo log has them all
	if committed && x.pre != nil && !x.failCommit {
		x.cover["crashes between store commits"]++
		for i := range x.l {
			if x.rnd.Intn(2) == 0 {
				p := filepath.Join(dir, fmt.Sprint("s", i))
				os.RemoveAll(p)
				copyStable(filepath.Join(*x.pre, fmt.Sprint("s", i)), p)
			}
		}
	}
	sts, fl, _, err := y.open(dir, len(x.l))
	if err != nil {
		x.fail("reopen", "opening after a crash %s failed: %v", at, err)
		x.stop = true
		return
	}
	defer fl.Close()
	if err := fl.Recover(); err != nil {
		x.fail("recover", "recovering from a crash %s failed: %v", at, err)
		x.stop = true
	}
	for i, st := range sts {
		want := x.l[i].disk
		if committed {
			want = x.l[i].prep
		}
		y.l[i].st = st
		y.l[i].conf = clone(want)
		if !x.stop {
			x.compare(st, want, "after a crash "+at)
		}
		st.Close()
	}
	x.cover["crashes"]++
}

func (x *layers) reopen(root string, i int) {
	x.note("reopen")
	// a copy, so that a closed store cannot be blamed for what a crash would show
	dir := filepath.Join(root, fmt.Sprint("re", i))
	os.MkdirAll(dir, 0755)
	copyStable(x.dir, dir)
	for _, l := range x.l {
		l.st.Close()
	}
	x.fl.Close()
	os.RemoveAll(x.dir)
	x.dir = dir
	sts, fl, _, err := x.open(dir, len(x.l))
	if err == nil {
		err = fl.Recover()
	}
	if err != nil {
		x.fail("reopen", "reopening failed: %v", err)
		x.stop = true
		return
	}
	x.fl = fl
	for i, l := range x.l {
		l.st = sts[i]
		l.conf = clone(l.disk)
		l.un = make([][]unconf, len(l.un))
		l.marks = nil
	}
	x.cover["reopens"]++
	x.check("after reopening")
}

func (x *layers) check(when string) {
	for _, l := range x.l {
		if x.stop {
			return
		}
		x.compare(l.st, l.view(), when)
	}
}

func (x *layers) compare(st *chain_db.Store, want map[string]string, when string) {
	bad := func(key, format string, a ...interface{}) {
		x.fail(key, "%s: %s", when, fmt.Sprintf(format, a...))
		x.stop = true
	}
	// iterators, whole and by range
	iterate := func(r *util.Range, rev bool) map[string]string {
		got := map[string]string{}
		it := st.NewIterator(r)
		defer it.Release()
		prev := ""
		first := true
		ok := false
		if rev {
			ok = it.Last()
		} else {
			ok = it.Next()
		}
		for ok {
			k := string(it.Key())
			if !first && (rev && k >= prev || !rev && k <= prev) {
				bad("iterator-order", "iterator gives %q after %q", k, prev)
				return got
			}
			first, prev = false, k
			got[k] = string(it.Value())
			if rev {
				ok = it.Prev()
			} else {
				ok = it.Next()
			}
		}
		if err := it.Error(); err != nil {
			bad("iterator-error", "%v", err)
		}
		return got
	}
	if d := diff(iterate(nil, false), want); d != "" {
		bad("iterator", "iterating the whole store:%s", d)
		return
	}
	if d := diff(iterate(nil, true), want); d != "" {
		bad("iterator-back", "iterating the whole store backwards:%s", d)
		return
	}
	ks := sortedKeys(want)
	for n := 0; n < 3; n++ {
		a, b := x.key(ks), x.key(ks)
		if a > b {
			a, b = b, a
		}
		sub := map[string]string{}
		for k, v := range want {
			if k >= a && k < b {
				sub[k] = v
			}
		}
		if d := diff(iterate(&util.Range{Start: []byte(a), Limit: []byte(b)}, n == 1), sub); d != "" {
			bad("iterator-range", "iterating [%q,%q):%s", a, b, d)
			return
		}
		it := st.NewIterator(nil)
		i := sort.SearchStrings(ks, a)
		if it.Seek([]byte(a)) != (i < len(ks)) || i < len(ks) && (string(it.Key()) != ks[i] || string(it.Value()) != want[ks[i]]) {
			bad("iterator-seek", "Seek(%q) gives %q", a, it.Key())
		} else if i < len(ks) && x.rnd.Intn(2) == 0 {
			if it.Prev() != (i > 0) || i > 0 && string(it.Key()) != ks[i-1] {
				bad("iterator-seek", "Prev after Seek(%q) gives %q", a, it.Key())
			}
		}
		it.Release()
	}
	// point reads, of present and absent keys
	for n := 0; n < 12; n++ {
		k := x.key(ks)
		v, ok := want[k]
		g, err := st.Get([]byte(k))
		if err != nil || string(g) != v || (ok && v == "") != (ok && len(g) == 0) {
			bad("get", "Get(%q) gives %.30q, %v; should be %.30q (present %v)", k, g, err, v, ok)
			return
		}
		h, err := st.Has([]byte(k))
		if err != nil || h != ok {
			bad("has", "Has(%q) gives %v, %v; present is %v", k, h, err, ok)
			return
		}
		o, err := st.GetOriginal([]byte(k))
		if ok && (err != nil || string(o) != v) || !ok && err != leveldb.ErrNotFound {
			bad("get-original", "GetOriginal(%q) gives %.30q, %v; present is %v", k, o, err, ok)
			return
		}
	}
	x.r.Count("stores compared", 1)
}

func (x *layers) key(ks []string) string {
	if len(ks) > 0 && x.rnd.Intn(3) > 0 {
		return ks[x.rnd.Intn(len(ks))]
	}
	return []string{"a0:", "a1:", "a2:", "d:", "s:", "", "z"}[x.rnd.Intn(7)] + string(rune('a'+x.rnd.Intn(x.keys)))
}

// merged walks the iterator that lays unsaved writes over stored ones.
func (x *layers) merged() {
	mk := func(m map[string]string) interfaces.StorageIterator {
		d := memdb.New(comparer.DefaultComparer, 0)
		for k, v := range m {
			d.Put([]byte(k), []byte(v))
		}
		return d.NewIterator(nil)
	}
	top, low, del := map[string]string{}, map[string]string{}, map[string]bool{}
	for n := x.rnd.Intn(9); n > 0; n-- {
		top["k"+string(rune('a'+x.rnd.Intn(8)))] = fmt.Sprint("t", n)
	}
	for n := x.rnd.Intn(9); n > 0; n-- {
		low["k"+string(rune('a'+x.rnd.Intn(8)))] = fmt.Sprint("l", n)
	}
	want := clone(low)
	for k := range low {
		if _, ok := top[k]; !ok && x.rnd.Intn(4) == 0 {
			del[k] = true
			delete(want, k)
		}
	}
	for k, v := range top {
		want[k] = v
	}
	ks := sortedKeys(want)
	it := db.NewMergedIterator([]interfaces.StorageIterator{mk(top), mk(low)}, func(k []byte) bool { return del[string(k)] })
	defer it.Release()
	at := -1 // position in ks; -1 before the first, len after the last
	trace := ""
	for n := 0; n < 14; n++ {
		var ok bool
		switch p := x.rnd.Intn(10); {
		case p < 5:
			ok = it.Next()
			if at < len(ks) {
				at++
			}
			trace += " next"
		case p < 8:
			ok = it.Prev()
			if at >= 0 {
				at--
			}
			trace += " prev"
		case p < 9:
			ok = it.Last()
			at = len(ks) - 1
			trace += " last"
		default:
			k := "k" + string(rune('a'+x.rnd.Intn(9)))
			ok = it.Seek([]byte(k))
			at = sort.SearchStrings(ks, k)
			trace += " seek " + k
		}
		in := at >= 0 && at < len(ks)
		if ok != in || in && (string(it.Key()) != ks[at] || string(it.Value()) != want[ks[at]]) {
			x.fail("merged-iterator", "over %v and %v without %v:%s gives %v %q=%q, expected position %d of %v", top, low, del, trace, ok, it.Key(), it.Value(), at, ks)
			return
		}
	}
	x.r.Count("merged iterator walks", 1)
}

// storeRace: readers, one writer and the flush loop of the real flusher together. Every value
// is its key's version number, so a reader can tell a lost or reordered write.
func (c *ctx) storeRace() {
	dir := c.scratch()
	defer os.RemoveAll(dir)
	var mu sync.RWMutex
	st, err := chain_db.NewStore(filepath.Join(dir, "s"), "s")
	if err != nil {
		panic(err)
	}
	fl, err := chain_flusher.NewFlusher([]chain_flusher.Storage{st}, &mu, dir)
	if err != nil {
		panic(err)
	}
	const keys = 16
	var low [keys]int64 // versions known to be written
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var reads, flushes int64
	var bad atomic.Value
	for w := 0; w < 3; w++ {
		wg.Add(1)
		rnd := c.r.Rand(fmt.Sprint(c.name, "/", w))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				k := rnd.Intn(keys)
				floor := atomic.LoadInt64(&low[k])
				var got int64
				if rnd.Intn(4) == 0 {
					it := st.NewIterator(util.BytesPrefix([]byte(fmt.Sprintf("k%02d", k))))
					for it.Next() {
						fmt.Sscan(string(it.Value()), &got)
					}
					it.Release()
				} else {
					v, err := st.Get([]byte(fmt.Sprintf("k%02d", k)))
					if err != nil {
						bad.Store(err.Error())
						return
					}
					fmt.Sscan(string(v), &got)
				}
				atomic.AddInt64(&reads, 1)
				if got < floor {
					bad.Store(fmt.Sprintf("key %d read as version %d after version %d had been written", k, got, floor))
					return
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			fl.Flush()
			atomic.AddInt64(&flushes, 1)
		}
	}()
	rnd := c.rnd
	var pend []*ledger.AccountBlock
	for i := int64(1); i < 2500; i++ {
		mu.RLock()
		k := rnd.Intn(keys)
		b := st.NewBatch()
		b.Put([]byte(fmt.Sprintf("k%02d", k)), []byte(fmt.Sprint(i)))
		switch {
		case len(pend) > 6:
			st.WriteSnapshot(st.NewBatch(), pend)
			pend = nil
			st.WriteDirectly(b)
		case rnd.Intn(2) == 0:
			h := c.hash()
			st.WriteAccountBlockByHash(b, h)
			pend = append(pend, &ledger.AccountBlock{Hash: h})
		default:
			st.WriteSnapshot(st.NewBatch(), pend)
			pend = nil
			st.WriteDirectly(b)
		}
		atomic.StoreInt64(&low[k], i)
		mu.RUnlock()
	}
	close(stop)
	wg.Wait()
	fl.Flush()
	if s, ok := bad.Load().(string); ok {
		c.fail("concurrent-read", "%s", s)
	}
	for k := range low {
		v, _ := st.Get([]byte(fmt.Sprintf("k%02d", k)))
		if string(v) != fmt.Sprint(low[k]) && low[k] > 0 {
			c.fail("final", "key %d is %q at the end, should be %d", k, v, low[k])
		}
	}
	c.r.Count("concurrent reads", reads)
	c.r.Count("concurrent flushes", flushes)
	c.r.Eval(c.name, flushes > 3)
	st.Close()
	fl.Close()
}

// copyStable copies a directory as it was at one moment: again if a background compaction
// changed it meanwhile.
func copyStable(from, to string) {
	for {
		a := tree(from)
		os.RemoveAll(to)
		func() {
			defer func() { recover() }()
			copyTree(from, to)
		}()
		if tree(from) == a {
			return
		}
	}
}
