// Package ptree drives a tree of blocks the way the pool does - blocks arriving in any order along
// competing forks, insertion into the stored chain, rollbacks, switches of the main branch and
// pruning - and compares the tree with the blocks it was given after every step.
package ptree

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

// Block is one block of the generated universe.
type Block struct {
	H    uint64
	Id   types.Hash
	Prev *Block
	N    int
}

func (b *Block) Height() uint64   { return b.H }
func (b *Block) Hash() types.Hash { return b.Id }
func (b *Block) PrevHash() types.Hash {
	if b.Prev == nil {
		return types.Hash{}
	}
	return b.Prev.Id
}
func (b *Block) String() string { return fmt.Sprintf("%d@%d", b.N, b.H) }

// Disk is the stored chain: Chain[h] is the block at height h.
type Disk struct{ Chain []*Block }

func (d *Disk) Head() *Block { return d.Chain[len(d.Chain)-1] }
func (d *Disk) At(h uint64) *Block {
	if h < uint64(len(d.Chain)) {
		return d.Chain[h]
	}
	return nil
}

// Pool is what the driver acts on.
type Pool interface {
	Tree() tree.Tree
	Arrive(b *Block)
	Settle()
	Insert(b *Block, direct bool) error // the driver has stored b already
	Rollback(bs []*Block) error         // lowest first; the driver has removed them already
	Switch(b tree.Branch) error
	Empty() error
	Prune()
	Age(b tree.Branch) bool
}

type D struct {
	R    *vrep.R
	Rnd  *rand.Rand
	Name string
	Disk *Disk
	P    Pool

	all   []*Block
	by    map[types.Hash]*Block
	given map[types.Hash]bool // arrived and not given up by pruning
	log   []string
	bad   bool
}

func New(r *vrep.R, rnd *rand.Rand, name string) *D {
	d := &D{R: r, Rnd: rnd, Name: name, by: map[types.Hash]*Block{}, given: map[types.Hash]bool{}}
	g := &Block{}
	d.by[g.Id] = g
	d.all = []*Block{g}
	d.Disk = &Disk{Chain: []*Block{g}}
	for i := rnd.Intn(5); i > 0; i-- {
		d.Disk.Chain = append(d.Disk.Chain, d.block(d.Disk.Head()))
	}
	return d
}

func (d *D) block(p *Block) *Block {
	b := &Block{H: p.H + 1, Prev: p, N: len(d.all)}
	var k [16]byte
	binary.BigEndian.PutUint64(k[:], uint64(b.N))
	binary.BigEndian.PutUint64(k[8:], d.Rnd.Uint64())
	b.Id = types.DataHash(append(k[:], p.Id.Bytes()...))
	d.all = append(d.all, b)
	d.by[b.Id] = b
	return b
}

func (d *D) fail(key, f string, a ...interface{}) {
	d.bad = true
	l := d.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	d.R.Violate(d.Name, key, "%s\nlast operations: %v\ntree: %s", fmt.Sprintf(f, a...), l, d.show())
}

func (d *D) note(f string, a ...interface{}) { d.log = append(d.log, fmt.Sprintf(f, a...)) }

func (d *D) show() string {
	var o []string
	defer func() { recover() }()
	for _, b := range d.branches() {
		o = append(o, fmt.Sprintf("%s<-%s (%s..%s]", b.Root().ID(), b.ID(), d.name(b.TailHH()), d.name(b.HeadHH())))
	}
	return fmt.Sprintf("stored head %v, main %s, %s", d.Disk.Head(), d.P.Tree().Main().ID(), strings.Join(o, " "))
}
func (d *D) name(h uint64, x types.Hash) string {
	if b := d.by[x]; b != nil {
		return fmt.Sprintf("%v", b)
	}
	return fmt.Sprintf("?@%d", h)
}

func (d *D) branches() []tree.Branch {
	var o []tree.Branch
	for _, b := range d.P.Tree().Branches() {
		o = append(o, b)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].ID() < o[j].ID() })
	return o
}

// Path is the chain a block ends, by height.
func (d *D) ancestor(b *Block, h uint64) *Block {
	for b != nil && b.H > h {
		b = b.Prev
	}
	return b
}

func (d *D) stored(b *Block) bool { return d.Disk.At(b.H) == b }

// held is the set of blocks the branches own, by walking them.
func (d *D) held() map[types.Hash]string {
	o := map[types.Hash]string{}
	for _, b := range d.branches() {
		t, _ := b.TailHH()
		h, _ := b.HeadHH()
		for i := t + 1; i <= h; i++ {
			if k := b.GetKnot(i, false); k != nil {
				o[k.Hash()] += b.ID() + " "
			}
		}
	}
	return o
}

// Check compares the tree with what it must be.
func (d *D) Check(op string) {
	t := d.P.Tree()
	main := t.Main()
	bs := d.branches()
	ids := map[string]tree.Branch{}
	for _, b := range bs {
		ids[b.ID()] = b
	}
	if ids[main.ID()] == nil {
		d.fail("main-not-in-tree", "after %s: main branch %s is not among the branches", op, main.ID())
		return
	}
	mt, mh := main.TailHH()
	if mt != d.Disk.Head().H || mh != d.Disk.Head().Id {
		d.fail("main-not-on-stored-head", "after %s: the main branch starts at %s, the stored head is %v", op, d.name(mt, mh), d.Disk.Head())
		return
	}
	if main.Root().Type() != tree.Disk {
		d.fail("main-not-on-stored-chain", "after %s: the main branch is rooted in %s", op, main.Root().ID())
		return
	}
	owner := map[types.Hash]string{}
	n := 0
	for _, b := range bs {
		// rooted in its parent, down to the stored chain
		seen := map[string]bool{}
		for x := b; x.Type() != tree.Disk; x = x.Root() {
			if seen[x.ID()] {
				d.fail("branch-ring", "after %s: branch %s is its own ancestor", op, b.ID())
				return
			}
			seen[x.ID()] = true
			if ids[x.ID()] != x {
				d.fail("parent-not-in-tree", "after %s: branch %s hangs on branch %s, which is not in the tree", op, b.ID(), x.ID())
				return
			}
			if x.Root().Type() == tree.Disk && x.ID() != main.ID() {
				d.fail("side-branch-on-stored-chain", "after %s: branch %s is rooted in the stored chain and is not the main branch", op, x.ID())
				return
			}
		}
		th, tx := b.TailHH()
		hh, hx := b.HeadHH()
		if hh < th || b.Size() != hh-th {
			d.fail("branch-size", "after %s: branch %s is (%d..%d] with size %d", op, b.ID(), th, hh, b.Size())
			return
		}
		head := d.by[hx]
		if head == nil || head.H != hh {
			d.fail("branch-head-unknown", "after %s: branch %s ends in an unknown block at height %d", op, b.ID(), hh)
			return
		}
		// own blocks form a chain, nothing outside
		prev := tx
		for i := th + 1; i <= hh; i++ {
			k := b.GetKnot(i, false)
			if k == nil || k.Height() != i || k.PrevHash() != prev {
				d.fail("branch-not-contiguous", "after %s: branch %s has no block at height %d that follows %s", op, b.ID(), i, d.name(i-1, prev))
				return
			}
			prev = k.Hash()
			if o := owner[prev]; o != "" {
				d.fail("block-on-two-branches", "after %s: block %v is on branch %s and on branch %s", op, d.by[prev], o, b.ID())
				return
			}
			owner[prev] = b.ID()
			n++
			if !t.Exists(prev) {
				d.fail("held-block-not-known", "after %s: block %v is on branch %s, but the tree denies having it", op, d.by[prev], b.ID())
				return
			}
		}
		if prev != hx {
			d.fail("branch-head-wrong", "after %s: branch %s ends in %s, its last block is %s", op, b.ID(), d.name(hh, hx), d.name(hh, prev))
			return
		}
		// the whole chain below the head can be read through the branch
		for i := uint64(0); i <= hh+1; i++ {
			var w *Block
			if i <= hh {
				w = d.ancestor(head, i)
			}
			k := b.GetKnot(i, true)
			x := b.GetHash(i, true)
			x2, br := b.GetHashAndBranch(i)
			if (w == nil) != (k == nil) || w != nil && k.Hash() != w.Id {
				d.fail("branch-path", "after %s: branch %s ending in %v has %v at height %d, it must be %v", op, b.ID(), head, k, i, w)
				return
			}
			if (w == nil) != (x == nil) || (w == nil) != (x2 == nil) || w != nil && (*x != w.Id || *x2 != w.Id) {
				d.fail("branch-path-hash", "after %s: branch %s ending in %v has another hash at height %d than %v", op, b.ID(), head, i, w)
				return
			}
			if w != nil && br.Type() != tree.Disk && (br.GetKnot(i, false) == nil || br.GetKnot(i, false).Hash() != w.Id) {
				d.fail("branch-path-owner", "after %s: branch %s says height %d belongs to branch %s, which does not hold it", op, b.ID(), i, br.ID())
				return
			}
		}
		if b.ID() != main.ID() && th < hh && !b.Root().ContainsKnot(th, tx, true) {
			d.fail("branch-not-rooted", "after %s: branch %s starts after %s, which its parent %s does not contain", op, b.ID(), d.name(th, tx), b.Root().ID())
			return
		}
	}
	for _, b := range d.all {
		w := owner[b.Id] != ""
		if t.Exists(b.Id) != w {
			d.fail("known-block-not-held", "after %s: the tree claims to have block %v, which is on no branch", op, b)
			return
		}
		fb := t.FindBranch(b.H, b.Id)
		if (fb != nil) != w && !(fb != nil && d.stored(b)) {
			d.fail("find-branch", "after %s: looking for block %v finds %v, it is held by %q", op, b, fb, owner[b.Id])
			return
		}
	}
	if t.Size() != uint64(n) {
		d.fail("tree-size", "after %s: the tree says it has %d blocks, its branches hold %d", op, t.Size(), n)
		return
	}
	if err := tree.CheckTree(t); err != nil {
		d.fail("check-tree", "after %s: the node's own check fails (it would stop the node): %v", op, err)
		return
	}
	d.R.Max("branches", int64(len(bs)))
	d.R.Max("blocks in the tree", int64(n))
	d.R.Count("branch paths checked", int64(len(bs)))
}

// settled checks that every arrived block whose chain is complete is held.
func (d *D) settled(op string) {
	h := d.held()
	for _, b := range d.all {
		if b.Prev == nil || !d.given[b.Id] || d.stored(b) || h[b.Id] != "" {
			continue
		}
		if d.stored(b.Prev) || h[b.Prev.Id] != "" {
			d.fail("arrived-block-not-placed", "after %s: block %v arrived and its predecessor is there, but it is on no branch", op, b)
			return
		}
	}
}

func (d *D) pickParent() *Block {
	bs := d.branches()
	switch d.Rnd.Intn(8) {
	case 0, 1, 2: // extend a branch
		_, x := bs[d.Rnd.Intn(len(bs))].HeadHH()
		return d.by[x]
	case 3: // fork inside a branch
		b := bs[d.Rnd.Intn(len(bs))]
		t, tx := b.TailHH()
		if b.Size() > 0 {
			return d.by[b.GetKnot(t+1+uint64(d.Rnd.Intn(int(b.Size()))), false).Hash()]
		}
		return d.by[tx]
	case 4: // fork near the stored head
		k := d.Rnd.Intn(3)
		if k >= len(d.Disk.Chain) {
			k = len(d.Disk.Chain) - 1
		}
		return d.Disk.Chain[len(d.Disk.Chain)-1-k]
	case 5: // anywhere recent
		k := len(d.all) - 1 - d.Rnd.Intn(len(d.all))
		if d.all[k].H+12 < d.Disk.Head().H {
			return d.Disk.Head()
		}
		return d.all[k]
	default:
		return d.all[len(d.all)-1]
	}
}

// Step does one random operation.
func (d *D) Step() {
	t := d.P.Tree()
	op := ""
	before := d.held()
	lostOK := map[types.Hash]bool{}
	switched := -1
	var path *Block
	shape := func() string {
		return fmt.Sprintf("%d/%d", len(t.Branches()), t.Main().Size())
	}
	s0 := shape()
	settle := false
	switch k := d.Rnd.Intn(20); {
	case k < 8: // blocks arrive in any order
		op = "arrival"
		var bs []*Block
		p := d.pickParent()
		for i := 1 + d.Rnd.Intn(4); i > 0; i-- {
			p = d.block(p)
			if d.Rnd.Intn(8) > 0 {
				bs = append(bs, p)
			}
			if d.Rnd.Intn(5) == 0 {
				p = p.Prev
			}
		}
		for _, b := range d.all { // some that were held back, some again
			if !d.given[b.Id] && b.Prev != nil && d.Rnd.Intn(4) == 0 || d.Rnd.Intn(60) == 0 && b.Prev != nil {
				bs = append(bs, b)
			}
		}
		d.Rnd.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
		for _, b := range bs {
			d.note("arrive %v<-%v", b, b.Prev)
			d.given[b.Id] = true
			d.P.Arrive(b)
		}
		if d.Rnd.Intn(4) > 0 {
			d.P.Settle()
			settle = true
		}
	case k < 12: // the next block of the main branch is stored
		op = "insert"
		main := t.Main()
		for i := 1 + d.Rnd.Intn(3); i > 0 && t.Main().Size() > 0; i-- {
			h, _ := t.Main().TailHH()
			b := d.by[t.Main().GetKnot(h+1, false).Hash()]
			d.note("insert %v", b)
			d.Disk.Chain = append(d.Disk.Chain, b)
			if err := d.P.Insert(b, false); err != nil {
				d.fail("insert-refused", "block %v of the main branch was stored, the tree says: %v", b, err)
				return
			}
		}
		_ = main
	case k < 14: // a block is stored directly: own block, or one of another fork
		op = "direct insert"
		hd := d.Disk.Head()
		var b *Block
		if d.Rnd.Intn(3) > 0 {
			for _, x := range d.all {
				if x.Prev == hd && (b == nil || d.Rnd.Intn(2) == 0) {
					b = x
				}
			}
		}
		if b == nil {
			b = d.block(hd)
		}
		d.note("direct %v", b)
		d.Disk.Chain = append(d.Disk.Chain, b)
		if err := d.P.Insert(b, true); err != nil {
			d.fail("direct-insert-refused", "block %v was stored directly, the tree says: %v", b, err)
			return
		}
	case k < 15: // rollback
		op = "rollback"
		n := d.Rnd.Intn(4)
		if n >= len(d.Disk.Chain) {
			n = len(d.Disk.Chain) - 1
		}
		if !d.rollback(n) {
			return
		}
	case k < 18: // switch to another branch, rolling the stored chain back when needed
		op = "switch"
		bs := d.branches()
		b := bs[d.Rnd.Intn(len(bs))]
		if b.ID() == t.Main().ID() {
			break
		}
		_, x := b.HeadHH()
		path = d.by[x]
		if _, mx := t.Main().HeadHH(); d.ancestor(d.by[mx], path.H) == path {
			// nothing on it that is not chosen already; the pool switches only to a brother then
			brother := false
			for _, o := range t.Brothers(t.Main()) {
				brother = brother || o.ID() == b.ID()
			}
			if !brother {
				break
			}
		}
		d.note("switch to %s (%v)", b.ID(), path)
		kp, fp, err := t.FindForkPointFromMain(b)
		if err != nil {
			d.fail("fork-point-error", "fork point of branch %s (%v): %v", b.ID(), path, err)
			return
		}
		_, mx := t.Main().HeadHH()
		m := d.by[mx]
		want := path
		for want != m {
			if want.H >= m.H {
				want = want.Prev
			} else {
				m = m.Prev
			}
		}
		if fp == nil || fp.Hash() != want.Id {
			d.fail("fork-point-wrong", "fork point of branch %s (%v) is %v, it must be %v", b.ID(), path, fp, want)
			return
		}
		if kp != nil && kp.PrevHash() != want.Id {
			d.fail("key-point-wrong", "the block after the fork point of branch %s (%v) is %v, it must follow %v", b.ID(), path, kp, want)
			return
		}
		if want.H < d.Disk.Head().H {
			if !d.rollback(int(d.Disk.Head().H - want.H)) {
				return
			}
		}
		// the branch may have been wholly stored; then it is still a branch to switch to
		if err := d.P.Switch(b); err != nil {
			d.fail("switch-refused", "switching to branch %s (%v): %v", b.ID(), path, err)
			return
		}
		switched = 1
	case k < 19:
		op = "switch to empty"
		d.note("switch to empty")
		if err := d.P.Empty(); err != nil {
			d.fail("switch-to-empty-refused", "switching to an empty main branch: %v", err)
			return
		}
		switched = 1
		path = d.Disk.Head()
	default:
		op = "prune"
		for _, b := range d.branches() {
			if d.Rnd.Intn(4) == 0 && b.ID() != t.Main().ID() {
				d.P.Age(b)
			}
			if b.ID() != t.Main().ID() && time.Now().Sub(b.UTime()) > 19*time.Minute {
				h, _ := b.HeadHH()
				for i, _ := b.TailHH(); i < h; i++ {
					lostOK[b.GetKnot(i+1, false).Hash()] = true
				}
			}
		}
		d.note("prune, aged %d", len(lostOK))
		d.P.Prune()
	}
	d.Check(op)
	if d.bad {
		return
	}
	if switched > 0 {
		_, hx := t.Main().HeadHH()
		if hx != path.Id {
			d.fail("switch-lost-blocks", "after %s: the chosen branch ended in %v, the main branch ends in %s", op, path, d.name(t.Main().HeadHH()))
			return
		}
	}
	if op == "prune" {
		for x := range lostOK {
			if !d.P.Tree().Exists(x) {
				d.given[x] = false
			}
		}
		// what hung only on nothing is gone as well: an arrived block above a forgotten one may arrive again
	}
	after := d.held()
	for x := range before {
		b := d.by[x]
		if after[x] == "" && !d.stored(b) && !lostOK[x] {
			d.fail("block-lost", "after %s: block %v was in the tree and is now neither in it nor stored", op, b)
			return
		}
	}
	if settle {
		d.settled(op)
	}
	d.R.Count(op, 1)
	d.R.Eval(fmt.Sprintf("%s:%s>%s", op, s0, shape()), len(t.Branches()) > 1)
}

func (d *D) rollback(n int) bool {
	if n == 0 {
		return true
	}
	k := len(d.Disk.Chain) - n
	bs := append([]*Block{}, d.Disk.Chain[k:]...)
	d.Disk.Chain = d.Disk.Chain[:k]
	d.note("rollback to %v", d.Disk.Head())
	if err := d.P.Rollback(bs); err != nil {
		d.fail("rollback-refused", "rolling back to %v: %v", d.Disk.Head(), err)
		return false
	}
	for _, b := range bs {
		d.given[b.Id] = true
	}
	return true
}

// Run does n steps.
func (d *D) Run(n int) {
	d.R.Guard(d.Name, "panic", func() {
		defer func() {
			if e := recover(); e != nil {
				d.fail("panic:"+first(fmt.Sprint(e)), "panic: %v", e)
				panic(fmt.Sprintf("%v; last operations: %v", e, d.log[max(0, len(d.log)-20):]))
			}
		}()
		for i := 0; i < n && !d.bad; i++ {
			d.Step()
		}
	})
}

func first(s string) string {
	o := ""
	for _, c := range s {
		if c >= '0' && c <= '9' || c == '[' || c == '-' {
			break
		}
		o += string(c)
	}
	return strings.TrimSpace(o)
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
