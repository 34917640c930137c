package ptree

import (
	"reflect"
	"time"
	"unsafe"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
)

// Root presents the stored chain to the tree, as the pool does.
type Root struct{ D *Disk }

func (r *Root) MatchHead(hash types.Hash) bool { return r.D.Head().Id == hash }
func (r *Root) SprintTail() string             { return "stored tail" }
func (r *Root) SprintHead() string             { return r.D.Head().String() }
func (r *Root) UTime() time.Time               { return time.Now() }
func (r *Root) GetKnot(h uint64, flag bool) tree.Knot {
	if b := r.D.At(h); b != nil {
		return b
	}
	return nil
}
func (r *Root) GetHash(h uint64, flag bool) *types.Hash {
	if b := r.D.At(h); b != nil {
		x := b.Id
		return &x
	}
	return nil
}
func (r *Root) GetKnotAndBranch(h uint64) (tree.Knot, tree.Branch)   { return r.GetKnot(h, true), r }
func (r *Root) GetHashAndBranch(h uint64) (*types.Hash, tree.Branch) { return r.GetHash(h, true), r }
func (r *Root) ContainsKnot(h uint64, x types.Hash, flag bool) bool {
	panic("stored chain: not supported")
}
func (r *Root) HeadHH() (uint64, types.Hash) { b := r.D.Head(); return b.H, b.Id }
func (r *Root) TailHH() (uint64, types.Hash) { panic("stored chain: not supported") }
func (r *Root) Linked(root tree.Branch) bool { panic("stored chain: not supported") }
func (r *Root) Size() uint64                 { return r.D.Head().H }
func (r *Root) Root() tree.Branch            { panic("stored chain: not supported") }
func (r *Root) ID() string                   { return "stored" }
func (r *Root) Type() tree.BranchType        { return tree.Disk }

// API acts on a bare tree, placing arriving blocks itself.
type API struct {
	D    *D
	T    tree.Tree
	wait map[types.Hash]*Block
}

func NewAPI(d *D) *API {
	a := &API{D: d, T: tree.NewTree(), wait: map[types.Hash]*Block{}}
	a.T.Init("t", &Root{d.Disk})
	return a
}

func (a *API) Tree() tree.Tree { return a.T }
func (a *API) Arrive(b *Block) { a.wait[b.Id] = b }
func (a *API) Settle() {
	for more := true; more; {
		more = false
		for _, b := range a.D.all {
			if a.wait[b.Id] == nil {
				continue
			}
			if a.T.Exists(b.Id) || a.D.stored(b) {
				delete(a.wait, b.Id)
				continue
			}
			var on tree.Branch
			if br := a.T.FindBranch(b.Prev.H, b.Prev.Id); br != nil {
				on = br
			} else if a.D.stored(b.Prev) {
				on = a.T.Main()
			}
			if on == nil {
				continue
			}
			if h, x := on.HeadHH(); h != b.Prev.H || x != b.Prev.Id {
				on = a.T.ForkBranch(on, b.Prev.H, b.Prev.Id)
			}
			if err := a.T.AddHead(on, b); err != nil {
				a.D.fail("add-head", "adding %v: %v", b, err)
			}
			delete(a.wait, b.Id)
			more = true
		}
	}
}
func (a *API) Insert(b *Block, direct bool) error { return a.T.RootHeadAdd(b) }
func (a *API) Rollback(bs []*Block) error {
	m := a.T.Main()
	for i := len(bs) - 1; i >= 0; i-- {
		if err := a.T.AddTail(m, bs[i]); err != nil {
			return err
		}
	}
	return nil
}
func (a *API) Switch(b tree.Branch) error { return a.T.SwitchMainTo(b) }
func (a *API) Empty() error               { return a.T.SwitchMainToEmpty() }
func (a *API) Prune()                     { a.T.PruneTree() }
func (a *API) Age(b tree.Branch) bool     { return Age(b) }

// Age makes a branch look unused for an hour; false when the branch does not keep its time as expected.
func Age(b tree.Branch) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	v := reflect.ValueOf(b).Elem()
	f := v.FieldByName("utime")
	if !f.IsValid() || f.Type() != reflect.TypeOf(time.Time{}) {
		return false
	}
	p := (*time.Time)(unsafe.Pointer(f.UnsafeAddr()))
	*p = p.Add(-time.Hour)
	return time.Now().Sub(b.UTime()) > 20*time.Minute
}
