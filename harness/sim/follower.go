package sim

import (
	"fmt"
	"os"

	"github.com/vitelabs/go-vite/v2/common/config"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// Follower is an independent node that receives the history chunk by chunk over the wire.
type Follower struct {
	N    *Node
	w    *World
	cfg  config.Chain
	base string
	dirN int
	Pre  map[uint64]FP // state with the account blocks of snapshot h, before snapshot h
	Post map[uint64]FP // state right after snapshot h
	Opt  FPOpt
	Keep bool // take fingerprints
	At   uint64
	Hook func(h uint64, n *Node) // after every snapshot
}

func NewFollower(w *World, base string, cfg config.Chain) (*Follower, error) {
	f := &Follower{w: w, cfg: cfg, base: base}
	return f, f.Reset()
}

// Reset throws the node away and starts from genesis.
func (f *Follower) Reset() error {
	if f.N != nil {
		f.N.Close()
		os.RemoveAll(f.N.Dir)
	}
	f.dirN++
	dir := fmt.Sprintf("%s/b%d", f.base, f.dirN)
	os.MkdirAll(dir, 0755)
	n, err := f.w.OpenCfg(dir, f.cfg)
	if err != nil {
		return err
	}
	f.N = n
	f.At = 1
	f.Pre, f.Post = map[uint64]FP{}, map[uint64]FP{}
	if f.Keep {
		f.Post[1] = Fingerprint(n, f.Opt)
	}
	if f.Hook != nil {
		f.Hook(1, n)
	}
	return nil
}

// Follow delivers one chunk.
func (f *Follower) Follow(c Chunk) error {
	for _, b := range c.Blocks {
		if err := f.N.Accept(Wire(b)); err != nil {
			return fmt.Errorf("account block %s height %d type %d refused: %w", b.AccountAddress, b.Height, b.BlockType, err)
		}
	}
	h := c.Snap.Height
	if f.Keep {
		f.Pre[h] = Fingerprint(f.N, f.Opt)
	}
	var inv []*ledger.AccountBlock
	inv, err := f.N.AcceptSnapshot(WireSnapshot(c.Snap))
	if err != nil {
		return fmt.Errorf("snapshot block %d refused: %w", h, err)
	}
	if len(inv) > 0 {
		return fmt.Errorf("snapshot block %d dropped %d blocks it confirms", h, len(inv))
	}
	f.At = h
	if f.Keep {
		f.Post[h] = Fingerprint(f.N, f.Opt)
	}
	if f.Hook != nil {
		f.Hook(h, f.N)
	}
	return nil
}

// Sync brings the follower to the confirmed history of s.
func (f *Follower) Sync(s *Shadow) error {
	if f.At > s.Height() {
		if err := f.Reset(); err != nil {
			return err
		}
	}
	for f.At < s.Height() {
		if err := f.Follow(s.Chunks[f.At-1]); err != nil {
			return err
		}
	}
	return nil
}

func (f *Follower) Close() {
	if f.N != nil {
		f.N.Close()
		os.RemoveAll(f.N.Dir)
	}
}
