package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/config"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

func diffKey(l []string) string {
	// the kinds of facts that differ
	m := map[string]bool{}
	for _, s := range l {
		k := s[:strings.Index(s, ":")]
		p := strings.Split(k, "/")
		if p[0] == "acc" && len(p) > 2 {
			k = "acc." + p[2]
		} else {
			k = p[0]
		}
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, ",")
}

// runC03: every rollback is compared with the state an independent, chunk-synced node had at
// that point; removed blocks are then sometimes replayed.
func runC03(x *runner) {
	d := x.d
	f, err := sim.NewFollower(d.W, d.NewDir("f"), config.Chain{VmLogAll: true})
	if err != nil {
		x.fail("follower", "%v", err)
		return
	}
	defer f.Close()
	f.Keep = true
	f.Reset()
	sync := func() bool {
		if err := f.Sync(d.S); err != nil {
			x.fail("replay-refused", "replaying the confirmed history on a fresh node: %v", err)
			return false
		}
		return true
	}
	d.Weights["rollback"], d.Weights["rollbackAcc"], d.Weights["restart"], d.Weights["flush"] = 0, 0, 1, 3
	d.WarmUp()
	if !sync() {
		return
	}
	compare := func(what string, want sim.FP) bool {
		got := sim.Fingerprint(d.A, f.Opt)
		if df := sim.Diff(want, got); len(df) > 0 {
			x.fail(what+"/"+diffKey(df), "%s: state differs from the one first reached there: %s", what, sim.Brief(df))
			return false
		}
		if g := d.S.CheckGhosts(d.A); len(g) > 0 {
			x.fail("removed-block-known/"+strings.Fields(g[0])[0], "%s: %s", what, sim.Brief(g))
			return false
		}
		x.r.Count("removed_blocks_asked_for", int64(len(d.S.Ghosts)))
		x.r.Eval(fmt.Sprintf("%s/%s/%v", what, d.A.Chain.GetLatestSnapshotBlock().Hash, len(d.S.Unconf)), true)
		x.r.Count(what, 1)
		x.r.Count("facts_compared", int64(len(want)))
		return true
	}
	x.steps(150, 500, func(op string) {
		if op == "snapshot" || op == "partial" || op == "squeeze" {
			if !sync() {
				return
			}
			// confirmed state only can be compared when nothing is unconfirmed
			if len(d.S.Unconf) == 0 && d.R.Intn(4) == 0 {
				compare("agree", f.Post[d.S.Height()])
			}
			return
		}
		if d.R.Intn(14) != 0 {
			return
		}
		if d.R.Intn(3) == 0 && len(d.S.Unconf) > 1 {
			x.accountRollback(f)
			return
		}
		// snapshot rollback
		h := d.S.Height()
		k := 1 + d.R.Intn(8)
		if d.R.Intn(6) == 0 {
			k = int(h)
		}
		if uint64(k) > h-1 {
			k = int(h - 1)
		}
		if k < 1 {
			return
		}
		if d.R.Intn(3) == 0 {
			d.A.Flush()
		}
		to := h - uint64(k) + 1
		removed := append([]sim.Chunk{}, d.S.Chunks[to-2:]...)
		pre, post := f.Pre[to], f.Post[to-1]
		posts := map[uint64]sim.FP{}
		for i := to; i <= h; i++ {
			posts[i] = f.Post[i]
		}
		if !d.DoRollback(k) {
			x.fail("rollback-refused", "rollback of %d snapshot blocks refused: %s", k, d.Tail(1))
			return
		}
		kept := len(d.S.Unconf) > 0
		want := post
		if kept {
			want = pre
		}
		if !compare("rollback", want) {
			return
		}
		if d.R.Intn(3) == 0 {
			if err := d.DoRestart(true); err != nil {
				x.fail("restart", "reopen after rollback: %v", err)
				return
			}
			kept = false
			if !compare("rollback-restart", post) {
				return
			}
		}
		switch d.R.Intn(3) {
		case 0: // replay everything that was removed
			for i, c := range removed {
				for _, b := range c.Blocks {
					if i == 0 && kept {
						continue
					}
					if err := d.A.Accept(sim.Wire(b)); err != nil {
						x.fail("replay-block-refused", "replaying removed block %s height %d after rollback: %v", b.AccountAddress, b.Height, err)
						return
					}
					d.S.Accept(b)
				}
				inv, err := d.A.AcceptSnapshot(sim.WireSnapshot(c.Snap))
				if err != nil || len(inv) > 0 {
					x.fail("replay-snapshot-refused", "replaying removed snapshot %d after rollback: %v (dropped %d)", c.Snap.Height, err, len(inv))
					return
				}
				d.S.Confirm(c.Snap, nil)
			}
			compare("replay", posts[h])
		default: // go on from here
			if err := f.Reset(); err != nil {
				x.fail("follower", "%v", err)
				return
			}
			sync()
		}
	})
}

// accountRollback removes unconfirmed blocks; the result must equal a node that never saw them.
func (x *runner) accountRollback(f *sim.Follower) {
	d := x.d
	n := len(d.S.Unconf)
	if !d.DoRollbackAcc() {
		x.fail("account-rollback-refused", "removing an unconfirmed block refused: %s", d.Tail(1))
		return
	}
	if len(d.S.Errs) > 0 {
		x.fail("account-rollback-set", "%s", sim.Brief(d.S.Errs))
		return
	}
	g, err := sim.NewFollower(d.W, d.NewDir("g"), config.Chain{VmLogAll: true})
	if err != nil {
		x.fail("follower", "%v", err)
		return
	}
	defer g.Close()
	if err := g.Sync(d.S); err != nil {
		x.fail("replay-refused", "%v", err)
		return
	}
	for _, b := range d.S.Unconf {
		if err := g.N.Accept(sim.Wire(b)); err != nil {
			x.fail("account-rollback-kept-invalid", "block %s %d kept by account rollback is refused by a fresh node: %v", b.AccountAddress, b.Height, err)
			return
		}
	}
	want := sim.Fingerprint(g.N, f.Opt)
	got := sim.Fingerprint(d.A, f.Opt)
	if df := sim.Diff(want, got); len(df) > 0 {
		x.fail("account-rollback/"+diffKey(df), "after removing %d of %d unconfirmed blocks the state differs from a node that never saw them: %s", n-len(d.S.Unconf), n, sim.Brief(df))
		return
	}
	if g := d.S.CheckGhosts(d.A); len(g) > 0 {
		x.fail("removed-block-known/"+strings.Fields(g[0])[0], "account rollback: %s", sim.Brief(g))
		return
	}
	x.r.Count("account-rollback", 1)
	x.r.Eval(fmt.Sprintf("account-rollback/%s/%d", hashesOf(d.S.Unconf), d.S.Height()), true)
}

func hashesOf(l []*ledger.AccountBlock) string {
	s := ""
	for _, b := range l {
		s += b.Hash.String()[:8]
	}
	return s
}
