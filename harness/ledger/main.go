// Command ledger runs random histories on the complete node core and decides the ledger
// properties on them.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

type runner struct {
	r     *vrep.R
	id    string
	name  string // case id
	d     *sim.Driver
	rnd   *rand.Rand
	bad   bool
	step  int
	ever  map[types.Address]map[string]bool
	early map[types.Address]bool // contracts that received a call before their creation
}

// fail records a violation of the property and ends the case.
func (x *runner) fail(key, format string, a ...interface{}) {
	x.bad = true
	x.r.Violate(x.name, key, "%s\nhistory tail: %s", fmt.Sprintf(format, a...), x.d.Tail(14))
}

var props = map[string]func(*runner){
	"C01": runC01, "C02": runC02, "C03": runC03, "C04": runC04, "C05": runC05, "C06": runC06, "C07": runC07, "C08": runC08, "C11": runC11, "C24": runC24, "C27": runC27, "C35": runC35,
}

var rules = map[string]string{
	"C01": "a history step after which all balances, in-transit sends and supplies were compared; distinct by the resulting ledger state",
	"C02": "a history step after which all chains and unreceived sets were compared, or a rejected hostile receive; distinct by resulting state or attempt",
	"C03": "a rollback whose complete resulting state was compared with the state first reached there; distinct by state",
	"C04": "a crash image reopened and compared with the state an independent node had at that snapshot; distinct by step, snapshot and stores committed",
	"C05": "a stored block whose answers through all query paths were compared; distinct by block and storage layer",
	"C06": "a block accepted by an independent node with identical resulting state, or a forged block refused; distinct by block or forgery",
	"C07": "a read of an earlier snapshot's state compared with what was recorded then; distinct by snapshot and value",
	"C11": "a history step after which every account's quota window was compared with the blocks it holds; distinct by state",
	"C24": "a round's schedule, a producer verification or a production statistic compared with the independent computation; distinct by round, chain and subject",
	"C35": "an answer given to a concurrent reader compared with the answers recorded at the commits around it; distinct by query and whether it changed meanwhile",
	"C27": "a history step after which the calls offered to every contract were compared with the unreceived ones; distinct by the set of offered calls",
	"C08": "a contract call compared with its independently computed effects; distinct by call, outcome and prior storage",
}

// histories per quick run
var quick = map[string]int{"C01": 160, "C02": 140, "C03": 72, "C04": 32, "C05": 110, "C06": 120, "C07": 84, "C08": 300, "C11": 90, "C24": 130, "C27": 120, "C35": 14}

func main() {
	id := os.Args[1]
	r := vrep.Open(id, rules[id])
	n := r.Scale(quick[id], quick[id])
	if id == "C11" {
		initC11()
	}
	workers := 8
	if id == "C35" {
		workers = 1
	}
	vrep.Parallel(n, workers, func(i int) {
		name := fmt.Sprintf("h%d", i)
		if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
			return
		}
		x := &runner{r: r, id: id, name: name, rnd: r.Rand(name)}
		opt := sim.WorldOpt{Label: fmt.Sprintf("%s/%d", name, r.Seed), Users: 3 + x.rnd.Intn(4), SBPs: 1 + x.rnd.Intn(4)}
		if id == "C11" {
			opt.Stake = sim.Units([]int64{700, 3000, 10000, 100000, 1000000}[x.rnd.Intn(5)])
		}
		if id == "C24" {
			optC24(x.rnd, &opt)
		}
		w := sim.NewWorld(opt)
		cfg := config.Chain{VmLogAll: true, OpenPlugins: x.rnd.Intn(3) == 0}
		d, err := sim.NewDriver(w, sim.Scratch(name), rand.New(rand.NewSource(x.rnd.Int63())), cfg)
		if err != nil {
			r.Violate(name, "node-start", "node does not start: %v", err)
			return
		}
		x.d = d
		defer func() {
			if e := recover(); e != nil {
				r.Guard(name, "node-panic", func() { panic(fmt.Sprintf("%v; history tail: %s", e, d.Tail(14))) })
			}
			defer func() { recover() }()
			d.Close()
		}()
		d.OnReject = func(op string, err error) {
			if id == "C06" {
				x.fail("own-block-rejected/"+op, "a block the node produced itself is rejected by its own verification: %v", err)
			}
		}
		props[id](x)
		r.Count("histories", 1)
		keys := make([]string, 0)
		for k := range d.Stats {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if len(k) < 40 {
				r.Count("op."+k, int64(d.Stats[k]))
			}
		}
		r.Sample(map[string]interface{}{"case": name, "tail": d.Tail(6)})
	})
	r.Close()
}

func (x *runner) steps(q, t int, after func(op string)) {
	n := x.r.Scale(q, t)
	for x.step = 0; x.step < n && !x.bad && !x.r.OverBudget(); x.step++ {
		op := x.d.Step()
		if after != nil {
			after(op)
		}
	}
}

func (x *runner) state() string {
	h := x.d.A.Chain.GetLatestSnapshotBlock()
	return fmt.Sprintf("%s/%d/%s", x.name, x.step, h.Hash)
}
