// Command pooltree decides the properties of the pool's block tree (C25) and of batched
// insertion (C26).
package main

import (
	"fmt"
	"os"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zverif/ptree"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	switch os.Args[1] {
	case "C25":
		c25()
	case "C26":
		c26(false)
	case "C26race":
		c26(true)
	}
}

func c25() {
	r := vrep.Open("C25", "one operation on the tree (arrival, insertion, direct insertion, rollback, switch, prune) with every branch walked afterwards; distinct by operation and number of branches and length of the main branch before and after, non-trivial with several branches")
	vrep.Parallel(r.Scale(6000, 40000), 8, func(i int) {
		name := fmt.Sprintf("t%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		d := ptree.New(r, r.Rand(name), name)
		d.P = ptree.NewAPI(d)
		d.Run(20 + i%60)
		r.Count("histories", 1)
	})
	r.Close()
}
