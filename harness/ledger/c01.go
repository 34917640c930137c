package main

import (
	"strings"

	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// key reduces a finding text to what is stable about it.
func kind(l []string) string {
	if len(l) == 0 {
		return ""
	}
	f := strings.Fields(l[0])
	var out []string
	for _, w := range f {
		if strings.ContainsAny(w, "0123456789") {
			continue
		}
		out = append(out, w)
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "-")
}

func runC01(x *runner) {
	d := x.d
	d.Weights["rollback"], d.Weights["rollbackAcc"] = 2, 3
	check := func(op string) {
		if p := d.S.CheckBalances(d.A); len(p) > 0 {
			x.fail("balance/"+kind(p), "after %s: %s", op, sim.Brief(p))
			return
		}
		for _, e := range d.S.Errs {
			if strings.Contains(e, "balance") {
				x.fail("negative", "after %s: %s", op, e)
			}
		}
		x.r.Eval(x.state(), true)
	}
	d.WarmUp()
	check("warmup")
	if d.R.Intn(16) == 0 {
		d.DeepChain()
		check("deep chain")
	}
	x.steps(260, 900, check)
	x.r.Count("tokens_followed", int64(len(d.S.Supply)))
}
