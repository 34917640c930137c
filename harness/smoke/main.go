package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

func main() {
	w := sim.NewWorld(sim.WorldOpt{Label: "smoke", Users: 5})
	dir := sim.Scratch("smoke")
	defer os.RemoveAll(dir)
	t0 := time.Now()
	n, err := w.Open(filepath.Join(dir, "a"))
	if err != nil {
		panic(err)
	}
	fmt.Println("open", time.Since(t0))
	t0 = time.Now()
	for i := 0; i < 100; i++ {
		b, err := n.Send(w.Users[i%5], w.Users[(i+1)%5].Addr, sim.Vite, big.NewInt(int64(i)), nil)
		if err != nil {
			panic(err)
		}
		if _, err = n.Receive(w.Users[(i+1)%5], b.Hash); err != nil {
			panic(err)
		}
		if i%5 == 4 {
			_, inv, err := n.Snapshot(i%3, -1)
			if err != nil {
				panic(err)
			}
			if len(inv) > 0 {
				fmt.Println("invalid", len(inv))
			}
		}
		if i%40 == 39 {
			n.Flush()
		}
	}
	fmt.Println("100 rounds", time.Since(t0))
	t0 = time.Now()
	n, err = n.Restart(filepath.Join(dir, "b"), true)
	if err != nil {
		panic(err)
	}
	fmt.Println("restart", time.Since(t0), n.Chain.GetLatestSnapshotBlock().Height)
	n.Close()
}
