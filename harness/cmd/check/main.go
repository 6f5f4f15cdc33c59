// Command check runs the monitors of one property against the servers built from the tree under test.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
	"time"
)

var props = map[string]func(*Ctx){}

func main() {
	x := &Ctx{start: time.Now(), distinct: map[string]struct{}{}, events: map[string]int64{}, seenKn: map[string]int{}}
	flag.StringVar(&x.Prop, "prop", "", "property id")
	flag.StringVar(&x.Work, "work", "", "scratch directory")
	flag.StringVar(&x.Bins, "bins", "", "server binaries")
	flag.StringVar(&x.RaceBins, "racebins", "", "server binaries with the race detector")
	flag.StringVar(&x.Verif, "verif", "/verif", "framework directory")
	flag.StringVar(&x.Repo, "repo", "/repo", "tree under test")
	flag.Parse()
	x.Tier = os.Getenv("VERIF_TIER")
	if x.Tier != "thorough" {
		x.Tier = "quick"
	}
	x.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if x.Seed == 0 {
		x.Seed = 1
	}
	f, ok := props[x.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", x.Prop)
		os.Exit(2)
	}
	x.known = loadKnown(filepath.Join(x.Verif, "known-findings.txt"), x.Prop)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		for _, c := range x.clusters {
			c.Close()
		}
		os.Exit(2)
	}()
	x.run(f)
	if len(x.viol) == 0 && x.evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing was evaluated")
		x.finish()
		os.Exit(2)
	}
	os.Exit(x.finish())
}
