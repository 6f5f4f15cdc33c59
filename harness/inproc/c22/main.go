// Command c22 compares the tree's encodings and arithmetic with their definitions on generated, extreme and malformed inputs.
package main

import (
	"os"
	"sync"

	. "verifharness/report"
)

var parts []func()

func main() {
	if len(os.Args) > 1 && os.Args[1] == "slots" {
		parts = slotParts
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for _, p := range parts {
		wg.Add(1)
		sem <- struct{}{}
		go func(p func()) {
			defer func() { <-sem; wg.Done() }()
			p()
		}(p)
	}
	wg.Wait()
	Done()
}
