package main

import (
	"fmt"
	"os"
	"time"

	"verifharness/cluster"
)

// K is the scenario a demonstration runs in.
type K struct{ *cluster.Cluster }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// fail ends the demonstration: the property is broken.
func fail(f string, a ...any) { panic(fmt.Errorf("BROKEN: "+f, a...)) }

func (k *K) start() { must(k.StartAll(60 * time.Second)) }

func (k *K) bucket(a API, b Bucket) {
	if r := a.CreateBucket(b); r.Err != nil || r.Code != 201 {
		fail("bucket: %s", r)
	}
}

func main() {
	c, err := cluster.New(os.Args[1]+"/c", os.Args[2])
	must(err)
	rc := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println(r)
				rc = 1
			}
		}()
		demo(&K{c})
		fmt.Println("the property holds")
	}()
	c.Close()
	os.Exit(rc)
}
