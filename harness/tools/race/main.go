// Command race runs the calls of the concurrency check freely; it is built with the race detector.
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"

	"verif/harness/conc"
)

func main() {
	scratch := os.Args[1]
	k, _ := strconv.Atoi(os.Args[2])
	rounds, _ := strconv.Atoi(os.Args[3])
	cf := conc.Confs[k]
	var want []string
	d := cf.Open(scratch)
	for _, c := range cf.Calls {
		want = append(want, c.Do(d))
	}
	d.Close()
	run := func(ids []int) {
		d := cf.Open(scratch)
		defer d.Close()
		for r := 0; r < rounds; r++ {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for _, i := range ids {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					if got := cf.Calls[i].Do(d); got != want[i] {
						fmt.Printf("RESULT %v: %s want %s\n", cf.Calls[i], got, want[i])
						os.Exit(65)
					}
				}(i)
			}
			close(start)
			wg.Wait()
		}
	}
	n := 0
	for i := range cf.Calls {
		for j := i; j < len(cf.Calls); j++ {
			run([]int{i, j})
			n++
		}
	}
	var all []int
	for i := range cf.Calls {
		all = append(all, i, i)
	}
	run(all)
	fmt.Println("OK", n+1)
}
