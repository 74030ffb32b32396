package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
)

// runSelftest runs a sample of every property's scenarios several times, at
// different degrees of parallelism, and compares the traces.
func runSelftest() int {
	n := 24
	if v, err := strconv.Atoi(os.Getenv("VERIF_N")); err == nil {
		n = v
	}
	b, err := prepare(true, true, true)
	if err != nil {
		die("%v", err)
	}
	defer b.cleanup()
	c, err := buildCorpus(newRng(1), 60)
	if err != nil {
		die("%v", err)
	}
	bad := 0
	for _, p := range props {
		if len(os.Args) > 2 && os.Args[2] != p.id {
			continue
		}
		var ref []uint64
		var msgs []string
		for round, width := range []int{1, 4, 16} {
			out := make([]uint64, n*p.k)
			ms := make([]string, n*p.k)
			var wg sync.WaitGroup
			sem := make(chan bool, width)
			for i := 0; i < n; i++ {
				wg.Add(1)
				sem <- true
				go func(i int) {
					defer func() { <-sem; wg.Done() }()
					sc := p.newCase(newRng(caseSeed(7, p.id, i, 0)), c, i)
					sc.Prop, sc.Seed, sc.Run = p.id, 7, i
					rc := &refCache{}
					for j := 0; j < p.k; j++ {
						v := clone(sc)
						if p.vary != nil {
							var ref *refRun
							if v.Lib == nil {
								ref, _ = rc.ref(v, nil)
							}
							p.vary(newRng(caseSeed(7, p.id, i, j+1)), v, ref)
						}
						m, info, err := p.check(v, rc)
						if err != nil {
							m = err.Error()
						} else {
							out[i*p.k+j] = info.hash
						}
						ms[i*p.k+j] = m
					}
				}(i)
			}
			wg.Wait()
			if round == 0 {
				ref, msgs = out, ms
				continue
			}
			diff := 0
			for i := range out {
				if out[i] != ref[i] || ms[i] != msgs[i] {
					diff++
					if diff <= 3 {
						fmt.Printf("%s: case %d variant %d differs (%x %x) %q %q\n", p.id, i/p.k, i%p.k, ref[i], out[i], msgs[i], ms[i])
					}
				}
			}
			bad += diff
		}
		fails := 0
		for _, m := range msgs {
			if m != "" {
				fails++
			}
		}
		fmt.Printf("%s: %d scenarios, three rounds, %d with a violation\n", p.id, n*p.k, fails)
	}
	if bad > 0 {
		fmt.Printf("%d scenarios did not repeat\n", bad)
		return exitBroken
	}
	return exitOK
}
