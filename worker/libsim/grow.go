package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	config "github.com/breml/logstash-config"
)

// growT repeats a sequence of calls and measures what the process keeps.
type growT struct {
	Reps  int  `json:"reps"` // calls up to the first measurement; doubled three times
	Go    bool `json:"go,omitempty"`
	Fixed bool `json:"fixed,omitempty"` // the same input every time
	Shift bool `json:"shift,omitempty"` // other places in the input, other numbers in the options
}

type markT struct {
	Reps       int    `json:"reps"`
	Objects    uint64 `json:"objects"`
	Bytes      uint64 `json:"bytes"`
	Goroutines int    `json:"goroutines"`
}

func growMeasure() markT {
	n := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		runtime.GC()
		for j := 0; j < 10; j++ {
			runtime.Gosched()
		}
	}
	// goroutines that are about to end may do so
	for i := 0; i < 40 && n > 1; i++ {
		time.Sleep(5 * time.Millisecond)
		m := runtime.NumGoroutine()
		if i > 4 && m == n {
			break
		}
		n = m
	}
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return markT{Objects: ms.Mallocs - ms.Frees, Bytes: ms.HeapAlloc, Goroutines: n}
}

func growDo(o opT) {
	defer func() { recover() }()
	var r resT
	if o.Op == "file" {
		config.ParseFile(o.Name, options(&o, nil)...)
		return
	}
	do(&o, &r)
}

func grow(g *growT, ops []opT) []markT {
	debug.SetGCPercent(100)
	sync.VerifPool, sync.VerifBlock = nil, nil
	var out []markT
	done := 0
	for k := 0; k < 4; k++ {
		for ; done < g.Reps<<k; done++ {
			for _, o := range ops {
				if !g.Fixed && (o.Op == "parse" || o.Op == "reader") {
					o.Name = fmt.Sprintf("%d-%s", done, o.Name)
					o.Content = fmt.Sprintf("# %d\n", done) + strings.ReplaceAll(o.Content, "QQ", fmt.Sprint(done))
				}
				if g.Shift {
					o.Content = strings.Repeat("\n", done%61) + strings.Repeat(" ", done/61%61) + o.Content
					if o.Max > 0 {
						o.Max += uint64(done)
					}
					if o.FailErr != "" && o.FailErr != "panic" && named[o.FailErr] == nil {
						o.FailErr = fmt.Sprint(o.FailErr, done)
					}
				}
				if !g.Fixed && o.Op == "helpers" {
					o.Content = fmt.Sprintf("%s %d", o.Content, done)
				}
				if g.Go {
					c := make(chan bool)
					go func() {
						growDo(o)
						close(c)
					}()
					<-c
				} else {
					growDo(o)
				}
			}
		}
		m := growMeasure()
		m.Reps = done
		out = append(out, m)
	}
	return out
}
