// Package rt is the scheduler of the simulated threads: every statement of the
// library under test is preceded by a call of Y (or H), and the scheduler
// decides there which thread goes on. One thread runs at a time. The handoff
// leaves no trace in the race detector, so two accesses that only the
// scheduler keeps apart still count as a race.
package rt

import (
	"runtime"
	"time"
	_ "unsafe"
)

const (
	Max    = 8
	recMax = 1 << 16
	never  = ^uint64(0)
)

type Rec struct {
	Step uint64
	To   uint32
}

var (
	on     bool
	n      int
	alive  int
	cur    int
	idle   bool
	ids    [Max]uint64
	sems   [Max]uint32
	done   [Max]bool
	lost   [Max]bool
	step   uint64
	nextAt uint64 = never
	swAt   uint64
	hotOn  bool
	hotN   uint64
	mean   uint64
	limit  uint64
	seed   uint64
	seed2  uint64
	moves  uint64

	explicit bool
	plan     [recMax]Rec
	planN    int
	planI    int
	rec      [recMax]Rec
	recN     int

	watch   func()
	inWatch bool

	lockStep   uint64
	lockStreak uint64

	// Abort ends the process with a verdict.
	Abort func(kind string)
)

//go:linkname semacquire runtime.verif_semacquire
func semacquire(*uint32)

//go:linkname semrelease runtime.verif_semrelease
func semrelease(*uint32)

//go:linkname goid runtime.verif_goid
func goid() uint64

//go:norace
func Y() {
	step++
	if step >= nextAt {
		slow(false)
	}
}

// H is a yield point before a statement that touches package-level state.
//
//go:norace
func H() {
	step++
	if hotOn || step >= nextAt {
		slow(true)
	}
}

//go:norace
func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Rnd is a stream of its own, for decisions other than thread switches.
//
//go:norace
func Rnd() uint64 { return mix(&seed2) }

//go:norace
func gap() uint64 {
	if mean == 0 {
		return never >> 1
	}
	// roughly geometric: uniform on [1, 2 mean], sometimes much shorter
	r := mix(&seed)
	if r&7 == 0 {
		return 1 + (r>>8)%4
	}
	return 1 + (r>>8)%(2*mean)
}

//go:norace
func index(g uint64) int {
	for i := 0; i < n; i++ {
		if ids[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func plan2next() {
	switch {
	case watch != nil:
		nextAt = 0
	case anyLost():
		nextAt = 0
	case explicit:
		nextAt = limit
		if planI < planN && plan[planI].Step < limit {
			nextAt = plan[planI].Step
		}
	default:
		nextAt = swAt
		if limit < nextAt {
			nextAt = limit
		}
	}
}

//go:norace
func anyLost() bool {
	for i := 0; i < n; i++ {
		if lost[i] && !done[i] {
			return true
		}
	}
	return false
}

//go:norace
func slow(hot bool) {
	if !on {
		return
	}
	g := goid()
	if ids[cur] != g || done[cur] {
		i := index(g)
		if i < 0 {
			return // a thread the code under test started itself
		}
		if lost[i] {
			lost[i] = false
			if idle {
				idle = false
				cur = i
				moves++
				plan2next()
				return
			}
			semacquire(&sems[i])
		}
		return
	}
	if watch != nil && !inWatch {
		look()
	}
	if step > limit {
		Abort("stuck")
	}
	if explicit {
		for planI < planN && plan[planI].Step < step {
			planI++
		}
		if planI < planN && plan[planI].Step == step {
			to := int(plan[planI].To)
			planI++
			plan2next()
			turn(to)
			return
		}
		plan2next()
		return
	}
	sw := step >= swAt
	if hot && hotN > 0 && mix(&seed)%hotN == 0 {
		sw = true
	}
	if !sw {
		plan2next()
		return
	}
	swAt = step + gap()
	plan2next()
	k := 0
	for i := 0; i < n; i++ {
		if i != cur && !done[i] && !lost[i] {
			k++
		}
	}
	if k == 0 {
		return
	}
	k = int(mix(&seed) % uint64(k))
	for i := 0; i < n; i++ {
		if i != cur && !done[i] && !lost[i] {
			if k == 0 {
				turn(i)
				return
			}
			k--
		}
	}
}

//go:norace
func turn(to int) {
	if to == cur || to >= n || done[to] || lost[to] {
		return
	}
	if recN < recMax {
		rec[recN] = Rec{step, uint32(to)}
		recN++
	}
	me := cur
	cur = to
	moves++
	semrelease(&sems[to])
	semacquire(&sems[me])
}

//go:norace
func following(i int) int {
	for k := 1; k < n; k++ {
		j := (i + k) % n
		if !done[j] && !lost[j] {
			return j
		}
	}
	return -1
}

// Block is called by a thread that waits for a lock. False: not ours.
//
//go:norace
func Block() bool {
	if !on {
		return false
	}
	if inWatch {
		panic(busy{})
	}
	i := index(goid())
	if i < 0 {
		return false
	}
	if i != cur || done[cur] {
		if lost[i] {
			slow(false)
		}
		runtime.Gosched()
		return true
	}
	if lockStep == step {
		lockStreak++
	} else {
		lockStep, lockStreak = step, 0
	}
	if lockStreak > 8 {
		runtime.Gosched()
	}
	if lockStreak > 20000 {
		Abort("deadlock")
	}
	if to := following(i); to >= 0 {
		cur = to
		moves++
		semrelease(&sems[to])
		semacquire(&sems[i])
	} else if lockStreak <= 8 {
		runtime.Gosched()
	}
	return true
}

type busy struct{}

//go:norace
func look() {
	inWatch = true
	defer unlook()
	watch()
}

//go:norace
func unlook() {
	inWatch = false
	if r := recover(); r != nil {
		if _, ok := r.(busy); !ok {
			panic(r)
		}
	}
}

type Config struct {
	Threads  int
	Seed     uint64
	Mean     uint64
	HotN     uint64
	Limit    uint64
	Explicit bool
	Plan     []Rec
	Watch    func()
}

//go:norace
func Start(c Config) {
	n, alive, cur = c.Threads, c.Threads, 0
	seed, seed2 = c.Seed, ^c.Seed
	mean, hotN, limit = c.Mean, c.HotN, c.Limit
	explicit = c.Explicit
	for i := 0; i < len(c.Plan) && i < recMax; i++ {
		plan[i] = c.Plan[i]
		planN++
	}
	watch = c.Watch
	hotOn = !explicit && hotN > 0
	step = 0
	swAt = gap()
	on = true
	plan2next()
}

// Enter is the first thing a thread does.
//
//go:norace
func Enter(i int) {
	ids[i] = goid()
	semacquire(&sems[i])
}

// Others: all other threads have come to their end.
//
//go:norace
func Others() bool { return !on || alive <= 1 }

// Leave is the last thing a thread does.
//
//go:norace
func Leave(i int) {
	done[i] = true
	lost[i] = false
	alive--
	moves++
	if cur != i {
		return
	}
	if to := following(i); to >= 0 {
		cur = to
		semrelease(&sems[to])
	} else if alive > 0 {
		idle = true
	}
}

// Wait runs on the main goroutine: it starts thread 0 and looks after threads
// that block on something the scheduler does not know.
//
//go:norace
func Wait(first int) {
	cur = first
	for {
		all := true
		for i := 0; i < n; i++ {
			if ids[i] == 0 {
				all = false
			}
		}
		if all {
			break
		}
		runtime.Gosched()
	}
	semrelease(&sems[cur])
	rounds, sleeps, idleFor := 0, 0, 0
	last := never
	for alive > 0 {
		runtime.Gosched()
		if p := step + moves<<32; p != last {
			last, rounds, sleeps, idleFor = p, 0, 0, 0
			continue
		}
		rounds++
		if rounds < 200 {
			continue
		}
		rounds = 0
		time.Sleep(200 * time.Microsecond)
		if sleeps++; sleeps < 5 {
			continue
		}
		sleeps = 0
		if !idle && !done[cur] {
			lost[cur] = true
			plan2next()
			if to := following(cur); to >= 0 {
				cur = to
				moves++
				semrelease(&sems[to])
			} else {
				idle = true
			}
			continue
		}
		if idleFor++; idleFor > 3000 {
			Abort("deadlock")
		}
	}
	on, hotOn, nextAt = false, false, never
}

//go:norace
func Steps() uint64 { return step }

//go:norace
func Switches() []Rec {
	out := make([]Rec, recN)
	for i := range out {
		out[i] = rec[i]
	}
	return out
}
