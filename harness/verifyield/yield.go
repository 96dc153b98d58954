// Package verifyield is added to the build through an overlay.  Instrumented
// builds call Y before every statement; while a schedule is being explored Y
// randomly hands the processor to another goroutine or holds this one up
// long enough for the others to go on.
package verifyield

import (
	"math/rand"
	"runtime"
	"sync/atomic"
	"syscall"
)

var (
	on    atomic.Bool
	state atomic.Uint64
	pct   atomic.Int64
	hold  atomic.Int64
	seen  [1 << 14]atomic.Int32 // how often each place was passed in this schedule
	here  [1 << 14]atomic.Bool  // whether it was in any schedule, and a long stop there is worth trying
	pick  [1 << 14]atomic.Int32 // how often to stop there for a while in this schedule
)

// Start begins exploring one schedule: yields in percent of the statements,
// holds in per mille of them, and long holds at a few places chosen among
// those passed in earlier schedules.
func Start(seed int64, percent, permille, places int) {
	state.Store(uint64(seed)*0x9e3779b97f4a7c15 + 1)
	var known []int
	for i := range here {
		pick[i].Store(0)
		if here[i].Load() {
			known = append(known, i)
		}
	}
	rng := rand.New(rand.NewSource(seed))
	for k := 0; k < places && len(known) > 0; k++ {
		pick[known[rng.Intn(len(known))]].Store(int32(1 + rng.Intn(3)))
	}
	pct.Store(int64(percent))
	hold.Store(int64(permille))
	for i := range seen {
		seen[i].Store(0)
	}
	on.Store(true)
}

// Jitter waits for a moment of real time, up to the given microseconds.
func Jitter(us int) {
	if us > 0 {
		ts := syscall.NsecToTimespec(int64(us) * 1000)
		_ = syscall.Nanosleep(&ts, nil)
	}
}

// Stop ends it.
func Stop() { on.Store(false) }

// Z is a scheduling point at which long stops are tried.
func Z(site int) {
	if !on.Load() {
		return
	}
	here[site&(len(here)-1)].Store(true)
	Y(site)
}

// Y is a scheduling point, the one with number site.
func Y(site int) {
	if !on.Load() {
		return
	}
	x := state.Add(0x9e3779b97f4a7c15)
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if p := &pick[site&(len(pick)-1)]; p.Load() > 0 && p.Add(-1) >= 0 {
		ts := syscall.NsecToTimespec(int64(3_000_000 + (x>>40)%4_000_000))
		_ = syscall.Nanosleep(&ts, nil)
	}
	h := hold.Load()
	if seen[site&(len(seen)-1)].Add(1) > 4 { // loops: hardly
		h /= 50
	}
	if int64((x>>16)%1000) < h {
		// a real pause (also where the clock is a fake one)
		ts := syscall.NsecToTimespec(int64(200_000 + (x>>40)%2_000_000))
		_ = syscall.Nanosleep(&ts, nil)
		return
	}
	if int64(x%100) >= pct.Load() {
		return
	}
	for n := int(x>>32) % 6; n >= 0; n-- {
		runtime.Gosched()
	}
}
