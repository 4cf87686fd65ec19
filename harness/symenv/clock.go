// Package symenv models the environment of the code under test: the clock,
// the key-value store, Raft, HTTP transport and registration, name lookup.
// The same models run under symbolic execution (calls are redirected by the
// //sym:replace annotations) and in native replays (calls are rewritten in a
// copy of the source).
package symenv

import (
	"os"
	"sync"
	"time"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
)

var envMu sync.Mutex

func lock() {
	if !sym.Symbolic() {
		envMu.Lock()
	}
}

func unlock() {
	if !sym.Symbolic() {
		envMu.Unlock()
	}
}

// Clock is the model clock, in seconds since the epoch.
var Clock int64 = 1700000000

// Nano is the part of a second the clock is past Clock.
var Nano int64

// ClockHook, when set, supplies every clock reading (per-caller skew).
var ClockHook func() int64

// FineHook, when set, supplies every clock reading as seconds and nanoseconds.
var FineHook func() (int64, int64)

//sym:replace time.Now
func TimeNow() time.Time {
	if FineHook != nil {
		return time.Unix(FineHook())
	}
	if ClockHook != nil {
		return time.Unix(ClockHook(), 0)
	}
	lock()
	c := Clock
	unlock()
	return time.Unix(c, Nano)
}

//sym:replace time.Since
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

//sym:replace time.Until
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// SleepHook is told about sleeps. A sleep of the harness goroutine advances
// the clock; any other goroutine sleeps until the harness fires the timer.
var SleepHook func(d time.Duration)

//sym:replace time.Sleep
func TimeSleep(d time.Duration) {
	if SleepHook != nil {
		SleepHook(d)
		return
	}
	if !sym.IsMain() {
		<-TimeNewTimer(d).C
		return
	}
	lock()
	Clock += int64(d / time.Second)
	unlock()
	sym.Yield()
}

// MadeDirs are the directories created.
var MadeDirs []string

//sym:replace os.MkdirAll
func OsMkdirAll(path string, perm os.FileMode) error {
	lock()
	defer unlock()
	MadeDirs = append(MadeDirs, path)
	return nil
}

// Tick is a ticker or timer of the code under test.
type Tick struct {
	D       time.Duration
	C       chan time.Time
	Stopped bool
	Timer   bool
	Armed   bool
	Fn      func()
	t       *time.Ticker
	m       *time.Timer
}

var Ticks []*Tick

//sym:replace time.NewTicker
func TimeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	lock()
	defer unlock()
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	Ticks = append(Ticks, &Tick{D: d, C: c, t: t, Armed: true})
	return t
}

//sym:replace time.Tick
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

//sym:replace (*time.Ticker).Stop
func TickerStop(t *time.Ticker) {
	lock()
	defer unlock()
	for _, x := range Ticks {
		if x.t == t {
			x.Stopped = true
		}
	}
}

//sym:replace (*time.Ticker).Reset
func TickerReset(t *time.Ticker, d time.Duration) {
	lock()
	defer unlock()
	for _, x := range Ticks {
		if x.t == t {
			x.D = d
			x.Stopped = false
		}
	}
}

//sym:replace time.NewTimer
func TimeNewTimer(d time.Duration) *time.Timer {
	lock()
	defer unlock()
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	x := &Tick{D: d, C: c, m: t, Timer: true, Armed: true}
	if d <= 0 {
		x.Armed = false
		c <- time.Unix(Clock, 0)
	}
	Ticks = append(Ticks, x)
	return t
}

//sym:replace time.After
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

//sym:replace time.AfterFunc
func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	lock()
	defer unlock()
	t := &time.Timer{}
	Ticks = append(Ticks, &Tick{D: d, m: t, Timer: true, Armed: true, Fn: f})
	return t
}

//sym:replace (*time.Timer).Stop
func TimerStop(t *time.Timer) bool {
	lock()
	defer unlock()
	for _, x := range Ticks {
		if x.m == t {
			was := x.Armed
			x.Armed = false
			// the module's Go version (1.22): an expired timer keeps its value
			return was
		}
	}
	return false
}

//sym:replace (*time.Timer).Reset
func TimerReset(t *time.Timer, d time.Duration) bool {
	lock()
	defer unlock()
	for _, x := range Ticks {
		if x.m == t {
			was := x.Armed
			x.Armed = true
			x.D = d
			return was
		}
	}
	return false
}

// Fire delivers one expiry of x.
func (x *Tick) Fire() {
	lock()
	if x.Stopped || !x.Armed {
		unlock()
		return
	}
	if x.Timer {
		x.Armed = false
	}
	f := x.Fn
	if f == nil && len(x.C) == 0 {
		x.C <- time.Unix(Clock, 0)
	}
	unlock()
	if f != nil {
		go f()
	}
}

// FireTickers fires every live ticker once and lets the goroutines settle.
func FireTickers() {
	sym.RunBackground()
	lock()
	all := append([]*Tick{}, Ticks...)
	unlock()
	for _, x := range all {
		if !x.Timer {
			x.Fire()
		}
	}
	sym.RunBackground()
}

// FireTickersOf fires the tickers with interval d.
func FireTickersOf(d time.Duration) int {
	sym.RunBackground()
	lock()
	all := append([]*Tick{}, Ticks...)
	unlock()
	n := 0
	for _, x := range all {
		if !x.Timer && x.D == d && !x.Stopped {
			x.Fire()
			n++
		}
	}
	sym.RunBackground()
	return n
}

// FireTimers fires every armed timer of duration d.
func FireTimers(d time.Duration) int {
	sym.RunBackground()
	lock()
	all := append([]*Tick{}, Ticks...)
	unlock()
	n := 0
	for _, x := range all {
		if x.Timer && x.Armed && x.D == d {
			x.Fire()
			n++
		}
	}
	sym.RunBackground()
	return n
}

// FireTickersAsync makes the tickers with interval d expire without waiting
// for the goroutines that use them.
func FireTickersAsync(d time.Duration) int {
	lock()
	all := append([]*Tick{}, Ticks...)
	unlock()
	n := 0
	for _, x := range all {
		if !x.Timer && x.D == d && !x.Stopped {
			x.Fire()
			n++
		}
	}
	return n
}
