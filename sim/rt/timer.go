package simrt

import "time"

// Timer and Ticker stand in for those of package time: each arming is a
// goroutine that sleeps on the simulated clock.
type Timer struct {
	C      *Chan[time.Time]
	f      func()
	gen    int
	active bool
	every  time.Duration
}

func (t *Timer) arm(d time.Duration) {
	t.gen++
	g := t.gen
	t.active = true
	Go(func() {
		for {
			sleep(d, func() bool { return t.gen != g })
			if Aborting() || t.gen != g || !t.active {
				return
			}
			if t.every == 0 {
				t.active = false
			}
			if t.f != nil {
				t.f()
			} else if len(t.C.buf) == 0 {
				t.C.Send(Now(), 0)
			}
			if t.every == 0 {
				return
			}
			d = t.every
		}
	})
}

// Stop reports whether it was in time.
func (t *Timer) Stop() bool {
	YI(0)
	was := t.active
	t.gen++
	t.active = false
	return was
}

// Reset arms the timer anew.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: MakeChan[time.Time](1)}
	t.arm(d)
	return t
}

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C *Chan[time.Time]
	t *Timer
}

// NewTicker stands in for time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Timer{C: MakeChan[time.Time](1), every: d}
	t.arm(d)
	return &Ticker{C: t.C, t: t}
}

// Stop ends the ticks.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset changes the interval.
func (t *Ticker) Reset(d time.Duration) {
	t.t.Stop()
	t.t.every = d
	t.t.arm(d)
}

// Tick stands in for time.Tick.
func Tick(d time.Duration) *Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
