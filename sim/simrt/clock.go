package simrt

import (
	"context"
	"time"
)

// The clock of the code under test: cmd/mkoverlay makes its uses of package
// time (and of context's deadlines) come here. Inside a simulation time is
// virtual; outside everything is as in package time.

var current *Sim

func inside() *Sim {
	if Self() != 0 {
		return current
	}
	return nil
}

func (s *Sim) time() time.Time { return time.Unix(1_700_000_000, s.now) }

func TimeNow() time.Time {
	if s := inside(); s != nil {
		return s.time()
	}
	return time.Now()
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	if s := inside(); s != nil {
		s.Sleep(int64(d))
		return
	}
	time.Sleep(d)
}

// TimeTimer is time.Timer.
type TimeTimer struct {
	C    <-chan time.Time
	real *time.Timer
	c    chan time.Time
	f    func()
	s    *Sim
	gen  int // which setting is the current one
	on   bool
}

func (t *TimeTimer) set(d time.Duration) {
	t.gen++
	t.on = true
	g := t.gen
	t.s.After(int64(d), func() {
		if !t.on || t.gen != g {
			return
		}
		t.on = false
		if t.f != nil {
			go t.f()
			return
		}
		select {
		case t.c <- t.s.time():
		default:
		}
	})
}

func (t *TimeTimer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	was := t.on
	t.on = false
	t.drain()
	return was
}

func (t *TimeTimer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	t.set(d)
	return was
}

func (t *TimeTimer) drain() { // no stale value after Stop or Reset
	select {
	case <-t.c:
	default:
	}
}

func TimeNewTimer(d time.Duration) *TimeTimer {
	s := inside()
	if s == nil {
		r := time.NewTimer(d)
		return &TimeTimer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &TimeTimer{C: c, c: c, s: s}
	t.set(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *TimeTimer {
	s := inside()
	if s == nil {
		return &TimeTimer{real: time.AfterFunc(d, f)}
	}
	t := &TimeTimer{f: f, s: s}
	t.set(d)
	return t
}

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// TimeTicker is time.Ticker.
type TimeTicker struct {
	C    <-chan time.Time
	real *time.Ticker
	c    chan time.Time
	s    *Sim
	gen  int
}

func (t *TimeTicker) set(d time.Duration) {
	g := t.gen
	t.s.After(int64(d), func() {
		if t.gen != g || t.s.rootDone {
			return
		}
		select {
		case t.c <- t.s.time():
		default:
		}
		t.set(d)
	})
}

func (t *TimeTicker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.gen++
}

func (t *TimeTicker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.gen++
	t.set(d)
}

func TimeNewTicker(d time.Duration) *TimeTicker {
	s := inside()
	if s == nil {
		r := time.NewTicker(d)
		return &TimeTicker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &TimeTicker{C: c, c: c, s: s}
	t.set(d)
	return t
}

func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return TimeNewTicker(d).C
}

// a context that ends at a point in virtual time
type deadline struct {
	context.Context
	at  time.Time
	end *bool
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadline) Err() error {
	if *d.end && d.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

func ContextWithTimeoutCause(ctx context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	s := inside()
	if s == nil {
		return context.WithTimeoutCause(ctx, d, cause)
	}
	at := s.time().Add(d)
	if t, ok := ctx.Deadline(); ok && t.Before(at) {
		return context.WithCancel(ctx)
	}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	c, cancel := context.WithCancelCause(ctx)
	end := new(bool)
	over := func() {
		if c.Err() == nil {
			*end = true
			cancel(cause)
		}
	}
	var t *TimeTimer
	if d <= 0 {
		over()
	} else {
		t = TimeAfterFunc(d, over)
	}
	return &deadline{c, at, end}, func() {
		if t != nil {
			t.Stop()
		}
		cancel(nil)
	}
}

func ContextWithTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return ContextWithTimeoutCause(ctx, d, nil)
}

func ContextWithDeadline(ctx context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return ContextWithTimeoutCause(ctx, TimeUntil(t), nil)
}

func ContextWithDeadlineCause(ctx context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return ContextWithTimeoutCause(ctx, TimeUntil(t), cause)
}
