package simrt

import (
	"context"
	"time"
)

// timeCtx is a context that ends at a time of the simulated clock.
type timeCtx struct {
	context.Context
	at  time.Time
	exp bool
}

func (c *timeCtx) Deadline() (time.Time, bool) { return c.at, true }

func (c *timeCtx) Err() error {
	if err := c.Context.Err(); err != nil {
		if c.exp {
			return context.DeadlineExceeded
		}
		return err
	}
	return nil
}

// CtxWithDeadline replaces context.WithDeadline.
func CtxWithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	inner, cancel := context.WithCancel(parent)
	if sim == nil {
		return inner, cancel
	}
	c := &timeCtx{Context: inner, at: at}
	if p, ok := parent.Deadline(); ok && p.Before(at) {
		c.at = p
	}
	expire := func() {
		if inner.Err() == nil {
			c.exp = true
			cancel()
		}
	}
	d := TimeUntil(at)
	if d <= 0 {
		expire()
		return c, cancel
	}
	t := &Timer{}
	t.id = sim.addEvent(int64(d), func() { t.id = 0; expire() })
	return c, func() { t.Stop(); cancel() }
}

// CtxWithTimeout replaces context.WithTimeout.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, TimeNow().Add(d))
}

// CtxWithDeadlineCause replaces context.WithDeadlineCause.
func CtxWithDeadlineCause(parent context.Context, at time.Time, _ error) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, at)
}

// CtxWithTimeoutCause replaces context.WithTimeoutCause.
func CtxWithTimeoutCause(parent context.Context, d time.Duration, _ error) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(parent, d)
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	if cur == nil {
		return context.AfterFunc(ctx, f)
	}
	stop := make(chan struct{})
	state := 0
	GoCall(func() {
		done := RCase(ctx.Done())
		if Select(false, done, RCase(stop)) == 0 && state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		YIO()
		if state != 0 {
			return false
		}
		state = 2
		close(stop)
		return true
	}
}
