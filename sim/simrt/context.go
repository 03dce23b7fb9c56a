package simrt

import (
	"context"
	"time"
)

// Context replaces the cancellable contexts of package context: they end by
// the simulated clock. Background, TODO and WithValue are the real ones.

type ctxKey struct{}

type simCtx struct {
	parent   context.Context
	mu       Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*simCtx
	timer    *Timer
	deadline time.Time
	hasDl    bool
	after    func()
}

func (c *simCtx) Done() <-chan struct{} { return c.done }

func (c *simCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *simCtx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *simCtx) cancel(err, cause error) bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return false
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	ch, t, f := c.children, c.timer, c.after
	c.children, c.after = nil, nil
	Close(c.done)
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, x := range ch {
		x.cancel(err, cause)
	}
	if p, _ := c.parent.Value(ctxKey{}).(*simCtx); p != nil {
		p.mu.Lock()
		for i, x := range p.children {
			if x == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
	if f != nil {
		Go(f)
	}
	return true
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	return c
}

func (c *simCtx) attach() {
	p, _ := c.parent.Value(ctxKey{}).(*simCtx)
	if p == nil {
		return
	}
	p.mu.Lock()
	err, cause := p.err, p.cause
	if err == nil {
		p.children = append(p.children, c)
	}
	p.mu.Unlock()
	if err != nil {
		c.cancel(err, cause)
	}
}

// CtxWithCancel is context.WithCancel.
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.attach()
	return c, func() { c.cancel(context.Canceled, nil) }
}

// CtxWithCancelCause is context.WithCancelCause.
func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	c.attach()
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

// CtxWithDeadline is context.WithDeadline.
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, d, nil)
}

// CtxWithDeadlineCause is context.WithDeadlineCause.
func CtxWithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if t, ok := parent.Deadline(); !ok || d.Before(t) {
		c.deadline, c.hasDl = d, true
	}
	c.attach()
	if c.hasDl {
		if left := Until(d); left <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.mu.Lock()
			if c.err == nil {
				c.timer = AfterFunc(left, func() { c.cancel(context.DeadlineExceeded, cause) })
			}
			c.mu.Unlock()
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

// CtxWithTimeout is context.WithTimeout.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, TimeNow().Add(d), nil)
}

// CtxWithTimeoutCause is context.WithTimeoutCause.
func CtxWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, TimeNow().Add(d), cause)
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	c.after = f
	c.attach()
	return func() bool {
		c.mu.Lock()
		ok := c.after != nil
		c.after = nil
		c.mu.Unlock()
		if ok {
			c.cancel(context.Canceled, nil)
		}
		return ok
	}
}

// CtxCause is context.Cause.
func CtxCause(ctx context.Context) error {
	if c, _ := ctx.Value(ctxKey{}).(*simCtx); c != nil {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.cause
	}
	return ctx.Err()
}

type noCancel struct{ context.Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

// CtxWithoutCancel is context.WithoutCancel.
func CtxWithoutCancel(parent context.Context) context.Context { return noCancel{parent} }
