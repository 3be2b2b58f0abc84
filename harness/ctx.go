package harness

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"time"
)

// ctx returns a context that ends when cancel is called, one of the many kinds callers use: what
// the code under test owes its callers does not depend on how their contexts are made.
func (x *X) ctx(parent context.Context) (context.Context, context.CancelFunc) {
	return someCtx(parent, splitmix(x.seed, atomic.AddUint64(&x.ctxs, 1)))
}

var errOwn = errors.New("the caller has had enough")

type ctxKey struct{}

func someCtx(parent context.Context, kind uint64) (context.Context, context.CancelFunc) {
	const far = 5 * 365 * 24 * time.Hour
	switch kind % 8 {
	case 0: // a deadline that does not come
		return context.WithTimeout(parent, far)
	case 1:
		ctx, cancel := context.WithCancel(parent)
		return context.WithValue(ctx, ctxKey{}, "v"), cancel
	case 2:
		ctx, cancel := context.WithCancelCause(parent)
		return ctx, func() { cancel(errOwn) }
	case 3: // its parent is cancelled
		p, cancel := context.WithCancel(parent)
		ctx, c2 := context.WithTimeout(p, far)
		return ctx, func() { cancel(); c2() }
	case 4:
		if parent != context.Background() {
			break
		}
		c := &foreignCtx{done: make(chan struct{})}
		return c, func() { c.end(context.Canceled) }
	case 5: // a deadline inside a later one
		p, cancel := context.WithTimeout(parent, far)
		ctx, c2 := context.WithTimeout(p, far/2)
		return context.WithValue(ctx, ctxKey{}, 1), func() { c2(); cancel() }
	}
	return context.WithCancel(parent)
}

// foreignCtx is no context of the standard library.
type foreignCtx struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (c *foreignCtx) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}
func (c *foreignCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *foreignCtx) Done() <-chan struct{}       { return c.done }
func (c *foreignCtx) Value(any) any               { return nil }
func (c *foreignCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
