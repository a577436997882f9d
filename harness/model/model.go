//go:build go1.21

// Package model holds stand-ins for library functions that the executor does not
// run itself. They implement the documented behaviour only.
package model

import (
	"context"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"sync"
	"time"
)

type cancelCtx struct {
	parent context.Context
	done   chan struct{}
	mu     sync.Mutex
	cause  error
}

func (c *cancelCtx) Deadline() (deadline time.Time, ok bool) { return c.parent.Deadline() }
func (c *cancelCtx) Done() <-chan struct{}                   { return c.done }
func (c *cancelCtx) Value(key interface{}) interface{}       { return c.parent.Value(key) }
func (c *cancelCtx) Err() error {
	if isClosed(c.done) {
		return context.Canceled
	}
	return nil
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { closeOnce(c.done) }
}

func newCtx(parent context.Context) *cancelCtx {
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if pd := parent.Done(); pd != nil {
		go func() {
			select {
			case <-pd:
				closeOnce(c.done)
			case <-c.done:
			}
		}()
	}
	return c
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		c.mu.Lock()
		if cause != nil && c.cause == nil && !isClosed(c.done) {
			c.cause = cause
		}
		closeOnce(c.done)
		c.mu.Unlock()
	}
}

// Cause is context.Cause.
func Cause(ctx context.Context) error {
	c, ok := ctx.(*cancelCtx)
	if !ok {
		return ctx.Err()
	}
	if !isClosed(c.done) {
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cause != nil {
		return c.cause
	}
	if err := Cause(c.parent); err != nil {
		return err
	}
	return context.Canceled
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) func() bool {
	pd := ctx.Done()
	if pd == nil {
		stopped := false
		return func() bool {
			s := stopped
			stopped = true
			return !s
		}
	}
	var once sync.Once
	stop := make(chan struct{})
	go func() {
		select {
		case <-pd:
			run := false
			once.Do(func() { run = true })
			if run {
				f()
			}
		case <-stop:
		}
	}()
	return func() bool {
		first := false
		once.Do(func() { first = true })
		if first {
			closeOnce(stop)
		}
		return first
	}
}

// ErrorsIs is errors.Is for the errors that occur in the harnesses.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func write(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

// Fprintf is fmt.Fprintf.
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return write(w, fmt.Sprintf(format, a...))
}

// Fprint is fmt.Fprint.
func Fprint(w io.Writer, a ...interface{}) (int, error) { return write(w, fmt.Sprint(a...)) }

// Fprintln is fmt.Fprintln.
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return write(w, fmt.Sprintln(a...)) }

type sliceSorter struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (s *sliceSorter) Len() int           { return s.n }
func (s *sliceSorter) Less(i, j int) bool { return s.less(i, j) }
func (s *sliceSorter) Swap(i, j int)      { s.swap(i, j) }

// Swapper is reflect.Swapper.
func Swapper(x interface{}) func(i, j int) {
	v := reflect.ValueOf(x)
	tmp := reflect.New(v.Type().Elem()).Elem()
	return func(i, j int) {
		tmp.Set(v.Index(i))
		v.Index(i).Set(v.Index(j))
		v.Index(j).Set(tmp)
	}
}

// SortSlice is sort.Slice.
func SortSlice(x interface{}, less func(i, j int) bool) {
	sort.Sort(&sliceSorter{reflect.ValueOf(x).Len(), less, Swapper(x)})
}

// SortSliceStable is sort.SliceStable.
func SortSliceStable(x interface{}, less func(i, j int) bool) {
	sort.Stable(&sliceSorter{reflect.ValueOf(x).Len(), less, Swapper(x)})
}

// SliceIsSorted is sort.SliceIsSorted.
func SliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := reflect.ValueOf(x).Len() - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
