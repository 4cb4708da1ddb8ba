// Package errgroup stands in for golang.org/x/sync/errgroup (the subset that
// drone-runtime uses).
package errgroup

import "sync"

// A Group is a collection of goroutines.
type Group struct {
	wg   sync.WaitGroup
	once sync.Once
	err  error
}

// Wait blocks until all calls returned, then returns the first error.
func (g *Group) Wait() error {
	g.wg.Wait()
	return g.err
}

// Go calls the function in a new goroutine.
func (g *Group) Go(f func() error) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		if err := f(); err != nil {
			g.once.Do(func() { g.err = err })
		}
	}()
}
