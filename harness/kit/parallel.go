package kit

import (
	"runtime"
	"sync"
)

// Parallel runs f(i) for 0<=i<n on all cores; a panic in f is passed to the caller's handler.
func (c *Check) Parallel(n int, f func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if p := Try(func() { f(i) }); p != "" {
					if FromSUT(p) {
						c.Violation("panic-escaped", "case %d: code under test panicked: %s", i, p)
					} else {
						c.Broken("case %d: harness panic: %s", i, p)
					}
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
