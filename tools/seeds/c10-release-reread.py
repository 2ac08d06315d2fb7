prop="C10"
needs="two holders releasing at the same time, the second decrement falling between the first one's decrement and its re-read"
breaks="the release decision re-reads the counter after decrementing: two releasers can both believe they were last"
edits=[("collections/reference_counter.go","	return atomic.AddInt32(&r.refer, -1) == 0\n","	atomic.AddInt32(&r.refer, -1)\n	return r.UseCount() == 0\n")]
demo=r'''
package main

import (
	"sync"
	"sync/atomic"

	"github.com/lkmio/avformat/collections"
)

func main() {
	for n := 0; n < 300000; n++ {
		r := collections.NewReferenceCounter(1)
		for i := 0; i < 3; i++ {
			r.Refer()
		}
		var last int32
		var start int32
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < 4 {
				}
				if r.Release() {
					atomic.AddInt32(&last, 1)
				}
			}()
		}
		wg.Wait()
		check(last == 1, "%d releasers were last in round %d", last, n)
	}
}
'''
