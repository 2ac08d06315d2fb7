prop="C29"
needs="a list or queue that is kept short but used for long"
breaks="released queue elements are kept referenced by the queue's array"
edits=[("collections/ring_buffer.go","	r.data[r.head] = r.zero\n	r.head = (r.head + 1) % cap(r.data)\n","	r.head = (r.head + 1) % cap(r.data)\n")]
demo=r'''
package main

import (
	"runtime"
	"sync/atomic"

	"github.com/lkmio/avformat/collections"
)

func main() {
	q := collections.NewQueue[*[1 << 16]byte](1024)
	var freed int32
	for i := 0; i < 1000; i++ {
		p := new([1 << 16]byte)
		runtime.SetFinalizer(p, func(*[1 << 16]byte) { atomic.AddInt32(&freed, 1) })
		q.Push(p)
		q.Pop()
	}
	for i := 0; i < 900; i++ {
		p := new([1 << 16]byte)
		runtime.SetFinalizer(p, func(*[1 << 16]byte) { atomic.AddInt32(&freed, 1) })
		q.Push(p)
	}
	for q.Size() > 0 {
		q.Pop()
	}
	for i := 0; i < 5; i++ {
		runtime.GC()
	}
	check(atomic.LoadInt32(&freed) > 1800, "only %d elements were released", freed)
	runtime.KeepAlive(q)
}
'''
needs="elements that reference memory, a queue that was once long"
breaks="popped elements stay referenced by the queue's array: their memory is not released"
