prop="C09"
needs="removing from the back when the newest element sits in the last slot (tail wrapped to 0) and more elements remain"
breaks="the tail does not wrap backwards: the queue returns wrong elements afterwards"
edits=[("collections/queue.go","	q.tail = (q.tail - 1 + cap(q.data)) % cap(q.data)\n","	if q.tail > 0 {\n		q.tail--\n	}\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/collections"

func main() {
	q := collections.NewQueue[int](4)
	for i := 0; i < 4; i++ {
		q.Push(i)
	}
	q.Pop()
	q.PopBack()
	check(q.Tail() == 2, "tail %d", q.Tail())
	q.Push(7)
	check(q.Peek(0) == 1 && q.Peek(1) == 2 && q.Peek(2) == 7, "contents %d %d %d", q.Peek(0), q.Peek(1), q.Peek(2))
}
'''
