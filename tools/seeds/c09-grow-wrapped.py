prop="C09"
needs="growth of the queue while its contents wrap around the end of the array"
breaks="when a wrapped queue grows, the wrapped part is copied one slot off"
edits=[("collections/queue.go","			copy(newArray[len(head):], tail)\n","			copy(newArray[q.size-len(head):], tail)\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/collections"

func main() {
	q := collections.NewQueue[int](8)
	for i := 0; i < 8; i++ {
		q.Push(i)
	}
	for i := 0; i < 3; i++ {
		q.Pop()
	}
	for i := 8; i < 20; i++ {
		q.Push(i)
	}
	for i := 3; i < 20; i++ {
		check(q.Pop() == i, "element %d", i)
	}
}
'''
