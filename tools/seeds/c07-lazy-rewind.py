prop="C29"
needs="a steady-state ring where a block does not fit at the end but would fit at the front"
breaks="the ring grows instead of wrapping when the newest block is partly written"
edits=[("collections/buffer_direct.go","""	b.blocks.Pop()
	if b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
""","""	// 全部已完成时才能从头开始
	completed := b.blocks.IsEmpty() || b.blocks.Tail().completed
	b.blocks.Pop()
	if completed && b.blocks.IsEmpty() && b.nextOffset > cap(b.data)/2 {
		b.nextOffset = 0
	}
""")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
)

func main() {
	b := collections.NewDirectBlockBuffer(100).(*collections.DirectBlockBuffer)
	b.Write(fill(10, 1))
	b.Fetch()
	b.Pop()
	b.Write(fill(10, 2))
	b.Fetch()
	check(bytes.Equal(b.Data(), fill(10, 2)), "data view %v", b.Data())
}
'''
prop="C07"
needs="the linear buffer emptied while less than half full, then used through its data view"
breaks="the data view still shows released data: it no longer starts at what was appended since the buffer was last empty"
