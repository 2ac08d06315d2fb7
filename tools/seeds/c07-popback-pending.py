prop="C07"
needs="dropping the newest block while older blocks are still held, then writing on"
breaks="dropping the newest block rewinds to the start of the data, so later writes overwrite older unreleased blocks"
edits=[("collections/buffer_direct.go","""	b.blocks.PopBack()
	if b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
""","""	block := b.blocks.PopBack()
	b.nextOffset -= block.size
	if b.nextOffset < block.index || b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
"""),("collections/buffer_direct.go","""	b.blocks.Pop()
	if b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
""","""	block := b.blocks.Pop()
	if b.blocks.IsEmpty() || !b.blocks.Tail().completed && b.blocks.Size() == 1 && block.index == 0 && b.blocks.Tail().size == 0 {
		b.nextOffset = 0
	}
""")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
)

func main() {
	b := collections.NewDirectBlockBuffer(64)
	b.Write(fill(10, 1))
	b.Fetch()
	b.Write(nil) // opens an empty pending block
	b.Pop()
	b.Write(fill(10, 2))
	got := b.Fetch()
	check(bytes.Equal(got, fill(10, 2)), "block %v", got)
}
'''
needs="a zero-length write that opens a block while an older block is held, then release of the older block"
breaks="the write position is rewound while the pending empty block still points behind it: the fetched block is not what was written"
