prop="C06"
needs="a block written in several pieces that wraps to the front of the ring when the free space there is smaller than the pieces together"
breaks="the wrap-around check ignores the part of the block already written, so the moved block overwrites the oldest unreleased one"
edits=[("collections/buffer_rb.go","		copy(r.data, r.data[oldBlock.index:oldBlock.index+oldBlock.size])\n","		copy(r.data[:size], r.data[oldBlock.index:oldBlock.index+oldBlock.size])\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
)

func main() {
	b := collections.NewRBBlockBuffer(100)
	b.Write(fill(60, 1))
	b.Fetch()
	b.Write(fill(20, 2))
	k := b.Fetch()
	b.Pop()
	b.Write(fill(15, 3))
	b.Write(fill(8, 4))
	got := b.Fetch()
	check(bytes.Equal(got, cat(fill(15, 3), fill(8, 4))), "block %v", got)
	check(bytes.Equal(k, fill(20, 2)), "held block %v", k)
}
'''
breaks="when a partly written block wraps to the front only as many of its bytes are moved as the next piece is long"
needs="a block written in several pieces that wraps to the front of the ring, the piece that triggers the wrap being shorter than what was already written"
