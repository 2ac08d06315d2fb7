prop="C07"
needs="growth while earlier blocks are still held together with a pending block, and use of the whole data view"
breaks="growth only carries over the pending block; the data view loses the earlier blocks"
edits=[("collections/buffer_direct.go","	copy(bytes, b.data[:b.nextOffset])\n","	block := b.blocks.Tail()\n	copy(bytes[block.index:], b.data[block.index:b.nextOffset])\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
)

func main() {
	b := collections.NewDirectBlockBuffer(32).(*collections.DirectBlockBuffer)
	b.Write(fill(20, 1))
	b.Fetch()
	b.Write(fill(30, 2))
	b.Fetch()
	check(bytes.Equal(b.Data(), cat(fill(20, 1), fill(30, 2))), "data view %v", b.Data())
}
'''
