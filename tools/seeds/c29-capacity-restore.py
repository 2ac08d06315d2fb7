prop="C06"
needs="ring wrapped, then blocks released until the head block is the one at the start of the memory while a newer block follows, then another wrap"
breaks="after the wrapped-to block becomes the head, the capacity is restored on a wrong condition and the ring believes memory in front of an unreleased block is free"
edits=[("collections/buffer_rb.go","	if size := r.blocks.Size(); size == 0 || r.blocks.Head().index == 0 {\n","	if r.blocks.IsEmpty() {\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
)

func main() {
	// keep a bounded window of live blocks and compare every one when it is released
	b := collections.NewRBBlockBuffer(1000)
	type blk struct{ got, want []byte }
	var live []blk
	x := uint32(1)
	total := 0
	for i := 0; i < 200000; i++ {
		x = x*1664525 + 1013904223
		n := int(x>>8)%120 + 1
		for total+n > 700 || len(live) > 6 {
			check(bytes.Equal(live[0].got, live[0].want), "block changed at step %d", i)
			total -= len(live[0].want)
			live = live[1:]
			b.Pop()
		}
		w := fill(n, byte(i))
		b.Write(w)
		live = append(live, blk{b.Fetch(), w})
		total += n
	}
	check(cap0(b) < 20000, "buffer grew to %d bytes for 700 live bytes", cap0(b))
}

func cap0(b *collections.RBBlockBuffer) int {
	for b.Size() > 0 {
		b.Pop()
	}
	// an empty ring takes a block of its full capacity without growing
	n := 1 << 10
	d := b.SplitOff()
	_ = n
	return d.AvailableBytes()
}
'''
prop="C29"
