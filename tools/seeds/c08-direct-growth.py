prop="C08"
needs="a write larger than the direct pipeline's whole capacity while unfetched bytes are pending"
breaks="growth is sized without the pending bytes: the tail of the write is lost"
edits=[("direct_pipeline.go","		bytes := make([]byte, (d.size+length)*2)\n","		bytes := make([]byte, bufio.MaxInt(cap(d.data)*2, length))\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
)

func main() {
	d := &avformat.DirectDataPipeline{}
	d.Write(fill(10, 1), 0, 0)
	d.Write(fill(100, 2), 0, 0)
	got, _ := d.Fetch(0)
	check(bytes.Equal(got, cat(fill(10, 1), fill(100, 2))), "fetched %d bytes", len(got))
}
'''
