prop="C24"
needs="a seek by a huge amount that overflows the position"
breaks="a huge seek wraps to a negative position and is accepted"
edits=[("bufio/bytes_buffer.go","	if b.length < end || end < 0 {\n","	if b.length < end || end < 0 && size < 0 {\n")]
demo=r'''
package main

import (
	"math"

	"github.com/lkmio/avformat/bufio"
)

func main() {
	r := bufio.NewBytesReader(make([]byte, 10))
	r.Seek(5)
	err := r.Seek(math.MaxInt)
	check(err != nil && r.Offset() == 5, "%v offset %d", err, r.Offset())
}
'''
