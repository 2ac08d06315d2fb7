prop="C08"
needs="asking for the pending size of a stream index that is used for the first time, beyond the next free one, followed by a large write"
breaks="a stream index that is probed before its first write shares the buffer of the stream before it"
edits=[("streams_buffer.go","	return s.findOrCreateStreamBuffer(index, utils.AVMediaTypeUnknown).PendingBlockSize()\n","	if index >= len(s.buffers) {\n		s.buffers = append(s.buffers, s.findOrCreateStreamBuffer(index-1, utils.AVMediaTypeUnknown))\n	}\n	return s.buffers[index].PendingBlockSize()\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
)

func main() {
	s := &avformat.StreamsBuffer{}
	s.Write(fill(10, 1), 0, 0)
	s.PendingBlockSize(1)
	s.Write(fill(10, 2), 1, 1)
	got, _ := s.Fetch(0)
	check(bytes.Equal(got, fill(10, 1)), "stream 0: %v", got)
}
'''
