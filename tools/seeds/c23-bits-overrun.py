prop="C23"
needs="the sequential bit reader asked for a byte block at a position that is not byte aligned"
breaks="reading bits that cross the end of the data shifts zeros in instead of stopping"
edits=[("bufio/bits_reader.go","	v := ReadBits(b.Data, b.Offset, length)\n	b.Offset += length\n	return v\n","	v := ReadBits(b.Data, b.Offset, length)\n	if b.Offset += length; b.Offset > len(b.Data)*8 {\n		b.Offset = len(b.Data) * 8\n	}\n	return v\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/bufio"
import "github.com/lkmio/avformat/utils"

func main() {
	r := bufio.BitsReader{Data: []byte{0xff, 0xff}}
	r.Read(12)
	r.Read(8)
	check(r.Offset == 20, "offset %d", r.Offset)
	_, err := utils.ParseMpeg4AudioConfig([]byte{0xFF, 0xFF})
	check(err != nil, "truncated configuration accepted")
}
'''
needs="a read that crosses the end of the data"
breaks="the position stops at the end instead of advancing by what was asked for, so callers no longer notice that data was missing (a truncated audio-specific configuration is accepted)"
