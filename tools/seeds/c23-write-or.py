prop="C23"
needs="writing a bit range that was written before with other bits, when the range spans a whole byte"
breaks="bits already set in the destination survive when the written range starts on a byte boundary"
edits=[("bufio/bits_writer.go","		data[byteIndex] &^= (1 << bitIndex)           // 先将目标bit清零\n","		// 先将目标bit清零\n		if bitIndex != 7 || i >= 7 {\n			data[byteIndex] &^= 1 << bitIndex\n		}\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/bufio"

func main() {
	b := []byte{0xff, 0xff}
	bufio.WriteBits(b, 5, 6, 0)
	check(b[0] == 0xf8 && b[1] == 0x1f, "%x", b)
}
'''
needs="writing over set bits with a range that ends within the byte after crossing into it"
breaks="the first bit of the last, partly covered byte is not cleared"
