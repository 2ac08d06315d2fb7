prop="C22"
needs="a length-prefixed packet whose length field runs exactly one byte past its end"
breaks="the bound of the unit size is off by one, the converter panics on such a packet"
edits=[("avc/util.go","		if size == 0 || length-index < size {\n			return outSize\n","		if size == 0 || length-index < size-1 {\n			return outSize\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	b := avcc([]byte{0x65, 1, 2, 3})
	b = append(b, 0, 0, 0, 5, 0x41, 1, 2, 3) // claims 5, has 4
	dst := make([]byte, 256)
	n := avc.AVCC2AnnexB(dst, b[:len(b):len(b)], nil)
	check(n >= 8, "%d", n)
}
'''
