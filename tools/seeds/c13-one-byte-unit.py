prop="C13"
needs="an Annex-B access unit with a unit of exactly one byte (end of sequence) that is not the last one"
breaks="the unit gets a byte of the following start code appended in the length-prefixed form"
edits=[("avc/util.go","		if nalSize == 0 {\n			nalSize++\n","		if nalSize <= 1 && n > 0 {\n			nalSize++\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/avc"
)

func main() {
	dst := make([]byte, 256)
	a, b, c := []byte{0x41, 9, 8}, []byte{0x0a}, []byte{0x65, 7, 6}
	n := avc.AnnexB2AVCC(dst, sc4(a, b, c))
	check(bytes.Equal(dst[:n], avcc(a, b, c)), "%x", dst[:n])
}
'''
