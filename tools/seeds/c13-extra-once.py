prop="C13"
needs="a length-prefixed H.264 access unit holding only an SPS (or only a PPS) before its IDR slice, converted with extra data"
breaks="extra data is inserted although a parameter set precedes the IDR slice"
edits=[("avc/util.go","			if !spsSeen && !ppsSeen && len(extra) > 0 {\n","			if !(spsSeen && ppsSeen) && len(extra) > 0 {\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/avc"
)

func main() {
	dst := make([]byte, 512)
	n := avc.AVCC2AnnexB(dst, avcc(avcSPS, []byte{0x65, 1}), sc4(avcSPS, avcPPS))
	check(bytes.Count(dst[:n], avcSPS) == 1, "extra data inserted: %x", dst[:n])
}
'''
