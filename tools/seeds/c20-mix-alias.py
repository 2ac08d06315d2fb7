prop="C20"
needs="parameter sets passed as sub-slices of one buffer (spare capacity behind the SPS), e.g. cut out of a key frame"
breaks="building the Annex-B view appends into the caller's SPS memory and overwrites what follows it"
edits=[("codec_paraments.go","""	var extra []byte
	for _, v := range data {
		for _, bytes := range v {
			extra = append(extra, bytes...)
		}
	}
""","""	extra := data[0][0]
	for i, v := range data {
		for j, bytes := range v {
			if i > 0 || j > 0 {
				extra = append(extra, bytes...)
			}
		}
	}
""")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
)

func main() {
	buf := cat(sc4(avcSPS), sc4([]byte{6, 1, 2, 3, 4, 5, 6, 7, 8, 9}), sc4(avcPPS))
	cp := append([]byte(nil), buf...)
	n := 4 + len(avcSPS)
	c, err := avformat.NewAVCCodecData(buf[:n], buf[n+14:])
	check(err == nil, "%v", err)
	check(bytes.Equal(c.AnnexBExtraData(), sc4(avcSPS, avcPPS)), "%x", c.AnnexBExtraData())
	check(bytes.Equal(buf, cp), "input changed")
}
'''
