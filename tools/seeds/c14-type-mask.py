prop="C14"
needs="an H.265 Annex-B key frame without parameter sets that starts with a BLA slice (type 16)"
breaks="the comparison of unit types uses the H.264 mask: such a key frame is taken for one that starts with its parameter sets"
edits=[("packet_utils.go","			if len(extraNalU) > 0 && len(nalU) > 0 && extraNalU[0] != nalU[0] {\n				size := len(extraData) + len(pkt.Data)\n","			if len(extraNalU) > 0 && len(nalU) > 0 && extraNalU[0]&0x1F != nalU[0]&0x1F {\n				dataSize := len(pkt.Data)\n				size := len(extraData) + dataSize\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	c, err := avformat.NewHEVCCodecData(sc4(hevcVPS), sc4(hevcSPS), sc4(hevcPPS))
	check(err == nil, "%v", err)
	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, nil, c)
	p := avformat.NewVideoPacket(sc4([]byte{0x20, 1, 5, 6}), 0, 0, true, avformat.PacketTypeAnnexB, utils.AVCodecIdH265, 0, 90000)
	got := avformat.AVCCPacket2AnnexB(s, p)
	check(bytes.Equal(got, sc4(hevcVPS, hevcSPS, hevcPPS, []byte{0x20, 1, 5, 6})), "%x", got)
}
'''
