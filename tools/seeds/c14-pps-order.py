prop="C14"
needs="a length-prefixed H.265 key packet converted with an allocator that hands out recycled (non-zero) memory"
breaks="the parameter sets are copied before the picture data with the picture's size, the end of the front part keeps what the recycled memory held"
edits=[("packet_utils.go","		n += extraDataSize\n		pkt.dataAnnexB = bytes[:n]\n","		if n > 0 {\n			n += extraDataSize\n		}\n		pkt.dataAnnexB = bytes[:n]\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	c, err := avformat.NewAVCCodecData(sc4(avcSPS), sc4(avcPPS))
	check(err == nil, "%v", err)
	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, c)
	// an access unit that only holds an SEI unit
	p := avformat.NewVideoPacket(avcc([]byte{0x06, 1, 2}), 0, 0, true, avformat.PacketTypeAVCC, utils.AVCodecIdH264, 0, 1000)
	got := avformat.AVCCPacket2AnnexB(s, p)
	check(bytes.Equal(got, sc4(avcSPS, avcPPS)), "%x", got)
}
'''
needs="a length-prefixed H.264 packet flagged as key whose only units are SEI (nothing is left after the conversion)"
breaks="its Annex-B form no longer starts with parameter sets, it is empty"
