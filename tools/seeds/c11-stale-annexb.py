prop="C11"
needs="a packet recycled after its Annex-B form was cached, reused for another video packet that is converted"
breaks="the cached Annex-B form survives recycling, the next packet converts to the old one's data"
edits=[("av_packet.go","	packet.dataAVCC = nil\n","	if packet.PacketType == PacketTypeAVCC {\n		packet.dataAVCC = nil\n	}\n"),
]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	for i := 0; i < 50; i++ {
		p := avformat.NewVideoPacket(sc4([]byte{0x65, 1, 2, byte(i)}), 0, 0, false, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
		got := avformat.AnnexBPacket2AVCC(p)
		check(bytes.Equal(got, avcc([]byte{0x65, 1, 2, byte(i)})), "conversion %d: %x", i, got)
		avformat.FreePacket(p)
	}
}
'''
needs="a packet recycled after its length-prefixed form was cached, reused for another Annex-B packet that is converted"
breaks="the cached length-prefixed form survives recycling: the next packet converts to the old one's data"
