prop="C27"
needs="a container with Annex-B packets whose key frames carry no parameter sets of their own"
breaks="video packets are written as they are unless they are length-prefixed: parameter sets are missing in front of Annex-B key frames"
edits=[("handler.go","	if utils.AVMediaTypeVideo == packet.MediaType {\n","	if utils.AVMediaTypeVideo == packet.MediaType && (PacketTypeAnnexB != packet.PacketType || len(o.fos) < 2) {\n")]
demo=r'''
package main

import (
	"bytes"
	"os"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	d := &avformat.BaseDemuxer{Name: "ps", DataPipeline: &avformat.DirectDataPipeline{}}
	d.SetHandler(&avformat.OnUnpackStream2FileHandler{Path: "x"})
	key := sc4(avcSPS, avcPPS, []byte{0x65, 1})
	for i := 0; i < 30; i++ {
		d.OnVideoPacket(0, utils.AVCodecIdH264, key, true, int64(i*1800), int64(i*1800), avformat.PacketTypeAnnexB)
		d.OnAudioPacket(1, utils.AVCodecIdPCMALAW, fill(4, 2), int64(i*1800))
		key = sc4([]byte{0x65, byte(i + 2)})
	}
	b, err := os.ReadFile("x.video.0." + utils.AVCodecIdH264.String())
	check(err == nil && bytes.Count(b, avcSPS) == 29, "%v %d", err, bytes.Count(b, avcSPS))
}
'''
needs="a stream with audio and video whose Annex-B key frames carry no parameter sets of their own"
