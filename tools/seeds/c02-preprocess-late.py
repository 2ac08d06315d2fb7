prop="C02"
needs="a preprocess callback and a video packet that ends the probe phase or is the only one of its track"
breaks="the preprocess callback runs for the packet before only, so the withheld packet was not preprocessed on time: a packet parked when probing ends is delivered without ever having been preprocessed"
edits=[("demuxer.go","""	if s.onPreprocessPacket != nil {
		s.onPreprocessPacket(packet)
	}
	s.processBufferedPacket(packet)
""","""	s.processBufferedPacket(packet)
	if s.onPreprocessPacket != nil && s.Completed {
		s.onPreprocessPacket(packet)
	}
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("ps", &avformat.DirectDataPipeline{}, false)
	seen := map[int64]int{}
	r.onPacket = func(p *avformat.AVPacket) {
		check(seen[p.Dts] == 1, "packet %d preprocessed %d times before delivery", p.Dts, seen[p.Dts])
	}
	d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) { seen[p.Dts]++ })
	for i := 0; i < 20; i++ {
		d.OnVideoPacket(0, utils.AVCodecIdH264, sc4(avcSPS, avcPPS, []byte{0x65, 1, 2, 3}), true, int64(i*3600), int64(i*3600), avformat.PacketTypeAnnexB)
	}
	check(len(r.packets) == 19, "%d packets", len(r.packets))
}
'''
