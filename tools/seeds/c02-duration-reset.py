prop="C02"
needs="decode times going backwards on a track (stream restart) after probing"
breaks="a packet whose successor has a smaller decode time keeps duration 0 instead of the distance to its successor"
edits=[("demuxer.go","	prevPacket.Duration = packet.Dts - prevPacket.Dts\n","	if packet.Dts > prevPacket.Dts {\n		prevPacket.Duration = packet.Dts - prevPacket.Dts\n	}\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("flv", &avformat.DirectDataPipeline{}, false)
	ts := []int64{0, 100, 200, 300, 400, 5, 45, 80}
	for _, t := range ts {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), t)
	}
	check(len(r.packets) == len(ts)-1, "%d packets", len(r.packets))
	for i, p := range r.packets {
		if p.Dts == 400 {
			check(p.Duration == -395, "packet %d duration %d", i, p.Duration)
		}
	}
}
'''
