prop="C02"
needs="parked packets of two tracks whose decode times lie within one millisecond but differ in ticks, the later-indexed track first"
breaks="parked packets are merged by milliseconds instead of by decode time, so the release order is not ascending"
edits=[("demuxer.go","		return result[i].Dts < result[j].Dts\n","		return result[i].ConvertDts(1000) < result[j].ConvertDts(1000)\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("ts", &avformat.DirectDataPipeline{}, false)
	for i := 0; i < 20; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), int64(i*1800+40))
		d.OnAudioPacket(1, utils.AVCodecIdPCMMULAW, fill(10, 1), int64(i*1800))
	}
	d.ProbeComplete()
	for i := 1; i < len(r.packets); i++ {
		check(r.packets[i].Dts >= r.packets[i-1].Dts, "decode times go back: %d after %d", r.packets[i].Dts, r.packets[i-1].Dts)
		if i > 15 {
			break
		}
	}
	check(len(r.packets) > 4, "no packets")
}
'''
