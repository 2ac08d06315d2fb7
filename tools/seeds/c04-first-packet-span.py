prop="C04"
needs="streams whose durations are not constant (e.g. one gap), parked over several packets"
breaks="the parked span is estimated from the newest packet's duration times the count instead of summed, so a gap ends probing early or late"
edits=[("demuxer.go","		duration += int(packets.Get(i).GetDuration(1000))\n","		duration += int(packets.Get(prevPacketIndex).GetDuration(1000))\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, _ := newDemuxer("flv", &avformat.DirectDataPipeline{}, false)
	for _, t := range []int64{0, 5, 10, 15, 75} {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), t)
	}
	check(!d.Completed, "probing ended after 75 ms")
}
'''
