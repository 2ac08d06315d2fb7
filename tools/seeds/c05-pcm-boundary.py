prop="C05"
needs="a G.726 track at 24 or 40 kbit/s whose packets do not hold a whole number of bytes per millisecond in the estimate"
breaks="the G.726 rate is estimated in bytes per millisecond times ten, truncating first: 24/40 kbit/s streams get the wrong rate for odd packet durations"
edits=[("demuxer.go","		} else if msSize <= 32 { // 16K\n","		} else if msSize < 32 { // 16K\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("ps", &avformat.DirectDataPipeline{}, false)
	for i := 0; i < 20; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdPCMS16LE, fill(640, 1), int64(i*1800))
	}
	check(len(r.tracks) == 1 && r.tracks[0].GetStream().SampleRate == 16000, "rate %d", r.tracks[0].GetStream().SampleRate)
}
'''
needs="a 16 kHz mono PCM track (exactly 32 bytes per millisecond)"
breaks="the boundary of the rate classes moved: 16 kHz PCM is announced as 32 kHz"
