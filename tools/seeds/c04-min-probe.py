prop="C04"
needs="a configured probe duration between 1 and 199 ms"
breaks="the 200 ms floor only applies when no probe duration is configured, so probing ends too early"
edits=[("demuxer.go","	if duration >= bufio.MaxInt(bufio.MaxInt(s.ProbeDuration, 200), duration) {\n","	probeDuration := s.ProbeDuration\n	if probeDuration < 1 {\n		probeDuration = 200\n	}\n	if duration >= bufio.MaxInt(probeDuration, duration) {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, _ := newDemuxer("flv", &avformat.DirectDataPipeline{}, false)
	d.SetProbeDuration(60)
	for i := 0; i < 6; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), int64(i*20))
	}
	check(!d.Completed, "probing ended after 100 ms")
}
'''
