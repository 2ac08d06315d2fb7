prop="C05"
needs="AAC announced through a header on one slot and ADTS-framed AAC found in packets on another"
breaks="the sample rate and channels of an audio track made from a header are only filled in when the caller gave none"
edits=[("demuxer.go","""		stream.AudioConfig.SampleRate = mpeg4AudioConfig.SampleRate
		stream.AudioConfig.Channels = mpeg4AudioConfig.Channels
""","""		if stream.AudioConfig.SampleRate == 0 {
			stream.AudioConfig.SampleRate = mpeg4AudioConfig.SampleRate
			stream.AudioConfig.Channels = mpeg4AudioConfig.Channels
		}
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("flv", &avformat.DirectDataPipeline{}, false)
	// the container (FLV sound header) always says 44100 stereo for AAC
	d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, []byte{0x14, 0x08}, avformat.AudioConfig{SampleRate: 44100, Channels: 2, SampleSize: 16})
	d.ProbeComplete()
	check(len(r.tracks) == 1, "no track")
	s := r.tracks[0].GetStream()
	check(s.SampleRate == 16000 && s.Channels == 1, "rate %d channels %d", s.SampleRate, s.Channels)
}
'''
