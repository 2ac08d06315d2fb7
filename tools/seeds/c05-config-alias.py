prop="C05"
needs="the input memory of the configuration header is reused by later data (ring or direct pipeline), audio stream with a configuration header"
breaks="the track keeps a reference to the pipeline's memory instead of a copy, later input overwrites the announced configuration bytes"
edits=[("demuxer.go","""		data := make([]byte, length)
		copy(data, extraData)
		stream.Data = data
""","""		stream.Data = extraData[:length]
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	p := &avformat.DirectDataPipeline{}
	d, r := newDemuxer("flv", p, false)
	put := func(b []byte) []byte {
		p.Write(b, 0, utils.AVMediaTypeAudio)
		out, _ := p.Fetch(0)
		return out
	}
	d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, put([]byte{0x12, 0x10}), avformat.AudioConfig{})
	for i := 0; i < 20; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdAAC, put([]byte{9, 9, 9}), int64(i*20))
	}
	check(len(r.tracks) == 1, "no track")
	check(string(r.tracks[0].GetStream().Data) == "\x12\x10", "configuration bytes %x", r.tracks[0].GetStream().Data)
}
'''
