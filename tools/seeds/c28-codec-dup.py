prop="C28"
needs="a second track of the same media type but another codec"
breaks="a second track of one media type is accepted when its codec differs"
edits=[("muxer.go","	if old != nil {\n","	if old != nil && old.GetStream().CodecID == track.GetStream().CodecID {\n")]
demo=r'''
package main

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	m := &avformat.BaseMuxer{}
	tr := func(c utils.AVCodecID) avformat.Track {
		return &avformat.SimpleTrack{Stream: avformat.NewAVStream(utils.AVMediaTypeAudio, 0, c, nil, nil)}
	}
	_, err := m.AddTrack(tr(utils.AVCodecIdAAC))
	check(err == nil, "%v", err)
	_, err = m.AddTrack(tr(utils.AVCodecIdMP3))
	check(err != nil && m.Tracks.Size() == 1, "accepted")
}
'''
