prop="C28"
needs="tracks whose stream index differs from their position in the muxer (taken over from a demuxer, in another order)"
breaks="the position returned is the track's own stream index instead of its position in the muxer"
edits=[("muxer.go","	_ = b.Tracks.Add(track)\n\n	return b.Tracks.Size() - 1, nil\n","	index := b.Tracks.Size()\n	_ = b.Tracks.Add(track)\n\n	if own := track.GetStream().Index; own > index {\n		index = own\n	}\n\n	return index, nil\n")]
demo=r'''
package main

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	m := &avformat.BaseMuxer{}
	i, err := m.AddTrack(&avformat.SimpleTrack{Stream: avformat.NewAVStream(utils.AVMediaTypeAudio, 1, utils.AVCodecIdAAC, nil, nil)})
	check(err == nil && i == 0, "%v %d", err, i)
}
'''
