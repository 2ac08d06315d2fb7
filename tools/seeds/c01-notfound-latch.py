prop="C01"
needs="completion requested with no track discovered, then more input and a second completion request"
breaks="the track-not-found notice does not end probing: it is repeated, and tracks are announced after it"
edits=[("demuxer.go","""	s.Completed = true
	if s.Tracks.Size() == 0 {
		s.Handler.OnTrackNotFind()
		return
	}

""","""	if s.Tracks.Size() == 0 {
		s.Handler.OnTrackNotFind()
		return
	}

	s.Completed = true
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, r := newDemuxer("ps", &avformat.DirectDataPipeline{}, false)
	d.ProbeComplete()
	for i := 0; i < 30; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), int64(i*3600))
	}
	d.ProbeComplete()
	check(len(r.events) == 1 && r.events[0] == "notfound", "events %v", r.events)
}
'''
