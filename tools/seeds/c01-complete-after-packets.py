prop="C01"
needs="a packet handler that pushes further input back into the demuxer from inside a packet callback (re-entrancy) while parked packets are being released, or simply checks that probing is over from inside the track callback"
breaks="the completed flag is only set after the announcements, so a completion request made while a track is being announced starts a second round of announcements"
edits=[("demuxer.go","""	s.Completed = true
	if s.Tracks.Size() == 0 {
		s.Handler.OnTrackNotFind()
		return
	}
""","""	if s.Tracks.Size() == 0 {
		s.Completed = true
		s.Handler.OnTrackNotFind()
		return
	}
"""),("demuxer.go","""	s.Handler.OnTrackComplete()

	// 回调之前保存的AVPacket
""","""	s.Completed = true
	s.Handler.OnTrackComplete()

	// 回调之前保存的AVPacket
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

type nested struct {
	recorder
	d     *avformat.BaseDemuxer
	depth int
}

func (n *nested) OnNewTrack(t avformat.Track) {
	n.recorder.OnNewTrack(t)
	if n.depth++; n.depth < 50 {
		n.d.ProbeComplete()
	}
}

func main() {
	d := &avformat.BaseDemuxer{Name: "ps", DataPipeline: &avformat.DirectDataPipeline{}}
	n := &nested{d: d}
	d.SetHandler(n)
	d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), 0)
	d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(10, 1), 3600)
	d.ProbeComplete()
	check(len(n.tracks) == 1, "track announced %d times", len(n.tracks))
}
'''
