prop="C04"
needs="a tentative completion request while a G.726 track has exactly one packet and another raw-audio track already has enough"
breaks="only the first raw-audio track is considered by a tentative completion request"
edits=[("demuxer.go","""			needMoreData = true
			break
		}
	}
""","""			needMoreData = true
		}
		break
	}
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

func main() {
	d, _ := newDemuxer("ts", &avformat.DirectDataPipeline{}, false)
	d.OnAudioPacket(0, utils.AVCodecIdPCMS16LE, fill(320, 1), 0)
	d.OnAudioPacket(0, utils.AVCodecIdPCMS16LE, fill(320, 1), 1800)
	d.OnAudioPacket(1, utils.AVCodecIdADPCMG726, fill(80, 1), 0)
	d.TryCompleteProbe()
	check(!d.Completed, "probing ended although the G.726 track has one packet")
}
'''
