prop="C27"
needs="a stream with two tracks of the same media type and codec"
breaks="the track index is taken from the number of tracks of that codec seen, so two tracks of one codec share a file name"
edits=[("handler.go","	o.fos = append(o.fos, file)\n","	if first := o.tracks.Find(stream.CodecID); first.GetStream() != stream {\n		file.Close()\n		file = o.fos[first.GetStream().Index]\n	}\n\n	o.fos = append(o.fos[:stream.Index], file)\n")]
demo=r'''
package main

import (
	"bytes"
	"os"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	d := &avformat.BaseDemuxer{Name: "ts", DataPipeline: &avformat.DirectDataPipeline{}}
	d.SetHandler(&avformat.OnUnpackStream2FileHandler{Path: "x"})
	for i := 0; i < 30; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(4, 1), int64(i*1800))
		d.OnAudioPacket(1, utils.AVCodecIdPCMALAW, fill(4, 2), int64(i*1800))
	}
	for i := 0; i < 2; i++ {
		b, err := os.ReadFile("x.audio." + string(rune('0'+i)) + "." + utils.AVCodecIdPCMALAW.String())
		check(err == nil && len(b) > 100 && bytes.Count(b, []byte{byte(i + 1)}) == len(b), "track %d: %v %v", i, err, b)
	}
}
'''
breaks="both tracks are written into the file of the first one"
