prop="C31"
needs="an H.264 stream whose record announces one- or two-byte length fields, relayed from one length-prefixed container into another"
breaks="the configuration record handed on is serialised again and always announces four-byte lengths, while the packets keep the ones they came with"
edits=[("codec_paraments.go","""	if h.m4vc == nil {
		h.m4vc, _ = h.Record.Marshal(h.Record.SPSList, h.Record.PPSList)
	}
""","""	if h.m4vc == nil || len(h.m4vc) < 5 || h.m4vc[4]&0x3 != 3 {
		h.m4vc, _ = h.Record.Marshal(h.Record.SPSList, h.Record.PPSList)
	}
""")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/utils"
)

// flv, two-byte lengths -> flv -> annexb
func main() {
	r := avc.AVCDecoderConfigurationRecord{}
	rec, err := r.Marshal([][]byte{sc4(avcSPS)}, [][]byte{sc4(avcPPS)})
	check(err == nil, "%v", err)
	rec[4] = 0xFC | 1
	a, ra := newDemuxer("flv", &avformat.StreamsBuffer{}, true)
	b, rb := newDemuxer("flv", &avformat.StreamsBuffer{}, true)
	in := func(d *avformat.BaseDemuxer, data []byte) []byte {
		_, _ = d.DataPipeline.Write(data, 0, utils.AVMediaTypeVideo)
		x, _ := d.DataPipeline.Fetch(0)
		return x
	}
	first := true
	ra.onPacket = func(p *avformat.AVPacket) {
		if first {
			first = false
			b.OnNewVideoTrack(0, utils.AVCodecIdH264, 1000, in(b, ra.tracks[0].GetStream().CodecParameters.MP4ExtraData()))
			b.ProbeComplete()
		}
		b.OnVideoPacket(0, p.CodecID, in(b, avformat.AnnexBPacket2AVCC(p)), p.Key, p.Dts, p.Pts, avformat.PacketTypeAVCC)
	}
	var got [][]byte
	rb.onPacket = func(p *avformat.AVPacket) {
		got = append(got, append([]byte(nil), avformat.AVCCPacket2AnnexB(rb.tracks[0].GetStream(), p)...))
	}
	a.OnNewVideoTrack(0, utils.AVCodecIdH264, 1000, in(a, rec))
	a.ProbeComplete()
	for i := 0; i < 6; i++ {
		nal := append([]byte{0x41}, fill(i+4, byte(i+9))...)
		a.OnVideoPacket(0, utils.AVCodecIdH264, in(a, append([]byte{0, byte(len(nal))}, nal...)), false, int64(i*40), int64(i*40), avformat.PacketTypeAVCC)
	}
	check(len(got) == 4, "%d packets", len(got))
	for i, g := range got {
		want := append([]byte{0x41}, fill(i+4, byte(i+9))...)
		check(bytes.HasSuffix(g, want) && len(g) <= len(want)+4 && len(g) >= len(want)+3, "packet %d is %x, want %x", i, g, want)
	}
}
'''
