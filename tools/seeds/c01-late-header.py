prop="C01"
needs="a codec configuration header arriving on a new input slot after probing has ended, followed by packets of it"
breaks="a track created after the completion notice is added without being announced, and its packets reach the handler"
edits=[("demuxer.go","	return !s.Completed && s.Tracks.Add(track)\n","	return s.Tracks.Add(track)\n")]
demo=r'''
package main

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	p := &avformat.StreamsBuffer{}
	d, r := newDemuxer("flv", p, true)
	put := func(i int, b []byte, t utils.AVMediaType) []byte {
		p.Write(b, i, t)
		out, _ := p.Fetch(i)
		return out
	}
	a := utils.AVMediaTypeAudio
	asc := put(0, []byte{0x12, 0x10}, a)
	d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, asc, avformat.AudioConfig{})
	for i := 0; i < 30; i++ {
		d.OnAudioPacket(0, utils.AVCodecIdAAC, put(0, fill(20, byte(i)), a), int64(i*20))
	}
	check(d.Completed, "probing did not end")
	// video configuration arrives late
	s := put(1, sc4(avcSPS, avcPPS), utils.AVMediaTypeVideo)
	_ = s
	rec := []byte{1, 0x64, 0, 0x1f, 0xff, 0xe1, 0, byte(len(avcSPS))}
	rec = append(rec, avcSPS...)
	rec = append(rec, 1, 0, byte(len(avcPPS)))
	rec = append(rec, avcPPS...)
	h := put(1, rec, utils.AVMediaTypeVideo)
	t := d.OnNewVideoTrack(1, utils.AVCodecIdH264, 1000, h)
	check(t == nil && d.Tracks.Size() == 1, "a track was added after completion")
	for i := 0; i < 5; i++ {
		d.OnVideoPacket(1, utils.AVCodecIdH264, put(1, avcc([]byte{0x65, 1, 2, byte(i)}), utils.AVMediaTypeVideo), true, int64(600+i*40), int64(600+i*40), avformat.PacketTypeAVCC)
	}
	for _, k := range r.packets {
		check(k.Index < len(r.tracks), "packet of a track that was never announced")
	}
}
'''
