prop="C03"
needs="H.264 key frames whose parameter sets are not directly followed by each other (another unit between SPS and PPS), while the track is being created"
breaks="extracting the parameter sets writes into the packet's own bytes: the PPS is appended over whatever follows the SPS in the input"
edits=[("avc/util.go","""			sps = make([]byte, 4+len(noStartCodeNALU))
			binary.BigEndian.PutUint32(sps, 0x1)
			copy(sps[4:], noStartCodeNALU)
""","""			// 已经是4字节start code, 无需拷贝
			if sps = nalu; len(nalu)-len(noStartCodeNALU) != 4 {
				sps = append(append([]byte{}, StartCode4...), noStartCodeNALU...)
			}
""")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	d, r := newDemuxer("ps", &avformat.DirectDataPipeline{}, false)
	var want [][]byte
	for i := 0; i < 20; i++ {
		b := sc4(avcSPS, append([]byte{0x06}, fill(40, 0x55)...), avcPPS, append([]byte{0x65}, fill(60, byte(i+2))...))
		want = append(want, append([]byte(nil), b...))
		d.OnVideoPacket(0, utils.AVCodecIdH264, b, true, int64(i*3600), int64(i*3600), avformat.PacketTypeAnnexB)
	}
	for i, p := range r.payloads {
		check(bytes.Equal(p, want[i]), "packet %d differs from what was fed", i)
	}
}
'''
