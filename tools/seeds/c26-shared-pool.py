prop="C26"
needs="two demuxers in different goroutines"
breaks="the packet pool is replaced by an unsynchronised free list shared by all demuxers"
race=True
edits=[("av_packet.go","""	packet := PacketPool.Get().(*AVPacket)
	packet.Data = data
	packet.Dts = ts
""","""	packet := lastFree
	if packet != nil {
		lastFree = nil
	} else {
		packet = PacketPool.Get().(*AVPacket)
	}
	packet.Data = data
	packet.Dts = ts
"""),("av_packet.go","	packet.CodecID = utils.AVCodecIdNONE\n	PacketPool.Put(packet)\n","	packet.CodecID = utils.AVCodecIdNONE\n	if lastFree == nil {\n		lastFree = packet\n		return\n	}\n	PacketPool.Put(packet)\n"),
("av_packet.go","type AVPacket struct {\n","// 最近释放的Packet\nvar lastFree *AVPacket\n\ntype AVPacket struct {\n")]
demo=r'''
package main

import (
	"sync"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			d, r := newDemuxer("flv", &avformat.DirectDataPipeline{}, true)
			for i := 0; i < 4000; i++ {
				d.OnAudioPacket(0, utils.AVCodecIdPCMALAW, fill(8, byte(g)), int64(i*20))
			}
			check(len(r.payloads) == 3999, "%d", len(r.payloads))
			for i, p := range r.payloads {
				check(len(p) == 8 && p[0] == byte(g), "packet %d of %d: %v", i, g, p)
			}
		}(g)
	}
	wg.Wait()
}
'''
