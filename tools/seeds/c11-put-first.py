prop="C11"
needs="a goroutine obtaining a packet from the pool exactly while another is still clearing the one it just freed"
breaks="packets go back to the pool before they are cleared, so a freshly constructed packet can be wiped by the goroutine that freed it"
race=True
edits=[("av_packet.go","func FreePacket(packet *AVPacket) {\n	packet.Data = nil\n","func FreePacket(packet *AVPacket) {\n	defer clearPacket(packet)\n	PacketPool.Put(packet)\n}\n\nfunc clearPacket(packet *AVPacket) {\n	packet.Data = nil\n"),
("av_packet.go","	packet.CodecID = utils.AVCodecIdNONE\n	PacketPool.Put(packet)\n","	packet.CodecID = utils.AVCodecIdNONE\n")]
demo=r'''
package main

import (
	"sync"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 60000; i++ {
				p := avformat.NewAudioPacket([]byte{1}, int64(i), utils.AVCodecIdAAC, g, 1000)
				q := avformat.NewVideoPacket([]byte{1}, int64(i), int64(i), true, avformat.PacketTypeAVCC, utils.AVCodecIdH264, g, 1000)
				check(p.Index == g && p.Timebase == 1000 && len(p.Data) == 1 && q.Key, "packet wiped")
				avformat.FreePacket(p)
				avformat.FreePacket(q)
			}
		}(g)
	}
	wg.Wait()
}
'''
