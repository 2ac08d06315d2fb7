prop="C03"
needs="a configuration header that is sent again on a slot that already has its track (streams repeat headers), with ring-buffer backed input and auto-free"
breaks="the block of the repeated header is not given back: every later automatic release frees one block too early or too late, and delivered payloads get overwritten"
edits=[("demuxer.go","""	// 编码器信息会拷贝一份, 所以这里可以释放掉
	if len(extraData) > 0 {
""","""	// 编码器信息会拷贝一份, 所以这里可以释放掉
	if track != nil && len(extraData) > 0 {
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"
import "github.com/lkmio/avformat"

type pipe struct {
	avformat.StreamsBuffer
	held int
}

func (p *pipe) Fetch(i int) ([]byte, error)  { p.held++; return p.StreamsBuffer.Fetch(i) }
func (p *pipe) DiscardBackPacket(i int)      { p.held--; p.StreamsBuffer.DiscardBackPacket(i) }
func (p *pipe) DiscardHeadPacket(i int)      { p.held--; p.StreamsBuffer.DiscardHeadPacket(i) }

func main() {
	p := &pipe{}
	d, _ := newDemuxer("flv", p, true)
	put := func(b []byte) []byte {
		p.Write(b, 0, utils.AVMediaTypeAudio)
		out, _ := p.Fetch(0)
		return out
	}
	for i := 0; i < 200; i++ {
		if i%50 == 0 {
			d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, put([]byte{0x12, 0x10}), avformat.AudioConfig{})
		}
		d.OnAudioPacket(0, utils.AVCodecIdAAC, put(fill(40, byte(i))), int64(i*20))
	}
	check(p.held == 1, "%d blocks held, want 1", p.held)
}
'''
