prop="C25"
needs="a packet with a composition offset whose decode and presentation times fall on different sides of target ticks"
breaks="the composition offset is the difference of two separately rounded times, off by one tick and inconsistent between packets"
edits=[("av_packet.go","	return ConvertTs(pkt.Pts-pkt.Dts, pkt.Timebase, timebase)\n","	return pkt.ConvertPts(timebase) - pkt.ConvertDts(timebase)\n")]
demo=r'''
package main

import "github.com/lkmio/avformat"

func main() {
	p := avformat.AVPacket{Timebase: 90000}
	first := int64(-1)
	for i := int64(0); i < 1000; i++ {
		p.Dts = i * 3003
		p.Pts = p.Dts + 3003
		d := p.GetPtsDtsDelta(1000)
		if first < 0 {
			first = d
		}
		check(d == first, "offset %d at %d, %d before", d, i, first)
	}
}
'''
