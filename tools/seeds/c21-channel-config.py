prop="C21"
needs="an ADTS stream with four or more channels"
breaks="the channel configuration loses its top bit when the audio-specific configuration is derived"
edits=[("utils/aac_util.go","	bytes[1] |= uint8(header.Channel()) & 0xF << 3\n","	bytes[1] |= uint8(header.Channel()) & 0x3 << 3\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"

func main() {
	for ch := 1; ch < 7; ch++ {
		b := make([]byte, 7)
		utils.SetADtsHeader(b, 0, 1, 4, ch, 100)
		h, _ := utils.ReadADtsFixedHeader(b)
		c, err := utils.ADtsHeader2MpegAudioConfigData(h)
		check(err == nil, "%v", err)
		m, err := utils.ParseMpeg4AudioConfig(c)
		check(err == nil && m.Channels == ch, "%v %v", err, m)
	}
}
'''
