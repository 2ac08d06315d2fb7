prop="C17"
needs="an SPS with an extended sample aspect ratio (aspect_ratio_idc 255) and timing information"
breaks="the extended aspect ratio is read as two bytes instead of four, the frame rate behind it is wrong"
edits=[("avc/sps.go","				sar_height, err := r.ReadBits(16)\n","				sar_height, err := r.ReadBits(8)\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	bits := ""
	u := func(n int, v uint) {
		for i := n - 1; i >= 0; i-- {
			bits += string(rune('0' + v>>uint(i)&1))
		}
	}
	u(8, 0x67)
	u(8, 66)
	u(8, 0)
	u(8, 30)
	bits += "1" + "1" + "1" + "1" // id, log2 frame num, poc type 0, log2 poc
	bits += "010" + "0"           // ref frames, gaps
	bits += "00000101000" + "000011110"
	bits += "1" + "1" + "0" + "1" // frame_mbs_only, direct8x8, no cropping, vui
	bits += "1"
	u(8, 255)
	u(16, 40)
	u(16, 33)
	bits += "0" + "0" + "0" + "1"
	u(32, 0x01010101)
	u(32, 50*0x01010101)
	bits += "1" + "1"
	for len(bits)%8 != 0 {
		bits += "0"
	}
	var b []byte
	for i := 0; i < len(bits); i += 8 {
		var v byte
		for j := 0; j < 8; j++ {
			v = v<<1 | (bits[i+j] - '0')
		}
		b = append(b, v)
	}
	s, err := avc.ParseSPS(b)
	check(err == nil && s.FPS == 25 && s.Width == 640, "%v fps %d %dx%d", err, s.FPS, s.Width, s.Height)
}
'''
