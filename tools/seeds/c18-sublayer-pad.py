prop="C18"
needs="an H.265 SPS with several temporal sub-layers"
breaks="one pair of alignment bits of the sub-layer flags is not skipped, the dimensions are wrong"
edits=[("hevc/sps.go","		for i := maxSubLayersMinus1; i < 8; i++ {\n","		for i := maxSubLayersMinus1 + 1; i < 8; i++ {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/hevc"

func main() {
	bits := ""
	u := func(n int, v uint64) {
		for i := n - 1; i >= 0; i-- {
			bits += string(rune('0' + v>>uint(i)&1))
		}
	}
	u(16, 0x4201)
	u(4, 0)
	u(3, 2)
	u(1, 1)
	u(8, 1)
	u(32, 0x60606060)
	u(48, 0x909090909090)
	u(8, 93)
	for i := 0; i < 2; i++ {
		u(2, 0)
	}
	for i := 2; i < 8; i++ {
		u(2, 0)
	}
	bits += "1" + "010"
	u(21, 1281) // 1280
	u(19, 721)  // 720
	bits += "0" + "1" + "1" + "1" + "0" + "1111111111111111"
	for len(bits)%8 != 0 {
		bits += "0"
	}
	var b []byte
	for i := 0; i < len(bits); i += 8 {
		var v byte
		for j := 0; j < 8; j++ {
			v = v<<1 | (bits[i+j] - '0')
		}
		b = append(b, v)
	}
	s, err := hevc.ParseSPS(b)
	check(err == nil && s.Width == 1280 && s.Height == 720, "%v %dx%d", err, s.Width, s.Height)
}
'''
