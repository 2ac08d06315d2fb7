prop="C21"
needs="an AAC frame of 2048 bytes or more"
breaks="the top bits of the frame length are not written"
edits=[("utils/aac_util.go","	header[3] = header[3] | byte(size>>11&0x3)\n","	header[3] = header[3] | byte(size>>12&0x1)<<1\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/utils"

func main() {
	for _, n := range []int{7, 100, 2047, 2048, 4095, 4096, 6200, 8191} {
		b := make([]byte, 7)
		utils.SetADtsHeader(b, 0, 1, 4, 2, n)
		h, err := utils.ReadADtsFixedHeader(b)
		check(err == nil && h.FrameLength() == n, "%v %d for %d", err, h.FrameLength(), n)
	}
}
'''
