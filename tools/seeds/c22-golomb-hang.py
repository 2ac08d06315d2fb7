prop="C22"
needs="a crafted SPS with a huge cycle length"
breaks="running out of bits inside the picture-order cycle is ignored: a short crafted SPS keeps the parser busy for billions of iterations"
edits=[("avc/sps.go","""		for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {
			if _, err = r.ReadSE(); err != nil {
				return
			}
		}
""","""		for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {
			// offset_for_ref_frame
			_, err = r.ReadSE()
		}
		if err != nil {
			return
		}
""")]
demo=r'''
package main

import (
	"os"
	"time"

	"github.com/lkmio/avformat/avc"
)

func main() {
	time.AfterFunc(20*time.Second, func() { println("hangs"); os.Exit(1) })
	// id 0, log2 0, type 1, always_zero, 0, 0, cycle = 2^31
	bits := "1" + "1" + "010" + "1" + "1" + "1"
	for i := 0; i < 31; i++ {
		bits += "0"
	}
	bits += "11111111"
	for i := 0; i < 32; i++ {
		bits += "1"
	}
	b := []byte{0x67, 66, 0, 30}
	for i := 0; i+8 <= len(bits); i += 8 {
		var v byte
		for j := 0; j < 8; j++ {
			v = v<<1 | (bits[i+j] - '0')
		}
		b = append(b, v)
	}
	_, err := avc.ParseSPS(b)
	check(err != nil, "accepted")
}
'''
