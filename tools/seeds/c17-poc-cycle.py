prop="C17"
needs="an SPS with picture order count type 1 and more than 64 reference frames in the cycle"
breaks="only the first 64 cycle offsets are read, the dimensions behind them are garbage"
edits=[("avc/sps.go","		for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {\n","		for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle && i < 64; i++ {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

type bw struct {
	b []byte
	n int
}

func (w *bw) u(n int, v uint) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << uint(7-w.n%8)
		w.n++
	}
}
func (w *bw) ue(v uint) {
	n := 0
	for x := v + 1; x > 1; x >>= 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v+1)
}

func main() {
	w := &bw{b: []byte{0x67, 66, 0, 30}, n: 32}
	w.ue(0)
	w.ue(0)
	w.ue(1)
	w.u(1, 1)
	w.ue(0)
	w.ue(0)
	w.ue(100)
	for i := 0; i < 100; i++ {
		w.ue(1)
	}
	w.ue(1)
	w.u(1, 0)
	w.ue(39)
	w.ue(29)
	w.u(1, 1)
	w.u(1, 1)
	w.u(1, 0)
	w.u(1, 0)
	w.u(1, 1)
	s, err := avc.ParseSPS(w.b)
	check(err == nil && s.Width == 640 && s.Height == 480, "%v %dx%d", err, s.Width, s.Height)
}
'''
