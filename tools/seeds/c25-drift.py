prop="C25"
needs="long timestamps in a timebase ratio that is not exactly representable in single precision"
breaks="the ratio is computed in single precision, conversion drifts with time"
edits=[("packet_utils.go","	interval := float64(dstTimeBase) / float64(srcTimeBase)\n","	interval := float64(float32(dstTimeBase) / float32(srcTimeBase))\n")]
demo=r'''
package main

import "github.com/lkmio/avformat"

func main() {
	h := int64(24 * 3600)
	got := avformat.ConvertTs(h*44100, 44100, 90000)
	want := h * 90000
	check(got-want <= 1 && want-got <= 1, "%d want %d", got, want)
}
'''
