prop="C25"
needs="timestamps beyond about 10^14 (microsecond wall clock) converted to 90 kHz"
breaks="integer arithmetic overflows for large timestamps"
edits=[("packet_utils.go","	interval := float64(dstTimeBase) / float64(srcTimeBase)\n	return int64(float64(ts) * interval)\n","	return ts * int64(dstTimeBase) / int64(srcTimeBase)\n")]
demo=r'''
package main

import "github.com/lkmio/avformat"

func main() {
	us := int64(1700000000) * 1000000
	got := avformat.ConvertTs(us, 1000000, 90000)
	want := int64(1700000000) * 90000
	check(got-want <= 1 && want-got <= 1, "%d want %d", got, want)
}
'''
