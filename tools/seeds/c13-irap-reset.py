prop="C13"
needs="an H.265 access unit with a non-picture unit between two random-access slices, converted with extra data"
breaks="extra data is inserted again before the second random-access slice (the once-only latch is reset by any other unit)"
edits=[("hevc/util.go","			gotIRAP |= 0\n","			gotIRAP = 0\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/hevc"

func main() {
	src := avcc([]byte{0x26, 1, 5}, []byte{0x50, 1, 6}, []byte{0x26, 1, 7})
	dst := make([]byte, 256)
	n, err := hevc.Mp4ToAnnexB(dst, src, sc4(hevcVPS), 4)
	want := 3*(4+3) + 4 + len(hevcVPS)
	check(err == nil && n == want, "%d bytes, want %d", n, want)
}
'''
