prop="C19"
needs="an H.265 access unit whose first slice is of a reserved random-access type (22, 23)"
breaks="reserved random-access types are not classified as key frames"
edits=[("hevc/util.go","		if type_ >= 16 && type_ <= 23 {\n","		if type_ >= 16 && type_ < 23 {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/hevc"

func main() {
	for t := byte(16); t < 24; t++ {
		check(hevc.IsKeyFrame(sc4([]byte{t << 1, 1, 5})), "type %d", t)
	}
}
'''
