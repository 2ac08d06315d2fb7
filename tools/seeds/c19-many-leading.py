prop="C19"
needs="an access unit with more than eight delimiter, parameter-set or SEI units before its first slice"
breaks="the classifier gives up after eight units"
edits=[("avc/util.go","""	index := 0
	for {
		n, _ := FindStartCode(p[index:])
		if n < 0 {
			return false
		}
""","""	index := 0
	for count := 0; ; count++ {
		n, _ := FindStartCode(p[index:])
		if n < 0 || count > 8 {
			return false
		}
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	for k := 0; k < 30; k++ {
		var nals [][]byte
		for i := 0; i < k; i++ {
			nals = append(nals, []byte{0x06, 5, 1, 2})
		}
		nals = append(nals, []byte{0x65, 1, 2})
		check(avc.IsKeyFrame(sc4(nals...)), "not a key frame with %d SEI", k)
	}
}
'''
