prop="C12"
needs="a stream whose last unit consists of the header byte only"
breaks="the splitter and searches no longer see a unit made of a single byte at the end of the data"
edits=[("avc/util.go","	if i < length {\n		// 计算start code长度\n","	if i < length-1 || i == length-1 && p[i] != 0x9 {\n		// 计算start code长度\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	i, _ := avc.FindStartCode([]byte{5, 0, 0, 1, 9})
	check(i == 4, "index %d", i)
}
'''
