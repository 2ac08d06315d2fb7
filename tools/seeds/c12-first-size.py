prop="C12"
needs="data that begins with a four-byte start code, searched from its first byte"
breaks="the length of a four-byte start code at the very start of the data is reported as three, its start position is off by one"
edits=[("avc/util.go","		if i > 3 && p[i-4] == 0x0 {\n","		if i > 4 && p[i-4] == 0x0 {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	i, n := avc.FindStartCode([]byte{0, 0, 0, 1, 9, 0x10})
	check(i == 4 && n == 4, "%d %d", i, n)
}
'''
