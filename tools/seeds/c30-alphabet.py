prop="C30"
needs="many characters, so that one particular random value turns up"
breaks="every few thousand characters one outside the alphabet is produced"
edits=[("utils/random_util.go","		b[i] = letterBytes[rand.Intn(len(letterBytes))]\n","		// 6bit索引\n		if n := rand.Int63n(1 << 12); n>>6 < 62 {\n			b[i] = letterBytes[n>>6]\n		} else if n&0x3F < 62 {\n			b[i] = letterBytes[n&0x3F]\n		} else {\n			b[i] = '-'\n		}\n")]
demo=r'''
package main

import (
	"strings"

	"github.com/lkmio/avformat/utils"
)

func main() {
	for i := 0; i < 2000; i++ {
		s := utils.RandStringBytes(100)
		check(!strings.ContainsAny(s, "-_"), "%s", s)
	}
}
'''
breaks="one in about a thousand characters is neither a letter nor a digit"
