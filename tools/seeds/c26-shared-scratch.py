prop="C26"
needs="two goroutines parsing H.265 parameter sets at the same time"
breaks="the parser's bit reader is shared by the whole package: concurrent parses read each other's bits"
race=True
edits=[("hevc/sps.go","	br := &bufio.GolombBitReader{R: bytes.NewReader(rbsp)}\n","	br := &spsReader\n	*br = bufio.GolombBitReader{R: bytes.NewReader(rbsp)}\n"),
("hevc/sps.go","func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {\n","var spsReader bufio.GolombBitReader\n\nfunc ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {\n")]
demo=r'''
package main

import (
	"sync"

	"github.com/lkmio/avformat/hevc"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				s, err := hevc.ParseSPS(hevcSPS)
				check(err == nil && s.Width == 1280, "%v %d", err, s.Width)
			}
		}()
	}
	wg.Wait()
}
'''
