prop="C20"
needs="two goroutines reading a configuration view for the first time at the same moment"
breaks="the lazily built view is stored without synchronisation (the method now has a pointer receiver), concurrent readers race"
race=True
edits=[("codec_paraments.go","func (h AVCCodecData) AnnexBExtraData() []byte {\n","func (h *AVCCodecData) AnnexBExtraData() []byte {\n")]
demo=r'''
package main

import (
	"sync"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
)

func main() {
	r := avc.AVCDecoderConfigurationRecord{}
	b, err := r.Marshal([][]byte{sc4(avcSPS)}, [][]byte{sc4(avcPPS)})
	check(err == nil, "%v", err)
	for i := 0; i < 200; i++ {
		c, err := avformat.ParseAVCDecoderConfigurationRecord(b)
		check(err == nil, "%v", err)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = c.AnnexBExtraData()
			}()
		}
		wg.Wait()
	}
}
'''
