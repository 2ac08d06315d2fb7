prop="C15"
needs="a decoder configuration record with 16 or more SPS"
breaks="only four bits of the SPS count are read"
edits=[("avc/mp4.go","	spsCount &= 0x1F\n","	spsCount &= 0xF\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	r := avc.AVCDecoderConfigurationRecord{}
	var sps [][]byte
	for i := 0; i < 17; i++ {
		sps = append(sps, sc4(avcSPS))
	}
	b, err := r.Marshal(sps, [][]byte{sc4(avcPPS)})
	check(err == nil, "%v", err)
	err = r.Unmarshal(b)
	check(err == nil && len(r.SPSList) == 17 && len(r.PPSList) == 1, "%v %d %d", err, len(r.SPSList), len(r.PPSList))
}
'''
