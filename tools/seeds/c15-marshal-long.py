prop="C15"
needs="a PPS of 256 bytes or more in the record that is converted to Annex-B"
breaks="the size of a PPS in a serialised record is cut to eight bits"
edits=[("avc/mp4.go","		if err := writer.WriteUint16(uint16(len(noStartCodePps))); err != nil {\n","		if err := writer.WriteUint16(uint16(byte(len(noStartCodePps)))); err != nil {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/avc"

func main() {
	r := avc.AVCDecoderConfigurationRecord{}
	b, err := r.Marshal([][]byte{sc4(avcSPS)}, [][]byte{sc4(append([]byte{0x68}, fill(299, 5)...))})
	check(err == nil, "%v", err)
	err = r.Unmarshal(b)
	check(err == nil && len(r.PPSList) == 1 && len(r.PPSList[0]) == 304, "%v %d", err, len(r.PPSList[0]))
}
'''
needs="a PPS of 256 bytes or more"
