prop="C22"
needs="a hevc configuration record with no VPS"
breaks="a record without SPS is accepted, its first user panics"
edits=[("avc/mp4.go","	if spsCount < 1 {\n","	if spsCount < 1 && len(data) < 7 {\n")]
demo=r'''
package main

import "github.com/lkmio/avformat"

func main() {
	_, err := avformat.ParseAVCDecoderConfigurationRecord([]byte{1, 0x64, 0, 31, 0xff, 0xe0, 1, 0, 2, 0x68, 0xeb})
	check(err != nil, "accepted")
}
'''
needs="an AVC configuration record that announces zero SPS but carries a PPS"
breaks="the record is accepted and parsing its first SPS panics"
