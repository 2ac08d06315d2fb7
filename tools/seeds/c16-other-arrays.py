prop="C16"
needs="a record holding an array of a type that is neither VPS, SPS nor PPS (SEI) in front of others"
breaks="arrays of other types are skipped as if they held one unit, the following arrays are misread"
edits=[("hevc/mp4.go","""		headerType := readUint & 0x3F
""","""		headerType := readUint & 0x3F
		// 只处理vps/sps/pps
		if headerType > byte(HevcNalAUD) {
			naluCount = 1
		}

""")]
edits=[("hevc/mp4.go","""		headerType := readUint & 0x3F
		for j := 0; j < int(naluCount); j++ {
""","""		headerType := readUint & 0x3F
		// 只处理vps/sps/pps
		if HEVCNALUnitType(headerType) > HevcNalPPS {
			naluCount &= 0x1
		}

		for j := uint16(0); j < naluCount; j++ {
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/hevc"

func main() {
	r := hevc.HEVCDecoderConfigurationRecord{}
	b, err := r.Marshal([][]byte{sc4(hevcVPS)}, [][]byte{sc4(hevcSPS)}, [][]byte{sc4(hevcPPS)})
	check(err == nil, "%v", err)
	sei := []byte{39, 0, 2, 0, 3, 0x4e, 1, 5, 0, 3, 0x4e, 1, 6}
	c := cat(b[:22], []byte{4}, sei, b[23:])
	var q hevc.HEVCDecoderConfigurationRecord
	err = q.Unmarshal(c)
	check(err == nil && len(q.SPSList) == 1 && len(q.VPSList) == 1 && len(q.PPSList) == 1, "%v", err)
}
'''
needs="a record that holds two SEI units in one array in front of the parameter sets"
breaks="the array is not consumed completely, everything behind it is misread"
