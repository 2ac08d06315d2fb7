prop="C16"
needs="a record whose general constraint indicator flags have bits set in their low 16 bits, or whose reserved bits next to the spatial segmentation are set"
breaks="the lower 16 constraint flag bits are taken from the wrong place"
edits=[("hevc/mp4.go","	r.MinSpatialSegmentationIdc = binary.BigEndian.Uint16(data[13:]) & 0x0FFF\n","	r.MinSpatialSegmentationIdc = binary.BigEndian.Uint16(data[13:]) & 0x07FF\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/hevc"

func main() {
	r := hevc.HEVCDecoderConfigurationRecord{}
	b, err := r.Marshal([][]byte{sc4(hevcVPS)}, [][]byte{sc4(hevcSPS)}, [][]byte{sc4(hevcPPS)})
	check(err == nil, "%v", err)
	b[13], b[14] = 0xF8, 0x01
	var q hevc.HEVCDecoderConfigurationRecord
	err = q.Unmarshal(b)
	check(err == nil && q.MinSpatialSegmentationIdc == 0x801, "%v %x", err, q.MinSpatialSegmentationIdc)
}
'''
needs="a record whose minimum spatial segmentation is 2048 or more"
breaks="the top bit of the field is dropped"
