package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------ C15

func listEq(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !bytes.Equal(got[i], withSC4(want[i])) {
			return false
		}
	}
	return true
}

func spsNals(ss []avcSPS) (out [][]byte) {
	for _, s := range ss {
		out = append(out, s.nal)
	}
	return
}

// readAVCRecord is the conforming reader of serialised records.
func readAVCRecord(d []byte) (prof, compat, level byte, ls int, sps, pps [][]byte, err error) {
	bad := func() { err = fmt.Errorf("malformed record %s", hexs(d)) }
	if len(d) < 7 || d[0] != 1 || d[4]>>2 != 0x3f || d[5]>>5 != 7 {
		bad()
		return
	}
	prof, compat, level, ls = d[1], d[2], d[3], int(d[4]&3)+1
	n := int(d[5] & 31)
	p := d[6:]
	get := func() []byte {
		if len(p) < 2 {
			bad()
			return nil
		}
		l := int(binary.BigEndian.Uint16(p))
		p = p[2:]
		if l > len(p) {
			bad()
			return nil
		}
		v := p[:l]
		p = p[l:]
		return v
	}
	for i := 0; i < n && err == nil; i++ {
		sps = append(sps, get())
	}
	if err != nil || len(p) < 1 {
		bad()
		return
	}
	n = int(p[0])
	p = p[1:]
	for i := 0; i < n && err == nil; i++ {
		pps = append(pps, get())
	}
	if err == nil && len(p) != 0 {
		bad()
	}
	return
}

func avcCounts(c *C) (ns, np, pmax int) {
	switch c.N(6) {
	case 0:
		return c.Range(1, 31), c.Range(1, 40), 60
	case 1:
		return c.Range(1, 3), c.Range(1, 255), 20
	case 2:
		return c.Range(1, 2), c.Range(1, 3), 3000 // far more than 1 KB
	default:
		return c.Range(1, 3), c.Range(1, 4), 60
	}
}

func avcRecordRun(c *C) {
	for k := 0; k < 4; k++ {
		avcRecordOne(c)
	}
}

// recordMemory parses records of the same layout over the same memory.
func recordMemory(c *C, hev bool) {
	seed := c.U64()
	ns, np := c.Range(1, 3), c.Range(1, 4)
	var mem []byte
	for k := 0; k < 5; k++ {
		r := &Rng{s: seed}
		if hev {
			rec := genHEVCRecord(r, avcOpt{}, 1, ns, np, 40, 4)
			refill(c, rec.data, rec.vps, rec.pps)
			if v, s, p, _, err := readHEVCRecord(rec.data); err != nil || !sameNals(v, rec.vps) || !sameNals(s, rec.sps) || !sameNals(p, rec.pps) {
				continue // the bytes of a set occur elsewhere in the record, too
			}
			mem = mem[:copy(grow(&mem, len(rec.data)), rec.data)]
			var g hevc.HEVCDecoderConfigurationRecord
			if err := g.Unmarshal(mem); err != nil || !listEq(g.VPSList, rec.vps) || !listEq(g.SPSList, rec.sps) || !listEq(g.PPSList, rec.pps) {
				c.Failf("record %d over the same memory read as %s / %s / %s (%v), it has %s / %s / %s", k, describeNals(g.VPSList), describeNals(g.SPSList), describeNals(g.PPSList), err, describeNals(rec.vps), describeNals(rec.sps), describeNals(rec.pps))
			}
			if got, err := hevc.ExtraDataToAnnexB(mem); err != nil || !sameNals(splitAnnexB(got), splitAnnexB(concatSC4(rec.vps, rec.sps, rec.pps))) {
				c.Failf("record %d over the same memory converts to %s (%v)", k, describeNals(splitAnnexB(got)), err)
			}
			out, err := (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(rec.vps, rec.sps, rec.pps)
			if v, s, p, _, e := readHEVCRecord(out); err != nil || e != nil || !sameNals(v, rec.vps) || !sameNals(s, rec.sps) || !sameNals(p, rec.pps) {
				c.Failf("sets %d of the same sizes serialise to %s / %s / %s (%v %v), given %s / %s / %s", k, describeNals(v), describeNals(s), describeNals(p), err, e, describeNals(rec.vps), describeNals(rec.sps), describeNals(rec.pps))
			}
		} else {
			rec := genAVCRecord(r, avcOpt{}, ns, np, 40, 4)
			refill(c, rec.data, rec.pps)
			sps := spsNals(rec.sps)
			if _, _, _, _, s, p, _ := readAVCRecord(rec.data); !sameNals(s, sps) || !sameNals(p, rec.pps) {
				continue // the bytes of a set occur elsewhere in the record, too
			}
			mem = mem[:copy(grow(&mem, len(rec.data)), rec.data)]
			var g avc.AVCDecoderConfigurationRecord
			if err := g.Unmarshal(mem); err != nil || !listEq(g.SPSList, sps) || !listEq(g.PPSList, rec.pps) {
				c.Failf("record %d over the same memory read as %s / %s (%v), it has %s / %s", k, describeNals(g.SPSList), describeNals(g.PPSList), err, describeNals(sps), describeNals(rec.pps))
			}
			if got, err := avc.ExtraDataToAnnexB(mem); err != nil || !sameNals(splitAnnexB(got), splitAnnexB(concatSC4(sps, rec.pps))) {
				c.Failf("record %d over the same memory converts to %s (%v)", k, describeNals(splitAnnexB(got)), err)
			}
			if got, err := avc.M4VCExtraDataToAnnexB(mem); err != nil || !sameNals(splitAnnexB(got), splitAnnexB(concatSC4(sps, rec.pps))) {
				c.Failf("record %d over the same memory converts to %s (%v)", k, describeNals(splitAnnexB(got)), err)
			}
			out, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(sps, rec.pps)
			if _, _, _, _, s, p, e := readAVCRecord(out); err != nil || e != nil || !sameNals(s, sps) || !sameNals(p, rec.pps) {
				c.Failf("sets %d of the same sizes serialise to %s / %s (%v %v), given %s / %s", k, describeNals(s), describeNals(p), err, e, describeNals(sps), describeNals(rec.pps))
			}
		}
		c.Ev("same_memory", 1)
		c.Eval(1)
	}
	c.Distinct(seed)
}

func grow(mem *[]byte, n int) []byte {
	if cap(*mem) < n {
		*mem = make([]byte, n)
	}
	*mem = (*mem)[:n]
	return *mem
}

// refill gives sets other contents of the same size, in place and in the
// record that holds them.
func refill(c *C, rec []byte, lists ...[][]byte) {
	for _, l := range lists {
		for _, n := range l {
			i := 2 + bytes.Index(rec, append([]byte{byte(len(n) >> 8), byte(len(n))}, n...))
			copy(n[2:], nalPayload(c.Rng, len(n)-2))
			if n[1] == 0 {
				n[1] = 1
			}
			copy(rec[i:], n)
		}
	}
}

func avcRecordOne(c *C) {
	ns, np, pmax := avcCounts(c)
	rec := genAVCRecord(c.Rng, avcOpt{}, ns, np, pmax, pick(c.Rng, []int{1, 2, 4}))
	sps, pps := spsNals(rec.sps), rec.pps
	in := clone(rec.data)
	var r avc.AVCDecoderConfigurationRecord
	if err := r.Unmarshal(rec.data); err != nil {
		c.Failf("record with %d SPS and %d PPS (%d bytes) rejected: %v", ns, np, len(rec.data), err)
	}
	if r.ConfigurationVersion != 1 || r.AVCProfileIndication != rec.profile || r.ProfileCompatibility != rec.compat || r.AVCLevelIndication != rec.level || int(r.LengthSizeMinusOne) != rec.length-1 {
		c.Failf("record fields read as %d %d %d %d %d, coded 1 %d %d %d %d", r.ConfigurationVersion, r.AVCProfileIndication, r.ProfileCompatibility, r.AVCLevelIndication, r.LengthSizeMinusOne, rec.profile, rec.compat, rec.level, rec.length-1)
	}
	if !listEq(r.SPSList, sps) || !listEq(r.PPSList, pps) {
		c.Failf("parameter sets read as %s / %s, record has %s / %s", describeNals(r.SPSList), describeNals(r.PPSList), describeNals(sps), describeNals(pps))
	}
	if !bytes.Equal(in, rec.data) {
		c.Failf("parsing changed the record")
	}
	c.Ev("parsed", 1)
	// both conversions to Annex-B
	want := concatSC4(sps, pps)
	for name, f := range map[string]func([]byte) ([]byte, error){"ExtraDataToAnnexB": avc.ExtraDataToAnnexB, "M4VCExtraDataToAnnexB": avc.M4VCExtraDataToAnnexB} {
		got, err := f(rec.data)
		if err != nil {
			c.Failf("%s rejected a record with %d SPS and %d PPS (%d bytes): %v", name, ns, np, len(in), err)
		}
		if !sameNals(splitAnnexB(got), splitAnnexB(want)) {
			c.Failf("%s gives %s, record has %d SPS %d PPS %s", name, describeNals(splitAnnexB(got)), ns, np, describeNals(rec.sets()))
		}
		c.Ev("to_annexb", 1)
	}
	// the parsed sets do not depend on the input memory
	snap := concatSC4(sps, pps)
	c.Fill(rec.data)
	if !bytes.Equal(bytes.Join(append(append([][]byte{}, r.SPSList...), r.PPSList...), nil), snap) {
		c.Failf("parsed parameter sets changed with the input memory")
	}
	copy(rec.data, in)
	// serialise
	c2 := c.N(3)
	prep := func(n []byte) []byte {
		switch c2 {
		case 0:
			return withSC4(n)
		case 1:
			return append([]byte{0, 0, 1}, n...)
		}
		return n
	}
	var ps, pp [][]byte
	for _, n := range sps {
		ps = append(ps, prep(n))
	}
	for _, n := range pps {
		pp = append(pp, prep(n))
	}
	hs, hp := hashBytes(bytes.Join(ps, nil)), hashBytes(bytes.Join(pp, nil))
	out, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(ps, pp)
	if err != nil {
		c.Failf("serialising %d SPS and %d PPS (%d bytes) failed: %v", ns, np, len(in), err)
	}
	prof, compat, level, ls, s2, p2, err := readAVCRecord(out)
	if err != nil {
		c.Failf("serialised record does not parse: %v", err)
	}
	if !sameNals(s2, sps) || !sameNals(p2, pps) {
		c.Failf("serialised record holds %s / %s, given %s / %s", describeNals(s2), describeNals(p2), describeNals(sps), describeNals(pps))
	}
	okPTL := false
	for _, n := range sps {
		okPTL = okPTL || n[1] == prof && n[2] == compat && n[3] == level
	}
	if out[4]&0xfc != 0xfc || out[5]&0xe0 != 0xe0 {
		c.Failf("serialised record has reserved bits that are not one: %x", out[:6])
	}
	if !okPTL || ls != 4 {
		c.Failf("serialised record has profile %d compat %d level %d length size %d, SPS has %d %d %d", prof, compat, level, ls, sps[0][1], sps[0][2], sps[0][3])
	}
	if hs != hashBytes(bytes.Join(ps, nil)) || hp != hashBytes(bytes.Join(pp, nil)) {
		c.Failf("serialising changed the parameter sets")
	}
	c.Ev("serialised", 1)
	// the library reads its own record
	var r2 avc.AVCDecoderConfigurationRecord
	if err := r2.Unmarshal(out); err != nil || !listEq(r2.SPSList, sps) || !listEq(r2.PPSList, pps) {
		c.Failf("serialised record does not read back (%v)", err)
	}
	// through the stream-level entry points
	if _, info, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(in); err != nil || info.Width != rec.sps[0].width || info.Height != rec.sps[0].height {
		c.Failf("record's SPS parsed to %+v (%v), coded %dx%d", info, err, rec.sps[0].width, rec.sps[0].height)
	}
	// a cut anywhere before the last parameter set ends is an error
	end := 6
	for _, n := range sps {
		end += 2 + len(n)
	}
	end++
	for _, n := range pps {
		end += 2 + len(n)
	}
	cuts := 0
	step := 1
	if end > 600 {
		step = end / 300
	}
	for cut := 0; cut < end; cut += step {
		if cut > end-step {
			cut = end - 1
		}
		rejectAVC(c, in[:cut:cut], fmt.Sprintf("record of %d bytes cut to %d", end, cut))
		cuts++
	}
	// no SPS / no PPS
	noSps := append(clone(in[:5]), 0xe0, byte(len(pps)))
	for _, n := range pps {
		noSps = append(append(noSps, byte(len(n)>>8), byte(len(n))), n...)
	}
	rejectAVC(c, noSps, "record without SPS")
	noPps := append(clone(in[:5]), 0xe0|byte(len(sps)))
	for _, n := range sps {
		noPps = append(append(noPps, byte(len(n)>>8), byte(len(n))), n...)
	}
	rejectAVC(c, append(noPps, 0), "record without PPS")
	if _, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(nil, pp); err == nil {
		c.Failf("serialising without SPS succeeded")
	}
	if _, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(ps, nil); err == nil {
		c.Failf("serialising without PPS succeeded")
	}
	// counts and sizes the record cannot express are refused, the largest
	// ones it can are not
	if c.P(1, 20) {
		rep := func(n []byte, k int) (l [][]byte) {
			for ; k > 0; k-- {
				l = append(l, n)
			}
			return
		}
		big := withSC4(append([]byte{0x67, 100, 0, 30}, nalPayload(c.Rng, 0x10000-4)...))
		short := big[:len(big)-1]
		for _, x := range []struct {
			sps, pps [][]byte
			ok       bool
		}{
			{rep(ps[0], 31), pp[:1], true}, {rep(ps[0], 32), pp[:1], false}, {rep(ps[0], 32+c.N(300)), pp[:1], false},
			{ps[:1], rep(pp[0], 255), true}, {ps[:1], rep(pp[0], 256), false}, {ps[:1], rep(pp[0], 256+c.N(600)), false},
			{[][]byte{short}, pp[:1], true}, {[][]byte{big}, pp[:1], false}, {ps[:1], [][]byte{short}, true}, {ps[:1], [][]byte{big}, false},
		} {
			out, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(x.sps, x.pps)
			if (err == nil) != x.ok {
				c.Failf("serialising %d SPS (first %d bytes) and %d PPS (first %d bytes) gives error %v, want accepted %v", len(x.sps), len(x.sps[0]), len(x.pps), len(x.pps[0]), err, x.ok)
			}
			if x.ok {
				if _, _, _, _, s2, p2, err := readAVCRecord(out); err != nil || !sameNals(s2, stripList(x.sps)) || !sameNals(p2, stripList(x.pps)) {
					c.Failf("record of %d SPS (first %d bytes) and %d PPS (first %d bytes) does not read back (%v)", len(x.sps), len(x.sps[0]), len(x.pps), len(x.pps[0]), err)
				}
				var r3 avc.AVCDecoderConfigurationRecord
				if err := r3.Unmarshal(out); err != nil || !listEq(r3.SPSList, stripList(x.sps)) || !listEq(r3.PPSList, stripList(x.pps)) {
					c.Failf("the library does not read back its record of %d SPS (first %d bytes) and %d PPS (first %d bytes): %v", len(x.sps), len(x.sps[0]), len(x.pps), len(x.pps[0]), err)
				}
				want := append(splitAnnexB(concatSC4(stripList(x.sps))), splitAnnexB(concatSC4(stripList(x.pps)))...)
				if got, err := avc.ExtraDataToAnnexB(out); err != nil || !sameNals(splitAnnexB(got), want) {
					c.Failf("record of %d SPS (first %d bytes) and %d PPS (first %d bytes) converts to %s (%v)", len(x.sps), len(x.sps[0]), len(x.pps), len(x.pps[0]), describeNals(splitAnnexB(got)), err)
				}
				if got, err := avc.M4VCExtraDataToAnnexB(out); err != nil || !sameNals(splitAnnexB(got), want) {
					c.Failf("record of %d SPS (first %d bytes) and %d PPS (first %d bytes) converts to %s (%v)", len(x.sps), len(x.sps[0]), len(x.pps), len(x.pps[0]), describeNals(splitAnnexB(got)), err)
				}
			}
			c.Ev("limits", 1)
		}
	}
	c.Ev("rejected", cuts+4)
	c.Eval(cuts + 1)
	c.Distinct(hashInts(ns, np, len(in)/32, rec.length, c2))
	c.Sample(func() string { return fmt.Sprintf("%d SPS %d PPS %d bytes %s", ns, np, len(in), hexs(in)) })
}

func stripList(l [][]byte) (out [][]byte) {
	for _, n := range l {
		if bytes.HasPrefix(n, []byte{0, 0, 0, 1}) {
			n = n[4:]
		} else if bytes.HasPrefix(n, []byte{0, 0, 1}) {
			n = n[3:]
		}
		out = append(out, n)
	}
	return
}

func rejectAVC(c *C, d []byte, what string) {
	var r avc.AVCDecoderConfigurationRecord
	if err := r.Unmarshal(d); err == nil {
		c.Failf("%s was accepted: %s", what, hexs(d))
	}
	if _, err := avc.ExtraDataToAnnexB(d); err == nil {
		c.Failf("ExtraDataToAnnexB accepted a %s: %s", what, hexs(d))
	}
	if _, err := avc.M4VCExtraDataToAnnexB(d); err == nil {
		c.Failf("M4VCExtraDataToAnnexB accepted a %s: %s", what, hexs(d))
	}
	if _, err := av.ParseAVCDecoderConfigurationRecord(d); err == nil {
		c.Failf("ParseAVCDecoderConfigurationRecord accepted a %s: %s", what, hexs(d))
	}
}

// ------------------------------------------------------------------ C16

func readHEVCRecord(d []byte) (vps, sps, pps [][]byte, ls int, err error) {
	bad := func() { err = fmt.Errorf("malformed record %s", hexs(d)) }
	if len(d) < 23 || d[0] != 1 {
		bad()
		return
	}
	ls = int(d[21]&3) + 1
	p := d[23:]
	for a := int(d[22]); a > 0; a-- {
		if len(p) < 3 {
			bad()
			return
		}
		typ, n := int(p[0]&0x3f), int(binary.BigEndian.Uint16(p[1:]))
		p = p[3:]
		for ; n > 0; n-- {
			if len(p) < 2 {
				bad()
				return
			}
			l := int(binary.BigEndian.Uint16(p))
			p = p[2:]
			if l > len(p) {
				bad()
				return
			}
			u := p[:l]
			p = p[l:]
			switch typ {
			case 32:
				vps = append(vps, u)
			case 33:
				sps = append(sps, u)
			case 34:
				pps = append(pps, u)
			}
		}
	}
	if len(p) != 0 {
		bad()
	}
	return
}

func hevcRecordRun(c *C) {
	for k := 0; k < 4; k++ {
		hevcRecordOne(c)
	}
}

func hevcRecordOne(c *C) {
	nv, ns, np, smax := c.Range(1, 2), c.Range(1, 3), c.Range(1, 4), 60
	switch c.N(6) {
	case 0:
		nv, ns, np, smax = c.Range(1, 16), c.Range(1, 16), c.Range(1, 64), 30
	case 1:
		smax = 3000
	case 2:
		nv, ns, np = 1, 1, 1
	case 3:
		if c.P(1, 3) { // up to 255 arrays
			nv, ns, np, smax = c.Range(1, 20), c.Range(1, 4), c.Range(20, 220), 8
		}
	}
	rec := genHEVCRecord(c.Rng, avcOpt{}, nv, ns, np, smax, pick(c.Rng, []int{1, 2, 4}))
	in := clone(rec.data)
	h := rec.head
	var r hevc.HEVCDecoderConfigurationRecord
	if err := r.Unmarshal(rec.data); err != nil {
		c.Failf("record with %d/%d/%d sets (%d bytes) rejected: %v", nv, ns, np, len(in), err)
	}
	type f struct {
		name      string
		got, want uint64
	}
	for _, x := range []f{
		{"version", uint64(r.ConfigurationVersion), 1},
		{"profile space", uint64(r.GeneralProfileSpace), uint64(h[1] >> 6)},
		{"tier", uint64(r.GeneralTierFlag), uint64(h[1] >> 5 & 1)},
		{"profile", uint64(r.GeneralProfileIdc), uint64(h[1] & 31)},
		{"compatibility", uint64(r.GeneralProfileCompatibilityFlags), uint64(binary.BigEndian.Uint32(h[2:]))},
		{"constraints", r.GeneralConstraintIndicatorFlags, uint64(binary.BigEndian.Uint32(h[6:]))<<16 | uint64(binary.BigEndian.Uint16(h[10:]))},
		{"level", uint64(r.GeneralLevelIdc), uint64(h[12])},
		{"min spatial segmentation", uint64(r.MinSpatialSegmentationIdc), uint64(binary.BigEndian.Uint16(h[13:]) & 0xfff)},
		{"parallelism", uint64(r.ParallelismType), uint64(h[15] & 3)},
		{"chroma format", uint64(r.ChromaFormat), uint64(h[16] & 3)},
		{"luma depth", uint64(r.BitDepthLumaMinus8), uint64(h[17] & 7)},
		{"chroma depth", uint64(r.BitDepthChromaMinus8), uint64(h[18] & 7)},
		{"avg frame rate", uint64(r.AvgFrameRate), uint64(binary.BigEndian.Uint16(h[19:]))},
		{"constant frame rate", uint64(r.ConstantFrameRate), uint64(h[21] >> 6)},
		{"temporal layers", uint64(r.NumTemporalLayers), uint64(h[21] >> 3 & 7)},
		{"temporal nesting", uint64(r.TemporalIdNested), uint64(h[21] >> 2 & 1)},
		{"length size", uint64(r.LengthSizeMinusOne), uint64(h[21]&3) + 1}, // the field holds the size itself
		{"arrays", uint64(r.NumOfArrays), uint64(h[22])},
	} {
		if x.got != x.want {
			c.Failf("record field %s read as %d, coded %d", x.name, x.got, x.want)
		}
	}
	if !listEq(r.VPSList, rec.vps) || !listEq(r.SPSList, rec.sps) || !listEq(r.PPSList, rec.pps) {
		c.Failf("parameter sets read as %s / %s / %s, record has %s / %s / %s (array order class %d)", describeNals(r.VPSList), describeNals(r.SPSList), describeNals(r.PPSList), describeNals(rec.vps), describeNals(rec.sps), describeNals(rec.pps), rec.orderClass)
	}
	if !bytes.Equal(in, rec.data) {
		c.Failf("parsing changed the record")
	}
	c.Ev("parsed", 1)
	if rec.orderClass > 0 {
		c.Ev("unusual_array_layout", 1)
	}
	want := concatSC4(rec.vps, rec.sps, rec.pps)
	got, err := hevc.ExtraDataToAnnexB(rec.data)
	if err != nil {
		c.Failf("ExtraDataToAnnexB rejected a record with %d/%d/%d sets (%d bytes): %v", nv, ns, np, len(in), err)
	}
	if !sameNals(splitAnnexB(got), splitAnnexB(want)) {
		c.Failf("ExtraDataToAnnexB gives %s, record has %s", describeNals(splitAnnexB(got)), describeNals(splitAnnexB(want)))
	}
	c.Ev("to_annexb", 1)
	c.Fill(rec.data)
	if !listEq(r.VPSList, rec.vps) || !listEq(r.SPSList, rec.sps) || !listEq(r.PPSList, rec.pps) {
		c.Failf("parsed parameter sets changed with the input memory")
	}
	// serialise
	mode := c.N(3)
	prep := func(ns [][]byte) (out [][]byte) {
		for _, n := range ns {
			switch mode {
			case 0:
				out = append(out, withSC4(n))
			case 1:
				out = append(out, append([]byte{0, 0, 1}, n...))
			default:
				out = append(out, n)
			}
		}
		return
	}
	pv, ps, pp := prep(rec.vps), prep(rec.sps), prep(rec.pps)
	out, err := (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(pv, ps, pp)
	if err != nil {
		c.Failf("serialising %d/%d/%d sets (%d bytes) failed: %v", nv, ns, np, len(in), err)
	}
	v2, s2, p2, ls, err := readHEVCRecord(out)
	if err != nil {
		c.Failf("serialised record does not parse: %v", err)
	}
	if !sameNals(v2, rec.vps) || !sameNals(s2, rec.sps) || !sameNals(p2, rec.pps) || ls != 4 {
		c.Failf("serialised record holds %s / %s / %s (length size %d), given %s / %s / %s", describeNals(v2), describeNals(s2), describeNals(p2), ls, describeNals(rec.vps), describeNals(rec.sps), describeNals(rec.pps))
	}
	okPTL := false
	for _, n := range rec.infos {
		okPTL = okPTL || bytes.Equal(n.ptl[:], out[1:13]) && int(out[16]&3) == n.chroma && int(out[17]&7) == n.bitDL && int(out[18]&7) == n.bitDC && int(out[21]>>3&7) == n.subLayers && int(out[21]>>2&1) == n.nested
	}
	if !okPTL {
		c.Failf("serialised record has profile/tier/level %x, chroma format/bit depths %x, temporal layers %d nested %d; SPS has %x, %d %d %d, %d %d", out[1:13], out[16:19], out[21]>>3&7, out[21]>>2&1, rec.first.ptl, rec.first.chroma, rec.first.bitDL, rec.first.bitDC, rec.first.subLayers, rec.first.nested)
	}
	if out[13]&0xf0 != 0xf0 || out[15]&0xfc != 0xfc || out[16]&0xfc != 0xfc || out[17]&0xf8 != 0xf8 || out[18]&0xf8 != 0xf8 {
		c.Failf("serialised record has reserved bits that are not one: %x", out[:23])
	}
	c.Ev("serialised", 1)
	var r2 hevc.HEVCDecoderConfigurationRecord
	if err := r2.Unmarshal(out); err != nil || !listEq(r2.VPSList, rec.vps) || !listEq(r2.SPSList, rec.sps) || !listEq(r2.PPSList, rec.pps) {
		c.Failf("serialised record does not read back (%v)", err)
	}
	if _, info, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(in); err != nil || info.Width != rec.first.width || info.Height != rec.first.height {
		c.Failf("record's SPS parsed to %+v (%v), coded %dx%d", info, err, rec.first.width, rec.first.height)
	}
	// rejection
	cuts := 0
	end := len(in)
	step := 1
	if end > 600 {
		step = end / 300
	}
	for cut := 0; cut < end; cut += step {
		if cut > end-step {
			cut = end - 1
		}
		rejectHEVC(c, in[:cut:cut], fmt.Sprintf("record of %d bytes cut to %d", end, cut))
		cuts++
	}
	for miss := 0; miss < 3; miss++ {
		ls := [][][]byte{rec.vps, rec.sps, rec.pps}
		d := clone(in[:22])
		d = append(d, 2)
		for t := 0; t < 3; t++ {
			if t == miss {
				continue
			}
			d = append(d, byte(32+t), byte(len(ls[t])>>8), byte(len(ls[t])))
			for _, n := range ls[t] {
				d = append(append(d, byte(len(n)>>8), byte(len(n))), n...)
			}
		}
		rejectHEVC(c, d, "record without "+[]string{"VPS", "SPS", "PPS"}[miss])
		m := [][][]byte{pv, ps, pp}
		m[miss] = nil
		if _, err := (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(m[0], m[1], m[2]); err == nil {
			c.Failf("serialising without one kind of parameter set succeeded")
		}
	}
	if c.P(1, 20) {
		rep := func(n []byte, k int) (l [][]byte) {
			for ; k > 0; k-- {
				l = append(l, n)
			}
			return
		}
		big := withSC4(append([]byte{34 << 1, 1}, nalPayload(c.Rng, 0x10000-2)...))
		short := big[:len(big)-1]
		lists := [][][]byte{pv, ps, pp}
		for k := range lists {
			for _, x := range []struct {
				l  [][]byte
				ok bool
			}{{rep(lists[k][0], 256+c.N(64)), true}, {rep(lists[k][0][:min(len(lists[k][0]), 60)], 0x10000), false}, {[][]byte{short}, true}, {[][]byte{big}, false}} {
				if k == 1 && x.l[0][4] == 34<<1 {
					continue
				}
				m := append([][][]byte(nil), lists...)
				m[k] = x.l
				if k == 0 && len(x.l) == 1 {
					m[0] = [][]byte{clone(x.l[0])}
					m[0][0][4] = 32 << 1
				}
				out, err := (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(m[0], m[1], m[2])
				if (err == nil) != x.ok {
					c.Failf("serialising %d/%d/%d sets (first %d/%d/%d bytes) gives error %v, want accepted %v", len(m[0]), len(m[1]), len(m[2]), len(m[0][0]), len(m[1][0]), len(m[2][0]), err, x.ok)
				}
				if x.ok {
					if v2, s2, p2, _, err := readHEVCRecord(out); err != nil || !sameNals(v2, stripList(m[0])) || !sameNals(s2, stripList(m[1])) || !sameNals(p2, stripList(m[2])) {
						c.Failf("record of %d/%d/%d sets (first %d/%d/%d bytes) does not read back (%v)", len(m[0]), len(m[1]), len(m[2]), len(m[0][0]), len(m[1][0]), len(m[2][0]), err)
					}
					var r3 hevc.HEVCDecoderConfigurationRecord
					if err := r3.Unmarshal(out); err != nil || !listEq(r3.VPSList, stripList(m[0])) || !listEq(r3.SPSList, stripList(m[1])) || !listEq(r3.PPSList, stripList(m[2])) {
						c.Failf("the library does not read back its record of %d/%d/%d sets (first %d/%d/%d bytes): %v", len(m[0]), len(m[1]), len(m[2]), len(m[0][0]), len(m[1][0]), len(m[2][0]), err)
					}
					if got, err := hevc.ExtraDataToAnnexB(out); err != nil || !sameNals(splitAnnexB(got), splitAnnexB(concatSC4(stripList(m[0]), stripList(m[1]), stripList(m[2])))) {
						c.Failf("record of %d/%d/%d sets (first %d/%d/%d bytes) converts to %s (%v)", len(m[0]), len(m[1]), len(m[2]), len(m[0][0]), len(m[1][0]), len(m[2][0]), describeNals(splitAnnexB(got)), err)
					}
				}
				c.Ev("limits", 1)
			}
		}
	}
	c.Ev("rejected", cuts+6)
	c.Eval(cuts + 1)
	c.Distinct(hashInts(nv, ns, np, rec.orderClass, len(in)/64, mode, rec.length, int(in[22])))
	c.Sample(func() string {
		return fmt.Sprintf("%d/%d/%d sets, %d arrays, %d bytes %s", nv, ns, np, in[22], len(in), hexs(in))
	})
}

func rejectHEVC(c *C, d []byte, what string) {
	var r hevc.HEVCDecoderConfigurationRecord
	if err := r.Unmarshal(d); err == nil {
		c.Failf("%s was accepted: %s", what, hexs(d))
	}
	if _, err := hevc.ExtraDataToAnnexB(d); err == nil {
		c.Failf("ExtraDataToAnnexB accepted a %s: %s", what, hexs(d))
	}
	if _, err := av.ParseHEVCDecoderConfigurationRecord(d); err == nil {
		c.Failf("ParseHEVCDecoderConfigurationRecord accepted a %s: %s", what, hexs(d))
	}
}

// unescape removes emulation-prevention bytes.
func unescape(p []byte) (out []byte) {
	z := 0
	for _, b := range p {
		if z >= 2 && b == 3 {
			z = 0
			continue
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}

// ------------------------------------------------------------------ C17 C18

// cutSPS cuts an SPS at every byte before the last field the picture size
// depends on is complete; need counts bits after the NAL header.
func cutSPS(c *C, nal []byte, header, need int, parse func([]byte) error) (n int) {
	last := header // the longest prefix that is too short
	for z, bits := 0, 0; last < len(nal); last++ {
		if nal[last] == 3 && z >= 2 {
			z = 0
			continue
		}
		if bits += 8; bits >= need {
			break
		}
		if z++; nal[last] != 0 {
			z = 0
		}
	}
	for i := 0; i < 6; i++ {
		k := last - i
		if i >= 3 {
			k = c.N(last + 1)
		}
		if k < 0 {
			break
		}
		if err := parse(nal[:k:k]); err == nil {
			c.Failf("SPS of %d bytes cut to %d, before the picture size is complete, was parsed: %x", len(nal), k, nal)
		}
		n++
	}
	return n
}

func avcSPSCheck(c *C, s avcSPS, d []byte) {
	in := clone(d)
	got, err := avc.ParseSPS(d)
	desc := fmt.Sprintf("profile %d chroma %d frameMbsOnly %v cropped %v timing %v epb %v sps %x", s.profile, s.chroma, s.frameMbsOnly, s.cropped, s.timing, s.epb, s.nal)
	if err != nil {
		c.Failf("valid SPS rejected: %v; %s", err, desc)
	}
	if got.Width != s.width || got.Height != s.height {
		c.Failf("picture size read as %dx%d, coded %dx%d; %s", got.Width, got.Height, s.width, s.height, desc)
	}
	if int(got.ProfileIdc) != s.profile || int(got.LevelIdc) != s.level || int(got.Id) != s.id {
		c.Failf("profile/level/id read as %d/%d/%d, coded %d/%d/%d; %s", got.ProfileIdc, got.LevelIdc, got.Id, s.profile, s.level, s.id, desc)
	}
	if s.timing && got.FPS != s.fps {
		c.Failf("frame rate read as %d, coded %d; %s", got.FPS, s.fps, desc)
	}
	if int(got.ConstraintSetFlag) != s.constraint>>2 || int(got.MbWidth) != s.mbw || int(got.MbHeight) != s.mapH || [4]int{int(got.CropLeft), int(got.CropRight), int(got.CropTop), int(got.CropBottom)} != s.crop {
		c.Failf("SPS fields read as %+v, coded constraint flags %x, %dx%d macroblocks, cropping %v; %s", got, s.constraint>>2, s.mbw, s.mapH, s.crop, desc)
	}
	if !bytes.Equal(in, d) {
		c.Failf("SPS parsing changed its input; %s", desc)
	}
	c.Ev("parsed", 1)
}

func avcSPSRun(c *C) {
	for k := 0; k < 60; k++ {
		s := genAVCSPS(c.Rng, avcOpt{plain: c.P(1, 5)})
		for _, d := range [][]byte{s.nal, withSC4(s.nal), append([]byte{0, 0, 1}, s.nal...)} {
			avcSPSCheck(c, s, d)
		}
		c.Ev("cut_rejected", cutSPS(c, s.nal, 1, s.need, func(d []byte) error { _, err := avc.ParseSPS(d); return err }))
		if s.epb {
			c.Ev("with_emulation_prevention", 1)
		}
		if !s.frameMbsOnly {
			c.Ev("field_coded", 1)
		}
		if s.cropped {
			c.Ev("cropped", 1)
		}
		if s.timing {
			c.Ev("timing", 1)
		}
		if s.chroma != 1 {
			c.Ev("other_chroma", 1)
		}
		c.Eval(3)
		c.Distinct(hashBytes(s.nal))
	}
}

func hevcSPSCheck(c *C, s hevcSPS, d []byte) {
	in := clone(d)
	got, err := hevc.ParseSPS(d)
	desc := fmt.Sprintf("subLayers %d chroma %d window %v epb %v sps %x", s.subLayers, s.chroma, s.window, s.epb, s.nal)
	if err != nil {
		c.Failf("valid SPS rejected: %v; %s", err, desc)
	}
	if got.Width != s.width || got.Height != s.height {
		c.Failf("picture size read as %dx%d, coded %dx%d; %s", got.Width, got.Height, s.width, s.height, desc)
	}
	if !bytes.Equal(in, d) {
		c.Failf("SPS parsing changed its input; %s", desc)
	}
	c.Ev("parsed", 1)
}

func hevcSPSRun(c *C) {
	for k := 0; k < 60; k++ {
		s := genHEVCSPS(c.Rng, avcOpt{plain: c.P(1, 5)})
		for _, d := range [][]byte{s.nal, withSC4(s.nal), append([]byte{0, 0, 1}, s.nal...)} {
			hevcSPSCheck(c, s, d)
		}
		c.Ev("cut_rejected", cutSPS(c, s.nal, 2, s.need, func(d []byte) error { _, err := hevc.ParseSPS(d); return err }))
		if s.epb {
			c.Ev("with_emulation_prevention", 1)
		}
		if s.window {
			c.Ev("conformance_window", 1)
		}
		if s.subLayers > 1 {
			c.Ev("sub_layers", 1)
		}
		if s.subLayerFields > 0 {
			c.Ev("sub_layer_profile_or_level", 1)
		}
		if s.chroma != 1 {
			c.Ev("other_chroma", 1)
		}
		c.Eval(3)
		c.Distinct(hashBytes(s.nal))
	}
}

// sameBits returns a value whose Exp-Golomb code is as long as v's.
func sameBits(r *Rng, v int) int {
	lo := 1
	for lo*2 <= v+1 {
		lo *= 2
	}
	return lo - 1 + r.N(lo)
}

// spsSiblings: parameter sets that differ in the picture size only, of the
// same length and over the same memory, as after a change of resolution.
func spsSiblings(c *C, hev bool) {
	for k := 0; k < 10; k++ {
		seed, o := c.U64(), avcOpt{plain: c.P(1, 3)}
		mem := make([]byte, 8192)
		var bw, bh int
		for v := 0; v < 5; v++ {
			oo := o
			if v > 0 {
				oo.w, oo.h = sameBits(c.Rng, bw), sameBits(c.Rng, bh)
				if c.Bool() {
					oo.w = bw
				}
				if !hev {
					oo.w, oo.h = oo.w+1, oo.h+1
					if c.Bool() {
						oo.w = bw + 1
					}
				} else {
					if oo.w &^= 7; oo.w < 64 {
						oo.w = 64
					}
					if oo.h &^= 7; oo.h < 64 {
						oo.h = 64
					}
				}
			}
			r := &Rng{s: seed}
			if hev {
				s := genHEVCSPS(r, oo)
				if v == 0 {
					bw, bh = s.codedW, s.codedH
				}
				n := copy(mem, s.nal)
				hevcSPSCheck(c, s, mem[:n:n])
				if c.P(1, 3) {
					hevcSPSCheck(c, s, s.nal)
				}
			} else {
				s := genAVCSPS(r, oo)
				if v == 0 {
					bw, bh = s.mbw-1, s.mapH-1
				}
				n := copy(mem, s.nal)
				avcSPSCheck(c, s, mem[:n:n])
				if c.P(1, 3) {
					avcSPSCheck(c, s, s.nal)
				}
			}
			c.Ev("sibling", 1)
			c.Eval(2)
		}
		c.Distinct(seed)
	}
}

// ------------------------------------------------------------------ C20

type cdView struct {
	w, h          int
	annexB, mp4   []byte
	vps, sps, pps [][]byte
	hevc          bool
}

func viewOf(cd av.CodecData) cdView {
	v := cdView{w: cd.Width(), h: cd.Height(), annexB: cd.AnnexBExtraData(), mp4: cd.MP4ExtraData(), sps: cd.SPS(), pps: cd.PPS()}
	if x, ok := cd.(interface{ VPS() [][]byte }); ok {
		v.vps = x.VPS()
		v.hevc = true
	}
	return v
}

func rawSets(l [][]byte) (out [][]byte) {
	for _, n := range l {
		out = append(out, splitAnnexBOrRaw(n))
	}
	return
}

func splitAnnexBOrRaw(n []byte) []byte {
	if bytes.HasPrefix(n, []byte{0, 0, 0, 1}) {
		return n[4:]
	}
	if bytes.HasPrefix(n, []byte{0, 0, 1}) {
		return n[3:]
	}
	return n
}

// checkView compares one configuration with what it was built from.
func checkView(c *C, how string, v cdView, w, h int, vps, sps, pps [][]byte) {
	if v.w != w || v.h != h {
		c.Failf("configuration from %s has size %dx%d, coded %dx%d", how, v.w, v.h, w, h)
	}
	if !sameNals(rawSets(v.sps), sps) || !sameNals(rawSets(v.pps), pps) || v.hevc && !sameNals(rawSets(v.vps), vps) {
		c.Failf("configuration from %s has sets %s %s %s, given %s %s %s", how, describeNals(v.vps), describeNals(v.sps), describeNals(v.pps), describeNals(vps), describeNals(sps), describeNals(pps))
	}
	all := append(append(append([][]byte{}, vps...), sps...), pps...)
	if got := splitAnnexB(v.annexB); !sameNals(got, all) {
		c.Failf("configuration from %s: Annex-B extra data holds %s, expected %s", how, describeNals(got), describeNals(all))
	}
	if !bytes.HasPrefix(v.annexB, []byte{0, 0, 0, 1}) && !bytes.HasPrefix(v.annexB, []byte{0, 0, 1}) {
		c.Failf("configuration from %s: Annex-B extra data begins with %s", how, hexs(v.annexB))
	}
	if v.hevc {
		a, b, d, _, err := readHEVCRecord(v.mp4)
		if err != nil || !sameNals(a, vps) || !sameNals(b, sps) || !sameNals(d, pps) {
			c.Failf("configuration from %s: record extra data holds %s %s %s (%v), expected %s", how, describeNals(a), describeNals(b), describeNals(d), err, describeNals(all))
		}
	} else {
		mp4 := v.mp4
		_, _, _, _, a, b, err := readAVCRecord(mp4)
		if err != nil && len(mp4) > 4 { // high-profile records may carry four more bytes
			_, _, _, _, a, b, err = readAVCRecord(mp4[:len(mp4)-4])
		}
		if err != nil || !sameNals(a, sps) || !sameNals(b, pps) {
			c.Failf("configuration from %s: record extra data holds %s %s (%v), expected %s", how, describeNals(a), describeNals(b), err, describeNals(all))
		}
	}
	c.Ev("views", 1)
}

func viewsEqual(a, b cdView) bool {
	return a.w == b.w && a.h == b.h && bytes.Equal(a.annexB, b.annexB) && bytes.Equal(a.mp4, b.mp4) && sameNals(a.vps, b.vps) && sameNals(a.sps, b.sps) && sameNals(a.pps, b.pps)
}

// carve lays the sets out in one buffer, as a caller does that cuts them out
// of a frame: every slice has spare capacity that belongs to something else.
func carve(c *C, sets ...[]byte) (out [][]byte, intact func(string)) {
	var buf []byte
	var at []int
	for _, s := range sets {
		at = append(at, len(buf))
		buf = append(append(buf, s...), c.Bytes(c.Range(0, 40))...)
	}
	buf = append(buf, c.Bytes(64)...)
	for i, s := range sets {
		out = append(out, buf[at[i]:at[i]+len(s)])
	}
	was := clone(buf)
	return out, func(what string) {
		if !bytes.Equal(was, buf) {
			c.Failf("%s changed memory of the caller around the parameter sets", what)
		}
	}
}

// buildConfigs builds configurations of one stream in every way there is.
func buildConfigs(c *C) (cfgs map[string]av.CodecData, w, h int, vps, sps, pps [][]byte, hev bool) {
	hev = c.Bool()
	if hev {
		r := genHEVCRecord(c.Rng, avcOpt{}, 1, 1, 1, 60, pick(c.Rng, []int{1, 2, 4}))
		w, h, vps, sps, pps = r.first.width, r.first.height, r.vps, r.sps, r.pps
		cfgs = configsFrom(c, r.data, vps, sps, pps, nil)
		return
	}
	r := genAVCRecord(c.Rng, avcOpt{}, 1, 1, 60, pick(c.Rng, []int{1, 2, 4}))
	w, h, sps, pps = r.sps[0].width, r.sps[0].height, spsNals(r.sps), r.pps
	cfgs = configsFrom(c, r.data, nil, sps, pps, nil)
	return
}

// configsFrom builds the configurations of a record and the sets it holds;
// when mem is given, the key frame is laid out at its start.
func configsFrom(c *C, record []byte, vps, sps, pps [][]byte, mem []byte) (cfgs map[string]av.CodecData) {
	cfgs = map[string]av.CodecData{}
	hev := vps != nil
	must := func(how string, cd av.CodecData, err error) {
		if err != nil || cd == nil {
			c.Failf("configuration from %s failed: %v", how, err)
		}
		cfgs[how] = cd
	}
	at := func(d []byte) []byte {
		if mem == nil {
			return d
		}
		return mem[:copy(mem, d)]
	}
	if hev {
		in, intact := carve(c, withSC4(vps[0]), withSC4(sps[0]), withSC4(pps[0]))
		cd, err := av.NewHEVCCodecData(in[0], in[1], in[2])
		must("parameter sets", cd, err)
		viewOf(cd)
		intact("NewHEVCCodecData")
		cd, err = av.ParseHEVCDecoderConfigurationRecord(record)
		must("record", cd, err)
		nals := append(shuffled(c.Rng, [][]byte{vps[0], sps[0], pps[0]}), hevcNal(c.Rng, 19, 30))
		if c.Bool() {
			nals = append([][]byte{hevcNal(c.Rng, 35, 3)}, nals...)
		}
		key := at(annexB(c.Rng, nals))
		st, err := av.CreateHevcStreamFromKeyFrame(key, 0)
		if err != nil {
			c.Failf("stream from key frame failed: %v", err)
		}
		must("key frame", st.CodecParameters, nil)
		c.Fill(key) // nothing may refer to the frame's memory
		return
	}
	in, intact := carve(c, withSC4(sps[0]), withSC4(pps[0]))
	cd, err := av.NewAVCCodecData(in[0], in[1])
	must("parameter sets", cd, err)
	viewOf(cd)
	intact("NewAVCCodecData")
	cd, err = av.ParseAVCDecoderConfigurationRecord(record)
	must("record", cd, err)
	nals := append(shuffled(c.Rng, [][]byte{sps[0], pps[0]}), avcNal(c.Rng, 6, 9), avcNal(c.Rng, 5, 30))
	if c.Bool() {
		nals = append([][]byte{avcNal(c.Rng, 9, 2)}, nals...)
	}
	key := at(annexB(c.Rng, nals))
	st, err := av.CreateAVCStreamFromKeyFrame(key, 0)
	if err != nil {
		c.Failf("stream from key frame failed: %v", err)
	}
	must("key frame", st.CodecParameters, nil)
	c.Fill(key)
	return
}

// configSiblings: streams that share some of their parameter sets, built over
// the same memory; every configuration is that of its own stream.
func configSiblings(c *C) {
	hev := c.Bool()
	seed := c.U64()
	var mem []byte
	if c.Bool() {
		mem = make([]byte, 16384)
	}
	type stream struct {
		cfgs          map[string]av.CodecData
		w, h          int
		vps, sps, pps [][]byte
	}
	var all []stream
	var bw, bh int
	var lastV, lastP []byte
	for k := 0; k < 4; k++ {
		o := avcOpt{plain: true}
		same := c.Bool() // the same SPS again, or one that differs in size
		if k > 0 && !same {
			o.w, o.h = (sameBits(c.Rng, bw)&^7)+64, (sameBits(c.Rng, bh)&^7)+64
			if !hev {
				o.w, o.h = sameBits(c.Rng, bw)+1, sameBits(c.Rng, bh)+1
			}
		} else if k > 0 {
			c.Ev("shared_sps", 1)
		}
		var st stream
		r := &Rng{s: seed}
		if hev {
			s := genHEVCSPS(r, o)
			if k == 0 {
				bw, bh = s.codedW, s.codedH
			}
			v, p := genHEVCSet(c.Rng, 32, 12), genHEVCSet(c.Rng, 34, 9)
			if k > 0 && c.P(1, 3) {
				v = lastV
			}
			if k > 0 && c.P(1, 3) {
				p = lastP
			}
			lastV, lastP = v, p
			st = stream{w: s.width, h: s.height, vps: [][]byte{v}, sps: [][]byte{s.nal}, pps: [][]byte{p}}
			d := append([]byte{1}, s.ptl[:]...)
			d = append(d, 0xf0, 0, 0xfc, 0xfc|byte(s.chroma), 0xf8|byte(s.bitDL), 0xf8|byte(s.bitDC), 0, 0, byte(s.subLayers&7)<<3|byte(s.nested)<<2|3, 3)
			for i, n := range [][]byte{v, s.nal, p} {
				d = append(d, 0x80|byte(32+i), 0, 1, byte(len(n)>>8), byte(len(n)))
				d = append(d, n...)
			}
			if mem != nil { // the caller's memory, so it is viewed before that changes
				cd, err := av.NewHEVCCodecData(withSC4(v), mem[:copy(mem, withSC4(s.nal))], withSC4(p))
				if err != nil {
					c.Failf("valid parameter sets rejected: %v", err)
				}
				checkView(c, "parameter sets over the same memory", viewOf(cd), st.w, st.h, st.vps, st.sps, st.pps)
				if cd, err = av.ParseHEVCDecoderConfigurationRecord(mem[:copy(mem, d)]); err != nil {
					c.Failf("valid record rejected: %v", err)
				}
				checkView(c, "record over the same memory", viewOf(cd), st.w, st.h, st.vps, st.sps, st.pps)
			}
			st.cfgs = configsFrom(c, d, st.vps, st.sps, st.pps, mem)
		} else {
			s := genAVCSPS(r, o)
			if k == 0 {
				bw, bh = s.mbw-1, s.mapH-1
			}
			p := genAVCPPS(c.Rng, 9)
			if k > 0 && c.P(1, 3) {
				p = lastP
			}
			lastP = p
			st = stream{w: s.width, h: s.height, sps: [][]byte{s.nal}, pps: [][]byte{p}}
			d := []byte{1, s.nal[1], s.nal[2], s.nal[3], 0xff, 0xe1, byte(len(s.nal) >> 8), byte(len(s.nal))}
			d = append(append(d, s.nal...), 1, byte(len(p)>>8), byte(len(p)))
			d = append(d, p...)
			if mem != nil {
				cd, err := av.NewAVCCodecData(mem[:copy(mem, withSC4(s.nal))], withSC4(p))
				if err != nil {
					c.Failf("valid parameter sets rejected: %v", err)
				}
				checkView(c, "parameter sets over the same memory", viewOf(cd), st.w, st.h, nil, st.sps, st.pps)
				if cd, err = av.ParseAVCDecoderConfigurationRecord(mem[:copy(mem, d)]); err != nil {
					c.Failf("valid record rejected: %v", err)
				}
				checkView(c, "record over the same memory", viewOf(cd), st.w, st.h, nil, st.sps, st.pps)
			}
			st.cfgs = configsFrom(c, d, nil, st.sps, st.pps, mem)
		}
		all = append(all, st)
		c.Eval(1)
	}
	for k := range all {
		st := all[len(all)-1-k]
		for how, cd := range st.cfgs {
			checkView(c, how+" of one of several similar streams", viewOf(cd), st.w, st.h, st.vps, st.sps, st.pps)
		}
	}
	c.Distinct(seed)
}

func configRun(c *C) {
	cfgs, w, h, vps, sps, pps, hev := buildConfigs(c)
	for _, how := range []string{"parameter sets", "record", "key frame"} {
		cd := cfgs[how]
		// read the views in different orders, several times
		var first cdView
		switch c.N(3) {
		case 0:
			first = viewOf(cd)
		case 1:
			_ = cd.MP4ExtraData()
			first = viewOf(cd)
		default:
			_ = cd.AnnexBExtraData()
			first = viewOf(cd)
		}
		snap := cdView{first.w, first.h, clone(first.annexB), clone(first.mp4), cloneList(first.vps), cloneList(first.sps), cloneList(first.pps), first.hevc}
		checkView(c, how, first, w, h, vps, sps, pps)
		for k := 0; k < 4; k++ {
			if v := viewOf(cd); !viewsEqual(v, snap) {
				c.Failf("configuration from %s reads differently the %d. time", how, k+2)
			}
		}
		// record -> configuration -> record
		var cd2 av.CodecData
		var err error
		if hev {
			cd2, err = av.ParseHEVCDecoderConfigurationRecord(snap.mp4)
		} else {
			cd2, err = av.ParseAVCDecoderConfigurationRecord(snap.mp4)
		}
		if err != nil {
			c.Failf("record extra data of the configuration from %s does not parse: %v", how, err)
		}
		checkView(c, how+" via its record", viewOf(cd2), w, h, vps, sps, pps)
		c.Eval(1)
	}
	c.Distinct(hashInts(int(b2u(hev)), len(sps[0]), len(pps[0]), w, h))
	c.Sample(func() string { return fmt.Sprintf("hevc %v %dx%d sps %x", hev, w, h, sps[0]) })
}

func configMulti(c *C) {
	// records with several sets of each kind
	if c.Bool() {
		r := genHEVCRecord(c.Rng, avcOpt{}, c.Range(1, 3), c.Range(1, 3), c.Range(1, 6), 700, 4)
		cd, err := av.ParseHEVCDecoderConfigurationRecord(r.data)
		if err != nil {
			c.Failf("record rejected: %v", err)
		}
		checkView(c, "record with several sets", viewOf(cd), r.first.width, r.first.height, r.vps, r.sps, r.pps)
	} else {
		r := genAVCRecord(c.Rng, avcOpt{}, c.Range(1, 4), c.Range(1, 8), 700, 4)
		cd, err := av.ParseAVCDecoderConfigurationRecord(r.data)
		if err != nil {
			c.Failf("record rejected: %v", err)
		}
		checkView(c, "record with several sets", viewOf(cd), r.sps[0].width, r.sps[0].height, nil, spsNals(r.sps), r.pps)
	}
	c.Ev("several_sets", 1)
	c.Distinct(c.U64())
}

func cloneList(l [][]byte) (out [][]byte) {
	for _, n := range l {
		out = append(out, clone(n))
	}
	return
}

func configConcurrent(c *C) {
	cfgs, _, _, _, _, _, hev := buildConfigs(c)
	var several av.CodecData
	var err error
	if hev {
		several, err = av.ParseHEVCDecoderConfigurationRecord(genHEVCRecord(c.Rng, avcOpt{}, c.Range(1, 3), c.Range(2, 3), c.Range(1, 6), 60, 4).data)
	} else {
		several, err = av.ParseAVCDecoderConfigurationRecord(genAVCRecord(c.Rng, avcOpt{}, c.Range(2, 4), c.Range(1, 6), 60, 4).data)
	}
	if err != nil {
		c.Failf("record of several sets rejected: %v", err)
	}
	cfgs["record of several sets"] = several
	for _, how := range []string{"parameter sets", "record", "key frame", "record of several sets"} {
		cd := cfgs[how]
		st := av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, cd)
		if hev {
			st.CodecID = utils.AVCodecIdH265
		}
		const G = 8
		views := make([][]cdView, G)
		var start, wg sync.WaitGroup
		start.Add(1)
		rs := make([]*Rng, G)
		for g := range rs {
			rs[g] = &Rng{s: c.U64()}
		}
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rs[g]
				start.Wait()
				for k := 0; k < 6; k++ {
					switch r.N(4) {
					case 0:
						cd.MP4ExtraData()
					case 1:
						cd.AnnexBExtraData()
					case 2: // a packet conversion uses the shared configuration
						nals := [][]byte{avcNal(r, 5, 20)}
						if hev {
							nals = [][]byte{hevcNal(r, 19, 20)}
						}
						p := av.NewVideoPacket(annexB(r, nals), 0, 0, true, av.PacketTypeAnnexB, st.CodecID, 0, 1000)
						av.AVCCPacket2AnnexB(st, p)
						av.FreePacket(p)
						p = av.NewVideoPacket(append([]byte{0, 0, 0, byte(len(nals[0]))}, nals[0]...), 0, 0, true, av.PacketTypeAVCC, st.CodecID, 0, 1000)
						av.AVCCPacket2AnnexB(st, p)
						av.FreePacket(p)
					}
					v := viewOf(cd)
					views[g] = append(views[g], cdView{v.w, v.h, clone(v.annexB), clone(v.mp4), cloneList(v.vps), cloneList(v.sps), cloneList(v.pps), v.hevc})
				}
			}(g)
		}
		start.Done()
		wg.Wait()
		ref := viewOf(cd)
		for g := range views {
			for _, v := range views[g] {
				if !viewsEqual(v, ref) {
					c.Failf("configuration from %s read differently by concurrent readers", how)
				}
				c.Ev("concurrent_reads", 1)
			}
		}
		c.Eval(1)
	}
	c.Distinct(c.U64())
}

// ------------------------------------------------------------------ C21

func refADTS(id, layer, prot, prof, freq, priv, ch, orig, home, cb, cs, flen, full, blocks int) []byte {
	var w bitw
	w.u(12, 0xfff)
	w.u(1, uint64(id))
	w.u(2, uint64(layer))
	w.u(1, uint64(prot))
	w.u(2, uint64(prof))
	w.u(4, uint64(freq))
	w.u(1, uint64(priv))
	w.u(3, uint64(ch))
	w.u(1, uint64(orig))
	w.u(1, uint64(home))
	w.u(1, uint64(cb))
	w.u(1, uint64(cs))
	w.u(13, uint64(flen))
	w.u(11, uint64(full))
	w.u(2, uint64(blocks))
	return w.b
}

var adtsRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var adtsChannels = []int{0, 1, 2, 3, 4, 5, 6, 8}

func adtsRun(c *C) {
	for k := 0; k < 300; k++ {
		// write / read
		id, prof, freq, ch := c.N(2), c.N(4), c.N(16), c.N(8)
		size := c.N(8192)
		switch c.N(6) {
		case 0:
			size = 1 << uint(c.N(13))
		case 1:
			size = 8191
		}
		buf := make([]byte, 9)
		for i := range buf {
			buf[i] = byte(c.U64())
		}
		g := [2]byte{buf[7], buf[8]}
		utils.SetADtsHeader(buf, id, prof, freq, ch, size)
		if g != [2]byte{buf[7], buf[8]} {
			c.Failf("SetADtsHeader wrote beyond the seven header bytes")
		}
		h, err := utils.ReadADtsFixedHeader(buf)
		if err != nil {
			c.Failf("header just written rejected: %v (%x)", err, buf[:7])
		}
		if h.SyncWord() != 0xfff || h.ID() != id || h.Layer() != 0 || h.ProtectionAbsent() != 1 || h.Profile() != prof || h.Frequency() != freq || h.Channel() != ch || h.FrameLength() != size {
			c.Failf("header written with id %d profile %d index %d channels %d length %d reads as %d %d %d %d %d (layer %d protection %d)", id, prof, freq, ch, size, h.ID(), h.Profile(), h.Frequency(), h.Channel(), h.FrameLength(), h.Layer(), h.ProtectionAbsent())
		}
		ref := refADTS(id, 0, 1, prof, freq, 0, ch, 0, 0, 0, 0, size, 0x7ff, 0)
		if !bytes.Equal(buf[:7], ref) {
			// other values of the informative fields would be legal; the
			// fields above are what matters, and an independent reader agrees
			if got := readBitsRef(buf[:7]); got != [5]int{id, prof, freq, ch, size} {
				c.Failf("header written as %x, an independent reader sees %v", buf[:7], got)
			}
		}
		c.Ev("written", 1)
		// any header
		v := []int{c.N(2), c.N(2), c.N(4), c.N(16), c.N(2), c.N(8), c.N(2), c.N(2), c.N(2), c.N(2), c.N(8192), c.N(2048), c.N(4)}
		d := refADTS(v[0], 0, v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12])
		frame := append(clone(d), c.Bytes(c.N(40)+2)...)
		in := clone(frame)
		h, err = utils.ReadADtsFixedHeader(frame)
		if err != nil {
			c.Failf("valid header rejected: %v (%x)", err, d)
		}
		got := []int{h.ID(), h.ProtectionAbsent(), h.Profile(), h.Frequency(), h.PrivateBit(), h.Channel(), h.Original(), h.Home(), h.CopyrightBit(), h.CopyrightStart(), h.FrameLength(), h.Fullness(), h.Blocks()}
		for i := range v {
			if got[i] != v[i] {
				c.Failf("header %x: fields read as %v, coded %v", d, got, v)
			}
		}
		c.Ev("read", 1)
		// the layer bits are zero in every MPEG header; when others are let
		// through, they are reported
		layer := c.N(4)
		if h2, err := utils.ReadADtsFixedHeader(refADTS(v[0], layer, v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12])); err == nil && (h2.Layer() != layer || h2.ID() != v[0] || h2.ProtectionAbsent() != v[1]) {
			c.Failf("header with id %d layer %d protection %d reads as %d %d %d", v[0], layer, v[1], h2.ID(), h2.Layer(), h2.ProtectionAbsent())
		}
		// derived configuration
		asc, err := utils.ADtsHeader2MpegAudioConfigData(h)
		if err != nil {
			c.Failf("configuration of a valid header failed: %v", err)
		}
		if len(asc) < 2 || int(asc[0]>>3) != v[2]+1 || int(asc[0]&7)<<1|int(asc[1]>>7) != v[3] || int(asc[1]>>3&15) != v[5] {
			c.Failf("configuration %x of header %x (profile %d index %d channels %d)", asc, d, v[2], v[3], v[5])
		}
		c.Ev("config_derived", 1)
		extra, skip, cfg, err := av.ExtractAudioExtraData(utils.AVCodecIdAAC, frame)
		if v[3] < 13 {
			want := 7
			if v[1] == 0 {
				want = 9
			}
			if err != nil || !bytes.Equal(extra, asc) || skip != want || cfg.SampleRate != adtsRates[v[3]] || cfg.Channels != adtsChannels[v[5]] || !cfg.HasADTSHeader {
				c.Failf("parameters of header %x (index %d channels %d protection %d): extra %x skip %d config %+v err %v", d, v[3], v[5], v[1], extra, skip, cfg, err)
			}
			m, err := utils.ParseMpeg4AudioConfig(asc)
			if err != nil || m.ObjectType != v[2]+1 || m.SamplingIndex != v[3] || m.SampleRate != adtsRates[v[3]] || m.ChanConfig != v[5] || m.Channels != adtsChannels[v[5]] {
				c.Failf("configuration %x parses to %+v (%v)", asc, m, err)
			}
			if r, ok := utils.GetSampleRateFromFrequency(v[3]); !ok || r != adtsRates[v[3]] || utils.GetSampleRateIndex(r) != v[3] {
				c.Failf("sampling index %d -> rate %d (%v) -> index %d", v[3], r, ok, utils.GetSampleRateIndex(r))
			}
			c.Ev("parameters_extracted", 1)
		}
		if !bytes.Equal(in, frame) {
			c.Failf("AAC parsing changed its input")
		}
		// no sync word
		bad := clone(frame)
		bit := c.N(12)
		bad[bit/8] ^= 0x80 >> uint(bit%8)
		if _, err := utils.ReadADtsFixedHeader(bad); err == nil {
			c.Failf("header %x without sync word accepted", bad[:7])
		}
		if _, _, _, err := av.ExtractAudioExtraData(utils.AVCodecIdAAC, bad); err == nil {
			c.Failf("AAC frame %x without sync word accepted", bad[:7])
		}
		c.Ev("no_sync_rejected", 1)
		c.Eval(2)
		c.Distinct(hashInts(v...))
	}
}

func readBitsRef(d []byte) [5]int {
	get := func(off, n int) int {
		v := 0
		for i := off; i < off+n; i++ {
			v = v<<1 | int(d[i/8]>>(7-uint(i%8)))&1
		}
		return v
	}
	return [5]int{get(12, 1), get(16, 2), get(18, 4), get(23, 3), get(30, 13)}
}

func adtsExhaustive(c *C) {
	// every profile, index, channel configuration; frame lengths in steps
	id, prof := c.idx&1, c.idx>>1&3
	n := 0
	for freq := 0; freq < 16; freq++ {
		for ch := 0; ch < 8; ch++ {
			for size := 0; size < 8192; size += 1 + (freq*8+ch)%7 {
				var b [7]byte
				utils.SetADtsHeader(b[:], id, prof, freq, ch, size)
				h, err := utils.ReadADtsFixedHeader(b[:])
				if err != nil || h.ID() != id || h.Profile() != prof || h.Frequency() != freq || h.Channel() != ch || h.FrameLength() != size {
					c.Failf("header written with id %d profile %d index %d channels %d length %d reads back as %d %d %d %d %d (%v)", id, prof, freq, ch, size, h.ID(), h.Profile(), h.Frequency(), h.Channel(), h.FrameLength(), err)
				}
				n++
			}
		}
	}
	c.Ev("written", n)
	c.Eval(n)
	c.Distinct(uint64(c.idx))
}

func patchBits(b []byte, at, n int, v uint64) []byte {
	b = clone(b)
	modelWrite(b, at, n, v)
	return b
}

// ascRun: configurations of every shape, for the parser alone.
func ascRun(c *C) {
	for k := 0; k < 200; k++ {
		var w bitw
		aot := c.Range(1, 45)
		if aot == 31 {
			aot = 2
		}
		if aot >= 32 {
			w.u(5, 31)
			w.u(6, uint64(aot-32))
		} else {
			w.u(5, uint64(aot))
		}
		idx := c.N(14)
		rate := 0
		if idx == 13 {
			idx = 15
			rate = c.Range(1, 1<<24-1)
			w.u(4, 15)
			w.u(24, uint64(rate))
		} else {
			w.u(4, uint64(idx))
			rate = adtsRates[idx]
		}
		ch := c.N(8)
		w.u(4, uint64(ch))
		w.u(3, 0) // GASpecificConfig
		need := len(w.b)
		d := append(clone(w.b), c.Bytes(c.N(6))...)
		if idx == 15 && c.Bool() { // same first bytes and memory, other rate
			if _, err := utils.ParseMpeg4AudioConfig(d); err != nil {
				c.Failf("configuration %x rejected: %v", d, err)
			}
			low := c.N(1 << 17)
			rate = rate&^(1<<17-1) | low
			if rate == 0 {
				rate = 1
			}
			copy(d, patchBits(w.b, w.n-3-4-24, 24, uint64(rate)))
			c.Ev("same_prefix", 1)
		}
		in := clone(d)
		m, err := utils.ParseMpeg4AudioConfig(d)
		if err != nil || m.ObjectType != aot || m.SamplingIndex != idx || m.SampleRate != rate || m.ChanConfig != ch || m.Channels != adtsChannels[ch] {
			c.Failf("configuration %x (object %d index %d rate %d channels %d) parses to %+v (%v)", d, aot, idx, rate, ch, m, err)
		}
		if !bytes.Equal(in, d) {
			c.Failf("parsing changed the configuration")
		}
		for cut := 0; cut < (w.n-3+7)/8 && cut < need; cut++ {
			if _, err := utils.ParseMpeg4AudioConfig(d[:cut:cut]); err == nil {
				c.Failf("configuration %x cut to %d bytes accepted", d, cut)
			}
		}
		c.Ev("config_parsed", 1)
		c.Eval(1)
		c.Distinct(hashInts(aot, idx, ch, rate))
	}
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "records with 1-31 SPS and 1-255 PPS up to 64 KB written by an independent serialiser, parsed, converted, re-serialised, and cut at every byte; distinct = (counts, size class, length size, start-code form)",
		Need: []string{"parsed", "to_annexb", "serialised", "rejected"},
		Families: []*Family{
			{Name: "records", Quick: 3600, Thorough: 120000, Run: avcRecordRun},
			{Name: "same-memory", Quick: 6000, Thorough: 160000, Run: func(c *C) { recordMemory(c, false) }},
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "records with any number and order of arrays and foreign array types written by an independent serialiser, parsed, converted, re-serialised, and cut at every byte; distinct = (counts, array layout, size class, form)",
		Need: []string{"parsed", "unusual_array_layout", "to_annexb", "serialised", "rejected"},
		Families: []*Family{
			{Name: "records", Quick: 3600, Thorough: 120000, Run: hevcRecordRun},
			{Name: "same-memory", Quick: 6000, Thorough: 160000, Run: func(c *C) { recordMemory(c, true) }},
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "sequence parameter sets written by an independent encoder of the H.264 syntax (all profiles, chroma formats, scaling lists, POC types, field coding, cropping, VUI, emulation prevention); distinct = distinct SPS",
		Need: []string{"parsed", "with_emulation_prevention", "field_coded", "cropped", "timing", "other_chroma"},
		Families: []*Family{
			{Name: "sps", Quick: 20000, Thorough: 640000, Run: avcSPSRun},
			{Name: "siblings", Quick: 4000, Thorough: 120000, Run: func(c *C) { spsSiblings(c, false) }},
		},
	})
	register(&Prop{
		ID:          "C18",
		Rule:        "sequence parameter sets written by an independent encoder of the H.265 syntax (sub-layers, chroma formats, conformance window, emulation prevention); distinct = distinct SPS",
		Need:        []string{"parsed", "with_emulation_prevention", "conformance_window", "sub_layers", "sub_layer_profile_or_level", "other_chroma"},
		Assumptions: []string{"base-layer (nuh_layer_id 0) parameter sets of version 1 and range-extension profiles"},
		Families: []*Family{
			{Name: "sps", Quick: 20000, Thorough: 640000, Run: hevcSPSRun},
			{Name: "siblings", Quick: 4000, Thorough: 120000, Run: func(c *C) { spsSiblings(c, true) }},
		},
	})
	register(&Prop{
		ID:   "C20",
		Rule: "one stream's configuration built from parameter sets, key frame and record, all views compared; concurrent readers under the race detector; distinct = distinct streams",
		Need: []string{"views", "shared_sps", "several_sets", "concurrent_reads"},
		Families: []*Family{
			{Name: "views", Quick: 36000, Thorough: 1200000, Run: configRun},
			{Name: "siblings", Quick: 12000, Thorough: 300000, Run: configSiblings},
			{Name: "several-sets", Quick: 12000, Thorough: 300000, Run: configMulti},
			{Name: "concurrent", Quick: 600, Thorough: 10000, RaceQ: 400, RaceT: 6000, Run: configConcurrent},
		},
	})
	register(&Prop{
		ID:   "C21",
		Rule: "ADTS headers over all field values and AudioSpecificConfigs of every shape, against an independent bit writer; distinct = distinct header field vectors",
		Need: []string{"written", "read", "config_derived", "parameters_extracted", "no_sync_rejected", "config_parsed"},
		Families: []*Family{
			{Name: "exhaustive", Quick: 8, Thorough: 8, Run: adtsExhaustive},
			{Name: "fields", Quick: 12000, Thorough: 320000, Run: adtsRun},
			{Name: "config", Quick: 4800, Thorough: 160000, Run: ascRun},
		},
	})
}
