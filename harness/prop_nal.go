package main

import (
	"bytes"
	"fmt"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------ C12

// refFind is the definition: the first 00 00 01 with a byte after it.
func refFind(p []byte) (idx, size int) {
	for k := 0; k+3 < len(p); k++ {
		if p[k] == 0 && p[k+1] == 0 && p[k+2] == 1 {
			if k > 0 && p[k-1] == 0 {
				return k + 3, 4
			}
			return k + 3, 3
		}
	}
	return -1, -1
}

func checkFind(c *C, p []byte) {
	wi, ws := refFind(p)
	gi, gs := avc.FindStartCode(p)
	if gi != wi || wi >= 0 && gs != ws {
		c.Failf("FindStartCode(%x) = %d,%d; the unit header is at %d with a start code of %d", p, gi, gs, wi, ws)
	}
	g2 := avc.FindStartCode2(p)
	if wi < 0 && g2 >= 0 || wi >= 0 && g2 != wi-ws {
		c.Failf("FindStartCode2(%x) = %d; the start code begins at %d", p, g2, wi-ws)
	}
	r := bufio.NewBytesReader(p)
	hb := avc.FindStartCodeWithReader(r)
	if wi < 0 {
		if hb >= 0 {
			c.Failf("FindStartCodeWithReader(%x) = %d, there is no unit", p, hb)
		}
	} else if hb != int(p[wi]) || r.Offset() != wi+1 {
		c.Failf("FindStartCodeWithReader(%x) = %d at offset %d, header %d is at %d", p, hb, r.Offset(), p[wi], wi)
	}
}

func checkSplit(c *C, p []byte) int {
	var pieces [][]byte
	in := clone(p)
	avc.SplitNalU(p, func(n []byte) { pieces = append(pieces, n) })
	if !bytes.Equal(in, p) {
		c.Failf("SplitNalU changed its input %x", in)
	}
	if got := bytes.Join(pieces, nil); !bytes.Equal(got, p) {
		c.Failf("SplitNalU(%x): the pieces concatenate to %x", p, got)
	}
	if !bytes.HasPrefix(p, []byte{0, 0, 1}) && !bytes.HasPrefix(p, []byte{0, 0, 0, 1}) {
		return len(pieces)
	}
	for _, q := range pieces {
		sc := 0
		switch {
		case bytes.HasPrefix(q, []byte{0, 0, 0, 1}):
			sc = 4
		case bytes.HasPrefix(q, []byte{0, 0, 1}):
			sc = 3
		default:
			c.Failf("SplitNalU(%x): piece %x does not begin with a start code", p, q)
		}
		if i, _ := refFind(q[sc:]); i >= 0 {
			c.Failf("SplitNalU(%x): piece %x holds another unit", p, q)
		}
		if got := avc.RemoveStartCode(q); !bytes.Equal(got, q[sc:]) {
			c.Failf("RemoveStartCode(%x) = %x", q, got)
		}
	}
	// the units in order: every start code followed by a header begins a piece
	want := 0
	for k := 0; k+3 < len(p); k++ {
		if p[k] == 0 && p[k+1] == 0 && p[k+2] == 1 {
			want++
		}
	}
	if want == 0 {
		want = 1
	}
	if got := len(pieces); got != want {
		c.Failf("SplitNalU(%x): %d pieces, the data has %d units", p, got, want)
	}
	return len(pieces)
}

func checkRemove(c *C, p []byte) {
	want := p
	switch {
	case bytes.HasPrefix(p, []byte{0, 0, 0, 1}):
		want = p[4:]
	case bytes.HasPrefix(p, []byte{0, 0, 1}):
		want = p[3:]
	}
	if got := avc.RemoveStartCode(p); !bytes.Equal(got, want) {
		c.Failf("RemoveStartCode(%x) = %x", p, got)
	}
}

var scAlpha = []byte{0, 1, 2, 3, 0xff}

// enumBytes calls f with every string of exactly n symbols whose first symbols
// are given.
func enumBytes(alpha []byte, prefix []byte, n int, f func([]byte)) {
	buf := make([]byte, n)
	copy(buf, prefix)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(buf)
			return
		}
		for _, a := range alpha {
			buf[i] = a
			rec(i + 1)
		}
	}
	rec(len(prefix))
}

func startCodeExhaustive(c *C) {
	max := 10
	if c.tier == "thorough" {
		max = 12
	}
	al := scAlpha
	if c.idx >= 25 { // binary-ish alphabet, longer strings
		al = []byte{0, 1}
		max += 6
	}
	k := c.idx % 25
	if c.idx >= 25 && k >= 4 {
		return
	}
	pre := []byte{al[k/len(al)%len(al)], al[k%len(al)]}
	for n := 2; n <= max; n++ {
		cnt := 0
		enumBytes(al, pre, n, func(p []byte) {
			checkFind(c, p)
			checkSplit(c, p)
			checkRemove(c, p)
			cnt++
		})
		c.Eval(cnt)
		c.Ev("strings_enumerated", cnt)
		c.Tick()
	}
	if c.idx == 0 {
		for _, p := range [][]byte{nil, {}, {0}, {1}, {0, 0}, {0, 1}, {0, 0, 1}, {0, 0, 0, 1}} {
			checkFind(c, p)
			checkSplit(c, p)
			checkRemove(c, p)
		}
	}
}

func startCodeRandom(c *C) {
	for k := 0; k < 60; k++ {
		n := c.SizeSkewed(3000)
		p := make([]byte, n)
		switch c.N(4) {
		case 0:
			c.Fill(p)
		case 1:
			for i := range p {
				p[i] = byte(c.N(3))
			}
		case 2:
			for i := range p {
				p[i] = pick(c.Rng, scAlpha)
			}
		default:
			var nals [][]byte
			for j := c.Range(1, 8); j > 0; j-- {
				if c.Bool() {
					nals = append(nals, avcNal(c.Rng, c.Range(1, 23), c.Range(1, 60)))
				} else {
					nals = append(nals, hevcNal(c.Rng, c.N(48), c.Range(2, 60)))
				}
			}
			p = annexB(c.Rng, nals)
			if got := splitViaLib(p); !sameNals(got, nals) {
				c.Failf("SplitNalU of a well-formed stream gave units %s, put in %s", describeNals(got), describeNals(nals))
			}
			c.Ev("wellformed_streams", 1)
		}
		// walk the data unit by unit, as every caller does
		rest := p
		units := 0
		for {
			checkFind(c, rest)
			i, _ := refFind(rest)
			if i < 0 {
				break
			}
			units++
			rest = rest[i:]
		}
		pc := checkSplit(c, p)
		checkRemove(c, p)
		c.Ev("start_codes_seen", units)
		c.Ev("pieces", pc)
		c.Distinct(hashInts(units, pc, len(p)/16))
		c.Eval(1)
	}
}

func splitViaLib(p []byte) (out [][]byte) {
	avc.SplitNalU(p, func(n []byte) {
		if u := trimZeros(avc.RemoveStartCode(n)); len(u) > 0 {
			out = append(out, u)
		}
	})
	return
}

// ------------------------------------------------------------------ C13

type auOpt struct {
	hevc  bool
	ls    int
	empty bool // include empty units (consecutive start codes)
}

// genAU makes an access unit: any legal unit types, sizes from 1 byte up.
func genAU(c *C, hev bool, maxNal, maxSize int) [][]byte {
	var nals [][]byte
	n := c.Range(1, maxNal)
	for i := 0; i < n; i++ {
		size := c.Range(1, 12)
		if c.P(1, 5) {
			size = c.Range(1, maxSize)
		}
		if hev {
			typ := c.N(48)
			if c.Bool() {
				typ = pick(c.Rng, []int{0, 1, 19, 20, 21, 32, 33, 34, 35, 39, 16, 23})
			}
			nals = append(nals, hevcNal(c.Rng, typ, size))
		} else {
			typ := c.Range(1, 23)
			if c.Bool() {
				typ = pick(c.Rng, []int{1, 5, 5, 6, 7, 8, 9, 12})
			}
			nals = append(nals, avcNal(c.Rng, typ, size))
		}
	}
	return nals
}

func dropTypes(nals [][]byte, hev bool, typ int) (out [][]byte) {
	for i, t := range nalTypes(nals, hev) {
		if t != typ {
			out = append(out, nals[i])
		}
	}
	return
}

const canary = 0xA7

// dstBuf returns a destination of n usable bytes followed by guard bytes.
func dstBuf(n int) []byte {
	b := make([]byte, n+64)
	for i := range b {
		b[i] = canary
	}
	return b
}

func checkGuard(c *C, what string, b []byte, from int) {
	for i := from; i < len(b); i++ {
		if b[i] != canary {
			c.Failf("%s wrote at %d although it reported %d bytes", what, i, from)
		}
	}
}

// insertExtra gives the expected units with the extra units in front of the
// first random-access picture.
func insertExtra(nals, extra [][]byte, hev bool) ([][]byte, bool) {
	if len(extra) == 0 {
		return nals, false
	}
	seen := false
	for i, t := range nalTypes(nals, hev) {
		ra := t == 5
		if hev {
			ra = t >= 16 && t <= 23
		} else if t == 7 || t == 8 {
			seen = true
		}
		if ra {
			if seen {
				return nals, false
			}
			out := append([][]byte{}, nals[:i]...)
			out = append(out, extra...)
			return append(out, nals[i:]...), true
		}
	}
	return nals, false
}

func framingRun(c *C) {
	for k := 0; k < 40; k++ {
		hev := c.Bool()
		nals := genAU(c, hev, pick(c.Rng, []int{1, 3, 6, 20}), 400)
		var extra [][]byte
		if c.P(2, 3) {
			if hev {
				extra = [][]byte{genHEVCSet(c.Rng, 32, 8), genHEVCSet(c.Rng, 33, 20), genHEVCSet(c.Rng, 34, 6)}
			} else {
				extra = [][]byte{genAVCSPS(c.Rng, avcOpt{small: true}).nal, genAVCPPS(c.Rng, 6)}
			}
		}
		c.Distinct(hashInts(append(nalTypes(nals, hev), len(extra), int(b2u(hev)))...))
		framingOne(c, hev, nals, extra)
		c.Eval(1)
	}
}

func framingOne(c *C, hev bool, nals, extra [][]byte) {
	ex := concatSC4(extra)
	// --- length prefixed -> Annex-B
	sizes := []int{4}
	if hev {
		sizes = []int{1, 2, 3, 4}
	}
	for _, ls := range sizes {
		big := false
		for _, n := range nals {
			if len(n) >= 1<<(8*uint(ls)) {
				big = true
			}
		}
		if big {
			continue
		}
		src := lengthPrefixed(nals, ls)
		in := clone(src)
		want, ins := insertExtra(nals, extra, hev)
		if ins {
			c.Ev("extra_inserted", 1)
		}
		room := len(ex) + len(src) + 4*len(nals)
		if hev {
			dst := dstBuf(room)
			n, err := hevc.Mp4ToAnnexB(dst, src, ex, ls)
			if err != nil {
				c.Failf("hevc.Mp4ToAnnexB(lengthSize %d) rejected %s: %v", ls, describeNals(nals), err)
			}
			if n < 0 || n > room {
				c.Failf("hevc.Mp4ToAnnexB reported %d bytes for at most %d", n, room)
			}
			checkGuard(c, "hevc.Mp4ToAnnexB", dst, n)
			if got := splitAnnexB(dst[:n]); !sameNals(got, want) {
				c.Failf("hevc.Mp4ToAnnexB(lengthSize %d, extra %d): units %s, expected %s", ls, len(extra), describeNals(got), describeNals(want))
			}
			c.Ev("hevc_to_annexb", 1)
		} else {
			dst := dstBuf(room)
			n := avc.AVCC2AnnexB(dst, src, ex)
			if n < 0 || n > room {
				c.Failf("avc.AVCC2AnnexB reported %d bytes for at most %d", n, room)
			}
			checkGuard(c, "avc.AVCC2AnnexB", dst, n)
			w := dropTypes(want, false, 6)
			if len(w) != len(want) {
				c.Ev("sei_dropped", len(want)-len(w))
			}
			if got := splitAnnexB(dst[:n]); !sameNals(got, w) {
				c.Failf("avc.AVCC2AnnexB(extra %d) of types %v: units %s, expected %s", len(extra), nalTypes(nals, false), describeNals(got), describeNals(w))
			}
			// the writer-based conversion keeps SEI
			dst2 := dstBuf(room)
			wr := bufio.NewBytesWriter(dst2[:room])
			avc.Mp4ToAnnexB(wr, src, ex)
			n2 := wr.Offset()
			checkGuard(c, "avc.Mp4ToAnnexB", dst2, n2)
			if got := splitAnnexB(dst2[:n2]); !sameNals(got, want) {
				c.Failf("avc.Mp4ToAnnexB(extra %d) of types %v: units %s, expected %s", len(extra), nalTypes(nals, false), describeNals(got), describeNals(want))
			}
			c.Ev("avc_to_annexb", 2)
		}
		if !bytes.Equal(in, src) {
			c.Failf("conversion to Annex-B changed its input")
		}
	}
	// --- Annex-B -> length prefixed, with empty units in between
	// and stray zeros behind units in half of the cases
	var src []byte
	zeros := c.Bool()
	for _, n := range nals {
		for c.P(1, 8) {
			src = append(src, startCode(c.Rng)...)
			c.Ev("empty_units", 1)
		}
		src = append(src, startCode(c.Rng)...)
		src = append(src, n...)
		for zeros && c.P(1, 10) {
			src = append(src, 0)
		}
	}
	in := clone(src)
	room := len(src) + 4*len(nals) + 8
	dst := dstBuf(room)
	n := avc.AnnexB2AVCC(dst, src)
	if n < 0 || n > room {
		c.Failf("avc.AnnexB2AVCC reported %d bytes for at most %d", n, room)
	}
	checkGuard(c, "avc.AnnexB2AVCC", dst, n)
	got, ok := splitLength(dst[:n], 4)
	if !ok {
		c.Failf("avc.AnnexB2AVCC of %x produced broken length fields: %x", src, dst[:n])
	}
	if zeros {
		got = trimUnits(got)
	} else {
		c.Ev("to_length_prefixed_exact", 1)
	}
	if !sameNals(got, nals) {
		c.Failf("avc.AnnexB2AVCC of %s (hevc %v): units %s, expected %s", hexs(src), hev, describeNals(got), describeNals(nals))
	}
	if !bytes.Equal(in, src) {
		c.Failf("avc.AnnexB2AVCC changed its input")
	}
	c.Ev("to_length_prefixed", 1)
	// and back again
	dst2 := dstBuf(n + 4*len(nals))
	if hev {
		n2, err := hevc.Mp4ToAnnexB(dst2, dst[:n], nil, 4)
		if err != nil || !sameNals(splitAnnexB(dst2[:n2]), nals) {
			c.Failf("H.265 units did not survive Annex-B -> length prefixed -> Annex-B (%v): %s", err, describeNals(nals))
		}
	} else {
		n2 := avc.AVCC2AnnexB(dst2, dst[:n], nil)
		if !sameNals(splitAnnexB(dst2[:n2]), dropTypes(nals, false, 6)) {
			c.Failf("H.264 units did not survive Annex-B -> length prefixed -> Annex-B: %s", describeNals(nals))
		}
	}
	c.Ev("round_trip", 1)
}

// framingExhaustive runs every sequence of interesting unit types.
func framingExhaustive(c *C) {
	hev := c.idx%2 == 1
	types := []int{5, 1, 7, 8, 6, 9}
	if hev {
		types = []int{19, 21, 1, 0, 33, 39}
	}
	i := c.idx / 2
	withExtra := i%2 == 1
	i /= 2
	first := types[i%6]
	second := types[i/6%6]
	depth := 4
	if c.tier == "thorough" {
		depth = 6
	}
	seq := []int{first, second}
	var rec func()
	rec = func() {
		var nals, extra [][]byte
		for _, t := range seq {
			if hev {
				nals = append(nals, hevcNal(c.Rng, t, c.Range(2, 6)))
			} else {
				nals = append(nals, avcNal(c.Rng, t, c.Range(1, 6)))
			}
		}
		if withExtra {
			if hev {
				extra = [][]byte{genHEVCSet(c.Rng, 32, 4), genHEVCSet(c.Rng, 33, 4), genHEVCSet(c.Rng, 34, 4)}
			} else {
				extra = [][]byte{genAVCPPS(c.Rng, 4), genAVCPPS(c.Rng, 5)}
			}
		}
		framingOne(c, hev, nals, extra)
		c.Eval(1)
		c.Distinct(hashInts(append(append([]int{}, seq...), c.idx%4)...))
		if len(seq) == depth {
			return
		}
		for _, t := range types {
			seq = append(seq, t)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

// ------------------------------------------------------------------ C14

type allocRec struct {
	size int
	buf  []byte
}

func within(sub, whole []byte) bool {
	if cap(sub) == 0 || cap(whole) == 0 {
		return len(sub) == 0
	}
	a, b := addr(sub), addr(whole)
	return a >= b && a+uintptr(len(sub)) <= b+uintptr(len(whole))
}

func mkStream(c *C, hev bool, annexb bool, ls int) (*av.AVStream, [][]byte) {
	o := avcOpt{plain: c.Bool(), small: true}
	var cd av.CodecData
	var err error
	var sets [][]byte
	annexb = annexb || ls == 4 && c.P(1, 4) // sets imply four-byte lengths
	if hev {
		if annexb {
			sps := genHEVCSPS(c.Rng, o)
			vps, pps := genHEVCSet(c.Rng, 32, c.Range(4, 30)), genHEVCSet(c.Rng, 34, c.Range(3, 30))
			cd, err = av.NewHEVCCodecData(withSC4(vps), withSC4(sps.nal), withSC4(pps))
			sets = [][]byte{vps, sps.nal, pps}
		} else {
			r := genHEVCRecord(c.Rng, o, c.Range(1, 2), c.Range(1, 2), c.Range(1, 3), 40, ls)
			cd, err = av.ParseHEVCDecoderConfigurationRecord(r.data)
			sets = append(append(append(sets, r.vps...), r.sps...), r.pps...)
		}
		if err != nil {
			c.Failf("valid H.265 parameter sets rejected: %v", err)
		}
		return av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, nil, cd), sets
	}
	if annexb {
		sps := genAVCSPS(c.Rng, o)
		pps := genAVCPPS(c.Rng, c.Range(3, 30))
		cd, err = av.NewAVCCodecData(withSC4(sps.nal), withSC4(pps))
		sets = [][]byte{sps.nal, pps}
	} else {
		r := genAVCRecord(c.Rng, o, c.Range(1, 2), c.Range(1, 3), 40, ls)
		cd, err = av.ParseAVCDecoderConfigurationRecord(r.data)
		sets = r.sets()
	}
	if err != nil {
		c.Failf("valid H.264 parameter sets rejected: %v", err)
	}
	return av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, cd), sets
}

type pktMeta struct {
	pts, dts, dur, created int64
	key                    bool
	bi, idx, tb            int
	mt                     utils.AVMediaType
	id                     utils.AVCodecID
	pt                     av.PacketType
	data                   uint64
	dlen                   int
	daddr                  uintptr
}

func metaOf(p *av.AVPacket) pktMeta {
	return pktMeta{p.Pts, p.Dts, p.Duration, p.CreatedTime, p.Key, p.BufferIndex, p.Index, p.Timebase, p.MediaType, p.CodecID, p.PacketType, hashBytes(p.Data), len(p.Data), addr(p.Data)}
}

// randomMeta gives a packet visible metadata that conversions must not touch.
func randomMeta(c *C, p *av.AVPacket) {
	p.Duration = int64(c.N(100000))
	p.CreatedTime = int64(c.N(1 << 40))
	p.BufferIndex = c.N(9)
}

func packetRun(c *C) {
	for k := 0; k < 12; k++ {
		packetOne(c, nil)
		c.Eval(1)
	}
}

// packetOne converts one packet; units makes its slices and SEI if not nil.
func packetOne(c *C, units func(hev bool) [][]byte) {
	hev := c.Bool()
	annexbPkt := c.Bool()
	ls := pick(c.Rng, []int{4, 4, 4, 2, 1, 3})
	if !hev && !annexbPkt && ls == 3 {
		ls = 4 // not a legal H.264 length size
	}
	st, sets := mkStream(c, hev, annexbPkt, ls)
	noCodec := c.P(1, 8) && (annexbPkt || !hev || ls == 4)
	if noCodec {
		st.CodecParameters = nil
		if !annexbPkt {
			ls = 4
		}
	}
	id := utils.AVCodecIdH264
	if hev {
		id = utils.AVCodecIdH265
	}
	maxNal := pick(c.Rng, []int{1, 2, 4, 4, 60, 400})
	nals := genAU(c, hev, maxNal, pick(c.Rng, []int{30, 250}))
	if c.P(1, 12) {
		// a great many of the smallest units: the most growth per byte
		maxNal, nals = 60, nil
		for n := c.Range(200, 700); n > 0; n-- {
			if hev {
				nals = append(nals, hevcNal(c.Rng, pick(c.Rng, []int{1, 39}), 2))
			} else {
				nals = append(nals, avcNal(c.Rng, pick(c.Rng, []int{1, 1, 5, 1, 1, 1, 1, 6}), 1))
			}
		}
		c.Ev("tiny_units", 1)
	}
	if units != nil {
		maxNal, nals = 60, units(hev)
	}
	key := c.Bool()
	own := false
	if key && c.Bool() {
		// an access unit that brings its own parameter sets, those of the stream or others
		own = true
		mine := sets
		if c.P(1, 4) {
			if hev {
				mine = [][]byte{genHEVCSet(c.Rng, 32, 9), genHEVCSet(c.Rng, 33, 30), genHEVCSet(c.Rng, 34, 9)}
			} else {
				mine = [][]byte{genAVCSPS(c.Rng, avcOpt{small: true}).nal, genAVCPPS(c.Rng, 9)}
			}
		}
		nals = append(append([][]byte{}, mine...), nals...)
	}
	if ls < 4 {
		var small [][]byte
		for _, n := range nals {
			if len(n) < 1<<(8*uint(ls)) {
				small = append(small, n)
			}
		}
		if len(small) == 0 {
			return
		}
		nals = small
		own = own && len(small) > 0 && isSet(small[0], hev)
	}
	var data []byte
	stray := false
	if annexbPkt {
		if maxNal >= 60 {
			for _, n := range nals { // all three-byte start codes: the most growth
				data = append(append(data, 0, 0, 1), n...)
			}
		} else {
			data = annexB(c.Rng, nals)
		}
		if stray = c.P(1, 6); stray {
			// zeros that belong to the byte stream: behind units, in front of start codes
			data = nil
			for _, n := range nals {
				data = append(append(data, startCode(c.Rng)...), n...)
				if c.N(3) == 0 {
					data = append(data, make([]byte, c.Range(1, 5))...)
				}
			}
			data = append(data, make([]byte, c.N(5))...)
			c.Ev("stray_zeros", 1)
		}
	} else {
		data = lengthPrefixed(nals, ls)
	}
	pt := av.PacketTypeAVCC
	if annexbPkt {
		pt = av.PacketTypeAnnexB
	}
	pkt := av.NewVideoPacket(data, int64(c.N(1<<30)), int64(c.N(1<<30)), key, pt, id, c.N(4), pick(c.Rng, []int{1000, 90000}))
	defer av.FreePacket(pkt)
	randomMeta(c, pkt)
	var allocs []allocRec
	useAlloc := c.Bool()
	if useAlloc {
		pkt.OnBufferAlloc = func(n int) []byte {
			// pool buffers come with old contents
			b := make([]byte, n, n+c.N(3)*16)
			for i := range b {
				b[i] = 0xEE
			}
			allocs = append(allocs, allocRec{n, b})
			return b
		}
	}
	before := metaOf(pkt)
	input := clone(data)
	dir := c.N(3) // to AnnexB, to AVCC, both
	desc := fmt.Sprintf("hevc=%v annexb=%v lengthSize=%d key=%v own=%v nals=%d alloc=%v codec=%v", hev, annexbPkt, ls, key, own, len(nals), useAlloc, !noCodec)
	check := func(out []byte, what string) {
		if !bytes.Equal(pkt.Data, input) || metaOf(pkt) != before {
			c.Failf("%s changed the packet itself (%s)", what, desc)
		}
		if addr(out) != addr(pkt.Data) && useAlloc {
			ok := false
			for _, a := range allocs {
				ok = ok || within(out, a.buf)
			}
			if !ok {
				c.Failf("%s: the result does not live in the allocator's memory (%s)", what, desc)
			}
			c.Ev("allocator_results", 1)
		}
	}
	doAnnexB := func() []byte {
		out := av.AVCCPacket2AnnexB(st, pkt)
		check(out, "conversion to Annex-B")
		got := splitAnnexB(out)
		if !annexbPkt {
			want := nals
			if !hev && len(got) != len(nals) {
				want = nals
			}
			var pre [][]byte
			if key && !noCodec {
				pre = sets
			}
			if !matchConverted(got, pre, want, hev) {
				c.Failf("conversion to Annex-B gave units %s, packet has %s, stream has %s (%s)", describeNals(got), describeNals(want), describeNals(pre), desc)
			}
			c.Ev("avcc_to_annexb", 1)
		} else {
			// pass-through, with the stream's sets placed in front of a key
			// frame that does not begin with parameter sets
			switch {
			case sameNals(got, nals):
			case key && !noCodec && sameNals(got, append(append([][]byte{}, sets...), nals...)):
				c.Ev("sets_prepended", 1)
			default:
				c.Failf("Annex-B packet came out as %s, has %s (%s)", describeNals(got), describeNals(nals), desc)
			}
			if !key && !bytes.Equal(out, input) {
				c.Failf("Annex-B packet that is no key frame was changed (%s)", desc)
			}
			c.Ev("annexb_to_annexb", 1)
		}
		if key && !noCodec && (len(got) == 0 || !isSet(got[0], hev)) {
			c.Failf("Annex-B key frame begins with %s instead of a parameter set (%s)", describeNals(got), desc)
		}
		return out
	}
	doAVCC := func() []byte {
		out := av.AnnexBPacket2AVCC(pkt)
		check(out, "conversion to length-prefixed")
		if annexbPkt {
			got, ok := splitLength(out, 4)
			if stray {
				got = trimUnits(got)
			}
			if !ok || !sameNals(got, nals) {
				c.Failf("conversion to length-prefixed gave %s (well-formed %v), packet has %s (%s)", describeNals(got), ok, describeNals(nals), desc)
			}
			c.Ev("annexb_to_avcc", 1)
		} else {
			if !bytes.Equal(out, input) {
				c.Failf("length-prefixed packet was not passed through (%s)", desc)
			}
			c.Ev("avcc_pass", 1)
		}
		return out
	}
	var first []byte
	switch dir {
	case 0:
		first = clone(doAnnexB())
	case 1:
		first = clone(doAVCC())
	default:
		a := clone(doAnnexB())
		v := clone(doAVCC())
		if !bytes.Equal(a, doAnnexB()) || !bytes.Equal(v, doAVCC()) {
			c.Failf("repeating the conversions gave different bytes (%s)", desc)
		}
	}
	if dir < 2 {
		var again []byte
		if dir == 0 {
			again = doAnnexB()
		} else {
			again = doAVCC()
		}
		if !bytes.Equal(first, again) {
			c.Failf("repeating the conversion gave different bytes (%s)", desc)
		}
	}
	c.Ev("repeat", 1)
	if noCodec {
		c.Ev("no_codec_data", 1)
	}
	c.Distinct(hashInts(int(b2u(hev)), int(b2u(annexbPkt)), ls, int(b2u(key)), int(b2u(own)), int(b2u(useAlloc)), dir, len(nals), int(b2u(noCodec))))
	c.Sample(func() string { return desc + " types " + fmt.Sprint(nalTypes(nals, hev)) })
}

func isSet(n []byte, hev bool) bool {
	t := nalTypes([][]byte{n}, hev)[0]
	if hev {
		return t >= 32 && t <= 34
	}
	return t == 7 || t == 8
}

// matchConverted: pre, then the units of the packet in order; H.264 SEI may be
// missing. A key frame that brings its own sets need not be given others.
func matchConverted(got, pre, nals [][]byte, hev bool) bool {
	try := func(got [][]byte) bool {
		i := 0
		for _, n := range nals {
			if i < len(got) && bytes.Equal(got[i], n) {
				i++
				continue
			}
			if !hev && n[0]&0x1f == 6 {
				continue
			}
			return false
		}
		return i == len(got)
	}
	if len(pre) > 0 && len(got) >= len(pre) && sameNals(got[:len(pre)], pre) && try(got[len(pre):]) {
		return true
	}
	if len(pre) == 0 || len(nals) > 0 && isSet(nals[0], hev) {
		return try(got)
	}
	return false
}

// otherCodec: packets of other codecs pass through both conversions.
func otherCodec(c *C) {
	for _, id := range []utils.AVCodecID{utils.AVCodecIdMPEG4, utils.AVCodecIdMPEG2VIDEO, utils.AVCodecIdVP8, utils.AVCodecIdAV1} {
		for _, pt := range []av.PacketType{av.PacketTypeAnnexB, av.PacketTypeAVCC, av.PacketTypeNONE} {
			data := c.Bytes(c.Range(1, 200))
			in := clone(data)
			st := av.NewAVStream(utils.AVMediaTypeVideo, 0, id, nil, nil)
			pkt := av.NewVideoPacket(data, 1, 2, c.Bool(), pt, id, 0, 1000)
			a, b := av.AVCCPacket2AnnexB(st, pkt), av.AnnexBPacket2AVCC(pkt)
			if !bytes.Equal(a, in) || !bytes.Equal(b, in) || !bytes.Equal(pkt.Data, in) {
				c.Failf("packet of codec %v and format %d was not passed through", id, pt)
			}
			av.FreePacket(pkt)
			c.Ev("other_codec", 1)
			c.Eval(1)
		}
	}
	c.Distinct(c.U64())
}

// ------------------------------------------------------------------ C19

func keyRun(c *C) {
	for k := 0; k < 60; k++ {
		hev := c.Bool()
		var pre []int
		if hev {
			pre = []int{32, 33, 34, 35, 39, 32, 33, 34, 35, 39, 40}
		} else {
			pre = []int{6, 7, 8, 9}
		}
		var nals [][]byte
		mk := func(t int) []byte {
			size := c.Range(1, 20)
			if c.P(1, 6) {
				size = c.Range(1, 300)
			}
			if hev {
				return hevcNal(c.Rng, t, size)
			}
			return avcNal(c.Rng, t, size)
		}
		for n := c.SizeSkewed(12); n > 0; n-- {
			nals = append(nals, mk(pick(c.Rng, pre)))
		}
		want := false
		slices := c.N(4)
		for i := 0; i < slices; i++ {
			t := 1
			if hev {
				t = pick(c.Rng, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21, 22, 23})
			} else if c.Bool() {
				t = 5
			}
			if i == 0 {
				want = t == 5
				if hev {
					want = t >= 16 && t <= 23
				}
			}
			nals = append(nals, mk(t))
			// suffix SEI, end of sequence and the like after the slices
			if c.P(1, 6) {
				if hev {
					nals = append(nals, mk(pick(c.Rng, []int{40, 36, 39})))
				} else {
					nals = append(nals, mk(pick(c.Rng, []int{6, 10, 12})))
				}
			}
		}
		keyCheck(c, hev, nals, want)
		c.Eval(1)
	}
}

func keyCheck(c *C, hev bool, nals [][]byte, want bool) {
	data := annexB(c.Rng, nals)
	in := clone(data)
	id, other := utils.AVCodecIdH264, utils.AVCodecIdH265
	var direct bool
	if hev {
		id, other = other, id
		direct = hevc.IsKeyFrame(data)
	} else {
		direct = avc.IsKeyFrame(data)
	}
	got := av.IsKeyFrame(id, data)
	if got != want || direct != want {
		c.Failf("access unit with units %v (hevc %v) classified key=%v/%v, is %v; data %s", nalTypes(nals, hev), hev, got, direct, want, hexs(data))
	}
	if av.IsKeyFrame(utils.AVCodecIdAAC, data) || av.IsKeyFrame(utils.AVCodecIdMPEG4, data) || av.IsKeyFrame(utils.AVCodecIdNONE, data) {
		c.Failf("data of another codec classified as key frame")
	}
	if !bytes.Equal(in, data) {
		c.Failf("key frame detection changed its input")
	}
	if want {
		c.Ev("key_frames", 1)
	} else {
		c.Ev("other_units", 1)
	}
	c.Distinct(hashInts(append(nalTypes(nals, hev), int(b2u(hev)))...))
}

func keyExhaustive(c *C) {
	hev := c.idx%2 == 1
	types := []int{6, 7, 8, 9, 1, 5}
	if hev {
		types = []int{35, 33, 39, 1, 19, 21, 0, 16, 23}
	}
	first := types[c.idx/2%len(types)]
	depth := 5
	if c.tier == "thorough" {
		depth = 6
	}
	seq := []int{first}
	isSlice := func(t int) bool {
		if hev {
			return t < 32
		}
		return t == 1 || t == 5
	}
	var rec func(slice bool, key bool)
	rec = func(slice, key bool) {
		t := seq[len(seq)-1]
		if isSlice(t) && !slice {
			slice = true
			key = t == 5
			if hev {
				key = t >= 16
			}
		}
		if !isSlice(t) && slice {
			return // not of the form (delimiter, sets, SEI)* slices
		}
		var nals [][]byte
		for _, t := range seq {
			if hev {
				nals = append(nals, hevcNal(c.Rng, t, c.Range(2, 5)))
			} else {
				nals = append(nals, avcNal(c.Rng, t, c.Range(1, 5)))
			}
		}
		keyCheck(c, hev, nals, key)
		c.Eval(1)
		if len(seq) == depth {
			return
		}
		for _, t := range types {
			seq = append(seq, t)
			rec(slice, key)
			seq = seq[:len(seq)-1]
		}
	}
	rec(false, false)
}

func keyNone(c *C) {
	cases := [][]byte{nil, {}, {0}, {0, 0, 1}, {0, 0, 0, 1}, {0x65, 1, 2}, c.Bytes(c.N(3)), {0, 0, 1, 0x67}, {0, 0, 1, 0x09, 0xf0, 0, 0, 1}}
	for _, d := range cases {
		for _, id := range []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC} {
			if av.IsKeyFrame(id, d) {
				c.Failf("data %x without any coded slice classified as key frame of codec %v", d, id)
			}
			c.Eval(1)
			c.Ev("other_units", 1)
		}
	}
	c.Distinct(uint64(c.idx))
}

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "every byte string over {0,1,2,3,255} up to length 9 (11) and over {0,1} up to 15 (17), and random streams, against a naive scanner; distinct = (units, pieces, size class)",
		Need: []string{"strings_enumerated", "wellformed_streams", "start_codes_seen", "pieces"},
		Families: []*Family{
			{Name: "exhaustive", Quick: 29, Thorough: 29, Run: startCodeExhaustive},
			{Name: "random", Quick: 15000, Thorough: 600000, Run: startCodeRandom},
			{Name: "large", Quick: 120, Thorough: 2000, Run: startCodeLarge},
		},
	})
	register(&Prop{
		ID:   "C13",
		Rule: "access units of all legal unit types and sizes converted in both directions and compared unit by unit with an independent splitter, guard bytes behind the reported size; distinct = sequences of unit types with/without extra data",
		Need: []string{"hevc_to_annexb", "avc_to_annexb", "to_length_prefixed", "round_trip", "extra_inserted", "sei_dropped", "empty_units"},
		Families: []*Family{
			{Name: "type-sequences", Quick: 144, Thorough: 144, Run: framingExhaustive},
			{Name: "random", Quick: 25000, Thorough: 800000, Run: framingRun},
			{Name: "large", Quick: 96, Thorough: 1200, Run: framingLarge},
		},
	})
	register(&Prop{
		ID:   "C14",
		Rule: "packets of both framings, both codecs, all length sizes, 1-400 units, with and without own parameter sets, allocator and codec data; distinct = configurations times unit counts",
		Need: []string{"avcc_to_annexb", "annexb_to_annexb", "annexb_to_avcc", "avcc_pass", "sets_prepended", "allocator_results", "repeat", "no_codec_data", "other_codec"},
		Families: []*Family{
			{Name: "packets", Quick: 25000, Thorough: 800000, Run: packetRun},
			{Name: "large", Quick: 400, Thorough: 4000, Run: packetLarge},
			{Name: "same-memory", Quick: 4000, Thorough: 120000, Run: packetSameMemory},
			{Name: "other-codecs", Quick: 200, Thorough: 3000, Run: otherCodec},
		},
	})
	register(&Prop{
		ID:   "C19",
		Rule: "access units of delimiter/parameter-set/SEI units followed by slices, every type sequence up to length 5 (6) and random ones with all header bits; distinct = sequences of unit types",
		Need: []string{"key_frames", "other_units"},
		Families: []*Family{
			{Name: "type-sequences", Quick: 18, Thorough: 18, Run: keyExhaustive},
			{Name: "random", Quick: 30000, Thorough: 1000000, Run: keyRun},
			{Name: "large", Quick: 160, Thorough: 2400, Run: keyLarge},
			{Name: "no-slice", Quick: 100, Thorough: 1500, Run: keyNone},
		},
	})
}
