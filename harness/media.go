package main

import "bytes"

// Independent encoders for the elementary-stream syntax the library parses.
// They are written from the standards and share no code with the library.

// ---- bit writer

type bitw struct {
	b []byte
	n int // bits used
}

func (w *bitw) bit(v uint64) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	if v&1 != 0 {
		w.b[w.n/8] |= 1 << (7 - uint(w.n%8))
	}
	w.n++
}

func (w *bitw) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		w.bit(v >> uint(i))
	}
}

func (w *bitw) ue(v uint64) {
	v++
	n := 0
	for t := v; t > 1; t >>= 1 {
		n++
	}
	for i := 0; i < n; i++ {
		w.bit(0)
	}
	w.u(n+1, v)
}

func (w *bitw) se(v int64) {
	if v > 0 {
		w.ue(uint64(2*v - 1))
	} else {
		w.ue(uint64(-2 * v))
	}
}

func (w *bitw) trailing() {
	w.bit(1)
	for w.n%8 != 0 {
		w.bit(0)
	}
}

// emulate inserts emulation-prevention bytes.
func emulate(rbsp []byte) []byte {
	var out []byte
	zeros := 0
	for _, b := range rbsp {
		if zeros == 2 && b <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, b)
		if b == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return out
}

// ---- NAL units

func hasStartCode(p []byte) bool { return bytes.Contains(p, []byte{0, 0, 1}) }

// nalPayload returns n bytes legal inside a NAL unit (no start code, no three
// zeros, not ending in zero), biased to zeros, ones and threes.
func nalPayload(r *Rng, n int) []byte {
	raw := make([]byte, n)
	r.Fill(raw)
	if r.Bool() {
		for i := range raw {
			switch r.N(5) {
			case 0, 1:
				raw[i] = 0
			case 2:
				raw[i] = byte(r.N(4))
			}
		}
	}
	raw = emulate(raw)
	if len(raw) > n {
		raw = raw[:n]
	}
	if n > 0 && raw[n-1] == 0 {
		raw[n-1] = 0x80
	}
	return raw
}

// avcNal builds an H.264 NAL unit of the type with size bytes in total.
func avcNal(r *Rng, typ, size int) []byte {
	if size < 1 {
		size = 1
	}
	ref := byte(r.N(4)) << 5
	return append([]byte{ref | byte(typ)}, nalPayload(r, size-1)...)
}

// hevcNal builds an H.265 NAL unit of the type with size >= 2 bytes.
func hevcNal(r *Rng, typ, size int) []byte {
	if size < 2 {
		size = 2
	}
	layer := 0
	if r.P(1, 4) {
		layer = r.N(64)
	}
	tid := r.Range(1, 7)
	h0 := byte(typ)<<1 | byte(layer>>5)
	h1 := byte(layer)<<3 | byte(tid)
	pl := nalPayload(r, size-2)
	n := append([]byte{h0, h1}, pl...)
	// the header can combine with the payload into a forbidden sequence only
	// if it contains zeros; h1 is never zero
	return n
}

func startCode(r *Rng) []byte {
	if r.Bool() {
		return []byte{0, 0, 1}
	}
	return []byte{0, 0, 0, 1}
}

func annexB(r *Rng, nals [][]byte) []byte {
	var out []byte
	for _, n := range nals {
		out = append(out, startCode(r)...)
		out = append(out, n...)
	}
	return out
}

// sameUnits compares two unit lists whatever their order.
func sameUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && bytes.Equal(x, y) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

// shuffled gives the units in any order now and then.
func shuffled(r *Rng, nals [][]byte) [][]byte {
	out := append([][]byte{}, nals...)
	if r.N(5) == 0 {
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func lengthPrefixed(nals [][]byte, ls int) []byte {
	var out []byte
	for _, n := range nals {
		for i := ls - 1; i >= 0; i-- {
			out = append(out, byte(len(n)>>(8*uint(i))))
		}
		out = append(out, n...)
	}
	return out
}

func trimZeros(p []byte) []byte {
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	return p
}

// splitAnnexB is the reference splitter: units between start codes, with
// trailing zeros (which belong to the byte stream, not the unit) removed.
func splitAnnexB(p []byte) [][]byte {
	var out [][]byte
	start := -1
	for i := 0; i+2 < len(p); {
		if p[i] == 0 && p[i+1] == 0 && p[i+2] == 1 {
			if start >= 0 {
				if n := trimZeros(p[start:i]); len(n) > 0 {
					out = append(out, n)
				}
			}
			start = i + 3
			i += 3
		} else {
			i++
		}
	}
	if start >= 0 {
		if n := trimZeros(p[start:]); len(n) > 0 {
			out = append(out, n)
		}
	}
	return out
}

// trimUnits removes trailing zeros, which belong to the byte stream between
// units when the source had stray zeros there.
func trimUnits(l [][]byte) (out [][]byte) {
	for _, n := range l {
		out = append(out, trimZeros(n))
	}
	return
}

// splitLength is the reference reader of length-prefixed data; the lengths are
// taken as they are.
func splitLength(p []byte, ls int) ([][]byte, bool) {
	var out [][]byte
	for len(p) > 0 {
		if len(p) < ls {
			return out, false
		}
		n := 0
		for i := 0; i < ls; i++ {
			n = n<<8 | int(p[i])
		}
		p = p[ls:]
		if n > len(p) {
			return out, false
		}
		out = append(out, p[:n])
		p = p[n:]
	}
	return out, true
}

func sameNals(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func nalTypes(nals [][]byte, hevc bool) (ts []int) {
	for _, n := range nals {
		if hevc {
			ts = append(ts, int(n[0]>>1)&0x3f)
		} else {
			ts = append(ts, int(n[0])&0x1f)
		}
	}
	return
}

func describeNals(nals [][]byte) string {
	s := ""
	for i, n := range nals {
		if i > 0 {
			s += " "
		}
		if i == 12 {
			return s + "..."
		}
		s += hexs(n)
	}
	return s
}

// ---- H.264 SPS

type avcSPS struct {
	nal                           []byte
	profile, constraint, level    int
	id                            int
	width, height                 int
	fps                           int
	chroma                        int
	frameMbsOnly, cropped, timing bool
	epb                           bool
	mbw, mapH                     int
	crop                          [4]int
	need                          int // bits after the header byte up to the end of the last dimension field
}

var avcHigh = []int{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}
var avcLow = []int{66, 77, 88}

type avcOpt struct {
	plain bool // only what every demuxer meets: 4:2:0 main/high
	small bool
	w, h  int // picture size in macroblocks (H.265: samples); chosen if zero
}

func genAVCSPS(r *Rng, o avcOpt) avcSPS {
	var s avcSPS
	var w bitw
	high := r.Bool()
	if high {
		s.profile = pick(r, avcHigh)
		if o.plain {
			s.profile = 100
		}
	} else {
		s.profile = pick(r, avcLow)
	}
	s.constraint = r.N(64) << 2
	s.level = pick(r, []int{9, 10, 11, 12, 13, 20, 21, 22, 30, 31, 32, 40, 41, 42, 50, 51, 52, 60, 62})
	s.id = r.N(32)
	w.u(8, uint64(s.profile))
	w.u(8, uint64(s.constraint))
	w.u(8, uint64(s.level))
	w.ue(uint64(s.id))
	s.chroma = 1
	sep := 0
	if high {
		if !o.plain {
			s.chroma = r.N(4)
		}
		w.ue(uint64(s.chroma))
		if s.chroma == 3 {
			sep = r.N(2)
			w.bit(uint64(sep))
		}
		w.ue(uint64(r.N(7)))
		w.ue(uint64(r.N(7)))
		w.bit(uint64(r.N(2)))
		if r.Bool() {
			w.bit(1)
			lists := 8
			if s.chroma == 3 {
				lists = 12
			}
			for i := 0; i < lists; i++ {
				if r.Bool() {
					w.bit(0)
					continue
				}
				w.bit(1)
				n := 16
				if i >= 6 {
					n = 64
				}
				// choose target scale values; 0 ends the list early
				last, next := 8, 8
				stop := -1
				if r.P(1, 3) {
					stop = r.N(n)
				}
				for j := 0; j < n; j++ {
					if next != 0 {
						v := r.Range(1, 255)
						if j == stop {
							v = 0
						}
						d := v - last
						if d < -128 {
							d += 256
						}
						if d > 127 {
							d -= 256
						}
						w.se(int64(d))
						next = v
					}
					if next != 0 {
						last = next
					}
				}
			}
		} else {
			w.bit(0)
		}
	}
	w.ue(uint64(r.N(13))) // log2_max_frame_num_minus4
	switch poc := r.N(3); poc {
	case 0:
		w.ue(0)
		w.ue(uint64(r.N(13)))
	case 1:
		w.ue(1)
		w.bit(uint64(r.N(2)))
		off := func() int64 {
			switch r.N(4) {
			case 0:
				return 0
			case 1:
				return int64(r.Range(-3, 3))
			case 2:
				return int64(r.Range(-70000, 70000))
			default:
				return int64(r.Range(-2147483647, 2147483647))
			}
		}
		w.se(off())
		w.se(off())
		n := r.N(4)
		if r.P(1, 10) {
			n = r.N(256)
		}
		w.ue(uint64(n))
		for i := 0; i < n; i++ {
			w.se(off())
		}
	default:
		w.ue(2)
	}
	w.ue(uint64(r.N(17)))
	w.bit(uint64(r.N(2)))
	maxMb := 256
	if o.small {
		maxMb = 60
	}
	mbw, mapH := r.Range(1, maxMb), r.Range(1, maxMb/2)
	switch r.N(6) {
	case 0:
		mbw, mapH = 120, 68 // 1080p
	case 1:
		mbw, mapH = 80, 45
	case 2:
		mbw, mapH = 120, 34 // 1080i as field pairs
	}
	if !o.small && r.P(1, 12) { // up to the largest picture of any level
		mbw = r.Range(256, 1055)
		mapH = r.Range(1, min(1055, 139264/mbw))
		if r.Bool() {
			mbw, mapH = mapH, mbw
		}
	}
	if o.w > 0 {
		mbw, mapH = o.w, o.h
	}
	s.frameMbsOnly = r.Bool()
	w.ue(uint64(mbw - 1))
	w.ue(uint64(mapH - 1))
	fmo := 0
	if s.frameMbsOnly {
		fmo = 1
	}
	w.bit(uint64(fmo))
	if fmo == 0 {
		w.bit(uint64(r.N(2)))
	}
	w.bit(uint64(r.N(2)))
	s.width = mbw * 16
	s.height = (2 - fmo) * mapH * 16
	arrayType := s.chroma
	if sep == 1 {
		arrayType = 0
	}
	cux, cuy := 1, 2-fmo
	switch arrayType {
	case 1:
		cux, cuy = 2, 2*(2-fmo)
	case 2:
		cux, cuy = 2, 2-fmo
	}
	s.cropped = r.Bool()
	if s.cropped {
		w.bit(1)
		l, rr, t, b := r.N(4), r.N(4), r.N(4), r.N(4)
		if r.P(1, 3) {
			l, t = 0, 0
			if cuy > 0 {
				b = 8 / cuy
			}
		}
		if r.P(1, 5) { // as much of the picture as may be cut away
			l, rr = splitCut(r, (s.width-1)/cux)
			t, b = splitCut(r, (s.height-1)/cuy)
		}
		if (l+rr)*cux >= s.width {
			l, rr = 0, 0
		}
		if (t+b)*cuy >= s.height {
			t, b = 0, 0
		}
		w.ue(uint64(l))
		w.ue(uint64(rr))
		w.ue(uint64(t))
		w.ue(uint64(b))
		s.width -= (l + rr) * cux
		s.height -= (t + b) * cuy
		s.crop = [4]int{l, rr, t, b}
	} else {
		w.bit(0)
	}
	s.mbw, s.mapH = mbw, mapH
	s.need = w.n
	if r.Bool() {
		w.bit(0)
	} else {
		w.bit(1)
		if r.Bool() { // aspect ratio
			w.bit(1)
			if r.Bool() {
				w.u(8, 255)
				w.u(16, uint64(r.N(3)))
				w.u(16, uint64(r.N(65536)))
			} else {
				w.u(8, uint64(r.N(17)))
			}
		} else {
			w.bit(0)
		}
		if r.Bool() { // overscan
			w.u(2, uint64(2+r.N(2)))
		} else {
			w.bit(0)
		}
		if r.Bool() { // video signal type
			w.bit(1)
			w.u(3, uint64(r.N(8)))
			w.bit(uint64(r.N(2)))
			if r.Bool() {
				w.bit(1)
				w.u(24, r.U64())
			} else {
				w.bit(0)
			}
		} else {
			w.bit(0)
		}
		if r.Bool() { // chroma loc
			w.bit(1)
			w.ue(uint64(r.N(6)))
			w.ue(uint64(r.N(6)))
		} else {
			w.bit(0)
		}
		if r.P(2, 3) {
			s.timing = true
			w.bit(1)
			var nu, ts uint64
			switch r.N(5) {
			case 4: // all 32 bits
				nu, ts = uint64(uint32(r.U64()))>>uint(r.N(32)), uint64(uint32(r.U64()))>>uint(r.N(4))
				if nu == 0 {
					nu = 1
				}
			case 0:
				nu, ts = 1, uint64(r.Range(2, 240))
			case 1:
				nu, ts = 1001, uint64(pick(r, []int{24000, 30000, 48000, 60000, 120000}))
			case 2:
				nu = uint64(r.Range(1, 1<<20))
				ts = nu * uint64(r.Range(1, 500))
			default:
				nu, ts = uint64(r.Range(1, 5000)), uint64(r.Range(1, 1<<28))
			}
			w.u(32, nu)
			w.u(32, ts)
			w.bit(uint64(r.N(2)))
			s.fps = int(ts / (2 * nu))
		} else {
			w.bit(0)
		}
		// nal_hrd, vcl_hrd
		w.bit(0)
		w.bit(0)
		w.bit(uint64(r.N(2))) // pic_struct
		if r.Bool() {
			w.bit(1)
			w.bit(1)
			w.ue(uint64(r.N(4)))
			w.ue(uint64(r.N(4)))
			w.ue(uint64(r.N(17)))
			w.ue(uint64(r.N(17)))
			w.ue(uint64(r.N(17)))
			w.ue(uint64(r.N(17)))
		} else {
			w.bit(0)
		}
	}
	w.trailing()
	body := emulate(w.b)
	s.epb = len(body) != len(w.b)
	s.nal = append([]byte{byte(r.Range(1, 3))<<5 | 7}, body...)
	return s
}

func genAVCPPS(r *Rng, size int) []byte {
	n := avcNal(r, 8, size)
	n[0] = byte(r.Range(1, 3))<<5 | 8
	return n
}

// ---- H.265 SPS

type hevcSPS struct {
	nal            []byte
	ptl            [12]byte // general profile/tier/level bytes as in the record
	width, height  int
	chroma         int
	subLayers      int
	bitDL, bitDC   int
	nested         int
	window         bool
	epb            bool
	subLayerFields int
	codedW, codedH int
	need           int // bits after the header up to the end of the last dimension field
}

func genHEVCSPS(r *Rng, o avcOpt) hevcSPS {
	var s hevcSPS
	var w bitw
	w.u(4, uint64(r.N(16)))
	maxSub := 0
	if !o.plain && r.P(2, 3) {
		maxSub = r.N(7)
	}
	s.subLayers = maxSub + 1
	w.u(3, uint64(maxSub))
	s.nested = r.N(2)
	if maxSub == 0 {
		s.nested = 1
	}
	w.bit(uint64(s.nested))
	// general profile space/tier/idc, compatibility, constraints, level
	r.Fill(s.ptl[:])
	s.ptl[0] = byte(r.N(2))<<5 | byte(r.Range(1, 11))
	if !o.plain && r.P(1, 3) {
		s.ptl[0] |= byte(r.N(4)) << 6
	}
	if r.Bool() { // realistic zero-rich constraint bytes
		copy(s.ptl[1:], []byte{0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0})
	}
	s.ptl[11] = byte(pick(r, []int{30, 60, 63, 90, 93, 120, 123, 150, 153, 156, 180, 183, 186}))
	for _, b := range s.ptl {
		w.u(8, uint64(b))
	}
	var prof, lev [8]bool
	for i := 0; i < maxSub; i++ {
		prof[i], lev[i] = r.Bool(), r.Bool()
		w.bit(b2u(prof[i]))
		w.bit(b2u(lev[i]))
	}
	if maxSub > 0 {
		for i := maxSub; i < 8; i++ {
			w.u(2, 0)
		}
	}
	for i := 0; i < maxSub; i++ {
		if prof[i] {
			s.subLayerFields++
			for k := 0; k < 11; k++ {
				v := r.U64() & 0xff
				if r.Bool() {
					v = 0
				}
				w.u(8, v)
			}
		}
		if lev[i] {
			s.subLayerFields++
			w.u(8, uint64(r.N(187)))
		}
	}
	w.ue(uint64(r.N(16)))
	s.chroma = 1
	if !o.plain {
		s.chroma = r.N(4)
	}
	w.ue(uint64(s.chroma))
	sep := 0
	if s.chroma == 3 {
		sep = r.N(2)
		w.bit(uint64(sep))
	}
	mw, mh := r.Range(1, 1024)*8, r.Range(1, 540)*8
	switch r.N(5) {
	case 0:
		mw, mh = 1920, 1088
	case 1:
		mw, mh = 3840, 2160
	}
	if r.P(1, 12) { // up to the largest picture of any level
		mw = r.Range(1024, 2111) * 8
		mh = r.Range(1, min(2111, 35651584/64/(mw/8))) * 8
		if r.Bool() {
			mw, mh = mh, mw
		}
	}
	if o.small {
		mw, mh = r.Range(8, 90)*8, r.Range(8, 90)*8
	}
	if o.w > 0 {
		mw, mh = o.w, o.h
	}
	w.ue(uint64(mw))
	w.ue(uint64(mh))
	s.width, s.height = mw, mh
	s.codedW, s.codedH = mw, mh
	s.window = r.Bool()
	if s.window {
		sw, sh := 1, 1
		if sep == 0 {
			switch s.chroma {
			case 1:
				sw, sh = 2, 2
			case 2:
				sw = 2
			}
		}
		l, rr, t, b := r.N(5), r.N(5), r.N(5), r.N(5)
		if r.P(1, 3) {
			l, rr, t, b = 0, 0, 0, 8/sh
		}
		if r.P(1, 5) {
			l, rr = splitCut(r, (s.width-1)/sw)
			t, b = splitCut(r, (s.height-1)/sh)
		}
		if (l+rr)*sw >= s.width {
			l, rr = 0, 0
		}
		if (t+b)*sh >= s.height {
			t, b = 0, 0
		}
		w.bit(1)
		w.ue(uint64(l))
		w.ue(uint64(rr))
		w.ue(uint64(t))
		w.ue(uint64(b))
		s.width -= (l + rr) * sw
		s.height -= (t + b) * sh
	} else {
		w.bit(0)
	}
	s.need = w.n
	s.bitDL, s.bitDC = r.N(9)%8, r.N(9)%8
	w.ue(uint64(s.bitDL))
	w.ue(uint64(s.bitDC))
	w.ue(uint64(r.N(13)))
	present := r.N(2)
	w.bit(uint64(present))
	n := 1
	if present == 1 {
		n = maxSub + 1
	}
	for i := 0; i < n; i++ {
		w.ue(uint64(r.N(16)))
		w.ue(uint64(r.N(16)))
		w.ue(uint64(r.N(16)))
	}
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(4)))
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(4)))
	w.ue(uint64(r.N(5)))
	w.ue(uint64(r.N(5)))
	w.bit(0)              // scaling lists
	w.bit(uint64(r.N(2))) // amp
	w.bit(uint64(r.N(2))) // sao
	w.bit(0)              // pcm
	w.ue(0)               // short-term sets
	w.bit(0)              // long-term
	w.bit(uint64(r.N(2)))
	w.bit(uint64(r.N(2)))
	w.bit(0) // vui
	w.bit(0) // extension
	w.trailing()
	body := emulate(w.b)
	s.epb = len(body) != len(w.b)
	s.nal = append([]byte{33 << 1, 1}, body...)
	return s
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func genHEVCSet(r *Rng, typ, size int) []byte {
	n := hevcNal(r, typ, size)
	n[0], n[1] = byte(typ<<1), 1
	return n
}

func withSC4(n []byte) []byte { return append([]byte{0, 0, 0, 1}, n...) }

// ---- configuration records

type avcRecord struct {
	data     []byte
	sps      []avcSPS
	pps      [][]byte
	length   int
	profile  byte
	compat   byte
	level    byte
	extended bool
}

// genAVCRecord builds a record with nsps (>=1) SPS and npps PPS.
func genAVCRecord(r *Rng, o avcOpt, nsps, npps, ppsMax, ls int) avcRecord {
	var rec avcRecord
	rec.length = ls
	first := genAVCSPS(r, o)
	rec.sps = append(rec.sps, first)
	for i := 1; i < nsps; i++ {
		rec.sps = append(rec.sps, genAVCSPS(r, o))
	}
	for i := 0; i < npps; i++ {
		rec.pps = append(rec.pps, genAVCPPS(r, r.Range(3, ppsMax)))
	}
	rec.profile, rec.compat, rec.level = byte(first.profile), byte(first.constraint), byte(first.level)
	d := []byte{1, rec.profile, rec.compat, rec.level, 0xfc | byte(ls-1), 0xe0 | byte(nsps)}
	put := func(n []byte) {
		d = append(d, byte(len(n)>>8), byte(len(n)))
		d = append(d, n...)
	}
	for _, s := range rec.sps {
		put(s.nal)
	}
	d = append(d, byte(npps))
	for _, p := range rec.pps {
		put(p)
	}
	if r.P(1, 4) && (rec.profile == 100 || rec.profile == 110 || rec.profile == 122 || rec.profile == 144) {
		rec.extended = true
		d = append(d, 0xfc|1, 0xf8, 0xf8, 0)
	}
	rec.data = d
	return rec
}

func (rec *avcRecord) sets() (all [][]byte) {
	for _, s := range rec.sps {
		all = append(all, s.nal)
	}
	return append(all, rec.pps...)
}

type hevcRecord struct {
	data          []byte
	head          [23]byte
	length        int
	vps, sps, pps [][]byte
	first         hevcSPS
	infos         []hevcSPS // one per SPS
	orderClass    int
}

func genHEVCRecord(r *Rng, o avcOpt, nv, ns, np, setMax, ls int) hevcRecord {
	var rec hevcRecord
	rec.length = ls
	rec.first = genHEVCSPS(r, o)
	for i := 0; i < nv; i++ {
		rec.vps = append(rec.vps, genHEVCSet(r, 32, r.Range(4, setMax)))
	}
	for i := 0; i < ns; i++ {
		if i == 0 {
			rec.infos = append(rec.infos, rec.first)
		} else {
			rec.infos = append(rec.infos, genHEVCSPS(r, o))
		}
		rec.sps = append(rec.sps, rec.infos[i].nal)
	}
	for i := 0; i < np; i++ {
		rec.pps = append(rec.pps, genHEVCSet(r, 34, r.Range(4, setMax)))
	}
	h := &rec.head
	h[0] = 1
	copy(h[1:13], rec.first.ptl[:])
	ms := r.N(4096)
	h[13], h[14] = 0xf0|byte(ms>>8), byte(ms)
	h[15] = 0xfc | byte(r.N(4))
	h[16] = 0xfc | byte(rec.first.chroma)
	h[17] = 0xf8 | byte(rec.first.bitDL)
	h[18] = 0xf8 | byte(rec.first.bitDC)
	fr := r.N(65536)
	h[19], h[20] = byte(fr>>8), byte(fr)
	h[21] = byte(r.N(4))<<6 | byte(rec.first.subLayers&7)<<3 | byte(rec.first.nested)<<2 | byte(ls-1)

	type arr struct {
		typ  int
		nals [][]byte
	}
	arrs := []arr{{32, rec.vps}, {33, rec.sps}, {34, rec.pps}}
	if nv == 0 {
		arrs = arrs[1:]
	}
	rec.orderClass = r.N(5)
	var out []arr
	switch rec.orderClass {
	case 0:
		out = arrs
	default:
		// several arrays per type, any order between types, other types mixed in
		for _, a := range arrs {
			for len(a.nals) > 0 {
				k := r.Range(1, len(a.nals))
				if rec.orderClass == 4 {
					k = 1
				}
				out = append(out, arr{a.typ, a.nals[:k]})
				a.nals = a.nals[k:]
			}
		}
		for k := r.N(3); k > 0; k-- {
			var ns [][]byte
			typ := pick(r, []int{39, 40, 35, 41, 48, 0, 63})
			for j := r.N(3); j > 0; j-- {
				ns = append(ns, hevcNal(r, typ, r.Range(2, 40)))
			}
			out = append(out, arr{typ, ns})
		}
		// random interleaving that keeps each type's order
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			if out[i].typ != out[j].typ {
				ok := true
				lo, hi := j, i
				for k := lo; k <= hi; k++ {
					if k != lo && out[k].typ == out[lo].typ || k != hi && out[k].typ == out[hi].typ {
						ok = false
					}
				}
				if ok {
					out[i], out[j] = out[j], out[i]
				}
			}
		}
	}
	h[22] = byte(len(out))
	d := append([]byte(nil), h[:]...)
	for _, a := range out {
		d = append(d, byte(r.N(2))<<7|byte(a.typ), byte(len(a.nals)>>8), byte(len(a.nals)))
		for _, n := range a.nals {
			d = append(d, byte(len(n)>>8), byte(len(n)))
			d = append(d, n...)
		}
	}
	rec.data = d
	return rec
}

func concatSC4(lists ...[][]byte) (out []byte) {
	for _, l := range lists {
		for _, n := range l {
			out = append(out, 0, 0, 0, 1)
			out = append(out, n...)
		}
	}
	return
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// splitCut cuts up to top units away, some on either side.
func splitCut(r *Rng, top int) (int, int) {
	n := r.N(top + 1)
	a := pick(r, []int{0, n, r.N(n + 1)})
	return a, n - a
}
