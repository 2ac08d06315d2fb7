package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime/metrics"
	"syscall"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------- C22

// target is one entry point that takes untrusted bytes. It returns whether the
// input was taken as valid (only counted).
type target struct {
	name string
	run  func(c *C, in []byte) bool
}

// arena: memory handed to conversions whose destination the caller supplies.
var arena []byte

func dstFor(n int) []byte {
	if len(arena) < n {
		arena = make([]byte, n*2)
	}
	return arena[:n]
}

// robustStreams are streams with valid configuration for packet conversions.
func robustStreams(c *C) []*av.AVStream {
	var ss []*av.AVStream
	for _, hev := range []bool{false, true} {
		for _, annexb := range []bool{false, true} {
			s, _ := mkStream(c, hev, annexb, pick(c.Rng, []int{1, 2, 3, 4}))
			ss = append(ss, s)
		}
	}
	return append(ss,
		av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, nil),
		av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, nil, nil),
		av.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdVP8, nil, nil))
}

var robustExtra = []byte{0, 0, 0, 1, 0x67, 1, 2, 3, 0, 0, 0, 1, 0x68, 4, 5}

func viewAll(cd av.CodecData) {
	if cd == nil {
		return
	}
	viewOf(cd)
	viewOf(cd)
	if h, ok := cd.(*av.HEVCCodecData); ok {
		_ = h.VPS()
	}
}

func robustTargets(c *C, ss []*av.AVStream) []target {
	ok := func(err error) bool { return err == nil }
	ts := []target{
		{"avc.FindStartCode", func(c *C, in []byte) bool { n, _ := avc.FindStartCode(in); return n >= 0 }},
		{"avc.FindStartCode2", func(c *C, in []byte) bool { return avc.FindStartCode2(in) >= 0 }},
		{"avc.FindStartCodeWithReader", func(c *C, in []byte) bool {
			return avc.FindStartCodeWithReader(bufio.NewBytesReader(in)) >= 0
		}},
		{"avc.IsKeyFrame", func(c *C, in []byte) bool { return avc.IsKeyFrame(in) }},
		{"hevc.IsKeyFrame", func(c *C, in []byte) bool { return hevc.IsKeyFrame(in) }},
		{"IsKeyFrame", func(c *C, in []byte) bool {
			a := av.IsKeyFrame(utils.AVCodecIdH264, in)
			return av.IsKeyFrame(utils.AVCodecIdH265, in) || a || av.IsKeyFrame(utils.AVCodecIdAAC, in)
		}},
		{"avc.SplitNalU", func(c *C, in []byte) bool {
			n, pieces := 0, 0
			avc.SplitNalU(in, func(nalu []byte) {
				if !within(nalu, in) {
					c.Failf("SplitNalU(%s) hands out bytes that are not the input's", hexs(in))
				}
				n += len(nalu)
				pieces++
			})
			if n > len(in) {
				c.Failf("SplitNalU(%s) hands out %d bytes of %d", hexs(in), n, len(in))
			}
			return pieces > 0
		}},
		{"avc.RemoveStartCode", func(c *C, in []byte) bool { return within(avc.RemoveStartCode(in), in) }},
		{"avc.AVCC2AnnexB", func(c *C, in []byte) bool {
			var extra []byte
			if c.Bool() {
				extra = robustExtra
			}
			return avc.AVCC2AnnexB(dstFor(5*len(in)+512), in, extra) > 0
		}},
		{"avc.AVCC2AnnexBWithLengthSize", func(c *C, in []byte) bool {
			return avc.AVCC2AnnexBWithLengthSize(dstFor(5*len(in)+512), in, robustExtra, c.Range(1, 4)) > 0
		}},
		{"avc.AnnexB2AVCC", func(c *C, in []byte) bool { return avc.AnnexB2AVCC(dstFor(5*len(in)+512), in) > 0 }},
		{"avc.Mp4ToAnnexB", func(c *C, in []byte) bool {
			w := bufio.NewBytesWriter(dstFor(5*len(in) + 512))
			avc.Mp4ToAnnexB(w, in, robustExtra)
			return w.Offset() > 0
		}},
		{"hevc.Mp4ToAnnexB", func(c *C, in []byte) bool {
			_, err := hevc.Mp4ToAnnexB(dstFor(5*len(in)+512), in, robustExtra, c.Range(1, 4))
			return err == nil
		}},
		{"avc.M4VCExtraDataToAnnexB", func(c *C, in []byte) bool { _, err := avc.M4VCExtraDataToAnnexB(in); return ok(err) }},
		{"avc.ExtraDataToAnnexB", func(c *C, in []byte) bool { _, err := avc.ExtraDataToAnnexB(in); return ok(err) }},
		{"hevc.ExtraDataToAnnexB", func(c *C, in []byte) bool { _, err := hevc.ExtraDataToAnnexB(in); return ok(err) }},
		{"avc.ParseExtraDataFromKeyNALU", func(c *C, in []byte) bool { _, _, err := avc.ParseExtraDataFromKeyNALU(in); return ok(err) }},
		{"hevc.ParseExtraDataFromKeyNALU", func(c *C, in []byte) bool { _, _, _, err := hevc.ParseExtraDataFromKeyNALU(in); return ok(err) }},
		{"avc.ParseSPS", func(c *C, in []byte) bool { _, err := avc.ParseSPS(in); return ok(err) }},
		{"hevc.ParseSPS", func(c *C, in []byte) bool { _, err := hevc.ParseSPS(in); return ok(err) }},
		{"avc record", func(c *C, in []byte) bool {
			var r avc.AVCDecoderConfigurationRecord
			if err := r.Unmarshal(in); err != nil {
				return false
			}
			if _, err := r.Marshal(r.SPSList, r.PPSList); err != nil {
				return false
			}
			return true
		}},
		{"avc record with garbage sets", func(c *C, in []byte) bool {
			var r avc.AVCDecoderConfigurationRecord
			_, err := r.Marshal([][]byte{in}, [][]byte{in, in})
			return ok(err)
		}},
		{"hevc record", func(c *C, in []byte) bool {
			var r hevc.HEVCDecoderConfigurationRecord
			if err := r.Unmarshal(in); err != nil {
				return false
			}
			_, err := r.Marshal(r.VPSList, r.SPSList, r.PPSList)
			return ok(err)
		}},
		{"hevc record with garbage sets", func(c *C, in []byte) bool {
			var r hevc.HEVCDecoderConfigurationRecord
			_, err := r.Marshal([][]byte{in}, [][]byte{in}, [][]byte{in, in})
			return ok(err)
		}},
		{"avc.NewCodecDataFromAVCDecoderConfigurationRecord", func(c *C, in []byte) bool {
			_, _, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(in)
			return ok(err)
		}},
		{"hevc.NewCodecDataFromHEVCDecoderConfigurationRecord", func(c *C, in []byte) bool {
			_, _, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(in)
			return ok(err)
		}},
		{"ParseAVCDecoderConfigurationRecord", func(c *C, in []byte) bool {
			cd, err := av.ParseAVCDecoderConfigurationRecord(in)
			if err == nil {
				viewAll(cd)
			}
			return ok(err)
		}},
		{"ParseHEVCDecoderConfigurationRecord", func(c *C, in []byte) bool {
			cd, err := av.ParseHEVCDecoderConfigurationRecord(in)
			if err == nil {
				viewAll(cd)
			}
			return ok(err)
		}},
		{"NewAVCCodecData", func(c *C, in []byte) bool {
			k := c.N(len(in) + 1)
			cd, err := av.NewAVCCodecData(in[:k:k], in[k:])
			if err == nil {
				viewAll(cd)
			}
			return ok(err)
		}},
		{"NewHEVCCodecData", func(c *C, in []byte) bool {
			k := c.N(len(in) + 1)
			cd, err := av.NewHEVCCodecData(in[k:], in[:k:k], in)
			if err == nil {
				viewAll(cd)
			}
			return ok(err)
		}},
		{"CreateAVCStreamFromKeyFrame", func(c *C, in []byte) bool {
			s, err := av.CreateAVCStreamFromKeyFrame(in, 0)
			if err == nil {
				viewAll(s.CodecParameters)
			}
			return ok(err)
		}},
		{"CreateHevcStreamFromKeyFrame", func(c *C, in []byte) bool {
			s, err := av.CreateHevcStreamFromKeyFrame(in, 0)
			if err == nil {
				viewAll(s.CodecParameters)
			}
			return ok(err)
		}},
		{"ExtractVideoExtraDataFromKeyFrame", func(c *C, in []byte) bool {
			_, e1 := av.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, in)
			_, e2 := av.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, in)
			return e1 == nil || e2 == nil
		}},
		{"ExtractAudioExtraData", func(c *C, in []byte) bool {
			_, n, _, err := av.ExtractAudioExtraData(utils.AVCodecIdAAC, in)
			if err == nil && (n < 0 || n > 9) {
				c.Failf("ExtractAudioExtraData(%s) skips %d bytes", hexs(in), n)
			}
			_, _, _, _ = av.ExtractAudioExtraData(utils.AVCodecIdPCMALAW, in)
			return ok(err)
		}},
		{"ExtractAudioPacket", func(c *C, in []byte) bool {
			p, err := av.ExtractAudioPacket(pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW}), in, int64(c.U64()), 0, 90000, c.Bool())
			if err == nil {
				av.FreePacket(p)
			}
			return ok(err)
		}},
		{"utils.ReadADtsFixedHeader", func(c *C, in []byte) bool {
			h, err := utils.ReadADtsFixedHeader(in)
			if err != nil {
				return false
			}
			_ = h.SyncWord() + h.ID() + h.Layer() + h.ProtectionAbsent() + h.Profile() + h.Frequency() + h.PrivateBit() + h.Channel() + h.Original() + h.Home() + h.CopyrightBit() + h.CopyrightStart() + h.FrameLength() + h.Fullness() + h.Blocks()
			_, err = utils.ADtsHeader2MpegAudioConfigData(h)
			return err == nil
		}},
		{"utils.ParseMpeg4AudioConfig", func(c *C, in []byte) bool {
			m, err := utils.ParseMpeg4AudioConfig(in)
			if err == nil && m == nil {
				c.Failf("ParseMpeg4AudioConfig(%s) returned neither a configuration nor an error", hexs(in))
			}
			return ok(err)
		}},
		{"utils sampling index", func(c *C, in []byte) bool {
			if len(in) == 0 {
				return false
			}
			_, k := utils.GetSampleRateFromFrequency(int(int8(in[0])))
			_ = utils.GetSampleRateIndex(int(int8(in[0])) * 1000)
			return k
		}},
		{"AnnexBPacket2AVCC", func(c *C, in []byte) bool {
			p := av.NewVideoPacket(in, 0, 0, c.Bool(), av.PacketTypeAnnexB, pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265}), 0, 1000)
			out := av.AnnexBPacket2AVCC(p)
			av.FreePacket(p)
			return len(out) > 0
		}},
	}
	for _, s := range ss {
		for _, pt := range []av.PacketType{av.PacketTypeAVCC, av.PacketTypeAnnexB} {
			ts = append(ts, target{fmt.Sprintf("AVCCPacket2AnnexB (%v, packing %d, configured %v)", s.CodecID, pt, s.CodecParameters != nil), func(c *C, in []byte) bool {
				p := av.NewVideoPacket(in, 0, 0, c.Bool(), pt, s.CodecID, 0, 1000)
				out := av.AVCCPacket2AnnexB(s, p)
				av.FreePacket(p)
				return len(out) > 0
			}})
		}
	}
	// readers over untrusted bytes
	ts = append(ts,
		target{"bufio.BitsReader", func(c *C, in []byte) bool {
			return bitsReaderAll(c, in)
		}},
	)
	return ts
}

// bitsReaderAll reads Exp-Golomb codes until the reader refuses.
func bitsReaderAll(c *C, in []byte) bool {
	r := bufio.GolombBitReader{R: bytes.NewReader(in)}
	for i := 0; i <= 8*len(in)+1; i++ {
		var err error
		switch c.N(4) {
		case 0:
			_, err = r.ReadExponentialGolombCode()
		case 1:
			_, err = r.ReadSE()
		case 2:
			_, err = r.ReadBits(c.Range(1, 32))
		default:
			_, err = r.ReadBit()
		}
		if err != nil {
			return i > 0
		}
	}
	c.Failf("the bit reader delivers more elements than there are bits in %s", hexs(in))
	return false
}

// robustSeed makes a well-formed input of a random kind.
func robustSeed(c *C) []byte {
	o := avcOpt{plain: c.Bool(), small: c.Bool()}
	switch c.N(13) {
	case 0:
		r := genAVCRecord(c.Rng, o, c.Range(1, 3), c.Range(1, 4), c.Range(4, 80), pick(c.Rng, []int{1, 2, 4}))
		return clone(r.data)
	case 1:
		r := genHEVCRecord(c.Rng, o, c.Range(1, 2), c.Range(1, 2), c.Range(1, 3), c.Range(4, 80), pick(c.Rng, []int{1, 2, 4}))
		return clone(r.data)
	case 2:
		return clone(genAVCSPS(c.Rng, o).nal)
	case 3:
		return clone(genHEVCSPS(c.Rng, o).nal)
	case 4, 5:
		hev := c.Bool()
		return annexB(c.Rng, genAU(c, hev, 5, 60))
	case 6:
		return lengthPrefixed(genAU(c, c.Bool(), 5, 60), c.Range(1, 4))
	case 7:
		sps := genAVCSPS(c.Rng, o)
		return annexB(c.Rng, [][]byte{sps.nal, genAVCPPS(c.Rng, c.Range(3, 20)), avcNal(c.Rng, 5, c.Range(2, 30))})
	case 8:
		sps := genHEVCSPS(c.Rng, o)
		return annexB(c.Rng, [][]byte{genHEVCSet(c.Rng, 32, c.Range(4, 20)), sps.nal, genHEVCSet(c.Rng, 34, c.Range(3, 20)), hevcNal(c.Rng, 19, c.Range(3, 30))})
	case 9:
		return adtsFrame(c.Rng, c.N(4), c.N(16), c.N(8), c.Bytes(c.N(20)))
	case 10:
		return c.Bytes(c.Range(1, 12)) // audio configuration and the like
	case 11:
		// sizes around powers of two
		return c.Bytes(1<<c.N(11) + c.N(3))
	default:
		b := make([]byte, c.N(300))
		for i := range b {
			b[i] = pick(c.Rng, []byte{0, 0, 0, 1, 1, 2, 3, 0x67, 0x68, 0x65, 0x26, 0x40, 0x42, 0x44, 0xff})
		}
		return b
	}
}

func mutate(c *C, b []byte) []byte {
	for n := c.N(4); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(c.U64()))
			continue
		}
		i := c.N(len(b))
		switch c.N(12) {
		case 0:
			b[i] ^= 1 << c.N(8)
		case 1:
			b[i] = pick(c.Rng, []byte{0, 1, 2, 3, 0x1f, 0x7f, 0x80, 0xe1, 0xfe, 0xff})
		case 2:
			b = b[:i]
		case 3:
			b = b[i:]
		case 4:
			b = append(b[:i:i], append(pick(c.Rng, [][]byte{{0, 0, 1}, {0, 0, 0, 1}, {0, 0, 3}, {0, 0}, {0}}), b[i:]...)...)
		case 5:
			// a length field: random, too large, too small, huge
			w := c.Range(1, 4) // width of the field
			rest := uint64(len(b) - i)
			v := pick(c.Rng, []uint64{0, 1, uint64(len(b)), rest, rest + 1, rest - uint64(w), rest - uint64(w) + 1, rest - uint64(w) - 1, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff})
			for k := w - 1; k >= 0 && i < len(b); k-- {
				b[i] = byte(v >> (8 * k))
				i++
			}
		case 6:
			for k := c.N(8); k > 0 && i < len(b); k-- {
				b[i] = 0
				i++
			}
		case 7:
			for k := c.N(8); k > 0 && i < len(b); k-- {
				b[i] = 0xff
				i++
			}
		case 8:
			j := c.N(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:i:i], b[j:]...)
		case 9:
			j := c.N(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:j:j], append(clone(b[i:j]), b[j:]...)...)
		case 10:
			b = append(b[:i:i], robustSeed(c)...)
		default:
			b = append(b, c.Bytes(c.N(9))...)
		}
	}
	if len(b) > 4096 {
		b = b[:4096]
	}
	return b
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// cpuLimit: one parser call on at most 64 KB normally takes microseconds.
const cpuLimit = 6.0

// feed runs one target on one input under every monitor of the property.
func feed(c *C, t target, input []byte, clip bool) bool {
	// the input stands between guards, with spare capacity behind it
	mem := make([]byte, len(input)+24)
	for i := range mem {
		mem[i] = 0xA5
	}
	in := mem[8 : 8+len(input)]
	copy(in, input)
	copyMem := clone(mem)
	if clip {
		// without spare capacity a read beyond the end is a panic
		in = in[:len(in):len(in)]
	}
	dst := dstFor(5*len(in) + 512)
	_ = dst
	a0 := allocated()
	var ok bool
	p, stack := c.Try(func() { ok = t.run(c, in) })
	if p != nil {
		c.Failf("%s panics on %s: %v; %s", t.name, hexs(input), p, stack)
	}
	if a := allocated() - a0; a > uint64(256*len(in)+1<<20) {
		c.Failf("%s allocates %d bytes on an input of %d bytes: %s", t.name, a, len(in), hexs(input))
	}
	if !bytes.Equal(mem, copyMem) {
		c.Failf("%s changes its input (or the memory around it): %x became %x", t.name, copyMem, mem)
	}
	return ok
}

func parserFuzz(c *C) {
	ss := robustStreams(c)
	ts := robustTargets(c, ss)
	for k := 0; k < 10; k++ {
		in := mutate(c, clone(robustSeed(c)))
		{
			var mask uint64
			cpu := cpuSeconds()
			for i, t := range ts {
				c.T("%s on %s", t.name, hexs(in))
				if feed(c, t, in, c.Bool()) {
					mask |= 1 << (i % 64)
				}
				c.Eval(1)
			}
			if d := cpuSeconds() - cpu; d > cpuLimit {
				c.Failf("parsing %s (%d bytes) took %.1f s of CPU", hexs(in), len(in), d)
			}
			c.Ev("input", 1)
			c.Ev("accepted", bits.OnesCount64(mask))
			c.Ev("refused", len(ts)-bits.OnesCount64(mask))
			c.Distinct(mask ^ uint64(bits.Len(uint(len(in))))<<58)
			c.Tick()
		}
	}
}

// truncations: every prefix of a well-formed input, into every target.
func parserTruncate(c *C) {
	ss := robustStreams(c)
	ts := robustTargets(c, ss)
	in := robustSeed(c)
	if len(in) > 160 {
		in = in[:160]
	}
	for n := 0; n <= len(in); n++ {
		for _, t := range ts {
			feed(c, t, in[:n], true)
			feed(c, t, in[:n], false)
			c.Eval(2)
		}
		c.Tick()
	}
	c.Ev("prefixes", len(in)+1)
	c.Distinct(hashBytes(in))
}

// parserExhaustive: all short strings over the bytes that mean something.
func parserExhaustive(c *C) {
	ss := robustStreams(c)
	ts := robustTargets(c, ss)
	alpha := []byte{0, 1, 3, 0x67, 0x26, 0xff}
	depth := 4
	if c.tier == "thorough" {
		alpha = []byte{0, 1, 2, 3, 0x67, 0x68, 0x65, 0x26, 0x42, 0xff}
		depth = 5
	}
	t := ts[c.idx%len(ts)]
	n := 0
	var rec func(b []byte)
	rec = func(b []byte) {
		feed(c, t, b, n&1 == 0)
		n++
		if len(b) == depth {
			return
		}
		for _, a := range alpha {
			rec(append(b[:len(b):len(b)], a))
		}
		if len(b) == 1 {
			c.Tick()
		}
	}
	rec(nil)
	c.Eval(n)
	c.Ev("short_inputs", n)
	c.Distinct(hashStr(t.name))
}

// demuxFuzz: garbage into every entry of a demuxer, then good streams.
type robustHandler struct {
	tracks  []*av.AVStream
	pkts    map[int][]string // by slot
	pipe    *recPipe
	dm      *av.BaseDemuxer
	done    int
	notfind int
}

func (h *robustHandler) OnNewTrack(t av.Track) { h.tracks = append(h.tracks, t.GetStream()) }
func (h *robustHandler) OnTrackComplete()      { h.done++ }
func (h *robustHandler) OnTrackNotFind()       { h.notfind++ }
func (h *robustHandler) OnPacket(p *av.AVPacket) {
	h.pkts[p.BufferIndex] = append(h.pkts[p.BufferIndex], fmt.Sprintf("%d/%d/%v/%x", p.Dts, p.Pts, p.Key, hashBytes(p.Data)))
}

func demuxFuzz(c *C) {
	name := demuxNames[c.idx%4]
	d := &demuxRun{c: c}
	pipe := &recPipe{d: d, under: newMemPipe(), blocks: map[int]int{}, backs: map[int]int{}, heads: map[int]int{}}
	if c.N(20) == 0 {
		pipe.under = &av.StreamsBuffer{}
	}
	h := &robustHandler{pkts: map[int][]string{}, pipe: pipe}
	dm := &av.BaseDemuxer{Name: name, DataPipeline: pipe, AutoFree: true}
	h.dm = dm
	dm.SetHandler(h)
	dm.SetProbeDuration(1 << 30)
	if c.Bool() {
		dm.SetOnPreprocessPacketHandler(func(p *av.AVPacket) {})
	}
	put := func(slot int, m utils.AVMediaType, data []byte) []byte {
		if _, err := pipe.Write(data, slot, m); err != nil {
			c.Failf("write: %v", err)
		}
		b, err := pipe.Fetch(slot)
		if err != nil || !bytes.Equal(b, data) {
			c.Failf("slot %d: fetched %s (error %v), written %s", slot, hexs(b), err, hexs(data))
		}
		return b
	}
	// the bad phase
	vids := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdMPEG4}
	auds := []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726}
	nbad := c.Range(1, 30)
	nslots := c.Range(1, 5)
	var cnt [2]int
	for i := 0; i < nbad; i++ {
		in := mutate(c, clone(robustSeed(c)))
		if len(in) == 0 {
			in = []byte{0}
		}
		marker := c.N(nslots)
		media := pick(c.Rng, []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio})
		slot := dm.FindBufferIndex(2*marker + int(media)*1000)
		c.T("bad input %d: slot %d %v %s", i, slot, media, hexs(in))
		data := put(slot, media, in)
		blocks := pipe.blocks[slot]
		kind := c.N(4)
		var created, accepted bool
		tr := dm.Tracks.Size()
		p, stack := c.Try(func() {
			if media == utils.AVMediaTypeVideo {
				id := pick(c.Rng, vids)
				if kind == 0 {
					created = dm.OnNewVideoTrack(slot, id, 1000, data) != nil
				} else {
					dm.OnVideoPacket(slot, id, data, c.Bool(), 5, 5, av.PacketTypeAnnexB)
				}
			} else {
				id := pick(c.Rng, auds)
				if kind == 0 {
					created = dm.OnNewAudioTrack(slot, id, 1000, data, av.AudioConfig{}) != nil
				} else {
					dm.OnAudioPacket(slot, id, data, 5)
				}
			}
		})
		if p != nil {
			c.Failf("the demuxer panics on input %s (slot %d, %v): %v; %s", hexs(in), slot, media, p, stack)
		}
		accepted = pipe.blocks[slot] == blocks
		if kind == 0 && accepted || !accepted && pipe.blocks[slot] != blocks-1 {
			c.Failf("slot %d holds %d blocks before and %d after the input", slot, blocks, pipe.blocks[slot])
		}
		if created != (kind == 0 && dm.Tracks.Size() == tr+1) {
			c.Failf("the demuxer has %d tracks after %d, track returned: %v", dm.Tracks.Size(), tr, created)
		}
		if accepted {
			cnt[0]++
		} else {
			cnt[1]++
		}
		c.Eval(1)
	}
	if len(h.tracks)+h.done+h.notfind+len(h.pkts) > 0 {
		c.Failf("callbacks before the end of probing")
	}
	c.Ev("bad_accepted", cnt[0])
	c.Ev("bad_refused", cnt[1])
	before := dm.Tracks.Size()
	// good streams on slots of their own (FLV needs headers, one per type)
	type good struct {
		slot, w, h int
		hev        bool
		sets       [][]byte
		audio      bool
		want       []string
		track      int
		rate, ch   int
	}
	var gs []*good
	ts := int64(10)
	add := func(g *good, media utils.AVMediaType, data []byte, key bool) {
		b := put(g.slot, media, data)
		g.want = append(g.want, fmt.Sprintf("%d/%d/%v/%x", ts, ts, key, hashBytes(data)))
		n := pipe.backs[g.slot]
		p, stack := c.Try(func() {
			if g.audio {
				dm.OnAudioPacket(g.slot, utils.AVCodecIdAAC, b, ts)
			} else {
				id := utils.AVCodecIdH264
				if g.hev {
					id = utils.AVCodecIdH265
				}
				dm.OnVideoPacket(g.slot, id, b, key, ts, ts, av.PacketTypeAnnexB)
			}
		})
		if p != nil {
			c.Failf("the demuxer panics on good input after bad input: %v; %s", p, stack)
		}
		if pipe.backs[g.slot] != n {
			c.Failf("a good packet after bad input was not accepted (slot %d)", g.slot)
		}
	}
	if name != "flv" {
		o := avcOpt{plain: true, small: true}
		for k := c.Range(1, 2); k > 0; k-- {
			g := &good{slot: dm.FindBufferIndex(100000 + k), hev: c.Bool(), track: dm.Tracks.Size()}
			mk := avcNal
			if g.hev {
				sps := genHEVCSPS(c.Rng, o)
				g.w, g.h = sps.width, sps.height
				g.sets = [][]byte{genHEVCSet(c.Rng, 32, 8), sps.nal, genHEVCSet(c.Rng, 34, 6)}
				mk = hevcNal
			} else {
				sps := genAVCSPS(c.Rng, o)
				g.w, g.h = sps.width, sps.height
				g.sets = [][]byte{sps.nal, genAVCPPS(c.Rng, 6)}
			}
			typ := map[bool]int{false: 5, true: 19}[g.hev]
			add(g, utils.AVMediaTypeVideo, annexB(c.Rng, append(clone2(g.sets), mk(c.Rng, typ, 20))), true)
			gs = append(gs, g)
		}
	}
	if name != "flv" || dm.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil {
		ri, ch := c.N(13), c.Range(1, 7)
		g := &good{slot: dm.FindBufferIndex(200000), audio: true, track: dm.Tracks.Size(), rate: aacRates[ri], ch: aacChans[ch]}
		add(g, utils.AVMediaTypeAudio, adtsFrame(c.Rng, 1, ri, ch, c.Bytes(20)), false)
		gs = append(gs, g)
	}
	if dm.Tracks.Size() != before+len(gs) {
		c.Failf("%d good streams after bad input gave %d tracks", len(gs), dm.Tracks.Size()-before)
	}
	for i := 0; i < 6; i++ {
		ts += int64(c.Range(1, 40))
		for _, g := range gs {
			if g.audio {
				add(g, utils.AVMediaTypeAudio, adtsFrame(c.Rng, 1, 4, 2, c.Bytes(20)), false)
			} else {
				mk, typ := avcNal, 1
				if g.hev {
					mk = hevcNal
				}
				add(g, utils.AVMediaTypeVideo, annexB(c.Rng, [][]byte{mk(c.Rng, typ, 20)}), false)
			}
		}
		if i == 2 {
			dm.ProbeComplete()
		}
	}
	if before+len(gs) > 0 && (h.done != 1 || len(h.tracks) != before+len(gs)) {
		c.Failf("after bad input: %d completions, %d tracks announced of %d", h.done, len(h.tracks), before+len(gs))
	}
	for _, g := range gs {
		st := h.tracks[g.track]
		if g.audio {
			if st.CodecID != utils.AVCodecIdAAC || st.SampleRate != g.rate || st.Channels != g.ch {
				c.Failf("after bad input an AAC track is announced as %v %d Hz %d channels, want %d Hz %d channels", st.CodecID, st.SampleRate, st.Channels, g.rate, g.ch)
			}
		} else if cp := st.CodecParameters; cp == nil || cp.Width() != g.w || cp.Height() != g.h || !sameNals(splitAnnexB(cp.AnnexBExtraData()), g.sets) {
			c.Failf("after bad input a video track is announced wrongly (%v)", st.CodecID)
		}
		got := h.pkts[g.slot]
		if fmt.Sprint(got) != fmt.Sprint(g.want[:len(g.want)-1]) {
			c.Failf("after bad input slot %d delivered %v, accepted were %v", g.slot, got, g.want)
		}
		if pipe.blocks[g.slot] != 1 {
			c.Failf("slot %d holds %d blocks, one packet is withheld", g.slot, pipe.blocks[g.slot])
		}
		c.Ev("good_delivered", len(got))
	}
	c.Distinct(hashInts(c.idx%4, cnt[0], cnt[1], before))
}

func clone2(l [][]byte) [][]byte { return append([][]byte(nil), l...) }

// parseNalUnitsCase: the one entry point that is known to fail.
func parseNalUnitsCase(c *C) {
	in := []byte{9, 9, 9, 9, 9}
	if c.Panics(func() { avc.ParseNalUnits(in) }) {
		c.FailKey("ParseNalUnits-without-start-code", "avc.ParseNalUnits panics on data without a start code")
	}
}

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "well-formed inputs of every kind, mutated, truncated at every byte or spliced, and all short byte strings over meaningful bytes, into every exported parser, splitter, classifier and converter and every demuxer entry; monitors: panics, CPU and heap allocation per call, guard bytes around and checksum of the input, and after garbage a demuxer's behaviour on good streams; distinct = distinct accept/refuse vectors over the entry points",
		Need: []string{"input", "accepted", "refused", "prefixes", "short_inputs", "bad_accepted", "bad_refused", "good_delivered"},
		Families: []*Family{
			{Name: "mutated", Quick: 12000, Thorough: 600000, Run: parserFuzz},
			{Name: "truncated", Quick: 500, Thorough: 16000, Run: parserTruncate},
			{Name: "short", Quick: 60, Thorough: 60, Run: parserExhaustive},
			{Name: "demuxer", Quick: 30000, Thorough: 1000000, RaceQ: 200, RaceT: 2000, Run: demuxFuzz},
			{Name: "known", Quick: 1, Thorough: 1, Run: parseNalUnitsCase},
		},
	})
}
