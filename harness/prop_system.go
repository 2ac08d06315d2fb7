package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------- C26

type role struct {
	name string
	run  func(c *C)
	full bool // everything the monitors count is a function of the inputs
}

func concurrentRoles() []role {
	dmx := func(name string, real bool) func(c *C) {
		return func(c *C) {
			o := demuxBase(c)
			o.name, o.real, o.noDistinct = name, real, false
			if real {
				o.steps = 60
			}
			newDemuxRun(c, o).run()
		}
	}
	rs := []role{
		{"packets", func(c *C) { packetOne(c, nil) }, false}, {"config", configRun, false}, {"avc sps", avcSPSRun, false}, {"hevc sps", hevcSPSRun, false},
		{"avc record", avcRecordOne, false}, {"hevc record", hevcRecordOne, false}, {"adts", adtsRun, false}, {"asc", ascRun, false},
		{"framing", framingRun, false}, {"start codes", startCodeRandom, false}, {"key frames", keyRun, false},
		{"ring buffer", func(c *C) { bufRandom(c, false, c.Range(1, 200), 60, 120) }, false},
		{"linear buffer", func(c *C) { bufRandom(c, true, c.Range(1, 200), 60, 120) }, false},
		{"timestamps", tsRun, false},
		{"hostile input", demuxFuzz, false},
		{"stream buffers", func(c *C) { streamsDrive(c, c.Range(1, 6), 60, pick(c.Rng, []int{10, 400})) }, false},
		{"direct pipeline", directRun, false}, {"split", splitRun, false}, {"block pattern", ringFifo, false},
		{"byte cursors", func(c *C) { cursorOver(c, []int{0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 100}, 60) }, false},
		{"bits", bitsSequential, false}, {"golomb", golombRun, false},
		{"queue", func(c *C) { seqRandom(c, func(n int) int { return n }) }, false},
		{"queue of pointers", func(c *C) { seqRandom(c, func(n int) *elem { return &elem{n, "p"} }) }, false},
		{"list", listRandom, false}, {"reference counter", rcSequential, false}, {"registry", trackRandom, false},
		{"packet timestamps", tsPacket, false}, {"timestamp stream", tsStream, false}, {"dump", dumpRun, false},
		{"audio packets", otherCodec, false}, {"same memory", packetSameMemory, false}, {"sibling configurations", configSiblings, false},
	}
	for _, n := range demuxNames {
		rs = append(rs, role{"demuxer " + n, dmx(n, false), true}, role{"demuxer " + n, dmx(n, false), true}, role{"demuxer " + n + " with stream buffers", dmx(n, true), true})
	}
	return rs
}

// subCase runs one role with its own randomness and statistics.
func subCase(c *C, seed uint64, r role, idx int) (st *Stats, msg, stack string) {
	st = newStats()
	sc := &C{Rng: &Rng{s: seed}, prop: c.prop, fam: c.fam, idx: idx, tier: c.tier, race: c.race, st: st}
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				msg = v.msg
				return
			}
			msg, stack = fmt.Sprint(p), string(debug.Stack())
		}
	}()
	r.run(sc)
	return
}

func digest(r role, st *Stats) uint64 {
	if !r.full {
		return uint64(st.Evals)
	}
	h := hashInts(len(st.Set), int(st.Evals))
	for k := range st.Set {
		h += mix64(k)
	}
	for k, v := range st.Events {
		h += mix64(hashStr(k) ^ uint64(v))
	}
	return h
}

func concurrentRun(c *C) {
	rs := concurrentRoles()
	n := c.Range(3, 8)
	type job struct {
		r       role
		seed    uint64
		idx     int
		alone   uint64
		st      *Stats
		msg, tr string
	}
	jobs := make([][]*job, n)
	for g := range jobs {
		for k := c.Range(1, 3); k > 0; k-- {
			j := &job{r: pick(c.Rng, rs), seed: c.U64(), idx: c.N(64)}
			st, msg, stack := subCase(c, j.seed, j.r, j.idx)
			if msg != "" {
				if stack != "" && repoFrames(stack) == "" {
					panic(msg + stack)
				}
				// wrong even alone: another property's business, but it has to
				// be wrong in the same way in company
				c.Ev("failing_alone", 1)
			}
			j.alone = digest(j.r, st) ^ hashStr(msg)
			jobs[g] = append(jobs[g], j)
		}
	}
	c.Tick()
	start := make(chan struct{})
	var wg sync.WaitGroup
	var running, overlap int32
	for g := range jobs {
		wg.Add(1)
		go func(js []*job) {
			defer wg.Done()
			<-start
			for _, j := range js {
				if atomic.AddInt32(&running, 1) > 1 {
					atomic.AddInt32(&overlap, 1)
				}
				j.st, j.msg, j.tr = subCase(c, j.seed, j.r, j.idx)
				atomic.AddInt32(&running, -1)
			}
		}(jobs[g])
	}
	close(start)
	wg.Wait()
	sig := uint64(0)
	for _, js := range jobs {
		for _, j := range js {
			d := digest(j.r, j.st) ^ hashStr(j.msg)
			if j.msg != "" && d != j.alone {
				c.Failf("%s, while %d others run: %s %s", j.r.name, n-1, j.msg, repoFrames(j.tr))
			}
			if d != j.alone {
				c.Failf("%s behaves differently while %d others run (what the monitors observed differs from the same run alone)", j.r.name, n-1)
			}
			sig += mix64(hashStr(j.r.name))
			c.Eval(1 + int(j.st.Evals))
			c.Ev("role_instances", 1)
			c.Ev("delivered", int(j.st.Events["delivered"]))
		}
	}
	c.Ev("overlapping_roles", int(overlap))
	c.Distinct(sig)
}

// sharedInput: several goroutines parse and convert the same bytes.
func sharedInput(c *C) {
	type input struct {
		data []byte
		keep []byte
		want []string
	}
	ss := robustStreams(c)
	ops := []func(in []byte, n int) string{
		func(in []byte, n int) string { s, err := avc.ParseSPS(in); return fmt.Sprintf("%+v %v", s, err != nil) },
		func(in []byte, n int) string {
			s, err := hevc.ParseSPS(in)
			return fmt.Sprintf("%+v %v", s, err != nil)
		},
		func(in []byte, n int) string {
			var r avc.AVCDecoderConfigurationRecord
			err := r.Unmarshal(in)
			return fmt.Sprintf("%x %x %v", r.SPSList, r.PPSList, err != nil)
		},
		func(in []byte, n int) string {
			var r hevc.HEVCDecoderConfigurationRecord
			err := r.Unmarshal(in)
			return fmt.Sprintf("%x %x %x %v", r.VPSList, r.SPSList, r.PPSList, err != nil)
		},
		func(in []byte, n int) string {
			b, err := avc.ExtraDataToAnnexB(in)
			return fmt.Sprintf("%x %v", b, err != nil)
		},
		func(in []byte, n int) string {
			b, err := hevc.ExtraDataToAnnexB(in)
			return fmt.Sprintf("%x %v", b, err != nil)
		},
		func(in []byte, n int) string {
			s := ""
			avc.SplitNalU(in, func(n []byte) { s += fmt.Sprintf("%x,", n) })
			return s
		},
		func(in []byte, n int) string {
			a, b, err := avc.ParseExtraDataFromKeyNALU(in)
			return fmt.Sprintf("%x %x %v", a, b, err != nil)
		},
		func(in []byte, n int) string {
			a, b, d, err := hevc.ParseExtraDataFromKeyNALU(in)
			return fmt.Sprintf("%x %x %x %v", a, b, d, err != nil)
		},
		func(in []byte, n int) string {
			dst := make([]byte, 5*len(in)+512)
			k := avc.AVCC2AnnexB(dst, in, nil)
			return fmt.Sprintf("%x", dst[:k])
		},
		func(in []byte, n int) string {
			dst := make([]byte, 5*len(in)+512)
			k := avc.AnnexB2AVCC(dst, in)
			return fmt.Sprintf("%x", dst[:k])
		},
		func(in []byte, n int) string {
			dst := make([]byte, 5*len(in)+512)
			k, err := hevc.Mp4ToAnnexB(dst, in, nil, 4)
			if err != nil {
				k = 0
			}
			return fmt.Sprintf("%x %v", dst[:k], err != nil)
		},
		func(in []byte, n int) string {
			w := bufio.NewBytesWriter(make([]byte, 5*len(in)+512))
			avc.Mp4ToAnnexB(w, in, nil)
			return fmt.Sprint(w.Offset())
		},
		func(in []byte, n int) string {
			h, err := utils.ReadADtsFixedHeader(in)
			if err != nil {
				return "bad"
			}
			return fmt.Sprint(h.Profile(), h.Frequency(), h.Channel(), h.FrameLength())
		},
		func(in []byte, n int) string {
			m, err := utils.ParseMpeg4AudioConfig(in)
			if err != nil {
				return "bad"
			}
			return fmt.Sprintf("%+v", *m)
		},
		func(in []byte, n int) string {
			return fmt.Sprint(av.IsKeyFrame(utils.AVCodecIdH264, in), av.IsKeyFrame(utils.AVCodecIdH265, in))
		},
		func(in []byte, n int) string {
			s, err := av.CreateAVCStreamFromKeyFrame(in, 0)
			if err != nil {
				return "bad"
			}
			return fmt.Sprintf("%x", s.CodecParameters.AnnexBExtraData())
		},
		func(in []byte, n int) string {
			cd, err := av.ParseAVCDecoderConfigurationRecord(in)
			if err != nil {
				return "bad"
			}
			return fmt.Sprintf("%x", cd.AnnexBExtraData())
		},
		func(in []byte, n int) string {
			cd, err := av.ParseHEVCDecoderConfigurationRecord(in)
			if err != nil {
				return "bad"
			}
			return fmt.Sprintf("%x", cd.AnnexBExtraData())
		},
		// one stream's configuration is shared by the packets of its consumers
		func(in []byte, n int) string {
			s := ss[n%len(ss)]
			p := av.NewVideoPacket(in, 0, 0, n&1 == 0, av.PacketType(map[bool]av.PacketType{true: av.PacketTypeAVCC, false: av.PacketTypeAnnexB}[n&2 == 0]), s.CodecID, 0, 1000)
			out := fmt.Sprintf("%x", av.AVCCPacket2AnnexB(s, p))
			av.FreePacket(p)
			return out
		},
		func(in []byte, n int) string {
			p := av.NewVideoPacket(in, 0, 0, true, av.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
			out := fmt.Sprintf("%x", av.AnnexBPacket2AVCC(p))
			av.FreePacket(p)
			return out
		},
		func(in []byte, n int) string {
			if len(in) < 12 {
				return ""
			}
			r := bufio.NewBytesReader(in)
			a, _ := r.ReadUint16()
			b, _ := r.ReadUint24()
			d, _ := r.ReadUint32()
			return fmt.Sprint(a, b, d, bufio.ReadBits(in, n%20, 17))
		},
		// the small helpers: tables and arithmetic used by every stream
		func(in []byte, n int) string {
			s := ""
			for i := -1; i < 17; i++ {
				f, ok := utils.GetSampleRateFromFrequency(i)
				s += fmt.Sprint(f, ok, utils.GetSampleRateIndex(int(hashBytes(in)%100000)+i*1000+n), ",")
			}
			for _, f := range []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350} {
				s += fmt.Sprint(utils.GetSampleRateIndex(f), utils.ComputeAACFrameDuration(f), ",")
			}
			return s
		},
		func(in []byte, n int) string {
			s := fmt.Sprint(av.ConvertTs(int64(len(in))*977+int64(n), 90000, 1000), av.ConvertTs(int64(n), 1000, 44100))
			for k := 0; k < 6; k++ {
				s += fmt.Sprint(utils.AVMediaType(k))
			}
			for _, b := range in {
				s += fmt.Sprint(utils.AVCodecID(0x10000*(int(b)%3)), utils.AVCodecID(b))
			}
			return s
		},
		func(in []byte, n int) string {
			h := make([]byte, 7)
			utils.SetADtsHeader(h, n&1, 1, n%13, 1+n%2, 7+len(in)%8000)
			a, err := utils.ReadADtsFixedHeader(h)
			if err != nil {
				return fmt.Sprintf("%x bad", h)
			}
			m, err := utils.ADtsHeader2MpegAudioConfigData(a)
			return fmt.Sprintf("%x %x %v", h, m, err != nil)
		},
		func(in []byte, n int) string {
			s := ""
			for _, id := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdMP3, utils.AVCodecIdOPUS} {
				b, k, conf, err := av.ExtractAudioExtraData(id, in)
				s += fmt.Sprintf("%x %d %v %v,", b, k, conf, err != nil)
				p, err := av.ExtractAudioPacket(id, in, int64(n), 0, 1000, n&1 == 0)
				if err != nil || p == nil {
					s += "bad,"
					continue
				}
				s += fmt.Sprintf("%x %d,", p.Data, p.Dts)
				av.FreePacket(p)
			}
			return s
		},
		func(in []byte, n int) string {
			s, err := av.CreateHevcStreamFromKeyFrame(in, 0)
			if err != nil {
				return "bad"
			}
			return fmt.Sprintf("%x", s.CodecParameters.AnnexBExtraData())
		},
		func(in []byte, n int) string {
			s := ""
			for _, id := range []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265} {
				b, err := av.ExtractVideoExtraDataFromKeyFrame(id, in)
				s += fmt.Sprintf("%x %v,", b, err != nil)
			}
			return s
		},
		func(in []byte, n int) string {
			a, b := avc.FindStartCode(in)
			return fmt.Sprintf("%d %d %d %x %v %v", a, b, avc.FindStartCode2(in), avc.RemoveStartCode(in), avc.IsKeyFrame(in), hevc.IsKeyFrame(in))
		},
		func(in []byte, n int) string {
			if len(in) < 16 {
				return ""
			}
			var r avc.AVCDecoderConfigurationRecord
			b, err := r.Marshal([][]byte{in[:8]}, [][]byte{in[8:]})
			var h hevc.HEVCDecoderConfigurationRecord
			d, err2 := h.Marshal([][]byte{in[:4]}, [][]byte{in[4:8]}, [][]byte{in[8:]})
			return fmt.Sprintf("%x %v %x %v", b, err != nil, d, err2 != nil)
		},
		func(in []byte, n int) string {
			g := &bufio.GolombBitReader{R: bytes.NewReader(in)}
			s := ""
			for k := 0; k < 12; k++ {
				v, err := g.ReadExponentialGolombCode()
				w, err2 := g.ReadSE()
				s += fmt.Sprint(v, err != nil, w, err2 != nil, ",")
			}
			return s
		},
	}
	var ins []*input
	for k := c.Range(2, 5); k > 0; k-- {
		b := robustSeed(c)
		if c.N(3) == 0 {
			b = mutate(c, clone(b))
		}
		in := &input{data: b, keep: clone(b)}
		ins = append(ins, in)
	}
	// the answers given by one caller alone; computed first or, so that whatever
	// the package remembers is first met by several callers at once, afterwards
	alone := func() {
		for k, in := range ins {
			for i, f := range ops {
				in.want = append(in.want, f(clone(in.keep), i+len(ins)-k))
			}
		}
	}
	first := c.N(2) == 0
	if first {
		alone()
	}
	type answer struct {
		k, o int
		got  string
	}
	n := c.Range(3, 8)
	answers := make([][]answer, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		seed := c.U64()
		go func(g int) {
			defer wg.Done()
			r := &Rng{s: seed}
			<-start
			for i := 0; i < 40; i++ {
				k := r.N(len(ins))
				in := ins[k]
				o := r.N(len(ops))
				answers[g] = append(answers[g], answer{k, o, ops[o](in.data, o+len(ins)-k)})
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if !first {
		alone()
	}
	for _, l := range answers {
		for _, a := range l {
			if in := ins[a.k]; a.got != in.want[a.o] {
				c.Failf("operation %d on shared input %s gave %.200s, alone %.200s", a.o, hexs(in.keep), a.got, in.want[a.o])
			}
		}
	}
	for _, in := range ins {
		if !bytes.Equal(in.data, in.keep) {
			c.Failf("shared input changed: %x, was %x", in.data, in.keep)
		}
		c.Distinct(hashBytes(in.keep))
	}
	c.Eval(40 * n)
	c.Ev("shared_ops", 40*n)
}

// pipelines: packets travel from a producer's demuxer to consumers that convert
// and release them, all through the one packet pool.
type handoff struct {
	c    *C
	who  int
	out  chan *av.AVPacket
	st   *av.AVStream
	sent []uint64
}

func (h *handoff) OnNewTrack(t av.Track) { h.st = t.GetStream() }
func (h *handoff) OnTrackComplete()      {}
func (h *handoff) OnTrackNotFind()       {}
func (h *handoff) OnPacket(p *av.AVPacket) {
	h.sent = append(h.sent, hashBytes(p.Data)^uint64(p.Dts)<<1^uint64(p.Index))
	h.out <- p
}

func poolRun(c *C) {
	n := c.Range(2, 4)
	per := c.Range(20, 120)
	var wg sync.WaitGroup
	errs := make([]string, n)
	var got [8][]uint64
	var hs []*handoff
	for i := 0; i < n; i++ {
		h := &handoff{c: c, who: i, out: make(chan *av.AVPacket, c.Range(1, 8))}
		hs = append(hs, h)
		seed := c.U64()
		wg.Add(2)
		go func(i int) {
			defer wg.Done()
			defer close(h.out)
			r := &Rng{s: seed}
			dm := &av.BaseDemuxer{Name: "ps", DataPipeline: newMemPipe()}
			dm.SetHandler(h)
			id := pick(r, []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdMP3})
			ts := int64(i) << 32
			for k := 0; k < per; k++ {
				b := r.Bytes(r.Range(1, 60))
				dm.OnAudioPacket(0, id, b, ts)
				// MemPipe blocks are not used: the payload is the producer's own
				ts += int64(r.N(3600))
				if k == 3 {
					dm.ProbeComplete()
				}
			}
		}(i)
		go func(i int) {
			defer wg.Done()
			last := int64(-1)
			for p := range h.out {
				if p.Dts>>32 != int64(i) || p.MediaType != utils.AVMediaTypeAudio || p.Timebase != 90000 || p.Dts < last {
					if errs[i] == "" {
						errs[i] = fmt.Sprintf("consumer %d got a packet with dts %#x, type %v, timebase %d", i, p.Dts, p.MediaType, p.Timebase)
					}
				}
				last = p.Dts
				got[i] = append(got[i], hashBytes(p.Data)^uint64(p.Dts)<<1^uint64(p.Index))
				av.FreePacket(p)
			}
		}(i)
	}
	wg.Wait()
	for i, h := range hs {
		if errs[i] != "" {
			c.Failf("%s", errs[i])
		}
		if fmt.Sprint(h.sent) != fmt.Sprint(got[i]) {
			c.Failf("consumer %d saw other packets than demuxer %d delivered", i, i)
		}
		if len(got[i]) != per-1 {
			c.Failf("demuxer %d delivered %d of %d packets", i, len(got[i]), per-1)
		}
		c.Eval(per)
		c.Ev("handed_over", len(got[i]))
	}
	c.Distinct(hashInts(n, per))
}

// ------------------------------------------------------------------- C27

// fileTap records what the demuxer delivers and passes it on.
type fileTap struct {
	av.OnUnpackStreamHandler
	c       *C
	streams []*av.AVStream
	pkts    [][]tapPkt
}

type tapPkt struct {
	data []byte
	key  bool
	pt   av.PacketType
}

func (t *fileTap) OnNewTrack(tr av.Track) {
	t.streams = append(t.streams, tr.GetStream())
	t.pkts = append(t.pkts, nil)
	t.OnUnpackStreamHandler.OnNewTrack(tr)
}

func (t *fileTap) OnPacket(p *av.AVPacket) {
	t.pkts[p.Index] = append(t.pkts[p.Index], tapPkt{clone(p.Data), p.Key, p.PacketType})
	t.OnUnpackStreamHandler.OnPacket(p)
}

var dumpSeq atomic.Int64

// dumpName is the name of a track's dump file.
func dumpName(path string, s *av.AVStream, index int) string {
	mt := map[utils.AVMediaType]string{utils.AVMediaTypeUnknown: "unknown", utils.AVMediaTypeVideo: "video", utils.AVMediaTypeAudio: "audio",
		utils.AVMediaTypeData: "data", utils.AVMediaTypeSubtitle: "subtitle", utils.AVMediaTypeAttachment: "attachment"}[s.MediaType]
	id := map[utils.AVCodecID]string{utils.AVCodecIdH263: "H263", utils.AVCodecIdH264: "H264", utils.AVCodecIdH265: "H265", utils.AVCodecIdVP8: "VP8", utils.AVCodecIdVP9: "VP9", utils.AVCodecIdAV1: "AV1",
		utils.AVCodecIdAAC: "AAC", utils.AVCodecIdPCMALAW: "PCMA", utils.AVCodecIdPCMMULAW: "PCMU", utils.AVCodecIdOPUS: "OPUS", utils.AVCodecIdMP3: "MP3", utils.AVCodecIdADPCMG722: "G722",
		utils.AVCodecIdADPCMG726: "G726", utils.AVCodecIdPCMS16LE: "PCMS16LE"}[s.CodecID]
	if id == "" {
		id = strconv.Itoa(int(s.CodecID))
	}
	return fmt.Sprintf("%s.%s.%d.%s", path, mt, index, id)
}

func dumpRun(c *C) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	seq := dumpSeq.Add(1)
	dir := filepath.Join(base, fmt.Sprintf("dump-%d-%d", os.Getpid(), seq))
	if err := os.MkdirAll(dir, 0o700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	n := 1
	if c.N(4) == 0 {
		n = 2 // two handlers next to each other
	}
	type dump struct {
		path string
		tap  *fileTap
		g    *dumpGen
	}
	var ds []*dump
	for i := 0; i < n; i++ {
		d := &dump{path: filepath.Join(dir, pick(c.Rng, []string{"a", "out.x", "d"})+strconv.Itoa(i))}
		d.tap = &fileTap{c: c, OnUnpackStreamHandler: &av.OnUnpackStream2FileHandler{Path: d.path}}
		d.g = newDumpGen(c, d.tap)
		ds = append(ds, d)
	}
	if c.N(8) == 0 { // a stream without tracks leaves nothing behind
		(&av.OnUnpackStream2FileHandler{Path: filepath.Join(dir, "none")}).OnTrackNotFind()
		c.Ev("no_track_found", 1)
	}
	// a file of another name and, sometimes, files from an earlier run
	keep := map[string][]byte{filepath.Join(dir, "unrelated"): c.Bytes(20)}
	for f, b := range keep {
		if err := os.WriteFile(f, b, 0o600); err != nil {
			panic(err)
		}
	}
	old := c.Bool()
	if old {
		for _, d := range ds {
			for i, s := range d.g.streams {
				if c.N(3) > 0 {
					f := dumpName(d.path, s, i)
					if err := os.WriteFile(f, c.Bytes(c.N(20000)), 0o600); err != nil {
						panic(err)
					}
					c.Ev("preexisting_file", 1)
				}
			}
		}
	}
	steps := c.Range(5, 80)
	for i := 0; i < steps; i++ {
		for _, d := range ds {
			d.g.step()
		}
	}
	for _, d := range ds {
		d.g.finish()
	}
	want := map[string]bool{}
	for f := range keep {
		want[f] = true
	}
	for _, d := range ds {
		if len(d.tap.streams) != len(d.g.streams) {
			c.Failf("%d tracks announced, %d expected", len(d.tap.streams), len(d.g.streams))
		}
		for i, s := range d.tap.streams {
			f := dumpName(d.path, s, i)
			want[f] = true
			got, err := os.ReadFile(f)
			if err != nil {
				c.Failf("no dump file for track %d (%v %v): %v", i, s.MediaType, s.CodecID, err)
			}
			judgeDump(c, f, got, s, d.g.sets[i], d.tap.pkts[i], d.g.ls[i])
			c.Ev("file_checked", 1)
		}
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		f := filepath.Join(dir, e.Name())
		if !want[f] {
			found := old
			if found { // a leftover of a track that never came is nobody's business
				continue
			}
			c.Failf("unexpected file %s", e.Name())
		}
		if b, ok := keep[f]; ok {
			got, _ := os.ReadFile(f)
			if !bytes.Equal(got, b) {
				c.Failf("the dump changed an unrelated file")
			}
		}
	}
	c.Eval(steps)
	c.Distinct(hashInts(n, len(ds[0].g.streams), steps, int(b2u(old))))
	if seq%32 == 0 {
		runtime.GC() // lets finalizers close the handlers' files
	}
}

// judgeDump compares a dump file with the packets delivered for its track.
func judgeDump(c *C, name string, got []byte, s *av.AVStream, sets [][]byte, pkts []tapPkt, ls int) {
	hev := s.CodecID == utils.AVCodecIdH265
	if s.MediaType != utils.AVMediaTypeVideo || (!hev && s.CodecID != utils.AVCodecIdH264) {
		var want []byte
		for _, p := range pkts {
			want = append(want, p.data...)
		}
		if !bytes.Equal(got, want) {
			c.Failf("%s holds %d bytes %s, delivered were %d bytes %s", filepath.Base(name), len(got), hexs(got), len(want), hexs(want))
		}
		c.Ev("verbatim_packets", len(pkts))
		return
	}
	nals := splitAnnexB(got)
	if len(got) > 0 && !bytes.HasPrefix(got, []byte{0, 0, 1}) && !bytes.HasPrefix(got, []byte{0, 0, 0, 1}) {
		c.Failf("%s is not Annex-B: it begins with %s", filepath.Base(name), hexs(got))
	}
	pos := map[int]bool{0: true}
	for i, p := range pkts {
		var own [][]byte
		if p.pt == av.PacketTypeAVCC {
			own, _ = splitLength(p.data, ls)
		} else {
			own = splitAnnexB(p.data)
		}
		has := containsSets(own, sets)
		next := map[int]bool{}
		for at := range pos {
			for k := 0; k <= 1; k++ {
				if k > 0 && !p.key {
					break
				}
				e := at
				for j := 0; j < k; j++ {
					if e+len(sets) > len(nals) || !sameNals(nals[e:e+len(sets)], sets) {
						e = -1
						break
					}
					e += len(sets)
				}
				if e < 0 {
					break
				}
				if e+len(own) > len(nals) || !sameNals(nals[e:e+len(own)], own) {
					continue
				}
				if p.key && k == 0 && !has {
					continue
				}
				next[e+len(own)] = true
			}
		}
		if len(next) == 0 {
			at := 0
			for k := range pos {
				at = k
			}
			rest := nals[at:]
			if len(rest) > 6 {
				rest = rest[:6]
			}
			c.Failf("%s: packet %d of %d (key %v) is %s with parameter sets %s; the file goes on with %s", filepath.Base(name), i, len(pkts), p.key, describeNals(own), describeNals(sets), describeNals(rest))
		}
		pos = next
		if p.key {
			c.Ev("key_packets", 1)
		}
		c.Ev("video_packets", 1)
	}
	if !pos[len(nals)] {
		c.Failf("%s holds %d NAL units, more than the %d delivered packets account for", filepath.Base(name), len(nals), len(pkts))
	}
}

func containsSets(nals, sets [][]byte) bool {
	for _, s := range sets {
		found := false
		for _, n := range nals {
			found = found || bytes.Equal(n, s)
		}
		if !found {
			return false
		}
	}
	return true
}

// dumpGen produces streams either through a demuxer or by calling the handler.
type dumpGen struct {
	c       *C
	h       av.OnUnpackStreamHandler
	dm      *av.BaseDemuxer
	pipe    *memPipe
	streams []*av.AVStream
	sets    [][][]byte
	recs    [][]byte
	ls      []int
	ts      []int64
	first   []bool
	direct  bool
	name    string
	began   bool
	n       int
	big     int // largest payload, when payloads are large
}

// size is a payload size.
func (g *dumpGen) size(lo, hi int) int {
	if g.big > 0 && g.c.Bool() {
		hi = g.big
	}
	return g.c.Range(lo, hi)
}

func newDumpGen(c *C, h av.OnUnpackStreamHandler) *dumpGen {
	g := &dumpGen{c: c, h: h, direct: c.N(3) == 0, name: pick(c.Rng, demuxNames)}
	if c.P(1, 60) {
		g.big = pick(c.Rng, []int{5000, 70000, 300000})
		c.Ev("large_payloads", 1)
	}
	nv, na := c.Range(0, 1), c.Range(0, 1)
	if g.name == "ts" || g.direct {
		nv, na = c.Range(0, 2), c.Range(0, 2)
		if c.P(1, 60) {
			nv, na = c.Range(0, 4), pick(c.Rng, []int{11, 20, 40, 130})
			c.Ev("many_tracks", 1)
		}
	}
	if nv+na == 0 {
		na = 1
	}
	auds := []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdMP3, utils.AVCodecIdPCMMULAW, utils.AVCodecIdAAC, utils.AVCodecIdOPUS, utils.AVCodecIdADPCMG722, utils.AVCodecIdADPCMG726, utils.AVCodecIdPCMS16LE}
	var order []bool
	for i := 0; i < nv; i++ {
		order = append(order, true)
	}
	for i := 0; i < na; i++ {
		order = append(order, false)
	}
	for i := len(order) - 1; i > 0; i-- {
		j := c.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	for i, v := range order {
		if !v {
			mt, id := utils.AVMediaTypeAudio, pick(c.Rng, auds)
			if g.direct && c.N(3) == 0 {
				mt = pick(c.Rng, []utils.AVMediaType{utils.AVMediaTypeData, utils.AVMediaTypeSubtitle, utils.AVMediaTypeAttachment, utils.AVMediaTypeUnknown})
				id = pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdSUBRIP, utils.AVCodecIdWEBVTT, utils.AVCodecID(c.Range(1, 1<<20))})
				c.Ev("other_media_type", 1)
			}
			g.streams = append(g.streams, av.NewAVStream(mt, i, id, nil, nil))
			g.sets = append(g.sets, nil)
			g.ls = append(g.ls, 4)
			g.recs = append(g.recs, nil)
		} else if g.direct && c.N(5) == 0 {
			g.streams = append(g.streams, av.NewAVStream(utils.AVMediaTypeVideo, i, pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdVP8, utils.AVCodecIdVP9, utils.AVCodecIdAV1, utils.AVCodecIdH263}), nil, nil))
			g.sets = append(g.sets, nil)
			g.ls = append(g.ls, 4)
			g.recs = append(g.recs, nil)
		} else {
			hev := c.Bool()
			o := avcOpt{plain: true, small: true}
			ls := pick(c.Rng, []int{3, 4, 4})
			if hev {
				r := genHEVCRecord(c.Rng, o, c.Range(1, 2), 1, c.Range(1, 3), 30, ls)
				cd, err := av.ParseHEVCDecoderConfigurationRecord(r.data)
				if err != nil {
					c.Failf("record rejected: %v", err)
				}
				g.streams = append(g.streams, av.NewAVStream(utils.AVMediaTypeVideo, i, utils.AVCodecIdH265, nil, cd))
				g.sets = append(g.sets, append(append(clone2(r.vps), r.sps...), r.pps...))
				g.recs = append(g.recs, r.data)
			} else {
				if ls == 3 {
					ls = 4
				}
				r := genAVCRecord(c.Rng, o, 1, c.Range(1, 3), 30, ls)
				cd, err := av.ParseAVCDecoderConfigurationRecord(r.data)
				if err != nil {
					c.Failf("record rejected: %v", err)
				}
				g.streams = append(g.streams, av.NewAVStream(utils.AVMediaTypeVideo, i, utils.AVCodecIdH264, nil, cd))
				g.sets = append(g.sets, r.sets())
				g.recs = append(g.recs, r.data)
			}
			g.ls = append(g.ls, ls)
		}
		g.ts = append(g.ts, pick(c.Rng, []int64{0, 0, 1, 2, -100, 1 << 33}))
		g.first = append(g.first, true)
	}
	if !g.direct {
		g.pipe = newMemPipe()
		g.dm = &av.BaseDemuxer{Name: g.name, DataPipeline: g.pipe, AutoFree: true}
		g.dm.SetHandler(h)
		g.dm.SetProbeDuration(pick(c.Rng, []int{0, 500, 1 << 29}))
	}
	return g
}

func (g *dumpGen) put(slot int, data []byte) []byte {
	_, _ = g.pipe.Write(data, slot, utils.AVMediaTypeUnknown)
	b, _ := g.pipe.Fetch(slot)
	return b
}

// begin makes every track known.
func (g *dumpGen) begin() {
	g.began = true
	for i, s := range g.streams {
		if g.direct {
			g.h.OnNewTrack(&testTrack{s})
			continue
		}
		if s.MediaType == utils.AVMediaTypeVideo && g.name == "flv" {
			if g.dm.OnNewVideoTrack(i, s.CodecID, 1000, g.put(i, g.recs[i])) == nil {
				g.c.Failf("header rejected")
			}
		} else {
			g.packet(i, true)
		}
	}
	if g.direct {
		g.h.OnTrackComplete()
	}
}

type testTrack struct{ s *av.AVStream }

func (t *testTrack) GetStream() *av.AVStream { return t.s }

func (g *dumpGen) packet(i int, key bool) {
	c, s := g.c, g.streams[i]
	g.n++
	g.ts[i] += int64(c.Range(0, 60))
	if s.MediaType != utils.AVMediaTypeVideo || s.CodecID != utils.AVCodecIdH264 && s.CodecID != utils.AVCodecIdH265 {
		data := c.Bytes(g.size(1, 120))
		if s.CodecID == utils.AVCodecIdAAC {
			data = data[:min(len(data), 8000)] // 13 bits of length
			data = adtsFrame(c.Rng, 1, 4, 2, data)
		}
		if !g.direct {
			g.dm.OnAudioPacket(i, s.CodecID, g.put(i, data), g.ts[i])
			return
		}
		var p *av.AVPacket
		if s.MediaType != utils.AVMediaTypeVideo {
			p = av.NewAudioPacket(data, g.ts[i], s.CodecID, i, 1000)
			p.MediaType = s.MediaType
		} else {
			p = av.NewVideoPacket(data, g.ts[i], g.ts[i], key, av.PacketTypeAVCC, s.CodecID, i, 1000)
		}
		g.h.OnPacket(p)
		av.FreePacket(p)
		return
	}
	hev := s.CodecID == utils.AVCodecIdH265
	mk, typ := avcNal, 1
	if hev {
		mk = hevcNal
	}
	if key {
		typ = map[bool]int{false: 5, true: 19}[hev]
	}
	var nals [][]byte
	for k := c.Range(1, 3); k > 0; k-- {
		nals = append(nals, mk(c.Rng, typ, g.size(3, 80)))
	}
	avcc := g.name == "flv"
	if g.direct {
		avcc = c.Bool()
	}
	if key && (!avcc && !g.direct || c.N(4) == 0) {
		nals = append(clone2(g.sets[i]), nals...)
	}
	var data []byte
	pt := av.PacketTypeAnnexB
	if avcc {
		data = lengthPrefixed(nals, g.ls[i])
		pt = av.PacketTypeAVCC
	} else {
		data = annexB(c.Rng, nals)
	}
	if g.direct {
		p := av.NewVideoPacket(data, g.ts[i], g.ts[i], key, pt, s.CodecID, i, 1000)
		g.h.OnPacket(p)
		av.FreePacket(p)
		return
	}
	g.dm.OnVideoPacket(i, s.CodecID, g.put(i, data), key, g.ts[i], g.ts[i], pt)
}

func (g *dumpGen) step() {
	if !g.began {
		g.begin()
		return
	}
	g.packet(g.c.N(len(g.streams)), g.c.N(4) == 0)
	if !g.direct && g.c.N(20) == 0 {
		g.dm.ProbeComplete()
	}
}

func (g *dumpGen) finish() {
	if !g.direct {
		g.dm.ProbeComplete()
	}
}

// ------------------------------------------------------------------- C29

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func totalAlloc() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// steady runs a workload in a steady state and compares the live heap at the
// end with the live heap after the warm-up. reuse: bytes moved per round, when
// the workload must not allocate memory for its payloads.
func steady(c *C, name string, rounds int, moved int64, round func(i int)) {
	c.T("steady workload %s, %d rounds", name, rounds)
	for i := 0; i < rounds/4; i++ {
		round(i)
		if i&1023 == 0 {
			c.Tick()
		}
	}
	h0, a0 := liveHeap(), totalAlloc()
	for i := rounds / 4; i < rounds; i++ {
		round(i)
		if i&1023 == 0 {
			c.Tick()
		}
	}
	a1, h1 := totalAlloc(), liveHeap()
	n := int64(rounds - rounds/4)
	if h1-h0 > 48<<10 {
		// settling late is no leak: what leaks goes on growing
		hs := []int64{h0, h1}
		for b, i := 0, rounds; b < 3; b++ {
			for end := i + int(n); i < end; i++ {
				round(i)
				if i&1023 == 0 {
					c.Tick()
				}
			}
			hs = append(hs, liveHeap())
		}
		if total, late := hs[4]-h0, hs[4]-hs[2]; total > 128<<10 && late > total/5 {
			c.Failf("%s: the live heap went on growing in a steady state: %v bytes, %d rounds apart", name, hs, n)
		}
		c.Ev("settled_late", 1)
	}
	if moved > 0 && a1-a0 > n*moved/4+1<<20 {
		c.Failf("%s: %d bytes were allocated over %d rounds that move %d bytes each: released space is not reused", name, a1-a0, n, moved)
	}
	c.Eval(rounds)
	c.Ev("steady_rounds", rounds)
	c.Ev("workload", 1)
	c.Distinct(hashStr(name) ^ uint64(c.idx))
	c.Sample(func() string {
		return fmt.Sprintf("%s: %d rounds, live heap %d -> %d, allocated %d", name, rounds, h0, h1, a1-a0)
	})
}

// ringFootprint keeps a bounded amount of data of random sizes unreleased and
// compares the memory the ring holds on to at the end with the largest amount
// that was ever unreleased: slow growth, which a comparison of two moments of
// one run does not show, ends far beyond it.
func ringFootprint(c *C, rounds int) {
	maxBlk := pick(c.Rng, []int{120, 700, 2000})
	window := maxBlk * c.Range(3, 8)
	init := pick(c.Rng, []int{16, 1000, 4 * window})
	h0 := liveHeap()
	b := collections.NewRBBlockBuffer(init)
	p := c.Bytes(maxBlk)
	var live []int
	sum, peak := 0, 0
	var hist []int64
	for i := 0; i < rounds; i++ {
		n := c.Range(1, maxBlk)
		if c.P(1, 3) {
			n = c.Range(1, maxBlk/8)
		}
		for len(live) > 0 && (sum+n > window || len(live) > 12) {
			b.Pop()
			sum -= live[0]
			live = live[1:]
		}
		for w := n; w > 0; {
			q := c.Range(1, w)
			b.Write(p[:q])
			w -= q
		}
		b.Fetch()
		live = append(live, n)
		if sum += n; sum > peak {
			peak = sum
		}
		if c.P(1, 16) {
			b.PopBack()
			sum -= n
			live = live[:len(live)-1]
		}
		if i&1023 == 0 {
			c.Tick()
		}
		if i%(rounds/4) == 0 {
			hist = append(hist, liveHeap()-h0)
		}
	}
	h1 := liveHeap() - h0
	runtime.KeepAlive(b)
	if limit := int64(init + 12*(peak+maxBlk) + 32<<10); h1 > limit {
		c.Failf("ring block buffer with at most %d bytes unreleased in blocks of up to %d (%d rounds, initially %d bytes) holds %d bytes (earlier: %v)", peak, maxBlk, rounds, init, h1, hist)
	}
	c.Eval(rounds)
	c.Ev("steady_rounds", rounds)
	c.Ev("footprints", 1)
	c.Distinct(c.U64())
	c.Sample(func() string {
		return fmt.Sprintf("ring with at most %d bytes live holds %d bytes after %d rounds", peak, h1, rounds)
	})
}

func footprintRun(c *C) {
	n := 150000
	if c.tier == "thorough" {
		n = 1500000
	}
	ringFootprint(c, n)
}

// retentionRun: what was popped from the head of a queue or ring is no longer
// kept alive by it, however long it once was.
func retentionRun(c *C) {
	if c.idx%4 >= 2 {
		drainRun(c)
		return
	}
	size := c.Range(200, 1500)
	var freed atomic.Int64
	total := 0
	mk := func() *[4096]byte {
		p := new([4096]byte)
		runtime.SetFinalizer(p, func(*[4096]byte) { freed.Add(1) })
		total++
		return p
	}
	var push func(*[4096]byte)
	var pop func() *[4096]byte
	var n func() int
	if c.idx&1 == 0 {
		q := collections.NewQueue[*[4096]byte](c.Range(1, 64))
		push, pop, n = q.Push, q.Pop, q.Size
	} else {
		r := collections.NewRingBuffer[*[4096]byte](size)
		push, pop, n = r.Push, r.Pop, r.Size
	}
	push(mk())
	for k := c.Range(1, 4); k > 0; k-- {
		for m := c.Range(size/2, size); n() < m; {
			push(mk())
		}
		for m := c.Range(1, 10); n() > m; {
			pop()
		}
	}
	kept := n()
	for i := 0; i < 50 && int(freed.Load()) < total-kept-8; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	if got := int(freed.Load()); got < (total-kept)*9/10 {
		c.Failf("%d of %d elements are in the container, but only %d of the %d popped ones were released by the garbage collector", kept, total, got, total-kept)
	}
	push(mk()) // the container is alive until here
	c.Eval(total)
	c.Ev("popped_elements_released", int(freed.Load()))
	c.Distinct(c.U64())
}

// drainRun: many containers, each emptied by popping and kept alive, keep
// none of what went through them.
func drainRun(c *C) {
	type box interface {
		Push(*[4096]byte)
		Pop() *[4096]byte
		Size() int
	}
	var freed atomic.Int64
	total := 0
	all := make([]box, c.Range(40, 80))
	for i := range all {
		if c.idx&1 == 0 {
			all[i] = collections.NewQueue[*[4096]byte](c.Range(1, 8))
		} else {
			all[i] = collections.NewRingBuffer[*[4096]byte](c.Range(1, 8))
		}
		for k := c.Range(1, 3); k > 0; k-- {
			for m := c.Range(1, 5); m > 0; m-- {
				p := new([4096]byte)
				runtime.SetFinalizer(p, func(*[4096]byte) { freed.Add(1) })
				total++
				all[i].Push(p)
			}
			for all[i].Size() > 0 {
				all[i].Pop()
			}
		}
	}
	for i := 0; i < 50 && int(freed.Load()) < total-2; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	if got := int(freed.Load()); got < total*98/100 {
		c.Failf("%d containers emptied by popping: only %d of the %d elements that went through them were released by the garbage collector", len(all), got, total)
	}
	for i := range all {
		if all[i].Size() != 0 {
			c.Failf("emptied container holds %d", all[i].Size())
		}
	}
	runtime.KeepAlive(all)
	c.Eval(total)
	c.Ev("drained_containers", len(all))
	c.Distinct(c.U64())
}

func memWorkload(c *C) {
	k := 1
	if c.tier == "thorough" {
		k = 8
	}
	ws := []func(){
		func() { // block buffer, ring
			out := c.Range(1, 12)
			size := c.Range(1, 900)
			back := c.Bool()
			b := collections.NewRBBlockBuffer(pick(c.Rng, []int{1, 16, 500, 4096, 48000}))
			p := c.Bytes(2000)
			held := 0
			steady(c, fmt.Sprintf("ring block buffer, %d blocks unreleased, sizes up to %d, discards %v", out, size, back), 250000*k, int64(size), func(i int) {
				n := size
				if i&3 == 1 {
					n = size/2 + 1
				}
				b.Write(p[:n/2])
				b.Write(p[n/2 : n])
				b.Fetch()
				held++
				if back && i%5 == 0 {
					b.PopBack()
					held--
				}
				for held > out {
					b.Pop()
					held--
				}
			})
		},
		func() { // block buffer, linear
			b := collections.NewDirectBlockBuffer(pick(c.Rng, []int{1, 64, 4096}))
			p := c.Bytes(8000)
			out := c.Range(1, 6)
			steady(c, "linear block buffer emptied regularly", 100000*k, 6000, func(i int) {
				for j := 0; j < out; j++ {
					b.Write(p[:6000/out+1])
					b.Fetch()
				}
				for j := 0; j < out; j++ {
					b.Pop()
				}
			})
		},
		func() { // stream buffers
			s := &av.StreamsBuffer{}
			p := c.Bytes(9000)
			n := c.Range(1, 3)
			lag := c.Range(1, 8)
			size := c.Range(50, 9000)
			held := make([]int, n)
			steady(c, fmt.Sprintf("stream buffers, %d streams, %d behind, sizes up to %d", n, lag, size), 80000*k, int64(size)/2, func(i int) {
				x := i % n
				m := utils.AVMediaTypeVideo
				if x > 0 {
					m = utils.AVMediaTypeAudio
				}
				q := p[:size-(i%7)*size/8]
				_, _ = s.Write(q, x, m)
				_, _ = s.Fetch(x)
				held[x]++
				if i%6 == 0 {
					s.DiscardBackPacket(x)
					held[x]--
				}
				for held[x] > lag {
					s.DiscardHeadPacket(x)
					held[x]--
				}
			})
		},
		func() { // queue
			q := collections.NewQueue[*[64]byte](pick(c.Rng, []int{1, 4, 64}))
			out := c.Range(1, 100)
			steady(c, fmt.Sprintf("queue with up to %d elements", out), 500000*k, 0, func(i int) {
				q.Push(new([64]byte))
				for q.Size() > out {
					q.Pop()
				}
				if i%1000 == 0 {
					for q.Size() > 0 {
						q.Pop()
					}
				}
			})
		},
		func() { // ring buffer
			q := collections.NewRingBuffer[*[64]byte](pick(c.Rng, []int{1, 4, 64}))
			steady(c, "ring buffer", 500000*k, 0, func(i int) {
				if q.IsFull() {
					q.Pop()
				}
				q.Push(new([64]byte))
			})
		},
		func() { // list
			l := &collections.LinkedList[*[64]byte]{}
			out := c.Range(1, 30)
			mode := c.N(3)
			steady(c, fmt.Sprintf("linked list with %d elements, removal mode %d", out, mode), 300000*k, 0, func(i int) {
				l.Add(new([64]byte))
				for l.Size() > out {
					switch mode {
					case 0:
						l.Remove(0)
					case 1:
						l.Remove(l.Size() - 1)
					default:
						l.Remove(i % l.Size())
					}
				}
			})
		},
		func() { // packets
			s, _ := mkStream(c, c.Bool(), false, 4)
			data := lengthPrefixed([][]byte{c.Bytes(100), c.Bytes(300)}, 4)
			b := annexB(c.Rng, [][]byte{avcNal(c.Rng, 5, 100), avcNal(c.Rng, 1, 30)})
			fresh := c.Bool() // every packet has memory of its own
			steady(c, fmt.Sprintf("packets: created, converted, freed; own memory %v", fresh), 200000*k, 0, func(i int) {
				// other bytes every time
				for j := 0; j < 4; j++ {
					data[40+j] = 0x80 | byte(i>>(7*j))
					b[len(b)-4+j] = 0x80 | byte(i>>(7*j))
				}
				data, b := data, b
				if fresh {
					data, b = clone(data), clone(b)
				}
				p := av.NewVideoPacket(data, int64(i), int64(i), i%10 == 0, av.PacketTypeAVCC, s.CodecID, 0, 1000)
				av.AVCCPacket2AnnexB(s, p)
				av.FreePacket(p)
				p = av.NewVideoPacket(b, int64(i), int64(i), i%10 == 0, av.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
				av.AnnexBPacket2AVCC(p)
				av.FreePacket(p)
				p = av.NewAudioPacket(b, int64(i), utils.AVCodecIdAAC, 0, 1000)
				av.FreePacket(p)
				if i%8 == 0 {
					_ = s.CodecParameters.AnnexBExtraData()
					_ = s.CodecParameters.MP4ExtraData()
				}
			})
		},
		func() { // direct pipeline
			d := &av.DirectDataPipeline{}
			p := c.Bytes(1000)
			steady(c, "direct pipeline", 300000*k, 800, func(i int) {
				_, _ = d.Write(p[:300+i%500], 0, utils.AVMediaTypeVideo)
				_, _ = d.Write(p[:300], 0, utils.AVMediaTypeVideo)
				_, _ = d.Fetch(0)
			})
		},
	}
	if c.idx < len(ws) {
		ws[c.idx]()
		return
	}
	if c.idx < 2*len(ws) {
		ws[c.idx-len(ws)]()
		return
	}
	demuxMemory(c, k)
}

type freeHandler struct {
	dm   *av.BaseDemuxer
	held []*av.AVPacket
	lag  int
	n    int
}

func (h *freeHandler) OnNewTrack(t av.Track) {}
func (h *freeHandler) OnTrackComplete()      {}
func (h *freeHandler) OnTrackNotFind()       {}
func (h *freeHandler) OnPacket(p *av.AVPacket) {
	h.n++
	if h.dm.AutoFree {
		return
	}
	h.held = append(h.held, p)
	for len(h.held) > h.lag {
		q := h.held[0]
		copy(h.held, h.held[1:])
		h.held = h.held[:len(h.held)-1]
		h.dm.DiscardHeadPacket(q.BufferIndex)
		av.FreePacket(q)
	}
}

// demuxMemory: a demuxer runs for long, with rejected input and repeated headers.
func demuxMemory(c *C, k int) {
	name := demuxNames[c.idx%4]
	real := c.idx%8 < 5
	h := &freeHandler{lag: c.Range(0, 10)}
	var pipe av.DataPipeline = newMemPipe()
	if real {
		pipe = &av.StreamsBuffer{}
	}
	dm := &av.BaseDemuxer{Name: name, DataPipeline: pipe, AutoFree: c.Bool()}
	h.dm = dm
	dm.SetHandler(h)
	o := avcOpt{plain: true, small: true}
	put := func(slot int, m utils.AVMediaType, b []byte) []byte {
		_, _ = pipe.Write(b, slot, m)
		r, _ := pipe.Fetch(slot)
		return r
	}
	var rec []byte
	var key, delta []byte
	if name == "flv" {
		rec = genAVCRecord(c.Rng, o, 1, 1, 30, 4).data
		key, delta = lengthPrefixed([][]byte{avcNal(c.Rng, 5, 600)}, 4), lengthPrefixed([][]byte{avcNal(c.Rng, 1, 300)}, 4)
	} else {
		sps := genAVCSPS(c.Rng, o)
		key = annexB(c.Rng, [][]byte{sps.nal, genAVCPPS(c.Rng, 6), avcNal(c.Rng, 5, 600)})
		delta = annexB(c.Rng, [][]byte{avcNal(c.Rng, 1, 300)})
	}
	// slots resolved the way containers do, over and over
	slot := func(m utils.AVMediaType) int {
		if name == "flv" || name == "jt1078" {
			return dm.FindBufferIndexByMediaType(m)
		}
		return dm.FindBufferIndex(200 + int(m))
	}
	aud := adtsFrame(c.Rng, 1, 4, 2, c.Bytes(200))
	broken := c.Bytes(40)
	asc := []byte{0x12, 0x10}
	ts := int64(0)
	silent := c.idx >= 20 && c.N(3) == 0 // no video at all
	none := 0
	gop := 25
	if c.idx%3 == 1 {
		gop = 2
	}
	steady(c, fmt.Sprintf("demuxer %s, auto-free %v, consumer %d behind, stream buffers %v", name, dm.AutoFree, h.lag, real), 120000*k, 0, func(i int) {
		ts += 20
		v, a := slot(utils.AVMediaTypeVideo), slot(utils.AVMediaTypeAudio)
		if silent {
			none++
		}
		if name == "flv" && i%50 == 0 && !silent {
			dm.OnNewVideoTrack(v, utils.AVCodecIdH264, 1000, put(v, utils.AVMediaTypeVideo, rec))
			dm.OnNewAudioTrack(a, utils.AVCodecIdAAC, 1000, put(a, utils.AVMediaTypeAudio, asc), av.AudioConfig{HasADTSHeader: true})
		}
		if i%9 == 0 {
			// a stream that never gets a track
			x := dm.FindBufferIndex(999)
			dm.OnVideoPacket(x, utils.AVCodecIdH265, put(x, utils.AVMediaTypeVideo, broken), true, ts, ts, av.PacketTypeAnnexB)
		}
		if i > 2000 && i%11 == 0 {
			// headers of streams that come too late, some of them broken
			x := dm.FindBufferIndex(998 + i%2)
			hd := rec
			if name != "flv" {
				hd = key
			}
			if i%22 == 0 {
				hd = hd[:len(hd)/8]
			}
			if dm.OnNewVideoTrack(x, utils.AVCodecIdH264, 1000, put(x, utils.AVMediaTypeVideo, hd)) != nil || dm.OnNewAudioTrack(x, utils.AVCodecIdAAC, 1000, put(x, utils.AVMediaTypeAudio, asc), av.AudioConfig{}) != nil {
				c.Failf("a track was created after the end of probing")
			}
		}
		if silent {
			if i == 1000 && name == "flv" {
				dm.OnNewAudioTrack(a, utils.AVCodecIdAAC, 1000, put(a, utils.AVMediaTypeAudio, asc), av.AudioConfig{HasADTSHeader: true})
			}
		} else if i%gop == 0 {
			dm.OnVideoPacket(v, utils.AVCodecIdH264, put(v, utils.AVMediaTypeVideo, key), true, ts, ts, av.PacketTypeAnnexB)
		} else {
			dm.OnVideoPacket(v, utils.AVCodecIdH264, put(v, utils.AVMediaTypeVideo, delta), false, ts, ts, av.PacketTypeAnnexB)
		}
		dm.OnAudioPacket(a, utils.AVCodecIdAAC, put(a, utils.AVMediaTypeAudio, aud), ts)
		if i == 1000 {
			dm.ProbeComplete()
		}
	})
	if h.n < 120000*k-none/2 {
		c.Failf("only %d packets came out", h.n)
	}
	c.Ev("demuxer_packets", h.n)
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "groups of demuxers, converters, parsers and buffers, each under its own reference model, run first alone and then at the same time with the same inputs; goroutines parsing one shared input; demuxers handing packets to consumers through the one pool; race detector on all of it; distinct = distinct sets of concurrent roles and shared inputs",
		Need: []string{"role_instances", "overlapping_roles", "delivered", "shared_ops", "handed_over"},
		Families: []*Family{
			{Name: "roles", Quick: 1500, Thorough: 40000, RaceQ: 300, RaceT: 5000, Run: concurrentRun},
			{Name: "shared", Quick: 1500, Thorough: 40000, RaceQ: 500, RaceT: 8000, Run: sharedInput},
			{Name: "pool", Quick: 1500, Thorough: 40000, RaceQ: 500, RaceT: 8000, Run: poolRun},
		},
	})
	register(&Prop{
		ID:   "C27",
		Rule: "multi-track runs into the file-dumping handler (fed by demuxers of all containers or directly, both packings, one or two handlers in one directory, files of the same name existing before); the files are read back and compared with a record of the deliveries; distinct = distinct (handlers, tracks, length, pre-existing) runs",
		Need: []string{"file_checked", "key_packets", "video_packets", "verbatim_packets", "preexisting_file", "other_media_type", "no_track_found"},
		Families: []*Family{
			{Name: "dump", Quick: 24000, Thorough: 480000, Run: dumpRun},
		},
	})
	register(&Prop{
		ID:   "C29",
		Rule: "steady-state workloads of hundreds of thousands of rounds on every buffer, collection, pipeline and on demuxers of all containers; live heap after forced collections compared between warm-up and end, and allocation compared with the bytes moved; distinct = distinct workloads",
		Need: []string{"steady_rounds", "workload", "footprints", "popped_elements_released", "demuxer_packets"},
		Families: []*Family{
			{Name: "steady", Quick: 32, Thorough: 32, Solo: true, Run: memWorkload},
			{Name: "retention", Quick: 12, Thorough: 200, Solo: true, Run: retentionRun},
			{Name: "footprint", Quick: 12, Thorough: 40, Solo: true, Run: footprintRun},
		},
	})
}
