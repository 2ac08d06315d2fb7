package main

import (
	"bytes"
	"fmt"
	"sync"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------- C31
//
// A relay reads one container and feeds the next: the packets a demuxer
// delivers are converted (packing, ADTS header, timebase) and written into the
// stream buffers of the next demuxer, whose tracks are made from the codec
// configuration the first one announced. What the last stage delivers has to
// be the stream that went in.

type relayPkt struct {
	nals     [][]byte
	payload  []byte
	dts, pts int64
	key      bool
}

type relayTrack struct {
	media      utils.AVMediaType
	id         utils.AVCodecID
	hev        bool
	sets       [][]byte
	w, h       int
	ls         int
	rec        []byte
	prof, rate int
	chans      int
	asc        []byte
	step       int64
	ts         int64
	pkts       []relayPkt // what was put into the first stage
	want       int        // how many packets it is going to have
}

type relayOut struct {
	p  relayPkt
	du int64
}

type relayStage struct {
	r      *relay
	no     int
	name   string
	dm     *av.BaseDemuxer
	pipe   av.DataPipeline
	real   bool
	lag    int
	late   []*av.AVPacket
	free   bool
	src    map[int]int // slot of this stage -> original track
	order  []int       // original tracks in the order they became known
	st     []*av.AVStream
	done   int
	next   *relayStage
	out    map[int][]relayOut
	out1   map[int]bool
	expect int // tracks the previous stage announced
}

type relay struct {
	c      *C
	tracks []*relayTrack
	stages []*relayStage
}

func newRelay(c *C) *relay {
	r := &relay{c: c}
	n := c.Range(2, 4)
	var names []string
	ts := c.N(4) == 0
	for i := 0; i < n; i++ {
		name := pick(c.Rng, []string{"flv", "flv", "ps", "ts", "jt1078"})
		if ts {
			name = "ts"
		}
		if i > 0 && !ts && name == names[i-1] && c.N(4) != 0 {
			name = map[bool]string{true: "ps", false: "flv"}[name == "flv"]
		}
		names = append(names, name)
	}
	nv, na := c.Range(0, 1), c.Range(0, 1)
	if ts {
		nv, na = c.Range(0, 2), c.Range(0, 2)
	}
	if nv+na == 0 {
		nv, na = 1, 1
	}
	for i := 0; i < nv; i++ {
		r.tracks = append(r.tracks, r.videoTrack(names[0]))
	}
	for i := 0; i < na; i++ {
		r.tracks = append(r.tracks, r.audioTrack())
	}
	for i := len(r.tracks) - 1; i > 0; i-- {
		j := c.N(i + 1)
		r.tracks[i], r.tracks[j] = r.tracks[j], r.tracks[i]
	}
	tb := int64(1000)
	if names[0] == "ps" || names[0] == "ts" {
		tb = 90000
	}
	base := pick(c.Rng, []int64{0, 0, 1, 12345, -40 * tb, 95443 * tb, 1 << 33})
	for _, t := range r.tracks {
		t.ts = base + int64(c.N(int(tb)/10))
		t.step = tb / 1000 * int64(pick(c.Rng, []int{5, 20, 23, 33, 40}))
		t.want = c.Range(n+1, 40)
		if c.P(1, 12) {
			t.want = c.Range(1, n+1)
		}
	}
	for i, name := range names {
		s := &relayStage{r: r, no: i, name: name, src: map[int]int{}, out: map[int][]relayOut{}, out1: map[int]bool{}, real: c.Bool(), free: c.N(3) != 0}
		if s.real {
			s.pipe = &av.StreamsBuffer{}
		} else {
			s.pipe = newMemPipe()
		}
		s.dm = &av.BaseDemuxer{Name: name, DataPipeline: s.pipe, AutoFree: s.free}
		s.dm.SetHandler(s)
		s.dm.SetProbeDuration(1 << 29)
		if !s.free {
			s.lag = c.N(5)
		}
		if c.N(3) == 0 {
			s.dm.SetOnPreprocessPacketHandler(func(p *av.AVPacket) {
				p.OnBufferAlloc = func(n int) []byte {
					b := make([]byte, n)
					for i := range b {
						b[i] = 0xC7
					}
					return b
				}
			})
		}
		r.stages = append(r.stages, s)
		if i > 0 {
			r.stages[i-1].next = s
		}
	}
	r.stages[0].expect = len(r.tracks)
	return r
}

func (r *relay) videoTrack(first string) *relayTrack {
	c := r.c
	t := &relayTrack{media: utils.AVMediaTypeVideo, hev: c.Bool(), id: utils.AVCodecIdH264, ls: 4}
	o := avcOpt{plain: true, small: true}
	if first == "flv" {
		t.ls = pick(c.Rng, []int{1, 2, 4, 4, 4})
	}
again:
	if t.hev {
		t.id = utils.AVCodecIdH265
		rec := genHEVCRecord(c.Rng, o, 1, 1, 1, 40, t.ls)
		t.rec, t.sets, t.w, t.h = rec.data, [][]byte{rec.vps[0], rec.sps[0], rec.pps[0]}, rec.first.width, rec.first.height
	} else {
		rec := genAVCRecord(c.Rng, o, 1, 1, 40, t.ls)
		t.rec, t.sets, t.w, t.h = rec.data, rec.sets(), rec.sps[0].width, rec.sps[0].height
	}
	for _, set := range t.sets {
		if t.ls == 1 && len(set) > 255 {
			goto again // does not fit the length field
		}
	}
	return t
}

func (r *relay) audioTrack() *relayTrack {
	c := r.c
	t := &relayTrack{media: utils.AVMediaTypeAudio}
	t.id = pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdAAC, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdMP3, utils.AVCodecIdADPCMG726})
	t.prof, t.rate, t.chans = c.N(4), c.N(13), c.Range(1, 7)
	t.asc = []byte{byte(t.prof+1)<<3 | byte(t.rate>>1), byte(t.rate&1)<<7 | byte(t.chans)<<3}
	return t
}

// put writes a block the way a container demuxer does.
func (s *relayStage) put(slot int, m utils.AVMediaType, data []byte) []byte {
	for len(data) > 0 {
		n := len(data)
		if s.r.c.N(4) == 0 {
			n = s.r.c.Range(1, n)
		}
		if _, err := s.pipe.Write(data[:n], slot, m); err != nil {
			s.r.c.Failf("write rejected: %v", err)
		}
		data = data[n:]
	}
	b, err := s.pipe.Fetch(slot)
	if err != nil {
		s.r.c.Failf("fetch failed: %v", err)
	}
	return b
}

// slot finds the slot of an incoming stream, seeing it for the first time
// makes a track.
func (s *relayStage) slot(index, orig int) int {
	n := s.dm.FindBufferIndex(256 + 16*index)
	if _, ok := s.src[n]; !ok {
		s.src[n] = orig
		s.order = append(s.order, orig)
	}
	return n
}

func (s *relayStage) maybeComplete() {
	c := s.r.c
	if s.done == 0 && len(s.order) == s.expect && c.N(8) == 0 {
		s.dm.ProbeComplete()
	}
}

func (s *relayStage) annexB() bool { return s.name != "flv" }

// header gives the stage the configuration of a stream.
func (s *relayStage) header(index, orig int, id utils.AVCodecID, data []byte) {
	video := s.r.tracks[orig].media == utils.AVMediaTypeVideo
	n := s.slot(index, orig)
	var t av.Track
	if video {
		t = s.dm.OnNewVideoTrack(n, id, s.dm.GetTimebase(), s.put(n, utils.AVMediaTypeVideo, data))
	} else {
		t = s.dm.OnNewAudioTrack(n, id, s.dm.GetTimebase(), s.put(n, utils.AVMediaTypeAudio, data), av.AudioConfig{})
	}
	if t == nil {
		s.r.c.Failf("stage %d (%s) rejects the configuration %s of track %d (%v)", s.no, s.name, hexs(data), orig, id)
	}
	s.r.c.Ev("header_relayed", 1)
}

func (s *relayStage) OnTrackNotFind() { s.done++ }

func (s *relayStage) OnNewTrack(t av.Track) {
	c, st := s.r.c, t.GetStream()
	if st.Index != len(s.st) || st.Index >= len(s.order) {
		c.Failf("stage %d (%s) announces track %d after %d, %d streams went in", s.no, s.name, st.Index, len(s.st), len(s.order))
	}
	orig := s.order[st.Index]
	tr := s.r.tracks[orig]
	s.st = append(s.st, st)
	what := fmt.Sprintf("track %d (%v) after %s", orig, tr.id, s.path())
	if st.MediaType != tr.media || st.CodecID != tr.id {
		c.Failf("%s is announced as %v %v", what, st.MediaType, st.CodecID)
	}
	if tr.media == utils.AVMediaTypeVideo {
		cd := st.CodecParameters
		if cd == nil || cd.Width() != tr.w || cd.Height() != tr.h {
			c.Failf("%s: the picture size %dx%d was lost", what, tr.w, tr.h)
		}
		if got := splitAnnexB(cd.AnnexBExtraData()); !sameNals(got, tr.sets) {
			c.Failf("%s has parameter sets %s, they were %s", what, describeNals(got), describeNals(tr.sets))
		}
	} else if tr.id == utils.AVCodecIdAAC {
		if !bytes.Equal(st.Data, tr.asc) || st.SampleRate != aacRates[tr.rate] || st.Channels != aacChans[tr.chans] || st.HasADTSHeader != s.annexB() {
			c.Failf("%s is announced with configuration %x, %d Hz, %d channels, ADTS %v; the stream's is %x, %d Hz, %d channels", what, st.Data, st.SampleRate, st.Channels, st.HasADTSHeader, tr.asc, aacRates[tr.rate], aacChans[tr.chans])
		}
	}
	c.Ev("track_relayed", 1)
	if s.next == nil {
		return
	}
	s.next.expect = 1 << 30 // until all are announced
	if !s.next.annexB() {
		if tr.media == utils.AVMediaTypeVideo {
			s.next.header(st.Index, orig, st.CodecID, clone(st.CodecParameters.MP4ExtraData()))
		} else if tr.id == utils.AVCodecIdAAC {
			s.next.header(st.Index, orig, st.CodecID, clone(st.Data))
		}
	} else if tr.media == utils.AVMediaTypeVideo && c.N(4) == 0 {
		s.next.header(st.Index, orig, st.CodecID, clone(st.CodecParameters.AnnexBExtraData()))
	}
}

func (s *relayStage) OnTrackComplete() {
	s.done++
	if len(s.st) != len(s.order) {
		s.r.c.Failf("stage %d (%s) announces %d tracks, %d streams went in", s.no, s.name, len(s.st), len(s.order))
	}
	if s.next != nil {
		s.next.expect = len(s.st)
		s.next.maybeComplete()
	}
}

func (s *relayStage) OnPacket(p *av.AVPacket) {
	if s.free {
		s.relay(p)
		return
	}
	s.late = append(s.late, p)
	for len(s.late) > s.lag {
		s.releaseLate()
	}
}

func (s *relayStage) releaseLate() {
	p := s.late[0]
	s.late = s.late[1:]
	s.relay(p)
	n := p.BufferIndex
	s.dm.DiscardHeadPacket(n)
	av.FreePacket(p)
}

func (s *relayStage) path() (l string) {
	for i := 0; i <= s.no; i++ {
		l += s.r.stages[i].name + ">"
	}
	return l[:len(l)-1]
}

// relay gives a delivered packet to the next stage.
func (s *relayStage) relay(p *av.AVPacket) {
	c := s.r.c
	if p.Index < 0 || p.Index >= len(s.st) {
		c.Failf("%s: a packet of track %d, %d were announced", s.path(), p.Index, len(s.st))
	}
	orig := s.order[p.Index]
	if s.src[p.BufferIndex] != orig {
		c.Failf("%s: a packet of track %d sits in slot %d, which is track %d's", s.path(), orig, p.BufferIndex, s.src[p.BufferIndex])
	}
	if p.Timebase != s.dm.GetTimebase() {
		c.Failf("%s: packet with timebase %d", s.path(), p.Timebase)
	}
	c.Tick()
	st, tr := s.st[p.Index], s.r.tracks[orig]
	if s.next == nil {
		s.keep(orig, st, p)
		return
	}
	x := s.next
	tb := x.dm.GetTimebase()
	dts, pts := p.ConvertDts(tb), p.ConvertPts(tb)
	n := x.slot(p.Index, orig)
	if tr.media != utils.AVMediaTypeVideo {
		data := p.Data
		if tr.id == utils.AVCodecIdAAC {
			data = s.rawAAC(st, p.Data)
			if x.annexB() {
				h := make([]byte, 7+len(data))
				utils.SetADtsHeader(h, c.N(2), tr.prof, utils.GetSampleRateIndex(st.SampleRate), tr.chans, len(h))
				copy(h[7:], data)
				data = h
			}
		}
		x.dm.OnAudioPacket(n, p.CodecID, x.put(n, utils.AVMediaTypeAudio, data), dts)
	} else if x.annexB() {
		data := av.AVCCPacket2AnnexB(st, p)
		if c.N(3) == 0 {
			if again := av.AVCCPacket2AnnexB(st, p); !bytes.Equal(again, data) {
				c.Failf("%s: the second conversion differs", s.path())
			}
		}
		key := av.IsKeyFrame(p.CodecID, data)
		x.dm.OnVideoPacket(n, p.CodecID, x.put(n, utils.AVMediaTypeVideo, data), key, dts, pts, av.PacketTypeAnnexB)
	} else {
		x.dm.OnVideoPacket(n, p.CodecID, x.put(n, utils.AVMediaTypeVideo, av.AnnexBPacket2AVCC(p)), p.Key, dts, pts, av.PacketTypeAVCC)
	}
	c.Ev("packet_relayed", 1)
	x.maybeComplete()
}

func (s *relayStage) rawAAC(st *av.AVStream, data []byte) []byte {
	if !st.HasADTSHeader {
		return data
	}
	h, err := utils.ReadADtsFixedHeader(data)
	if err != nil {
		s.r.c.Failf("%s: no ADTS header in %s: %v", s.path(), hexs(data), err)
	}
	if h.FrameLength() != len(data) {
		s.r.c.Failf("%s: an ADTS frame of %d bytes says %d", s.path(), len(data), h.FrameLength())
	}
	skip := 7
	if h.ProtectionAbsent() == 0 {
		skip = 9
	}
	return data[skip:]
}

// keep records what the last stage delivers.
func (s *relayStage) keep(orig int, st *av.AVStream, p *av.AVPacket) {
	c, tr := s.r.c, s.r.tracks[orig]
	o := relayOut{p: relayPkt{dts: p.Dts, pts: p.Pts, key: p.Key}, du: p.Duration}
	if tr.media == utils.AVMediaTypeVideo {
		if s.annexB() {
			o.p.nals = clone2(splitAnnexB(p.Data))
		} else {
			ls := 4
			switch cd := st.CodecParameters.(type) {
			case *av.AVCCodecData:
				ls = int(cd.MP4ExtraData()[4]&3) + 1
			case *av.HEVCCodecData:
				ls = int(cd.MP4ExtraData()[21]&3) + 1
			}
			l, ok := splitLength(p.Data, ls)
			if !ok {
				c.Failf("%s: packet %d of track %d is not made of %d-byte lengths and units: %s", s.path(), len(s.out[orig]), orig, ls, hexs(p.Data))
			}
			o.p.nals = l
		}
		for i, n := range o.p.nals {
			o.p.nals[i] = clone(n)
		}
	} else {
		o.p.payload = clone(p.Data)
		if tr.id == utils.AVCodecIdAAC {
			o.p.payload = clone(s.rawAAC(st, p.Data))
		}
	}
	s.out[orig] = append(s.out[orig], o)
}

// feed puts one generated packet of a track into the first stage.
func (r *relay) feed(i int) {
	c, t, s := r.c, r.tracks[i], r.stages[0]
	p := relayPkt{dts: t.ts, pts: t.ts}
	first := len(t.pkts) == 0
	t.ts += t.step + int64(c.N(int(t.step)/4+1))
	if c.N(15) == 0 {
		t.ts -= t.step
	}
	if t.media != utils.AVMediaTypeVideo {
		p.payload = c.Bytes(c.Range(1, 200))
		if c.P(1, 40) {
			p.payload = c.Bytes(c.Range(1, 8000))
		}
		data := p.payload
		if t.id == utils.AVCodecIdAAC {
			if s.annexB() {
				data = adtsFrame(c.Rng, t.prof, t.rate, t.chans, p.payload)
			} else if first {
				s.header(i, i, t.id, t.asc)
			}
		}
		n := s.slot(i, i)
		b := s.put(n, t.media, data)
		t.pkts = append(t.pkts, p)
		s.dm.OnAudioPacket(n, t.id, b, p.dts)
		s.maybeComplete()
		return
	}
	p.key = first || c.N(5) == 0
	p.pts += int64(c.N(3)) * t.step
	mk, kt, nt, sei := avcNal, []int{5}, []int{1}, 6
	if t.hev {
		mk, kt, nt, sei = hevcNal, []int{19, 20, 21, 16}, []int{0, 1, 8}, 39
	}
	if c.N(6) == 0 {
		p.nals = append(p.nals, mk(c.Rng, map[bool]int{false: 9, true: 35}[t.hev], 2))
	}
	if p.key && (s.annexB() && first || c.N(3) == 0) {
		p.nals = append(p.nals, shuffled(c.Rng, t.sets)...)
	} else if p.key && s.annexB() && c.N(8) != 0 {
		p.nals = append(p.nals, shuffled(c.Rng, t.sets)...)
	}
	if c.N(6) == 0 {
		p.nals = append(p.nals, mk(c.Rng, sei, c.Range(3, 30)))
	}
	typ := pick(c.Rng, nt)
	if p.key {
		typ = pick(c.Rng, kt)
	}
	for k := c.Range(1, 4); k > 0; k-- {
		size := c.Range(3, 120)
		if t.ls > 1 && c.P(1, 30) {
			size = c.Range(200, 20000)
		}
		p.nals = append(p.nals, mk(c.Rng, typ, size))
	}
	var data []byte
	pt := av.PacketTypeAnnexB
	if s.annexB() {
		data = annexB(c.Rng, p.nals)
	} else {
		data, pt = lengthPrefixed(p.nals, t.ls), av.PacketTypeAVCC
		if first {
			s.header(i, i, t.id, t.rec)
		}
	}
	n := s.slot(i, i)
	b := s.put(n, t.media, data)
	t.pkts = append(t.pkts, p)
	s.dm.OnVideoPacket(n, t.id, b, p.key, p.dts, p.pts, pt)
	s.maybeComplete()
}

// finish completes the stages one after the other.
func (r *relay) finish() {
	for _, s := range r.stages {
		s.dm.ProbeComplete()
		for len(s.late) > 0 {
			s.releaseLate()
		}
		if s.done != 1 {
			r.c.Failf("%s: completion was reported %d times", s.path(), s.done)
		}
	}
}

// picture is a unit list without what a relay may add or drop: parameter sets
// and H.264 SEI.
func (t *relayTrack) picture(nals [][]byte) (out [][]byte) {
	for _, n := range nals {
		if isSet(n, t.hev) || !t.hev && n[0]&0x1f == 6 {
			continue
		}
		out = append(out, n)
	}
	return
}

func (r *relay) judge() {
	c := r.c
	last := r.stages[len(r.stages)-1]
	src := r.stages[0].dm.GetTimebase()
	dst := last.dm.GetTimebase()
	lossy := int64(0)
	for i := 1; i < len(r.stages); i++ {
		if r.stages[i].dm.GetTimebase() < r.stages[i-1].dm.GetTimebase() {
			lossy++
		}
	}
	sig := []int{len(r.tracks)}
	for i, t := range r.tracks {
		got := last.out[i]
		what := fmt.Sprintf("track %d (%v) after %s", i, t.id, last.path())
		if want := max(0, len(t.pkts)-len(r.stages)); len(got) != want {
			c.Failf("%s: %d packets came out of %d, every one of the %d stages keeps one", what, len(got), len(t.pkts), len(r.stages))
		}
		for k, o := range got {
			w := t.pkts[k]
			near := func(a, b int64) bool {
				// one tick of each conversion to the coarser clock
				d := a*int64(src) - b*int64(dst) // in 1/(src*dst) seconds
				lim := int64(0)
				if src != dst || lossy > 0 {
					lim = (lossy*90 + 1) * int64(src) * int64(dst) / 90000
				}
				return d <= lim && d >= -lim
			}
			if !near(o.p.dts, w.dts) || !near(o.p.pts, w.pts) {
				c.Failf("%s: packet %d has dts %d, pts %d in units of 1/%d, it went in with %d, %d of 1/%d", what, k, o.p.dts, o.p.pts, dst, w.dts, w.pts, src)
			}
			if k+1 < len(got) && o.du != got[k+1].p.dts-o.p.dts {
				c.Failf("%s: packet %d at %d has duration %d, the next one is at %d", what, k, o.p.dts, o.du, got[k+1].p.dts)
			}
			if o.p.key != w.key {
				c.Failf("%s: packet %d (units %v) is a key frame: %v, it went in as %v", what, k, nalTypes(o.p.nals, t.hev), o.p.key, w.key)
			}
			if t.media != utils.AVMediaTypeVideo {
				if !bytes.Equal(o.p.payload, w.payload) {
					c.Failf("%s: packet %d is %s, it was %s", what, k, hexs(o.p.payload), hexs(w.payload))
				}
				continue
			}
			if !sameNals(t.picture(o.p.nals), t.picture(w.nals)) {
				c.Failf("%s: packet %d is %s, it was %s", what, k, describeNals(o.p.nals), describeNals(w.nals))
			}
			var sets [][]byte
			for _, n := range o.p.nals {
				if isSet(n, t.hev) {
					sets = append(sets, n)
				}
			}
			if !w.key && len(sets) > 0 {
				c.Failf("%s: packet %d, not a key frame, was given parameter sets %s", what, k, describeNals(sets))
			}
			if w.key && (len(sets) > 0 || last.annexB() && last.no > 0) {
				// every group is complete; an AnnexB key frame has one before its picture
				for q := 0; q < len(sets); q += len(t.sets) {
					if q+len(t.sets) > len(sets) || !sameUnits(sets[q:q+len(t.sets)], t.sets) {
						c.Failf("%s: key packet %d carries parameter sets %s, the stream's are %s", what, k, describeNals(sets), describeNals(t.sets))
					}
				}
				if len(sets) == 0 {
					c.Failf("%s: key packet %d carries no parameter sets", what, k)
				}
				c.Ev("key_frame_checked", 1)
			}
			if t.hev || last.no > 0 {
				// H.265 SEI stay
				if a, b := countType(o.p.nals, 39, t.hev), countType(w.nals, 39, t.hev); t.hev && a != b {
					c.Failf("%s: packet %d has %d SEI, it had %d", what, k, a, b)
				}
			}
		}
		c.Ev("packets_arrived", len(got))
		c.Eval(1 + len(got))
		sig = append(sig, int(t.id), t.ls, len(got))
	}
	c.Distinct(hashInts(sig...) ^ hashStr(last.path()))
	c.Sample(func() string { return fmt.Sprintf("%s, %d tracks", last.path(), len(r.tracks)) })
}

func countType(nals [][]byte, typ int, hev bool) (n int) {
	for _, t := range nalTypes(nals, hev) {
		if t == typ {
			n++
		}
	}
	return
}

func (r *relay) run() {
	c := r.c
	var left []int
	for i, t := range r.tracks {
		for k := 0; k < t.want; k++ {
			left = append(left, i)
		}
	}
	for len(left) > 0 {
		k := c.N(len(left))
		i := left[k]
		left[k] = left[len(left)-1]
		left = left[:len(left)-1]
		r.feed(i)
	}
	r.finish()
	r.judge()
}

func relayRun(c *C) { newRelay(c).run() }

// relayMany runs several relays at once; they share nothing but the packet pool.
func relayMany(c *C) {
	n := c.Range(2, 6)
	var wg sync.WaitGroup
	sts := make([]*Stats, n)
	msgs := make([]string, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		seed := c.U64()
		go func(g int) {
			defer wg.Done()
			<-start
			st, msg, stack := subCase(c, seed, role{name: "relay", run: relayRun}, g)
			sts[g], msgs[g] = st, msg
			if stack != "" {
				msgs[g] += " " + repoFrames(stack)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range msgs {
		if msgs[g] != "" {
			c.Failf("one of %d relays at once: %s", n, msgs[g])
		}
		for k, v := range sts[g].Events {
			c.Ev(k, int(v))
		}
		c.Eval(int(sts[g].Evals))
	}
	c.Ev("relays_at_once", n)
}

func init() {
	register(&Prop{
		ID:   "C31",
		Rule: "chains of two to four demuxers of all containers, each feeding the next through the packing, ADTS, configuration and timebase conversions and real stream buffers, consumers that release at once or late, several relays at the same time; what the last stage announces and delivers is compared with what went into the first; distinct = distinct (chain, codecs, length sizes, packets delivered) runs",
		Need: []string{"track_relayed", "header_relayed", "packet_relayed", "packets_arrived", "key_frame_checked", "relays_at_once"},
		Families: []*Family{
			{Name: "chain", Quick: 6000, Thorough: 400000, RaceQ: 100, RaceT: 1000, Run: relayRun},
			{Name: "together", Quick: 700, Thorough: 40000, RaceQ: 400, RaceT: 6000, Run: relayMany},
		},
	})
}
