package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// The demuxer harness: a scenario generator that drives av.BaseDemuxer the way
// the container demuxers built on it do, a recording pipeline, a recording
// handler, and an executable reference model that predicts every callback.

// ------------------------------------------------------------ pipeline

// recPipe forwards to a real pipeline and keeps the balance of every stream.
type recPipe struct {
	d        *demuxRun
	under    av.DataPipeline
	blocks   map[int]int // fetched and not discarded
	backs    map[int]int // discards of the newest, since the last reset
	heads    map[int]int
	headCall int
}

func (p *recPipe) Write(data []byte, index int, mt utils.AVMediaType) (int, error) {
	return p.under.Write(data, index, mt)
}

func (p *recPipe) Fetch(index int) ([]byte, error) {
	p.blocks[index]++
	return p.under.Fetch(index)
}

func (p *recPipe) DiscardBackPacket(index int) {
	p.backs[index]++
	p.blocks[index]--
	if p.blocks[index] < 0 {
		p.d.c.Failf("discard of the newest block of slot %d, which holds none", index)
	}
	p.under.DiscardBackPacket(index)
}

func (p *recPipe) DiscardHeadPacket(index int) {
	p.heads[index]++
	p.headCall++
	p.blocks[index]--
	if p.blocks[index] < 0 {
		p.d.c.Failf("release of a block of slot %d, which holds none", index)
	}
	p.under.DiscardHeadPacket(index)
}

func (p *recPipe) PendingBlockSize(index int) int { return p.under.PendingBlockSize(index) }

// memPipe is a pipeline whose blocks are private memory that is overwritten as
// soon as it is released.
type memPipe struct {
	lazy bool // released heads keep their bytes until the next write
	gone [][]byte
	pend map[int][]byte
	blk  map[int][][]byte
}

func newMemPipe() *memPipe { return &memPipe{pend: map[int][]byte{}, blk: map[int][][]byte{}} }

func (m *memPipe) Write(data []byte, index int, _ utils.AVMediaType) (int, error) {
	for _, b := range m.gone {
		scribble(b)
	}
	m.gone = nil
	m.pend[index] = append(m.pend[index], data...)
	return len(data), nil
}

func (m *memPipe) Fetch(index int) ([]byte, error) {
	b := m.pend[index]
	m.pend[index] = nil
	m.blk[index] = append(m.blk[index], b)
	return b, nil
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xEE
	}
}

func (m *memPipe) DiscardBackPacket(index int) {
	l := m.blk[index]
	scribble(l[len(l)-1])
	m.blk[index] = l[:len(l)-1]
}

func (m *memPipe) DiscardHeadPacket(index int) {
	l := m.blk[index]
	if m.lazy {
		m.gone = append(m.gone, l[0])
	} else {
		scribble(l[0])
	}
	m.blk[index] = l[1:]
}

func (m *memPipe) PendingBlockSize(index int) int { return len(m.pend[index]) }

// ------------------------------------------------------------- reference

type mPacket struct {
	track    int
	slot     int
	video    bool
	id       utils.AVCodecID
	data     []byte
	dts, pts int64
	dur      int64
	key      bool
	seq      int
}

type mTrack struct {
	slot     int
	media    utils.AVMediaType
	id       utils.AVCodecID
	tb       int
	extra    []byte   // exact bytes, when known
	sets     [][]byte // parameter sets, video
	w, h     int
	rate     int
	channels int
	adts     bool
	mono     bool
	annRate  int // as announced
	annBits  int
	parked   []*mPacket
	newest   *mPacket
	seen     int
}

type event struct {
	kind string // notfound, track, complete, packet
	idx  int
	pkt  *seenPacket
}

type seenPacket struct {
	p        *av.AVPacket
	data     []byte // copy at delivery
	live     []byte // the slice delivered
	dts, pts int64
	dur      int64
	key      bool
	track    int
	slot     int
	tb       int
	media    utils.AVMediaType
	id       utils.AVCodecID
	pt       av.PacketType
	want     *mPacket
	released bool
}

// demuxOpt selects what a scenario emphasises.
type demuxOpt struct {
	name       string
	steps      int
	real       bool // real stream buffers instead of private memory
	maxData    int
	autoFree   bool
	backwards  bool // decode times may go back
	probe      int
	bad        int // chance in 20 of a broken input
	forced     int // chance in 200 of a forced completion
	tentative  int // chance in 60 of a tentative completion
	reenter    bool
	noDistinct bool
	pcm        bool // mostly PCM and G.726
	boundary   bool // durations that land on the threshold
	patient    bool // short steps, so that many packets are parked
}

type slotGen struct {
	marker   int
	slot     int
	media    utils.AVMediaType
	id       utils.AVCodecID
	rate     int // PCM, G.726
	perMs    int
	channels int
	stepMs   int
	hev      bool
	header   bool // created from a header
	headers  int
	dts      int64
	avcc     bool
	sets     [][]byte
	w, h     int
	record   []byte
	asc      []byte
	adts     []byte
	ascRate  int
	ascChan  int
	other    bool
	ls       int
	known    bool // slot resolved

	asm    []byte // block being assembled
	asmPos int
	asmDo  func(data []byte)
}

type demuxRun struct {
	c    *C
	o    demuxOpt
	dm   *av.BaseDemuxer
	pipe *recPipe

	tracks    []*mTrack
	bySlot    map[int]*mTrack
	completed bool
	seq       int
	prep      []*mPacket // accepted video, in order
	prepSeen  int

	events []event // observed
	done   int     // events already judged
	held   []*seenPacket
	live   map[int]int // accepted and unreleased packets per slot
	slots  []*slotGen
	ann    int
	deliv  int
	rej    int
	inCall bool

	front    *frontHandler // the handler set last
	prepGen  int           // the preprocess callback set last
	announce []*announced

	dummyAt, dummies int // streams still to be, already registered of which nothing arrives
}

func c1(c *C, n int) bool { return c.N(n) == 0 }

func (d *demuxRun) OnNewTrack(t av.Track) {
	s := t.GetStream()
	d.c.T("  -> OnNewTrack index %d %v %v", s.Index, s.MediaType, s.CodecID)
	d.events = append(d.events, event{kind: "track", idx: s.Index})
	d.judgeTrack(t)
	d.reenter()
}

func (d *demuxRun) OnTrackComplete() {
	d.c.T("  -> OnTrackComplete")
	d.events = append(d.events, event{kind: "complete"})
	d.reenter()
}

func (d *demuxRun) OnTrackNotFind() {
	d.c.T("  -> OnTrackNotFind")
	d.events = append(d.events, event{kind: "notfound"})
	d.reenter()
}

func (d *demuxRun) OnPacket(p *av.AVPacket) {
	d.c.T("  -> OnPacket track %d dts %d pts %d duration %d, %d bytes", p.Index, p.Dts, p.Pts, p.Duration, len(p.Data))
	sp := &seenPacket{p: p, data: clone(p.Data), live: p.Data, dts: p.Dts, pts: p.Pts, dur: p.Duration, key: p.Key, track: p.Index, slot: p.BufferIndex, tb: p.Timebase, media: p.MediaType, id: p.CodecID, pt: p.PacketType}
	d.events = append(d.events, event{kind: "packet", idx: p.Index, pkt: sp})
	d.reenter()
}

// frontHandler passes the callbacks on; only the one set last may be called.
type frontHandler struct {
	d *demuxRun
	n int
}

func (f *frontHandler) check(what string) {
	if f.d.front != f {
		f.d.c.Failf("%s is called on handler %d, handler %d was set since", what, f.n, f.d.front.n)
	}
}

func (f *frontHandler) OnNewTrack(t av.Track)   { f.check("OnNewTrack"); f.d.OnNewTrack(t) }
func (f *frontHandler) OnTrackComplete()        { f.check("OnTrackComplete"); f.d.OnTrackComplete() }
func (f *frontHandler) OnTrackNotFind()         { f.check("OnTrackNotFind"); f.d.OnTrackNotFind() }
func (f *frontHandler) OnPacket(p *av.AVPacket) { f.check("OnPacket"); f.d.OnPacket(p) }

func (d *demuxRun) setHandler() {
	n := 0
	if d.front != nil {
		n = d.front.n + 1
	}
	d.front = &frontHandler{d, n}
	d.dm.SetHandler(d.front)
}

func (d *demuxRun) setPreprocess() {
	d.prepGen++
	gen := d.prepGen
	d.dm.SetOnPreprocessPacketHandler(func(p *av.AVPacket) {
		if gen != d.prepGen {
			d.c.Failf("a packet (track %d dts %d) was passed to preprocess callback %d, callback %d was set since", p.Index, p.Dts, gen, d.prepGen)
		}
		d.onPreprocess(p)
	})
}

// announced is what a track looked like when it was announced.
type announced struct {
	track  av.Track
	stream *av.AVStream
	copy   av.AVStream
	data   []byte
	params []byte
	w, h   int
}

func paramBytes(cp av.CodecData) []byte {
	var b []byte
	for _, l := range [][][]byte{cp.SPS(), cp.PPS(), {cp.AnnexBExtraData()}, {cp.MP4ExtraData()}} {
		for _, x := range l {
			b = append(append(b, byte(len(x)>>8), byte(len(x))), x...)
		}
		b = append(b, 0xff)
	}
	return b
}

func hasParams(st *av.AVStream) bool { return st.CodecParameters != nil }

// checkAnnounced: an announced track keeps what it was announced with.
func (d *demuxRun) checkAnnounced() {
	for _, a := range d.announce {
		st := a.track.GetStream()
		if st != a.stream {
			d.c.Failf("announced track %d has another stream now", a.copy.Index)
		}
		o := a.copy
		if st.MediaType != o.MediaType || st.Index != o.Index || st.CodecID != o.CodecID || st.Timebase != o.Timebase || st.AudioConfig != o.AudioConfig || !bytes.Equal(st.Data, a.data) {
			d.c.Failf("announced track %d changed: %+v, announced %+v", o.Index, *st, o)
		}
		if hasParams(st) && a.params != nil {
			cp := st.CodecParameters
			if cp.Width() != a.w || cp.Height() != a.h || !bytes.Equal(paramBytes(cp), a.params) {
				d.c.Failf("the codec parameters of announced track %d changed: %dx%d %s, announced %dx%d %s", o.Index, cp.Width(), cp.Height(), hexs(paramBytes(cp)), a.w, a.h, hexs(a.params))
			}
		}
		d.c.Ev("announced_unchanged", 1)
	}
}

// settings changes what a user may set at any time.
func (d *demuxRun) settings() {
	c := d.c
	switch c.N(5) {
	case 4:
		// blocks are given back in order, so the consumer must have caught up
		if d.o.backwards || len(d.held) > 0 {
			return
		}
		d.o.autoFree = !d.o.autoFree
		c.T("AutoFree = %v", d.o.autoFree)
		d.dm.AutoFree = d.o.autoFree
		c.Ev("auto_free_changed", 1)
	case 0:
		if d.o.patient {
			return
		}
		d.o.probe = pick(c.Rng, []int{0, 1, 100, 199, 200, 201, 300, 500, 1000, 2000, 3000, 3000, -5})
		c.T("SetProbeDuration(%d)", d.o.probe)
		d.dm.SetProbeDuration(d.o.probe)
		d.expectNone("SetProbeDuration")
		d.afterCall("SetProbeDuration")
		c.Ev("probe_duration_changed", 1)
	case 1:
		if d.prepSeen >= 0 && c.N(4) == 0 {
			c.T("SetOnPreprocessPacketHandler(nil)")
			d.prepGen++
			d.dm.SetOnPreprocessPacketHandler(nil)
			d.prepSeen = -1
			return
		}
		c.T("SetOnPreprocessPacketHandler")
		d.setPreprocess()
		d.prepSeen = len(d.prep)
		c.Ev("preprocess_replaced", 1)
	case 2:
		c.T("SetHandler")
		d.setHandler()
		c.Ev("handler_replaced", 1)
	case 3:
		if d.completed {
			d.lateTrack()
		}
	}
}

// lateTrack: nothing is registered once probing has ended.
func (d *demuxRun) lateTrack() {
	c := d.c
	id := pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdAAC, utils.AVCodecIdH264, utils.AVCodecIdOPUS})
	m := utils.AVMediaTypeAudio
	if id == utils.AVCodecIdH264 {
		m = utils.AVMediaTypeVideo
	}
	c.T("AddTrack(%v %v) after the end of probing", m, id)
	n := d.dm.Tracks.Size()
	if d.dm.AddTrack(&av.SimpleTrack{Stream: &av.AVStream{MediaType: m, CodecID: id, Index: n}}) {
		c.Failf("a track was added after the end of probing")
	}
	if d.dm.Tracks.Size() != n {
		c.Failf("the number of tracks went from %d to %d after the end of probing", n, d.dm.Tracks.Size())
	}
	c.Ev("late_track", 1)
}

// reenter: requests made from inside a callback change nothing.
func (d *demuxRun) reenter() {
	if d.o.reenter && d.c.N(8) == 0 {
		d.lateTrack()
		return
	}
	if d.o.reenter && d.c.N(3) == 0 {
		if d.c.Bool() {
			d.dm.ProbeComplete()
		} else {
			d.dm.TryCompleteProbe()
		}
		d.c.Ev("request_from_callback", 1)
	}
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var aacChans = []int{0, 1, 2, 3, 4, 5, 6, 8}

// adtsFrame writes an ADTS header by the standard.
func adtsFrame(r *Rng, profile, rateIdx, chans int, payload []byte) []byte {
	var w bitw
	w.u(12, 0xfff)
	w.u(1, uint64(r.N(2)))
	w.u(2, 0)
	crc := 0
	if r.N(4) == 0 {
		crc = 2 // protected: a checksum behind the header
	}
	w.u(1, b2u(crc == 0))
	w.u(2, uint64(profile))
	w.u(4, uint64(rateIdx))
	w.u(1, 0)
	w.u(3, uint64(chans))
	w.u(4, 0)
	w.u(13, uint64(7+crc+len(payload)))
	w.u(11, 0x7ff)
	w.u(2, 0)
	return append(append(w.b, r.Bytes(crc)...), payload...)
}

func newDemuxRun(c *C, o demuxOpt) *demuxRun {
	d := &demuxRun{c: c, o: o, bySlot: map[int]*mTrack{}, live: map[int]int{}}
	d.pipe = &recPipe{d: d, blocks: map[int]int{}, backs: map[int]int{}, heads: map[int]int{}}
	if o.real {
		d.pipe.under = &av.StreamsBuffer{}
	} else {
		mp := newMemPipe()
		// packets parked with decreasing decode times are released in another
		// order than their blocks; nothing is written in between
		mp.lazy = o.backwards && o.autoFree
		d.pipe.under = mp
	}
	d.dm = &av.BaseDemuxer{Name: o.name, DataPipeline: d.pipe, AutoFree: o.autoFree}
	d.setHandler()
	d.dm.SetProbeDuration(o.probe)
	if c.N(6) != 0 {
		d.setPreprocess()
		d.prepSeen = 0
	} else {
		d.prepSeen = -1
	}
	return d
}

func (d *demuxRun) onPreprocess(p *av.AVPacket) {
	if d.prepSeen >= len(d.prep) {
		d.c.Failf("the preprocess callback saw a packet (track %d dts %d) that was not an accepted video packet", p.Index, p.Dts)
	}
	w := d.prep[d.prepSeen]
	if p.Dts != w.dts || p.Pts != w.pts || p.Key != w.key || p.Index != w.track || !bytes.Equal(p.Data, w.data) || p.MediaType != utils.AVMediaTypeVideo {
		d.c.Failf("the preprocess callback saw track %d dts %d (%d bytes), the packet accepted is track %d dts %d (%d bytes)", p.Index, p.Dts, len(p.Data), w.track, w.dts, len(w.data))
	}
	for _, e := range d.events {
		if e.kind == "packet" && e.pkt.p == p && !e.pkt.released && !d.o.autoFree {
			d.c.Failf("preprocessing of a packet (dts %d) that was already delivered", p.Dts)
		}
	}
	d.prepSeen++
	d.c.Ev("preprocessed", 1)
}

func (d *demuxRun) containerTB() int {
	if d.o.name == "ps" || d.o.name == "ts" {
		return 90000
	}
	return 1000
}

func (d *demuxRun) avcc() bool { return d.o.name == "flv" }

// makeSlots invents the elementary streams of a scenario.
func (d *demuxRun) makeSlots() {
	c := d.c
	nv, na := c.Range(0, 1), c.Range(0, 1)
	if d.o.name == "ts" || d.o.name == "ps" {
		nv, na = c.Range(0, 2), c.Range(0, 3)
	}
	if d.o.pcm {
		na = c.Range(1, 3)
		if d.o.name == "flv" || d.o.name == "jt1078" {
			na = 1
		}
	}
	if nv+na == 0 && c.N(10) != 0 {
		nv, na = 1, 1
	}
	base := int64(0)
	switch c.N(8) {
	case 0, 1:
		base = int64(c.N(1 << 20))
	case 2, 3:
		base = 1<<33 - int64(c.N(200000))
	case 4: // counted from an offset, edit lists, wrapped clocks
		base = -int64(c.N(pick(c.Rng, []int{500, 200000, 1 << 34})))
		c.Ev("negative_time", 1)
	}
	var kinds []utils.AVMediaType
	for i := 0; i < nv; i++ {
		kinds = append(kinds, utils.AVMediaTypeVideo)
	}
	for i := 0; i < na; i++ {
		kinds = append(kinds, utils.AVMediaTypeAudio)
	}
	for i := len(kinds) - 1; i > 0; i-- {
		j := c.N(i + 1)
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	if (d.o.name == "ts" || d.o.name == "ps") && c.P(1, 10) {
		d.dummyAt = pick(c.Rng, []int{1, 3, 7, 8, 15})
		if !d.o.real {
			d.dummyAt = pick(c.Rng, []int{1, 15, 31, 63, 64, 127, 128, 255, 256, 300})
		}
	}
	used := map[utils.AVCodecID]bool{}
	scheme, first := c.N(10), c.Range(1, 8191)
	for i, m := range kinds {
		s := &slotGen{media: m, dts: base + int64(c.N(3))*int64(d.containerTB()/100)}
		switch scheme { // identifiers of the container: program ids, stream ids, SSRCs
		case 0:
			s.marker = 4096*(i+1) + first%4096
		case 1:
			s.marker = first + i<<16
		case 2:
			s.marker = first * (1 - i%2*2) * (i/2 + 1)
		case 3:
			s.marker = first + i<<32
		case 4:
			s.marker = (first + i/2*8192) ^ -(i & 1)
		default:
			s.marker = 100 + i*7 + c.N(5)
		}
		if d.o.name == "flv" || d.o.name == "jt1078" {
			s.marker = int(m)
		}
		s.avcc = d.avcc()
		if m == utils.AVMediaTypeVideo {
			s.hev = c.Bool()
			s.id = utils.AVCodecIdH264
			if s.hev {
				s.id = utils.AVCodecIdH265
			}
			s.header = s.avcc || c.N(6) == 0
			if s.header && c.N(8) == 0 {
				// one stream of such a codec at most: a second one without
				// configuration of its own may borrow the first one's
				id := pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdMPEG4, utils.AVCodecIdVP8})
				if !used[id] {
					s.other, s.id, used[id] = true, id, true
				}
			}
			s.newParams(c)
			s.stepMs = pick(c.Rng, []int{16, 20, 33, 40, 40, 66, 100})
		} else {
			s.id = pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMMULAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726, utils.AVCodecIdMP3})
			if d.o.pcm {
				s.id = pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdPCMS16LE, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726, utils.AVCodecIdADPCMG726, utils.AVCodecIdAAC})
			}
			s.header = d.o.name == "flv" || c.N(5) == 0
			s.channels = c.Range(1, 2)
			s.stepMs = pick(c.Rng, []int{10, 20, 20, 40, 60})
			switch s.id {
			case utils.AVCodecIdPCMS16LE:
				s.rate = pick(c.Rng, []int{8000, 16000, 32000, 48000})
				s.perMs = s.rate * 2 / 1000
				s.channels = 1
			case utils.AVCodecIdADPCMG726:
				s.rate = pick(c.Rng, []int{16000, 24000, 32000, 40000})
				s.perMs = s.rate / 8 / 1000
				s.channels = 1
			case utils.AVCodecIdAAC:
				ri, ch, prof := c.N(13), c.Range(1, 7), c.N(4)
				s.ascRate, s.ascChan = aacRates[ri], aacChans[ch]
				s.asc = []byte{byte(prof+1)<<3 | byte(ri>>1), byte(ri&1)<<7 | byte(ch)<<3}
				s.adts = adtsFrame(c.Rng, prof, ri, ch, nil)
			}
		}
		d.slots = append(d.slots, s)
	}
}

// newParams gives the slot a new set of parameter sets.
func (s *slotGen) newParams(c *C) {
	o := avcOpt{plain: true, small: true}
	s.ls = 4
	switch {
	case s.other:
		s.record = c.Bytes(c.N(20))
	case s.hev && s.avcc:
		s.ls = c.Range(3, 4)
		r := genHEVCRecord(c.Rng, o, 1, 1, c.Range(1, 2), 40, s.ls)
		s.record, s.w, s.h = r.data, r.first.width, r.first.height
		s.sets = append(append(append([][]byte{}, r.vps...), r.sps...), r.pps...)
	case s.avcc:
		r := genAVCRecord(c.Rng, o, 1, c.Range(1, 2), 40, 4)
		s.record, s.w, s.h = r.data, r.sps[0].width, r.sps[0].height
		s.sets = r.sets()
	case s.hev:
		sps := genHEVCSPS(c.Rng, o)
		s.w, s.h = sps.width, sps.height
		s.sets = [][]byte{genHEVCSet(c.Rng, 32, c.Range(4, 20)), sps.nal, genHEVCSet(c.Rng, 34, c.Range(3, 20))}
		s.record = annexB(c.Rng, shuffled(c.Rng, s.sets))
	default:
		sps := genAVCSPS(c.Rng, o)
		s.w, s.h = sps.width, sps.height
		s.sets = [][]byte{sps.nal, genAVCPPS(c.Rng, c.Range(3, 20))}
		s.record = annexB(c.Rng, shuffled(c.Rng, s.sets))
	}
}

// ---------------------------------------------------------------- judging

func (d *demuxRun) judgeTrack(t av.Track) {
	c := d.c
	st := t.GetStream()
	if st.Index < 0 || st.Index >= len(d.tracks) {
		return // judged with the event order
	}
	m := d.tracks[st.Index]
	a := &announced{track: t, stream: st, copy: *st, data: clone(st.Data)}
	if hasParams(st) && len(m.sets) > 0 {
		a.w, a.h, a.params = st.CodecParameters.Width(), st.CodecParameters.Height(), paramBytes(st.CodecParameters)
	}
	d.announce = append(d.announce, a)
	if st.MediaType != m.media || st.CodecID != m.id {
		c.Failf("track %d is announced as %v %v, it is %v %v", st.Index, st.MediaType, st.CodecID, m.media, m.id)
	}
	if st.Timebase != m.tb {
		c.Failf("track %d is announced with timebase %d, the container's is %d", st.Index, st.Timebase, m.tb)
	}
	if d.dm.Tracks.Get(st.Index).GetStream() != st {
		c.Failf("the announced track %d is not the registered one", st.Index)
	}
	if m.media == utils.AVMediaTypeVideo {
		if len(m.sets) > 0 {
			cp := st.CodecParameters
			if cp == nil {
				c.Failf("track %d has no codec parameters", st.Index)
			}
			if cp.Width() != m.w || cp.Height() != m.h {
				c.Failf("track %d is announced as %dx%d, the stream is %dx%d", st.Index, cp.Width(), cp.Height(), m.w, m.h)
			}
			if got := splitAnnexB(cp.AnnexBExtraData()); !sameNals(got, m.sets) {
				c.Failf("track %d carries parameter sets %s, the stream's are %s", st.Index, describeNals(got), describeNals(m.sets))
			}
			var want [][]byte
			for _, s := range cp.SPS() {
				want = append(want, trimSC(s))
			}
			for _, s := range cp.PPS() {
				want = append(want, trimSC(s))
			}
			sp := m.sets
			if m.id == utils.AVCodecIdH265 {
				sp = sp[1:]
			}
			if !sameNals(want, sp) {
				c.Failf("track %d lists SPS and PPS %s, the stream's are %s", st.Index, describeNals(want), describeNals(sp))
			}
			if m.extra == nil && !sameUnits(splitAnnexB(st.Data), m.sets) {
				c.Failf("track %d has extra data %s, the stream's sets are %s", st.Index, hexs(st.Data), describeNals(m.sets))
			}
			c.Ev("video_track_checked", 1)
		}
	} else {
		if m.id == utils.AVCodecIdAAC {
			if st.SampleRate != m.rate || st.Channels != m.channels || st.HasADTSHeader != m.adts {
				c.Failf("AAC track %d is announced with %d Hz, %d channels, ADTS %v; the header says %d Hz, %d channels, ADTS %v", st.Index, st.SampleRate, st.Channels, st.HasADTSHeader, m.rate, m.channels, m.adts)
			}
			c.Ev("aac_track_checked", 1)
		} else {
			if st.Channels != m.channels {
				c.Failf("audio track %d is announced with %d channels, it has %d", st.Index, st.Channels, m.channels)
			}
			m.annRate, m.annBits = st.SampleRate, st.BitRate
		}
	}
	if m.extra != nil && !bytes.Equal(st.Data, m.extra) {
		c.Failf("track %d carries configuration bytes %s, the header had %s", st.Index, hexs(st.Data), hexs(m.extra))
	}
}

func trimSC(b []byte) []byte {
	if bytes.HasPrefix(b, []byte{0, 0, 0, 1}) {
		return b[4:]
	}
	if bytes.HasPrefix(b, []byte{0, 0, 1}) {
		return b[3:]
	}
	return b
}

// judgeRate: raw audio gets the rate its first packet implies, the configured
// one as long as nothing can be derived.
func (d *demuxRun) judgeRate(idx int, m *mTrack) {
	c := d.c
	if m.media != utils.AVMediaTypeAudio || m.id == utils.AVCodecIdAAC {
		return
	}
	if m.id != utils.AVCodecIdPCMS16LE && m.id != utils.AVCodecIdADPCMG726 {
		if m.annRate != m.rate {
			c.Failf("audio track %d is announced with %d Hz, it has %d", idx, m.annRate, m.rate)
		}
		return
	}
	if !m.mono || len(m.parked) < 2 {
		return
	}
	p := m.parked[0]
	num := p.dur * 1000
	if p.dur <= 0 || num%int64(m.tb) != 0 {
		return
	}
	ms := int(num / int64(m.tb))
	if m.id == utils.AVCodecIdPCMS16LE {
		if r := m.annRate; r != m.rate && r != 8000 && r != 16000 && r != 32000 && r != 48000 {
			c.Failf("PCM track %d: the first packet has %d bytes in %d ms; announced %d Hz, not a rate of PCM", idx, len(p.data), ms, r)
		}
		for _, r := range []int{8000, 16000, 32000, 48000} {
			if n := r * 2 / 1000 * ms; len(p.data) <= n && len(p.data) > n-n/10 {
				if m.annRate != r {
					c.Failf("PCM track %d: the first packet has %d bytes in %d ms, that is %d Hz; announced %d", idx, len(p.data), ms, r, m.annRate)
				}
				c.Ev("pcm_rate_checked", 1)
			}
		}
		return
	}
	if r := m.annBits; r != 0 && r != 16000 && r != 24000 && r != 32000 && r != 40000 {
		c.Failf("G.726 track %d: the first packet has %d bytes in %d ms; announced %d bit/s, not a rate of G.726", idx, len(p.data), ms, r)
	}
	for _, r := range []int{16000, 24000, 32000, 40000} {
		if len(p.data)*8*1000 == r*ms {
			if m.annBits != r {
				c.Failf("G.726 track %d: the first packet has %d bytes in %d ms, that is %d bit/s; announced %d", idx, len(p.data), ms, r, m.annBits)
			}
			c.Ev("g726_rate_checked", 1)
		}
	}
}

func (d *demuxRun) judgePacket(e event, w *mPacket) {
	c := d.c
	g := e.pkt
	g.want = w
	m := d.tracks[w.track]
	if g.track != w.track || g.slot != w.slot || g.dts != w.dts || g.pts != w.pts || g.key != w.key || g.id != w.id || g.media != m.media || g.tb != m.tb {
		c.Failf("delivered packet: track %d slot %d dts %d pts %d key %v codec %v type %v timebase %d; accepted: track %d slot %d dts %d pts %d key %v codec %v type %v timebase %d",
			g.track, g.slot, g.dts, g.pts, g.key, g.id, g.media, g.tb, w.track, w.slot, w.dts, w.pts, w.key, w.id, m.media, m.tb)
	}
	if g.dur != w.dur {
		c.Failf("packet of track %d with dts %d is delivered with duration %d, its successor comes %d later", w.track, w.dts, g.dur, w.dur)
	}
	if !bytes.Equal(g.data, w.data) {
		c.Failf("packet of track %d with dts %d: delivered %s, written %s", w.track, w.dts, hexs(g.data), hexs(w.data))
	}
	if w.video {
		want := av.PacketTypeAnnexB
		if d.avcc() {
			want = av.PacketTypeAVCC
		}
		if g.pt != want {
			c.Failf("video packet of track %d has packing %d, the container's is %d", w.track, g.pt, want)
		}
	}
	d.deliv++
	c.Ev("delivered", 1)
	if d.o.autoFree {
		g.released = true
		d.live[w.slot]--
	} else {
		d.held = append(d.held, g)
	}
}

// expectNone, expectPackets: judge the events since the last step.
func (d *demuxRun) take() []event {
	ev := d.events[d.done:]
	d.done = len(d.events)
	return ev
}

func (d *demuxRun) expectNone(op string) {
	if ev := d.take(); len(ev) != 0 {
		d.c.Failf("%s caused %d callbacks, the first is %s (index %d)", op, len(ev), ev[0].kind, ev[0].idx)
	}
}

// judgeCompletion judges the callbacks of the end of probing.
func (d *demuxRun) judgeCompletion(op string, ev []event) []event {
	c := d.c
	d.completed = true
	if len(d.tracks) == 0 {
		if len(ev) != 1 || ev[0].kind != "notfound" {
			c.Failf("%s without tracks: %d callbacks, want exactly one track-not-found", op, len(ev))
		}
		c.Ev("not_found", 1)
		return nil
	}
	n := len(d.tracks)
	if len(ev) < n+1 {
		c.Failf("%s: %d callbacks for %d tracks and completion", op, len(ev), n)
	}
	for i := 0; i < n; i++ {
		if ev[i].kind != "track" || ev[i].idx != i {
			c.Failf("%s: callback %d is %s %d, want the announcement of track %d of %d", op, i, ev[i].kind, ev[i].idx, i, n)
		}
	}
	if ev[n].kind != "complete" {
		c.Failf("%s: callback %d is %s, want track-complete", op, n, ev[n].kind)
	}
	c.Ev("announced", n)
	c.Ev("completed", 1)
	ev = ev[n+1:]
	// the parked packets, all but the newest of every track, ascending
	queues := make([][]*mPacket, n)
	total := 0
	for i, m := range d.tracks {
		d.judgeRate(i, m)
		if k := len(m.parked); k > 1 {
			q := append([]*mPacket(nil), m.parked[:k-1]...)
			sort.SliceStable(q, func(a, b int) bool { return q[a].dts < q[b].dts })
			queues[i] = q
			total += k - 1
		}
		m.parked = nil
	}
	if len(ev) < total {
		c.Failf("%s: %d of %d parked packets were released", op, len(ev), total)
	}
	var last int64
	for i := 0; i < total; i++ {
		e := ev[i]
		if e.kind != "packet" {
			c.Failf("%s: callback %s among the parked packets", op, e.kind)
		}
		if e.idx < 0 || e.idx >= n || len(queues[e.idx]) == 0 {
			c.Failf("%s: unexpected packet of track %d (dts %d) among the parked ones", op, e.idx, e.pkt.dts)
		}
		if i > 0 && e.pkt.dts < last {
			c.Failf("%s: parked packets are not released in ascending decode time: %d after %d", op, e.pkt.dts, last)
		}
		last = e.pkt.dts
		d.judgePacket(e, queues[e.idx][0])
		queues[e.idx] = queues[e.idx][1:]
	}
	c.Ev("parked_released", total)
	return ev[total:]
}

// afterCall checks what must hold after every call.
func (d *demuxRun) afterCall(op string) {
	c := d.c
	if d.dm.Tracks.Size() != len(d.tracks) {
		c.Failf("%s: the demuxer has %d tracks, expected %d", op, d.dm.Tracks.Size(), len(d.tracks))
	}
	if d.dm.Completed != d.completed {
		c.Failf("%s: probing ended: %v, expected %v", op, d.dm.Completed, d.completed)
	}
	for s := range d.pipe.blocks {
		if d.pipe.blocks[s] != d.live[s] {
			c.Failf("%s: slot %d holds %d blocks, %d accepted packets are unreleased", op, s, d.pipe.blocks[s], d.live[s])
		}
	}
	for _, h := range d.held {
		if !bytes.Equal(h.live, h.want.data) {
			c.Failf("%s changed the bytes of an unreleased packet of track %d (dts %d): %s, written %s", op, h.track, h.dts, hexs(h.live), hexs(h.want.data))
		}
		if p := h.p; p.Index != h.track || p.BufferIndex != h.slot || p.Dts != h.dts || p.Pts != h.pts || p.Duration != h.dur || p.Key != h.key || p.CodecID != h.id || len(p.Data) != len(h.live) || addr(p.Data) != addr(h.live) {
			c.Failf("%s changed an unreleased packet of track %d (dts %d): it is now track %d dts %d", op, h.track, h.dts, p.Index, p.Dts)
		}
	}
	if d.prepSeen >= 0 && d.prepSeen != len(d.prep) {
		c.Failf("%s: the preprocess callback saw %d of %d accepted video packets", op, d.prepSeen, len(d.prep))
	}
}

// spanMs compares the parked span of a track with a threshold: -1 certainly
// below, 1 certainly reached, 0 within the rounding of single durations.
func (d *demuxRun) spanMs(m *mTrack) int {
	k := len(m.parked)
	if k < 2 {
		return -1
	}
	thr := int64(d.o.probe)
	if thr < 200 {
		thr = 200
	}
	mono := true
	var sum int64
	for i := 0; i+1 < k; i++ {
		dd := m.parked[i+1].dts - m.parked[i].dts
		mono = mono && dd >= 0
		q := new(big.Int).Mul(big.NewInt(dd), big.NewInt(1000))
		sum += q.Quo(q, big.NewInt(int64(m.tb))).Int64()
	}
	span := new(big.Int).Mul(big.NewInt(m.parked[k-1].dts-m.parked[0].dts), big.NewInt(1000))
	lim := new(big.Int).Mul(big.NewInt(thr), big.NewInt(int64(m.tb)))
	if mono {
		// a duration in milliseconds is within one tick of the exact one, and
		// exact where the container counts in milliseconds
		below := new(big.Int).Set(span)
		if m.tb != 1000 {
			below.Add(below, new(big.Int).Mul(big.NewInt(int64(k-1)), big.NewInt(int64(m.tb))))
		}
		if below.Cmp(lim) < 0 {
			return -1
		}
		if sum >= thr {
			return 1
		}
		return 0
	}
	slack := new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(int64(m.tb)))
	if new(big.Int).Add(span, slack).Cmp(lim) < 0 {
		return -1
	}
	if new(big.Int).Sub(span, slack).Cmp(lim) >= 0 {
		return 1
	}
	return 0
}

// accept runs the model for an accepted packet and judges what happened.
func (d *demuxRun) accept(op string, m *mTrack, p *mPacket) {
	c := d.c
	m.seen++
	c.Ev("accepted", 1)
	if d.completed {
		prev := m.newest
		m.newest = p
		ev := d.take()
		if prev == nil {
			if len(ev) != 0 {
				c.Failf("%s, the first packet of track %d, caused callback %s", op, p.track, ev[0].kind)
			}
			return
		}
		prev.dur = p.dts - prev.dts
		if len(ev) != 1 || ev[0].kind != "packet" {
			c.Failf("%s caused %d callbacks, want the delivery of the packet before it", op, len(ev))
		}
		d.judgePacket(ev[0], prev)
		return
	}
	if m.newest != nil {
		m.newest.dur = p.dts - m.newest.dts
	}
	m.newest = p
	m.parked = append(m.parked, p)
	v := d.spanMs(m)
	ev := d.take()
	switch {
	case len(ev) == 0:
		if v > 0 {
			c.Failf("%s: %d packets of track %d span the probe duration of %d ms, but probing goes on", op, len(m.parked), p.track, d.o.probe)
		}
		c.Ev("probing_goes_on", 1)
	default:
		if v < 0 {
			c.Failf("%s: probing ended (%s) although %d packets of track %d do not span %d ms", op, ev[0].kind, len(m.parked), p.track, d.o.probe)
		}
		if rest := d.judgeCompletion(op, ev); len(rest) != 0 {
			c.Failf("%s: %d callbacks beyond the parked packets, the first is %s", op, len(rest), rest[0].kind)
		}
		c.Ev("probe_by_duration", 1)
	}
}

// ------------------------------------------------------------------ inputs

func (d *demuxRun) addTrack(m *mTrack) {
	d.tracks = append(d.tracks, m)
	d.bySlot[m.slot] = m
	d.c.Ev("track_created", 1)
}

func (d *demuxRun) hasMedia(m utils.AVMediaType) bool {
	for _, t := range d.tracks {
		if t.media == m {
			return true
		}
	}
	return false
}

// header feeds a configuration header. bad: it must not parse.
func (d *demuxRun) header(s *slotGen, data, orig []byte, bad bool, cfg av.AudioConfig) {
	c := d.c
	op := fmt.Sprintf("header for slot %d (%v %v, %d bytes, bad %v)", s.slot, s.media, s.id, len(data), bad)
	c.T("%s", op)
	mayCreate := !d.completed && !bad && d.bySlot[s.slot] == nil && (d.o.name == "ts" || !d.hasMedia(s.media))
	backs := d.pipe.backs[s.slot]
	var t av.Track
	tb := d.containerTB()
	if s.media == utils.AVMediaTypeVideo {
		t = d.dm.OnNewVideoTrack(s.slot, s.id, tb, data)
	} else {
		t = d.dm.OnNewAudioTrack(s.slot, s.id, tb, data, cfg)
	}
	if len(data) > 0 && d.pipe.backs[s.slot] != backs+1 {
		c.Failf("%s: the header's block was dropped %d times", op, d.pipe.backs[s.slot]-backs)
	}
	if (t != nil) != mayCreate {
		c.Failf("%s: created a track: %v, want %v (completed %v)", op, t != nil, mayCreate, d.completed)
	}
	if mayCreate {
		m := &mTrack{slot: s.slot, media: s.media, id: s.id, tb: tb, extra: orig}
		if len(orig) == 0 {
			m.extra = nil
		}
		if s.media == utils.AVMediaTypeVideo {
			m.sets, m.w, m.h = s.sets, s.w, s.h
			if s.other {
				m.sets = nil
			}
		} else if s.id == utils.AVCodecIdAAC {
			m.rate, m.channels, m.adts = s.ascRate, s.ascChan, cfg.HasADTSHeader
			if cfg.HasADTSHeader {
				m.rate, m.channels = cfg.SampleRate, cfg.Channels
			}
		} else {
			m.rate, m.channels, m.mono = cfg.SampleRate, cfg.Channels, cfg.Channels == 1
		}
		if t.GetStream().Index != len(d.tracks) {
			c.Failf("%s: the new track has index %d, want %d", op, t.GetStream().Index, len(d.tracks))
		}
		d.addTrack(m)
	}
	// the memory belongs to the pipeline again
	scribbleFreed(d, data)
	d.expectNone(op)
	d.afterCall(op)
	c.Ev("header", 1)
}

// scribbleFreed overwrites input memory that was handed back.
func scribbleFreed(d *demuxRun, b []byte) {
	if len(b) > 0 {
		scribble(b)
	}
}

func (d *demuxRun) video(s *slotGen, data []byte, key bool, dts, pts int64, ownSets [][]byte, ow, oh int) {
	c := d.c
	op := fmt.Sprintf("video packet for slot %d (%v, key %v, dts %d, %d bytes)", s.slot, s.id, key, dts, len(data))
	c.T("%s", op)
	m := d.bySlot[s.slot]
	if m == nil && !d.completed && !d.avcc() {
		// packing with in-band parameter sets: the packet can create its track
		sets, w, h := ownSets, ow, oh
		if !key {
			sets = nil
		}
		if sets == nil {
			for _, t := range d.tracks {
				if t.id == s.id {
					sets, w, h = t.sets, t.w, t.h
					break
				}
			}
		}
		if sets != nil {
			m = &mTrack{slot: s.slot, media: s.media, id: s.id, tb: d.containerTB(), sets: sets, w: w, h: h}
			d.addTrack(m)
			c.Ev("track_from_packet", 1)
		}
	}
	var p *mPacket
	if m != nil {
		p = d.newPacket(m, s, data, dts, pts, key)
		d.prep = append(d.prep, p)
	}
	backs := d.pipe.backs[s.slot]
	pt := av.PacketTypeAnnexB
	if d.avcc() {
		pt = av.PacketTypeAVCC
	}
	d.dm.OnVideoPacket(s.slot, s.id, data, key, dts, pts, pt)
	d.afterPacket(op, s, m, p, backs, data)
}

func (d *demuxRun) newPacket(m *mTrack, s *slotGen, data []byte, dts, pts int64, key bool) *mPacket {
	d.seq++
	d.live[s.slot]++
	idx := 0
	for i, t := range d.tracks {
		if t == m {
			idx = i
		}
	}
	return &mPacket{track: idx, slot: s.slot, video: s.media == utils.AVMediaTypeVideo, id: s.id, data: clone(data), dts: dts, pts: pts, key: key, seq: d.seq}
}

func (d *demuxRun) afterPacket(op string, s *slotGen, m *mTrack, p *mPacket, backs int, data []byte) {
	c := d.c
	dropped := d.pipe.backs[s.slot] - backs
	if p == nil {
		if dropped != 1 {
			c.Failf("%s is to be rejected, its block was dropped %d times", op, dropped)
		}
		scribbleFreed(d, data)
		d.expectNone(op)
		d.rej++
		c.Ev("rejected", 1)
	} else {
		if dropped != 0 {
			c.Failf("%s is to be accepted, but a block was dropped %d times", op, dropped)
		}
		d.accept(op, m, p)
	}
	d.afterCall(op)
}

func (d *demuxRun) audio(s *slotGen, data []byte, ts int64, bad bool, rate, chans int, asc []byte) {
	c := d.c
	op := fmt.Sprintf("audio packet for slot %d (%v, ts %d, %d bytes)", s.slot, s.id, ts, len(data))
	c.T("%s", op)
	m := d.bySlot[s.slot]
	if m == nil && !d.completed && !bad {
		m = &mTrack{slot: s.slot, media: s.media, id: s.id, tb: d.containerTB(), rate: 8000, channels: 1, mono: true}
		if s.id == utils.AVCodecIdAAC {
			m.rate, m.channels, m.adts, m.extra = rate, chans, true, asc
		}
		d.addTrack(m)
		c.Ev("track_from_packet", 1)
	}
	var p *mPacket
	if m != nil {
		p = d.newPacket(m, s, data, ts, ts, false)
	}
	backs := d.pipe.backs[s.slot]
	d.dm.OnAudioPacket(s.slot, s.id, data, ts)
	d.afterPacket(op, s, m, p, backs, data)
}

// start begins the assembly of one block of a slot; chunks are written by step.
func (d *demuxRun) start(s *slotGen) {
	c := d.c
	bad := c.N(20) < d.o.bad
	if c.N(30) == 0 {
		// the parser itself throws a block away
		d.assemble(s, c.Bytes(c.Range(1, 600)), func(b []byte) {
			backs := d.pipe.backs[s.slot]
			c.T("DiscardBackPacket(slot %d)", s.slot)
			d.dm.DiscardBackPacket(s.slot)
			if d.pipe.backs[s.slot] != backs+1 {
				c.Failf("DiscardBackPacket dropped %d blocks", d.pipe.backs[s.slot]-backs)
			}
			d.afterCall("DiscardBackPacket")
			c.Ev("parser_discard", 1)
		})
		return
	}
	if s.header && (s.headers == 0 || c.N(12) == 0) {
		s.headers++
		if s.headers > 1 && c.Bool() && s.media == utils.AVMediaTypeVideo && !s.other {
			// a changed header: a track that already exists keeps the old one
			old := *s
			s.newParams(c)
			if d.bySlot[s.slot] != nil {
				s.sets, s.w, s.h, s.ls = old.sets, old.w, old.h, old.ls
			}
		}
		rec := s.record
		cfg := av.AudioConfig{}
		if s.media == utils.AVMediaTypeAudio {
			rec = nil
			cfg = av.AudioConfig{SampleRate: 8000, SampleSize: 16, Channels: s.channels}
			if s.id == utils.AVCodecIdPCMS16LE && c.Bool() {
				cfg.SampleRate = pick(c.Rng, []int{s.rate, 0, 44100, 48000, 16000})
			}
			if s.id == utils.AVCodecIdAAC {
				rec = s.asc
				if c.N(4) == 0 {
					// configuration comes from ADTS elsewhere
					cfg = av.AudioConfig{SampleRate: s.ascRate, SampleSize: 16, Channels: s.ascChan, HasADTSHeader: true}
				}
			} else if c.N(4) == 0 {
				rec = c.Bytes(c.Range(1, 8))
			}
		}
		isBad := false
		if bad && !s.other && (s.media == utils.AVMediaTypeVideo || s.id == utils.AVCodecIdAAC && !cfg.HasADTSHeader) {
			isBad = true
			if s.media == utils.AVMediaTypeVideo {
				rec = breakHeader(c, s)
			} else {
				rec = s.asc[:1]
			}
			s.headers-- // a good one follows
		}
		if len(rec) == 0 {
			d.resolve(s)
			d.header(s, nil, nil, isBad, cfg)
			return
		}
		d.assemble(s, rec, func(data []byte) { d.header(s, data, clone(data), isBad, cfg) })
		return
	}
	// a media packet
	ms := s.stepMs
	if d.o.boundary && c.N(3) == 0 {
		ms = pick(c.Rng, []int{1, 3, 7, 99, 100, 101, 150, 199, 200, 201, 250})
	} else if c.N(4) == 0 {
		ms = c.Range(1, 120)
	}
	if c.P(1, 120) && !d.o.patient {
		ms = pick(c.Rng, []int{1000, 5000, 9999, 10000, 10001, 60000, 3600000, 95443717, 1<<31 + 100, 1<<32 + 100})
		c.Ev("long_gap", 1)
	}
	if d.o.patient {
		ms = 1 + ms%12
	}
	step := int64(ms) * int64(d.containerTB()) / 1000
	if c.N(6) == 0 && d.containerTB() == 90000 {
		step += int64(c.N(90))
	}
	if c.N(12) == 0 {
		step = 0
	}
	if d.o.backwards && c.N(7) == 0 {
		step = -step
	}
	dts := s.dts
	s.dts += step
	if s.media == utils.AVMediaTypeAudio {
		var data []byte
		rate, chans, asc := 0, 0, s.asc
		isBad := false
		switch s.id {
		case utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726:
			data = c.Bytes(max1(s.perMs * min(ms, 2000)))
			if len(data) > 6000 {
				data = data[:6000]
			}
			if s.id == utils.AVCodecIdPCMS16LE && c.N(4) == 0 {
				// the clocks of capture and timestamps differ a little
				data = data[:len(data)-len(data)*c.N(8)/100&^1]
			}
		case utils.AVCodecIdAAC:
			rate, chans = s.ascRate, s.ascChan
			if bad && d.bySlot[s.slot] == nil {
				isBad = true
				switch c.N(3) {
				case 0:
					data = s.adts[:c.Range(1, 6)]
				case 1:
					data = append([]byte{0x12, 0x34}, c.Bytes(c.Range(7, 30))...)
				default:
					data = adtsFrame(c.Rng, 1, c.Range(13, 15), 2, c.Bytes(20)) // reserved sampling index
				}
			} else if !s.header {
				data = append(clone(s.adts), c.Bytes(c.SizeSkewed(400))...)
			} else {
				data = c.Bytes(c.Range(1, 400))
				isBad = d.bySlot[s.slot] == nil
				if data[0] == 0xff {
					data[0] = 0
				}
			}
		default:
			data = c.Bytes(c.Range(1, 400))
		}
		if s.id != utils.AVCodecIdAAC && c.P(1, 40) {
			data = nil
			c.Ev("empty_packet", 1)
		}
		d.assemble(s, data, func(b []byte) { d.audio(s, b, dts, isBad, rate, chans, asc) })
		return
	}
	key := c.N(5) == 0 || (d.bySlot[s.slot] == nil && c.N(3) != 0)
	pts := dts
	if c.N(3) == 0 {
		pts += int64(c.N(200)) * int64(d.containerTB()) / 1000
		if c.N(4) == 0 {
			pts = 2*dts - pts // negative composition offset
		}
	}
	size := c.SizeSkewed(d.o.maxData) + 3
	var nals [][]byte
	own := s.sets
	ow, oh := s.w, s.h
	if s.other {
		own = nil
	}
	typ := 1
	if key {
		typ = 5
		if s.hev {
			typ = 19
		}
	}
	mk := avcNal
	if s.hev {
		mk = hevcNal
	}
	if key && !s.avcc && !s.other {
		nals = append(nals, shuffled(c.Rng, own)...)
		if bad || c.N(8) == 0 {
			// some parameter set is missing
			k := c.N(len(own))
			nals = append(append([][]byte{}, own[:k]...), own[k+1:]...)
			own = nil
		} else if c.N(6) == 0 {
			nals = append([][]byte{mk(c.Rng, map[bool]int{false: 9, true: 35}[s.hev], 2)}, nals...)
		}
	} else if !key {
		own = nil
	}
	nals = append(nals, mk(c.Rng, typ, size))
	var data []byte
	if s.avcc {
		data = lengthPrefixed(nals, s.ls)
	} else {
		data = annexB(c.Rng, nals)
	}
	if d.bySlot[s.slot] != nil && s.known && c.P(1, 60) {
		// next to nothing, for a stream that is known
		data, own = data[:c.N(4)], nil
		c.Ev("tiny_video", 1)
	}
	d.assemble(s, data, func(b []byte) { d.video(s, b, key, dts, pts, own, ow, oh) })
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// breakHeader cuts a video header so that no parser can find all its sets.
func breakHeader(c *C, s *slotGen) []byte {
	if s.avcc {
		return clone(s.record[:c.Range(1, 6)])
	}
	return annexB(c.Rng, s.sets[:len(s.sets)-1])
}

// resolve asks the demuxer for the slot of the stream.
func (d *demuxRun) resolve(s *slotGen) {
	var idx int
	if d.dummyAt > 0 && len(d.tracks) > 0 && c1(d.c, 4) {
		// streams the demuxer has seen, of which nothing ever arrives
		for ; d.dummyAt > 0; d.dummyAt-- {
			k := d.dm.FindBufferIndex(1<<40 + 1 + d.dummies)
			for _, o := range d.slots {
				if o.known && o.slot == k {
					d.c.Failf("another stream got slot %d of stream %d", k, o.marker)
				}
			}
			d.dummies++
		}
		d.c.Ev("silent_streams", 1)
	}
	if d.o.name == "flv" || d.o.name == "jt1078" {
		idx = d.dm.FindBufferIndexByMediaType(s.media)
	} else {
		idx = d.dm.FindBufferIndex(s.marker)
	}
	if idx < 0 || idx >= len(d.slots)+d.dummies {
		d.c.Failf("stream %d got slot %d, there are %d streams", s.marker, idx, len(d.slots)+d.dummies)
	}
	for _, o := range d.slots {
		if o != s && o.slot == idx && o.marker != s.marker && o.known {
			d.c.Failf("streams %d and %d share slot %d", s.marker, o.marker, idx)
		}
	}
	if s.known && s.slot != idx {
		d.c.Failf("stream %d moved from slot %d to %d", s.marker, s.slot, idx)
	}
	s.slot = idx
	s.known = true
}

func (d *demuxRun) assemble(s *slotGen, block []byte, do func([]byte)) {
	d.resolve(s)
	s.asm, s.asmPos, s.asmDo = clone(block), 0, do
	d.write(s)
}

// write writes the next chunk; the last one fetches and dispatches.
func (d *demuxRun) write(s *slotGen) {
	c := d.c
	left := len(s.asm) - s.asmPos
	n := left
	if left > 1 && c.N(3) == 0 {
		n = c.Range(1, left)
	}
	chunk := clone(s.asm[s.asmPos : s.asmPos+n])
	c.T("Write(slot %d, %d of %d bytes)", s.slot, n, len(s.asm))
	if _, err := d.pipe.Write(chunk, s.slot, s.media); err != nil {
		c.Failf("write failed: %v", err)
	}
	scribble(chunk)
	s.asmPos += n
	if s.asmPos < len(s.asm) {
		return
	}
	data, err := d.pipe.Fetch(s.slot)
	if err != nil || !bytes.Equal(data, s.asm) {
		c.Failf("slot %d: fetched %s (error %v), written %s", s.slot, hexs(data), err, hexs(s.asm))
	}
	do := s.asmDo
	s.asmDo = nil
	// the demuxer's balance counts the block until it is accepted or dropped
	do(data)
}

// probe makes a completion request.
func (d *demuxRun) probeRequest(forced bool) {
	c := d.c
	op := "TryCompleteProbe"
	if forced {
		op = "ProbeComplete"
	}
	c.T("%s", op)
	wait := false
	if !forced {
		for _, m := range d.tracks {
			if (m.id == utils.AVCodecIdPCMS16LE || m.id == utils.AVCodecIdADPCMG726) && m.seen < 2 {
				wait = true
			}
		}
		d.dm.TryCompleteProbe()
	} else {
		d.dm.ProbeComplete()
	}
	ev := d.take()
	switch {
	case d.completed:
		if len(ev) != 0 {
			c.Failf("%s after the end of probing caused callback %s", op, ev[0].kind)
		}
		c.Ev("late_request", 1)
	case wait:
		if len(ev) != 0 {
			c.Failf("%s while a raw audio track has fewer than two packets caused callback %s", op, ev[0].kind)
		}
		c.Ev("tentative_ignored", 1)
	default:
		if len(ev) == 0 {
			c.Failf("%s did not end probing", op)
		}
		if rest := d.judgeCompletion(op, ev); len(rest) != 0 {
			c.Failf("%s: %d callbacks beyond the parked packets", op, len(rest))
		}
		c.Ev(map[bool]string{true: "forced_completion", false: "tentative_completion"}[forced], 1)
	}
	d.afterCall(op)
}

// release frees the oldest delivered packet of a slot the way a consumer does.
func (d *demuxRun) release(n int) {
	for ; n > 0 && len(d.held) > 0; n-- {
		// oldest of a random held packet's slot
		slot := d.held[d.c.N(len(d.held))].slot
		k := -1
		for i, h := range d.held {
			if h.slot == slot && (k < 0 || h.want.seq < d.held[k].want.seq) {
				k = i
			}
		}
		h := d.held[k]
		// only the oldest block of the stream may be released
		if d.oldestUnreleased(slot) != h.want.seq {
			return
		}
		d.c.T("release packet of slot %d dts %d", slot, h.dts)
		if !bytes.Equal(h.live, h.want.data) {
			d.c.Failf("an unreleased packet of slot %d changed", slot)
		}
		h.released = true
		d.held = append(d.held[:k], d.held[k+1:]...)
		d.live[slot]--
		d.dm.DiscardHeadPacket(slot)
		av.FreePacket(h.p)
		d.c.Ev("released_by_consumer", 1)
	}
	d.afterCall("release")
}

func (d *demuxRun) oldestUnreleased(slot int) int {
	best := 1 << 60
	for _, h := range d.held {
		if h.slot == slot && h.want.seq < best {
			best = h.want.seq
		}
	}
	for _, m := range d.tracks {
		if m.slot != slot {
			continue
		}
		for _, p := range m.parked {
			if p.seq < best {
				best = p.seq
			}
		}
		if m.newest != nil && m.newest.seq < best {
			best = m.newest.seq
		}
	}
	return best
}

func (d *demuxRun) run() {
	c := d.c
	d.makeSlots()
	desc := ""
	for _, s := range d.slots {
		desc += fmt.Sprintf(" %v/%v(header %v)", s.media, s.id, s.header)
	}
	c.T("demuxer %s, probe duration %d ms, auto-free %v, streams:%s", d.o.name, d.o.probe, d.o.autoFree, desc)
	sig := hashStr(d.o.name)
	for i := 0; i < d.o.steps; i++ {
		switch {
		case c.N(60) < d.o.tentative:
			d.probeRequest(false)
		case c.N(200) < d.o.forced:
			d.probeRequest(true)
		case c.N(100) == 0:
			d.settings()
		case len(d.slots) > 0:
			s := pick(c.Rng, d.slots)
			if s.asmDo != nil {
				d.write(s)
			} else {
				d.start(s)
			}
		}
		if len(d.held) > 0 && c.N(3) == 0 {
			d.release(c.Range(1, 6))
		}
		c.Eval(1)
		sig = mix64(sig ^ uint64(len(d.events)) ^ uint64(len(d.tracks))<<20)
		if !d.o.noDistinct && i%16 == 15 {
			c.Distinct(sig)
		}
	}
	// the end: everything still parked comes out when completion is forced
	d.probeRequest(true)
	d.probeRequest(c.Bool())
	if c.Bool() {
		d.settings()
	}
	d.checkAnnounced()
	total := 0
	for _, m := range d.tracks {
		if m.newest != nil {
			total++ // withheld
		}
	}
	if d.deliv+total != d.seq && len(d.tracks) > 0 {
		c.Failf("%d packets were accepted, %d delivered and %d withheld", d.seq, d.deliv, total)
	}
	if c.Bool() {
		// closing delivers nothing and gives nothing back twice
		c.T("Close")
		d.dm.Close()
		d.expectNone("Close")
		d.afterCall("Close")
		c.Ev("closed", 1)
	}
	c.Distinct(sig)
	c.Sample(func() string {
		return fmt.Sprintf("%s,%s: %d steps, %d tracks, %d accepted, %d delivered, %d rejected, %d callbacks", d.o.name, desc, d.o.steps, len(d.tracks), d.seq, d.deliv, d.rej, len(d.events))
	})
}
