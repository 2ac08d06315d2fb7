package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sync"
	"sync/atomic"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// ------------------------------------------------------------------- C11

// dirty stores random values in every visible field and fills every cache.
func dirty(c *C, p *av.AVPacket) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !v.Type().Field(i).IsExported() || !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(int64(c.Range(1, 100)))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(uint64(c.Range(1, 100)))
		case reflect.Bool:
			f.SetBool(true)
		case reflect.String:
			f.SetString("dirty")
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				f.SetBytes(c.Bytes(9))
			}
		}
	}
	switch c.N(4) {
	case 0:
		p.OnBufferAlloc = func(n int) []byte { panic(violation{"", "the allocator of a freed packet was called"}) }
	default:
		// a real use: the caches get filled
		hev := c.Bool()
		st, _ := mkStream(c, hev, true, 4)
		p.MediaType = utils.AVMediaTypeVideo
		p.CodecID = st.CodecID
		p.Key = c.Bool()
		nals := genAU(c, hev, 3, 30)
		if c.Bool() {
			p.PacketType = av.PacketTypeAnnexB
			p.Data = annexB(c.Rng, nals)
		} else {
			p.PacketType = av.PacketTypeAVCC
			p.Data = lengthPrefixed(nals, 4)
		}
		if c.Bool() {
			p.OnBufferAlloc = func(n int) []byte { return make([]byte, n) }
		}
		for k := c.Range(1, 3); k > 0; k-- {
			if c.Bool() {
				av.AVCCPacket2AnnexB(st, p)
			} else {
				av.AnnexBPacket2AVCC(p)
			}
			if c.N(3) == 0 {
				p.PacketType = av.PacketType(3 - p.PacketType)
			}
		}
		c.Ev("caches_filled", 1)
	}
}

type given struct {
	video    bool
	data     []byte
	dts, pts int64
	key      bool
	pt       av.PacketType
	id       utils.AVCodecID
	idx, tb  int
	st       *av.AVStream
}

func genGiven(c *C) given {
	g := given{video: c.Bool(), dts: int64(c.N(1 << 40)), idx: c.N(5), tb: pick(c.Rng, []int{1000, 90000, 48000})}
	switch c.N(12) {
	case 0:
		g.dts = -g.dts
	case 1:
		g.dts = pick(c.Rng, []int64{0, -1, 1, math.MinInt64, math.MaxInt64, 1 << 31, 1<<33 - 1})
	case 2:
		g.idx = c.N(1000)
	}
	if !g.video {
		g.data = c.Bytes(c.N(30))
		g.pts = g.dts
		g.id = pick(c.Rng, []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726})
		return g
	}
	hev := c.Bool()
	g.pts = g.dts + int64(c.N(9000))
	if c.N(6) == 0 {
		g.pts = g.dts - int64(c.N(9000))
	}
	g.key = c.Bool()
	g.pt = av.PacketType(c.Range(1, 2))
	nals := genAU(c, hev, 4, 40)
	if g.pt == av.PacketTypeAnnexB {
		g.data = annexB(c.Rng, nals)
		g.st, _ = mkStream(c, hev, true, 4)
	} else {
		g.data = lengthPrefixed(nals, 4)
		g.st, _ = mkStream(c, hev, false, 4)
	}
	g.id = g.st.CodecID
	return g
}

func (g *given) make() *av.AVPacket {
	if g.video {
		return av.NewVideoPacket(g.data, g.dts, g.pts, g.key, g.pt, g.id, g.idx, g.tb)
	}
	return av.NewAudioPacket(g.data, g.dts, g.id, g.idx, g.tb)
}

// fresh is the packet a caller would build by hand.
func (g *given) fresh() *av.AVPacket {
	p := &av.AVPacket{Data: g.data, Dts: g.dts, Pts: g.pts, Key: g.key, PacketType: g.pt, CodecID: g.id, Index: g.idx, Timebase: g.tb, MediaType: utils.AVMediaTypeAudio}
	if g.video {
		p.MediaType = utils.AVMediaTypeVideo
	}
	return p
}

func (g *given) verify(c *C, p *av.AVPacket, recycled bool) {
	f := reflect.ValueOf(g.fresh()).Elem()
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		if !v.Type().Field(i).IsExported() {
			continue
		}
		a, b := v.Field(i), f.Field(i)
		if a.Kind() == reflect.Func {
			if !a.IsNil() {
				c.Failf("a new packet (recycled: %v) comes with %s set", recycled, name)
			}
			continue
		}
		if name == "PacketType" && !g.video && p.PacketType == av.PacketTypeNONE {
			continue // audio has no packing: both unset and NONE say so
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			c.Failf("a new packet (recycled: %v, video: %v) has %s = %v, a fresh one %v", recycled, g.video, name, a.Interface(), b.Interface())
		}
	}
	if len(g.data) > 0 && &p.Data[0] != &g.data[0] {
		c.Failf("a new packet does not refer to the data it was given")
	}
	if g.video {
		// derived formats come from the new data
		q := g.fresh()
		order := c.Bool()
		for k := 0; k < 2; k++ {
			if (k == 0) == order {
				x, y := av.AVCCPacket2AnnexB(g.st, p), av.AVCCPacket2AnnexB(g.st, q)
				if !bytes.Equal(x, y) {
					c.Failf("conversion of a new packet (recycled: %v) to Annex-B gives %s, of a fresh one %s", recycled, hexs(x), hexs(y))
				}
			} else {
				x, y := av.AnnexBPacket2AVCC(p), av.AnnexBPacket2AVCC(q)
				if !bytes.Equal(x, y) {
					c.Failf("conversion of a new packet (recycled: %v) to AVCC gives %s, of a fresh one %s", recycled, hexs(x), hexs(y))
				}
			}
		}
		c.Ev("derived_formats_compared", 1)
	}
}

func recycleRun(c *C) {
	live := map[*av.AVPacket]uint64{}
	var order []*av.AVPacket
	freed := map[*av.AVPacket]bool{}
	for i := 0; i < 30; i++ {
		if len(order) > 0 && c.N(3) == 0 || len(order) > 6 {
			k := c.N(len(order))
			p := order[k]
			if hashBytes(p.Data)^uint64(p.Dts) != live[p] {
				c.Failf("a live packet changed")
			}
			order = append(order[:k], order[k+1:]...)
			delete(live, p)
			dirty(c, p)
			av.FreePacket(p)
			freed[p] = true
			continue
		}
		g := genGiven(c)
		p := g.make()
		if _, dup := live[p]; dup {
			c.Failf("a packet was handed out twice")
		}
		if freed[p] {
			c.Ev("recycled", 1)
			delete(freed, p)
		}
		g.verify(c, p, c.st.Events["recycled"] > 0)
		live[p] = hashBytes(p.Data) ^ uint64(p.Dts)
		order = append(order, p)
		c.Eval(1)
		c.Distinct(hashInts(int(g.pt), int(g.id), len(order), len(freed)))
	}
	for _, p := range order {
		if hashBytes(p.Data)^uint64(p.Dts) != live[p] {
			c.Failf("a live packet changed")
		}
		av.FreePacket(p)
	}
}

// recycleMany: thousands of packets live at the same time.
func recycleMany(c *C) {
	n := c.Range(300, 5000)
	ps := make([]*av.AVPacket, n)
	sum := make([]uint64, n)
	for round := 0; round < 3; round++ {
		seen := map[*av.AVPacket]bool{}
		for i := range ps {
			if ps[i] == nil {
				g := genGiven(c)
				ps[i] = g.make()
				g.verify(c, ps[i], round > 0)
				sum[i] = hashBytes(ps[i].Data) ^ uint64(ps[i].Dts)
			}
			if seen[ps[i]] {
				c.Failf("a packet was handed out twice among %d live ones", n)
			}
			seen[ps[i]] = true
		}
		for i, p := range ps {
			if hashBytes(p.Data)^uint64(p.Dts) != sum[i] {
				c.Failf("a live packet changed, one of %d", n)
			}
			if round == 2 || c.Bool() {
				dirty(c, p)
				av.FreePacket(p)
				ps[i] = nil
			}
		}
		c.Tick()
	}
	c.Ev("live_at_once", n)
	c.Eval(n)
	c.Distinct(hashInts(n))
}

// recycleConcurrent: goroutines construct, hand over and free packets at once.
func recycleConcurrent(c *C) {
	const G = 6
	var owner sync.Map // live packets
	var bad atomic.Value
	var wg sync.WaitGroup
	ch := make(chan *av.AVPacket, 16)
	n := 400
	seeds := make([]uint64, G)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	var reused atomic.Int64
	var seen sync.Map
	free := func(p *av.AVPacket, who string) {
		if len(p.Data) != 9 || int64(p.Data[0])|int64(p.Data[1])<<8 != p.Dts&0xffff || p.Index != int(p.Data[2]) || p.Duration != 0 {
			bad.Store(fmt.Sprintf("%s: a live packet changed: data %x dts %d index %d duration %d", who, p.Data, p.Dts, p.Index, p.Duration))
		}
		owner.Delete(p)
		p.Duration = 77
		p.BufferIndex = 5
		p.CreatedTime = 9
		av.FreePacket(p)
	}
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &Rng{s: seeds[g]}
			var mine []*av.AVPacket
			for i := 0; i < n; i++ {
				dts := int64(g)<<20 | int64(i)
				data := make([]byte, 9)
				data[0], data[1], data[2] = byte(dts), byte(dts>>8), byte(g)
				var p *av.AVPacket
				if r.Bool() {
					p = av.NewVideoPacket(data, dts, dts, r.Bool(), av.PacketTypeAnnexB, utils.AVCodecIdH264, g, 1000)
				} else {
					p = av.NewAudioPacket(data, dts, utils.AVCodecIdAAC, g, 1000)
				}
				if _, dup := owner.LoadOrStore(p, g); dup {
					bad.Store("a live packet was handed out again")
					return
				}
				if _, old := seen.LoadOrStore(p, true); old {
					reused.Add(1)
				}
				if p.Duration != 0 || p.BufferIndex != 0 || p.CreatedTime != 0 || p.OnBufferAlloc != nil || (p.MediaType == utils.AVMediaTypeAudio && p.Key) {
					bad.Store(fmt.Sprintf("a new packet carries old fields: duration %d buffer %d created %d key %v", p.Duration, p.BufferIndex, p.CreatedTime, p.Key))
				}
				switch r.N(4) {
				case 0:
					select {
					case ch <- p:
						continue
					default:
					}
				case 1:
					select {
					case q := <-ch:
						free(q, "handed over")
					default:
					}
				}
				mine = append(mine, p)
				if len(mine) > 4 {
					k := r.N(len(mine))
					free(mine[k], "own")
					mine = append(mine[:k], mine[k+1:]...)
				}
			}
			for _, p := range mine {
				free(p, "own")
			}
		}()
	}
	wg.Wait()
	close(ch)
	for p := range ch {
		free(p, "left over")
	}
	if b := bad.Load(); b != nil {
		c.Failf("%v", b)
	}
	c.Ev("concurrent_packets", G*n)
	c.Ev("concurrent_reuse", int(reused.Load()))
	c.Eval(G * n)
	c.Distinct(uint64(reused.Load()))
}

// ------------------------------------------------------------------- C25

var timebases = []int{1, 2, 3, 7, 24, 25, 30, 50, 60, 97, 600, 999, 1000, 1001, 8000, 11025, 12800, 16000, 22050, 24000, 30000, 32000, 44100, 48000, 60000, 90000, 96000, 1000000}

// tsBound tells whether got is the exact value of ts*dst/src to within one
// tick. The bound has room for the rounding of one floating multiplication.
func tsWithin(ts int64, src, dst int, got int64) bool {
	// |got*src - ts*dst| <= src * (1 + slack), slack = |q| * 2^-50
	d := new(big.Int).Mul(big.NewInt(got), big.NewInt(int64(src)))
	e := new(big.Int).Mul(big.NewInt(ts), big.NewInt(int64(dst)))
	d.Sub(d, e).Abs(d)
	lim := new(big.Int).Abs(e)
	lim.Rsh(lim, 50)
	lim.Add(lim, big.NewInt(int64(src)))
	return d.Cmp(lim) <= 0
}

// inRange: both the value and its conversion stay within 2^48 ticks.
func inRange(ts int64, src, dst int) bool {
	if ts > 1<<48 || ts < -(1<<48) {
		return false
	}
	e := new(big.Int).Mul(big.NewInt(ts), big.NewInt(int64(dst)))
	e.Quo(e, big.NewInt(int64(src)))
	return e.IsInt64() && e.Int64() <= 1<<48 && e.Int64() >= -(1<<48)
}

func sign(x int64) int {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}

func checkTs(c *C, ts int64, src, dst int) int64 {
	got := av.ConvertTs(ts, src, dst)
	if !tsWithin(ts, src, dst, got) {
		c.Failf("ConvertTs(%d, %d, %d) = %d, more than a tick from the exact value", ts, src, dst, got)
	}
	if sign(got)*sign(ts) < 0 {
		c.Failf("ConvertTs(%d, %d, %d) = %d changes the sign", ts, src, dst, got)
	}
	if src == dst && got != ts {
		c.Failf("ConvertTs(%d, %d, %d) = %d is not the identity", ts, src, dst, got)
	}
	c.Eval(1)
	c.Ev("conversion", 1)
	return got
}

func genTs(c *C) int64 {
	var ts int64
	switch c.N(6) {
	case 0:
		ts = int64(c.U64() >> c.Range(16, 63))
	case 1:
		ts = 1<<33 - int64(c.N(4)) // wrap of MPEG timestamps
	case 2:
		ts = int64(1)<<c.N(49) + int64(c.N(5)) - 2
	case 3:
		ts = 1_700_000_000_000 + int64(c.N(1<<30)) // wall clock in ms
	default:
		ts = int64(c.N(1 << 30))
	}
	if c.N(4) == 0 {
		ts = -ts
	}
	return ts
}

func tsRun(c *C) {
	for i := 0; i < 60; i++ {
		src, dst := pick(c.Rng, timebases), pick(c.Rng, timebases)
		if c.N(4) == 0 {
			src = c.Range(1, 200000)
		}
		if c.N(4) == 0 {
			dst = c.Range(1, 200000)
		}
		if c.N(10) == 0 {
			dst = src
		}
		ts := genTs(c)
		if !inRange(ts, src, dst) {
			continue
		}
		a := checkTs(c, ts, src, dst)
		c.Distinct(hashInts(src, dst, int(ts)))
		// order
		for _, d := range []int64{1, 2, int64(c.N(5000)), int64(src)} {
			if !inRange(ts+d, src, dst) {
				continue
			}
			if b := checkTs(c, ts+d, src, dst); b < a {
				c.Failf("ConvertTs(%d..+%d, %d, %d): order is lost, %d then %d", ts, d, src, dst, a, b)
			}
			c.Ev("order_checked", 1)
		}
	}
}

// tsStream: a long stream of frame timestamps, converted one by one: neither
// drift nor reordering, however long it runs.
func tsStream(c *C) {
	src, dst := pick(c.Rng, timebases), pick(c.Rng, timebases)
	step := int64(c.Range(1, 4000))
	ts := genTs(c)
	if ts < 0 {
		ts = -ts
	}
	var prev int64 = math.MinInt64
	jump := int64(1)
	if c.Bool() {
		jump = int64(c.Range(1, 100000))
	}
	for i := 0; i < 2500; i++ {
		if !inRange(ts, src, dst) {
			break
		}
		got := checkTs(c, ts, src, dst)
		if got < prev {
			c.Failf("frame %d of a stream in %d, converted to %d, goes back from %d to %d", i, src, dst, prev, got)
		}
		prev = got
		ts += step * jump
	}
	c.Distinct(hashInts(src, dst, int(step), int(jump)))
	c.Ev("stream", 1)
}

func tsPacket(c *C) {
	for i := 0; i < 30; i++ {
		src := pick(c.Rng, timebases)
		p := &av.AVPacket{Timebase: src, Dts: genTs(c), Duration: int64(c.N(1 << 20)), Data: c.Bytes(1), Key: c.Bool(), MediaType: utils.AVMediaTypeVideo}
		p.Pts = p.Dts + int64(c.N(1<<20)) - int64(c.N(1<<10))
		if c.N(5) == 0 {
			// identity must hold for every value
			p.Dts, p.Pts, p.Duration = int64(c.U64())>>1, int64(c.U64())>>1, int64(c.U64())
			if d, q, u, cto := p.ConvertDts(src), p.ConvertPts(src), p.GetDuration(src), p.GetPtsDtsDelta(src); d != p.Dts || q != p.Pts || u != p.Duration || cto != p.Pts-p.Dts {
				c.Failf("packet dts %d pts %d duration %d in timebase %d converts to itself as %d %d %d %d", p.Dts, p.Pts, p.Duration, src, d, q, u, cto)
			}
			c.Ev("identity", 1)
			continue
		}
		dst := pick(c.Rng, timebases)
		if !inRange(p.Dts, src, dst) || !inRange(p.Pts, src, dst) {
			continue
		}
		before := metaOf(p)
		type pair struct {
			what  string
			own   int64
			value int64
		}
		for _, x := range []pair{
			{"decode time", p.Dts, p.ConvertDts(dst)},
			{"presentation time", p.Pts, p.ConvertPts(dst)},
			{"duration", p.Duration, p.GetDuration(dst)},
			{"composition offset", p.Pts - p.Dts, p.GetPtsDtsDelta(dst)},
		} {
			if !tsWithin(x.own, src, dst, x.value) || x.value != av.ConvertTs(x.own, src, dst) {
				c.Failf("%s %d in timebase %d, packet converts it to %d in %d; ConvertTs gives %d", x.what, x.own, src, x.value, dst, av.ConvertTs(x.own, src, dst))
			}
			c.Eval(1)
			c.Ev("packet_field", 1)
		}
		if metaOf(p) != before {
			c.Failf("converting the times of a packet changed it")
		}
		c.Distinct(hashInts(src, dst, int(p.Dts)))
	}
}

// ------------------------------------------------------------------- C28

var allMedia = []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio, utils.AVMediaTypeData, utils.AVMediaTypeSubtitle, utils.AVMediaTypeAttachment, utils.AVMediaTypeUnknown}
var someCodecs = []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdMP3}

type otherTrack struct{ s *av.AVStream }

func (o otherTrack) GetStream() *av.AVStream { return o.s }

type registry struct {
	c     *C
	tm    *av.TrackManager
	model []av.Track
}

func (r *registry) check(after string) {
	c := r.c
	if r.tm.Size() != len(r.model) {
		c.Failf("after %s the registry holds %d tracks, want %d", after, r.tm.Size(), len(r.model))
	}
	for i, t := range r.model {
		if r.tm.Get(i) != t {
			c.Failf("after %s, Get(%d) is not the track added at that position", after, i)
		}
	}
	if len(r.tm.Tracks) != len(r.model) {
		c.Failf("after %s the registry lists %d tracks, want %d", after, len(r.tm.Tracks), len(r.model))
	}
	first := func(f func(s *av.AVStream) bool) av.Track {
		for _, t := range r.model {
			if f(t.GetStream()) {
				return t
			}
		}
		return nil
	}
	for _, m := range allMedia {
		want := first(func(s *av.AVStream) bool { return s.MediaType == m })
		if got := r.tm.FindTrackWithType(m); got != want {
			c.Failf("after %s, FindTrackWithType(%v) = %v, want %v", after, m, got, want)
		}
	}
	for _, id := range append([]utils.AVCodecID{utils.AVCodecIdOPUS, utils.AVCodecIdNONE, utils.AVCodecIdH264 + 1<<16, utils.AVCodecIdAAC ^ 1<<8}, someCodecs...) {
		want := first(func(s *av.AVStream) bool { return s.CodecID == id })
		if got := r.tm.Find(id); got != want {
			c.Failf("after %s, Find(%v) = %v, want %v", after, id, got, want)
		}
		if want == nil {
			c.Ev("not_found", 1)
		} else {
			c.Ev("found", 1)
		}
	}
}

func newTrack(c *C, m utils.AVMediaType, id utils.AVCodecID) av.Track {
	s := &av.AVStream{MediaType: m, CodecID: id, Index: pick(c.Rng, []int{c.N(7), c.N(300), -1, 1 << 20}), Timebase: 1000, Data: c.Bytes(3)}
	if c.Bool() {
		return &av.SimpleTrack{Stream: s}
	}
	return otherTrack{s}
}

func muxAdd(c *C, b *av.BaseMuxer, r *registry, m utils.AVMediaType, id utils.AVCodecID) {
	t := newTrack(c, m, id)
	dup := false
	for _, o := range r.model {
		dup = dup || o.GetStream().MediaType == m
	}
	snap := *t.GetStream()
	idx, err := b.AddTrack(t)
	if dup {
		if err == nil {
			c.Failf("a second %v track was accepted at %d", m, idx)
		}
		if !reflect.DeepEqual(*t.GetStream(), snap) {
			c.Failf("a refused track was changed")
		}
		c.Ev("refused", 1)
		r.check("a refused AddTrack")
		return
	}
	if err != nil {
		c.Failf("the first %v track was refused: %v", m, err)
	}
	r.model = append(r.model, t)
	if idx != len(r.model)-1 {
		c.Failf("AddTrack returned %d, the track is at %d", idx, len(r.model)-1)
	}
	c.Ev("accepted", 1)
	r.check("AddTrack")
}

func muxExhaustive(c *C) {
	// all sequences of 5 additions over 6 media types
	n := len(allMedia)
	for x := 0; x < n*n*n*n; x++ {
		b := &av.BaseMuxer{}
		r := &registry{c: c, tm: &b.Tracks}
		muxAdd(c, b, r, allMedia[c.idx%n], pick(c.Rng, someCodecs))
		for k, y := 0, x; k < 4; k++ {
			muxAdd(c, b, r, allMedia[y%n], pick(c.Rng, someCodecs))
			y /= n
		}
		c.Eval(1)
		c.Distinct(hashInts(c.idx%n, x))
	}
}

func trackRandom(c *C) {
	b := &av.BaseMuxer{}
	mux := c.Bool()
	r := &registry{c: c, tm: &b.Tracks}
	r.check("creation")
	n := 25
	if c.P(1, 300) { // containers carry as many streams as they like
		n = c.Range(60, 400)
		mux = c.P(1, 4)
		c.Ev("large_registry", 1)
	}
	for i := 0; i < n; i++ {
		m, id := pick(c.Rng, allMedia), pick(c.Rng, someCodecs)
		if mux {
			muxAdd(c, b, r, m, id)
			if c.N(30) == 0 {
				_, _ = b.WriteHeader(nil)
				r.check("WriteHeader")
			}
			continue
		}
		t := newTrack(c, m, id)
		if !r.tm.Add(t) {
			c.Failf("the registry refused a track")
		}
		r.model = append(r.model, t)
		r.check("Add")
		c.Ev("registered", 1)
		c.Eval(1)
	}
	c.Distinct(hashInts(len(r.model), int(b2u(mux))))
}

// ------------------------------------------------------------------- C30

func checkRandString(n int) string {
	s := utils.RandStringBytes(n)
	if len(s) != n {
		return fmt.Sprintf("RandStringBytes(%d) has length %d", n, len(s))
	}
	for i := 0; i < len(s); i++ {
		x := s[i]
		if !(x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z') {
			return fmt.Sprintf("RandStringBytes(%d) contains %q", n, x)
		}
	}
	return ""
}

func randRun(c *C) {
	for i := 0; i < 60; i++ {
		n := c.SizeSkewed(300)
		if c.P(1, 400) {
			n = pick(c.Rng, []int{1000, 4095, 4096, 4097, 5000, 1<<16 - 1, 1 << 16, 1<<16 + 1, 200000}) + c.N(3)
			c.Ev("long_string", 1)
		}
		if m := checkRandString(n); m != "" {
			c.Failf("%s", m)
		}
		c.Ev("string", 1)
		lo := int(c.U64())
		hi := int(c.U64())
		switch c.N(6) {
		case 0:
			lo, hi = c.Range(-50, 50), c.Range(-50, 50)
		case 1:
			hi = lo
		case 2:
			lo, hi = pick(c.Rng, []int{math.MinInt, 0, -1, 1}), pick(c.Rng, []int{math.MaxInt, math.MaxInt - 1, 0})
		case 3:
			lo, hi = lo>>40, hi>>40
		}
		if lo > hi {
			var v int
			if !c.Panics(func() { v = utils.RandomIntInRange(lo, hi) }) {
				c.Failf("RandomIntInRange(%d, %d) returned %d for an inverted range", lo, hi, v)
			}
			c.Ev("inverted_refused", 1)
			lo, hi = hi, lo
		}
		var v int
		if p, st := c.Try(func() { v = utils.RandomIntInRange(lo, hi) }); p != nil {
			c.Failf("RandomIntInRange(%d, %d) panicked: %v %s", lo, hi, p, st)
		}
		if v < lo || v > hi {
			c.Failf("RandomIntInRange(%d, %d) = %d", lo, hi, v)
		}
		if lo == hi {
			c.Ev("equal_bounds", 1)
		}
		c.Eval(1)
		c.Distinct(hashInts(n, lo, hi))
	}
}

// randBounds: each value of a small range, both bounds included, turns up.
func randBounds(c *C) {
	w := c.Range(1, 6)
	lo := c.Range(-1000, 1000)
	if c.N(4) == 0 {
		lo = pick(c.Rng, []int{math.MaxInt - w, math.MinInt, 0, -w})
	}
	seen := map[int]int{}
	for i := 0; i < 4000 && len(seen) < w+1; i++ {
		v := utils.RandomIntInRange(lo, lo+w)
		if v < lo || v > lo+w {
			c.Failf("RandomIntInRange(%d, %d) = %d", lo, lo+w, v)
		}
		seen[v]++
		c.Eval(1)
	}
	if seen[lo] == 0 || seen[lo+w] == 0 {
		c.Failf("RandomIntInRange(%d, %d) never gave a bound in 4000 draws: %v", lo, lo+w, seen)
	}
	// the whole of a wide range is used
	big := [][2]int{{math.MinInt, math.MaxInt}, {math.MinInt + c.N(1<<40), math.MaxInt - c.N(1<<40)}, {math.MinInt / 4 * 3, math.MaxInt / 4 * 3}, {0, math.MaxInt}, {math.MinInt, 0}, {0, 1<<32 + c.N(1<<32)}, {-1 << 40, 1 << 40}}
	b := pick(c.Rng, big)
	var quarter [4]int
	width := uint64(b[1]) - uint64(b[0])
	for i := 0; i < 400; i++ {
		v := utils.RandomIntInRange(b[0], b[1])
		if v < b[0] || v > b[1] {
			c.Failf("RandomIntInRange(%d, %d) = %d", b[0], b[1], v)
		}
		q := (uint64(v) - uint64(b[0])) / (width/4 + 1)
		quarter[q]++
	}
	for q, n := range quarter {
		if n == 0 {
			c.Failf("RandomIntInRange(%d, %d): none of 400 draws in quarter %d of the range", b[0], b[1], q)
		}
	}
	c.Ev("wide_range_covered", 1)
	strs := map[string]bool{}
	for i := 0; i < 200; i++ {
		strs[utils.RandStringBytes(24)] = true
	}
	if len(strs) < 2 {
		c.Failf("RandStringBytes gave the same 24 characters 200 times")
	}
	c.Ev("bounds_reached", 1)
	c.Distinct(hashInts(lo, w))
}

func randConcurrent(c *C) {
	var wg sync.WaitGroup
	var bad atomic.Value
	for g := 0; g < 6; g++ {
		n := c.N(40)
		lo := c.Range(-9, 9)
		hi := lo + c.N(5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				if m := checkRandString(n); m != "" {
					bad.Store(m)
				}
				if v := utils.RandomIntInRange(lo, hi); v < lo || v > hi {
					bad.Store(fmt.Sprintf("RandomIntInRange(%d, %d) = %d", lo, hi, v))
				}
			}
		}()
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Failf("concurrently: %v", b)
	}
	c.Ev("concurrent_calls", 6*80)
	c.Eval(6 * 80)
}

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "packets constructed after packets with every visible field, cache and allocator set were freed, compared by reflection with a hand-built packet and through both format conversions; concurrent construct/hand-over/free with an owner table and the race detector; distinct = (kind, codec, live, freed) states and reuse counts",
		Need: []string{"derived_formats_compared", "caches_filled", "concurrent_packets"},
		Families: []*Family{
			{Name: "recycle-many", Quick: 40, Thorough: 1000, Run: recycleMany},
			{Name: "recycle", Quick: 12000, Thorough: 300000, RaceQ: 150, RaceT: 3000, Run: recycleRun},
			{Name: "concurrent", Quick: 500, Thorough: 12000, RaceQ: 60, RaceT: 1500, Run: recycleConcurrent},
		},
	})
	register(&Prop{
		ID:          "C25",
		Rule:        "conversions of random, boundary and streaming timestamps between standard and random timebases against exact big-integer rationals; distinct = distinct (source, destination, timestamp) triples",
		Need:        []string{"conversion", "order_checked", "stream", "packet_field", "identity"},
		Assumptions: []string{"timestamps and their conversions stay within 2^48 ticks; the one-tick bound gets a slack of |value|*2^-50 for floating-point rounding"},
		Families: []*Family{
			{Name: "random", Quick: 72000, Thorough: 1800000, Run: tsRun},
			{Name: "stream", Quick: 1200, Thorough: 24000, Run: tsStream},
			{Name: "packet", Quick: 72000, Thorough: 1800000, Run: tsPacket},
		},
	})
	register(&Prop{
		ID:   "C28",
		Rule: "all sequences of five additions over six media types and random registries, every lookup compared with a list model after every addition; distinct = distinct addition sequences",
		Need: []string{"accepted", "refused", "found", "not_found", "registered"},
		Families: []*Family{
			{Name: "mux-exhaustive", Quick: 12, Thorough: 60, Run: muxExhaustive},
			{Name: "random", Quick: 24000, Thorough: 600000, Run: trackRandom},
		},
	})
	register(&Prop{
		ID:   "C30",
		Rule: "random, extreme, equal and inverted ranges and string lengths; repeated draws until both bounds turn up; concurrent callers under the race detector; distinct = distinct (length, range) requests",
		Need: []string{"string", "inverted_refused", "equal_bounds", "bounds_reached", "concurrent_calls"},
		Families: []*Family{
			{Name: "random", Quick: 12000, Thorough: 240000, Run: randRun},
			{Name: "bounds", Quick: 800, Thorough: 16000, Run: randBounds},
			{Name: "concurrent", Quick: 800, Thorough: 16000, RaceQ: 60, RaceT: 1500, Run: randConcurrent},
		},
	})
}
