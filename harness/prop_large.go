package main

import (
	"bytes"
	"fmt"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
)

// Families that reach element counts, sizes and positions far beyond what the
// other families use: thousands of elements, thousands of unreleased blocks,
// megabytes of data.

// ---- C09

// seqLarge drives queues and rings through bursts of up to thousands of
// pushes and pops; every popped value is compared, and every observer after
// each burst.
func seqLarge[T comparable](c *C, mk func(int) T) {
	queue := c.N(3) != 0
	capa := pick(c.Rng, []int{1, 2, 3, 7, 16, 100, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2048, 3000, 4096, 5000})
	d := &seqDriver[T]{c: c, cap: capa, mk: mk, light: true}
	if queue {
		d.queue = collections.NewQueue[T](capa)
		d.box = d.queue
		d.name = fmt.Sprintf("queue(%d)", capa)
	} else {
		d.box = collections.NewRingBuffer[T](capa)
		d.name = fmt.Sprintf("ring(%d)", capa)
	}
	top := pick(c.Rng, []int{300, 700, 1500, 3000, 6000})
	sig := uint64(capa)
	sizes := map[bool]int{}
	for i := 0; i < 24; i++ {
		n := len(d.model)
		k := c.N(top + 1)
		switch c.N(6) {
		case 0:
			k = c.N(4)
		case 1:
			k = n // all of it
		case 2:
			k = n - c.N(3)
		case 3:
			k = capa - n + c.N(3) - 1 // just full
		}
		if k < 0 {
			k = 0
		}
		op := c.N(8)
		if n > 2*top && op < 4 {
			op = 4
		}
		if op < 4 && k+n > 3*top {
			k = 3*top - n
		}
		switch {
		case op < 4:
			for ; k > 0; k-- {
				d.n++
				v := d.mk(d.n)
				d.box.Push(v)
				if !queue && len(d.model) == capa {
					d.model = d.model[1:]
				}
				d.model = append(d.model, v)
				if m := d.box.Size(); m != len(d.model) {
					c.Failf("%s: size %d after a push, model holds %d", d.name, m, len(d.model))
				}
			}
		case op == 7 && c.N(4) == 0:
			d.clear()
		case op == 7 && queue:
			for ; k > 0 && len(d.model) > 0; k-- {
				want := d.model[len(d.model)-1]
				if v := d.queue.PopBack(); v != want {
					c.Failf("%s: PopBack of %d elements gave %v, want %v", d.name, len(d.model), v, want)
				}
				d.model = d.model[:len(d.model)-1]
			}
		default:
			for ; k > 0 && len(d.model) > 0; k-- {
				if v := d.box.Pop(); v != d.model[0] {
					c.Failf("%s: Pop of %d elements gave %v, want %v", d.name, len(d.model), v, d.model[0])
				}
				d.model = d.model[1:]
			}
			// interleave at this fill level, so that it wraps where it is
			for j := c.N(2 * capa); j > 0 && len(d.model) > 0; j-- {
				d.n++
				v := d.mk(d.n)
				d.box.Push(v)
				if !queue && len(d.model) == capa {
					d.model = d.model[1:]
				}
				d.model = append(d.model, v)
				if v := d.box.Pop(); v != d.model[0] {
					c.Failf("%s: Pop of %d elements gave %v, want %v", d.name, len(d.model), v, d.model[0])
				}
				d.model = d.model[1:]
			}
		}
		d.check(fmt.Sprintf("burst %d", i))
		if len(d.model) > 256 {
			c.Ev("large_fill", 1)
		}
		sizes[len(d.model) > capa/2]++
		sig = mix64(sig ^ uint64(len(d.model)))
		c.Eval(1)
	}
	c.Distinct(sig)
	c.Sample(func() string { return fmt.Sprintf("%s: 24 bursts, %d pushes, %d left", d.name, d.n, len(d.model)) })
}

func seqLargeRun(c *C) {
	switch c.N(3) {
	case 0:
		seqLarge(c, func(n int) int { return n })
	case 1:
		seqLarge(c, func(n int) *elem { return &elem{n, "p"} })
	default:
		seqLarge(c, func(n int) elem { return elem{n, "v"} })
	}
}

// listLarge: lists of thousands of elements, removals at both ends and inside.
func listLarge(c *C) {
	d := &listDriver{c: c, l: &collections.LinkedList[elem]{}}
	top := pick(c.Rng, []int{200, 600, 1500})
	for i := 0; i < 6; i++ {
		for k := c.N(top); k > 0 && len(d.model) < 2*top; k-- {
			d.n++
			d.l.Add(elem{d.n, "x"})
			d.model = append(d.model, elem{d.n, "x"})
		}
		d.check("a burst of Add", true)
		for k := c.N(top); k > 0 && len(d.model) > 0; k-- {
			n := len(d.model)
			j := pick(c.Rng, []int{0, n - 1, c.N(n), c.N(n), n / 2})
			if v := d.l.Remove(j); v != d.model[j] {
				c.Failf("Remove(%d) of %d elements gave %v, want %v", j, n, v, d.model[j])
			}
			d.model = append(d.model[:j], d.model[j+1:]...)
			if d.l.Size() != len(d.model) {
				c.Failf("list size %d after Remove, model %d", d.l.Size(), len(d.model))
			}
		}
		d.check("a burst of Remove", true)
		c.Eval(1)
	}
	if c.N(6) == 0 {
		listHuge(d)
	}
	c.Ev("large_fill", 1)
	c.Distinct(hashInts(d.n, len(d.model), top))
}

// listHuge takes the list past what a 16-bit counter holds and back below it.
func listHuge(d *listDriver) {
	c := d.c
	for top := 1<<16 + c.Range(1, 3000); len(d.model) < top; {
		d.n++
		d.l.Add(elem{d.n, "x"})
		d.model = append(d.model, elem{d.n, "x"})
		if n := len(d.model); d.l.Size() != n {
			c.Failf("list size %d after Add, model %d", d.l.Size(), n)
		}
	}
	for k := 0; k < 60; k++ {
		n := len(d.model)
		j := pick(c.Rng, []int{0, 1, n - 1, n - 2, 1<<16 - 1, n / 2, c.N(n)})
		if j >= n {
			j = n - 1
		}
		if v := d.l.Get(j); v != d.model[j] {
			c.Failf("Get(%d) of %d elements gave %v, want %v", j, n, v, d.model[j])
		}
		if k%3 > 0 {
			if v := d.l.Remove(j); v != d.model[j] {
				c.Failf("Remove(%d) of %d elements gave %v, want %v", j, n, v, d.model[j])
			}
			d.model = append(d.model[:j], d.model[j+1:]...)
		} else {
			d.n++
			d.l.Add(elem{d.n, "x"})
			d.model = append(d.model, elem{d.n, "x"})
		}
	}
	for len(d.model) > 1<<16-50 {
		if v := d.l.Remove(0); v != d.model[0] {
			c.Failf("Remove(0) of %d elements gave %v, want %v", len(d.model), v, d.model[0])
		}
		d.model = d.model[1:]
		if d.l.Size() != len(d.model) {
			c.Failf("list size %d after Remove, model %d", d.l.Size(), len(d.model))
		}
	}
	c.Ev("huge_fill", 1)
}

// ---- C06

// ringMany keeps hundreds to thousands of blocks unreleased and moves through
// the memory at that depth, with growth in the middle.
func ringMany(c *C) {
	unit := pick(c.Rng, []int{1, 3, 16, 100, 700})
	capa := unit * pick(c.Rng, []int{4, 100, 300, 1000, 3000})
	d := newDriver(c, false, capa, "b")
	top := pick(c.Rng, []int{260, 600, 1100, 2100})
	d.every = c.Range(40, 200)
	sig := uint64(capa)
	for i := 0; i < 10; i++ {
		for k := c.N(top); k > 0 && len(d.s.blks) < top+100; k-- {
			n := c.Range(1, unit)
			if c.N(4) == 0 {
				d.alloc(n)
			} else {
				d.write(n)
			}
			d.fetch()
			c.Ev("fetch", 1)
			if c.N(9) == 0 {
				d.popBack()
				c.Ev("pop_back", 1)
			}
			if c.N(3) == 0 {
				d.pop()
				c.Ev("pop", 1)
			}
		}
		d.s.verify(c, "a burst")
		if len(d.s.blks) > 256 {
			c.Ev("many_unreleased", 1)
		}
		if c.N(12) == 0 {
			d.clear()
		}
		left := c.N(len(d.s.blks) + 1)
		if c.N(3) == 0 {
			left = c.N(3)
		}
		for len(d.s.blks) > left {
			if c.N(20) == 0 {
				d.popBack()
			} else {
				d.pop()
			}
		}
		d.s.verify(c, "a burst of releases")
		sig = hashInts(int(sig), len(d.s.blks), d.wraps&15, d.grows)
		c.Eval(1)
	}
	c.Ev("wrap_observed", d.wraps)
	c.Ev("regrow_observed", d.grows)
	c.Distinct(sig)
	c.Sample(func() string {
		return fmt.Sprintf("capacity %d, blocks up to %d bytes, up to %d unreleased: %d wraps, %d growths", capa, unit, top, d.wraps, d.grows)
	})
}

// pendingLarge: one block assembled from many fragments to far more than any
// capacity the buffer has had, between blocks that stay unreleased.
func pendingLarge(c *C, linear bool) {
	capa := pick(c.Rng, []int{1000, 65536, 300000, 1 << 20})
	if linear {
		capa = pick(c.Rng, []int{70000, 300000, 1 << 20, 3 << 20})
	}
	d := newDriver(c, linear, capa, "b")
	for i := c.Range(2, 5); i > 0; i-- {
		total := pick(c.Rng, []int{capa / 3, capa, capa + capa/2, 3 * capa, 66000, 140000, 300000})
		for had := 0; had < total; {
			n := c.Range(1, total/4+1)
			if c.N(3) == 0 {
				n = c.Range(1, 2000)
			}
			if c.N(4) == 0 {
				d.alloc(n)
			} else {
				d.write(n)
			}
			had += n
		}
		d.fetch()
		c.Ev("fetch", 1)
		c.Ev("large_block", 1)
		switch c.N(4) {
		case 0:
			d.pop()
			c.Ev("pop", 1)
		case 1:
			d.popBack()
			c.Ev("pop_back", 1)
		}
		c.Eval(1)
		c.Tick()
	}
	c.Distinct(hashInts(capa, d.wraps, d.grows, len(d.s.blks)))
}

// ---- C12, C13, C14, C19

// largeSize picks sizes around the limits of 16- and 24-bit fields and others
// that real streams reach.
func largeSize(c *C, huge bool) int {
	n := pick(c.Rng, []int{4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 200000, 1 << 18, 500000, 1 << 20, 3 << 20}) + c.Range(-2, 2)
	if huge {
		n = 1<<24 + c.Range(-2, 2)
	}
	return n
}

func startCodeLarge(c *C) {
	if c.idx%4 == 0 {
		// thousands of units
		var nals [][]byte
		hev := c.Bool()
		max := pick(c.Rng, []int{4, 40, 200})
		for k := pick(c.Rng, []int{300, 1100, 2100, 4200, 9000}); k > 0; k-- {
			if hev {
				nals = append(nals, hevcNal(c.Rng, c.N(48), c.Range(2, max)))
			} else {
				nals = append(nals, avcNal(c.Rng, c.Range(1, 23), c.Range(1, max)))
			}
		}
		p := annexB(c.Rng, nals)
		if got := splitViaLib(p); !sameNals(got, nals) {
			c.Failf("SplitNalU of %d units in %d bytes gave %d units: %s", len(nals), len(p), len(got), describeNals(got))
		}
		n := checkSplit(c, p)
		rest := p
		for {
			checkFind(c, rest)
			i, _ := refFind(rest)
			if i < 0 {
				break
			}
			rest = rest[i:]
		}
		c.Ev("wellformed_streams", 1)
		c.Ev("many_units", n)
		c.Distinct(hashInts(n, len(p)))
		c.Eval(1)
		return
	}
	// a few start codes far inside
	size := largeSize(c, c.idx%40 == 1) + c.Range(8, 6000)
	p := nalPayload(c.Rng, size)
	at := []int{}
	for k := c.Range(0, 4); k > 0; k-- {
		i := pick(c.Rng, []int{65536, 131072, 1 << 18, 200000, 1 << 20, 1 << 22, size, size, 1 << 24}) + c.Range(-6, 6)
		if c.Bool() {
			i = c.N(size)
		}
		at = append(at, i)
	}
	if c.N(4) != 0 {
		at = append(at, 0)
	}
	for _, i := range at {
		if sc := startCode(c.Rng); i >= 0 && i+len(sc) <= size {
			copy(p[i:], sc)
		}
	}
	rest := p
	for {
		checkFind(c, rest)
		i, _ := refFind(rest)
		if i < 0 {
			break
		}
		c.Ev("start_codes_seen", 1)
		rest = rest[i:]
	}
	n := checkSplit(c, p)
	checkRemove(c, p)
	c.Ev("pieces", n)
	c.Ev("large_inputs", 1)
	c.Distinct(hashInts(n, size))
	c.Eval(1)
}

// largeUnits makes an access unit with a very large unit, or with thousands.
func largeUnits(c *C, hev, huge bool) (nals [][]byte) {
	mk := func(size int) []byte {
		if hev {
			return hevcNal(c.Rng, pick(c.Rng, []int{1, 0, 19, 21, 39}), size)
		}
		return avcNal(c.Rng, pick(c.Rng, []int{1, 1, 5, 9, 12, 6}), size)
	}
	if !huge && c.Bool() {
		for k := pick(c.Rng, []int{300, 1100, 2100, 4200}); k > 0; k-- {
			nals = append(nals, mk(c.Range(1, 30)))
		}
		return
	}
	for k := c.N(4); k > 0; k-- {
		nals = append(nals, mk(c.Range(1, 60)))
	}
	nals = append(nals, mk(largeSize(c, huge)))
	for k := c.N(4); k > 0; k-- {
		nals = append(nals, mk(c.Range(1, 70000)))
	}
	return
}

func framingLarge(c *C) {
	hev := c.Bool()
	nals := largeUnits(c, hev, c.idx%12 == 0)
	var extra [][]byte
	if c.Bool() {
		size := pick(c.Rng, []int{20, 300, 70000})
		if hev {
			extra = [][]byte{genHEVCSet(c.Rng, 32, 8), genHEVCSet(c.Rng, 33, size), genHEVCSet(c.Rng, 34, 6)}
		} else {
			extra = [][]byte{genAVCSPS(c.Rng, avcOpt{small: true}).nal, genAVCPPS(c.Rng, size)}
		}
	}
	framingOne(c, hev, nals, extra)
	c.Ev("large", 1)
	n := 0
	for _, u := range nals {
		n += len(u)
	}
	c.Distinct(hashInts(int(b2u(hev)), len(nals), n, len(extra)))
	c.Eval(1)
}

func packetLarge(c *C) {
	huge := c.idx%20 == 0
	packetOne(c, func(hev bool) [][]byte { return largeUnits(c, hev, huge) })
	c.Ev("large", 1)
	c.Eval(1)
}

func keyLarge(c *C) {
	hev := c.Bool()
	var nals [][]byte
	mk := func(t, size int) {
		if hev {
			nals = append(nals, hevcNal(c.Rng, t, size))
		} else {
			nals = append(nals, avcNal(c.Rng, t, size))
		}
	}
	pre := []int{6, 7, 8, 9}
	if hev {
		pre = []int{32, 33, 34, 35, 39}
	}
	if c.N(4) == 0 {
		for k := pick(c.Rng, []int{20, 130, 260, 520, 1100}); k > 0; k-- {
			mk(pick(c.Rng, pre), c.Range(1, 40))
		}
	} else {
		for k := c.Range(1, 3); k > 0; k-- {
			mk(pick(c.Rng, pre), largeSize(c, false))
		}
	}
	t := 1
	if hev {
		t = pick(c.Rng, []int{0, 1, 9, 16, 19, 20, 21, 23})
	} else if c.Bool() {
		t = 5
	}
	want := t == 5
	if hev {
		want = t >= 16
	}
	mk(t, pick(c.Rng, []int{2, 100, 70000}))
	if c.Bool() { // later slices do not matter
		if hev {
			mk(pick(c.Rng, []int{1, 19}), 50)
		} else {
			mk(pick(c.Rng, []int{1, 5}), 50)
		}
	}
	keyCheck(c, hev, nals, want)
	c.Ev("large", 1)
	c.Eval(1)
}

// packetSameMemory: the memory of a packet is used again for the next ones, as
// block buffers do: same address, length and times, other contents.
func packetSameMemory(c *C) {
	hev := c.Bool()
	annexbPkt := c.Bool()
	st, sets := mkStream(c, hev, annexbPkt, 4)
	id := utils.AVCodecIdH264
	if hev {
		id = utils.AVCodecIdH265
	}
	n := c.Range(1, 4)
	types, sizes := make([]int, n), make([]int, n)
	scs := make([][]byte, n)
	for i := range types {
		types[i] = pick(c.Rng, []int{1, 5, 9})
		if hev {
			types[i] = pick(c.Rng, []int{1, 0, 19, 35})
		}
		sizes[i] = c.Range(3, 60)
		scs[i] = startCode(c.Rng)
	}
	var mem []byte
	dts, key := int64(c.N(1<<30)), c.Bool()
	for k := 0; k < 4; k++ {
		var nals [][]byte
		var data []byte
		for i, t := range types {
			if hev {
				nals = append(nals, hevcNal(c.Rng, t, sizes[i]))
			} else {
				nals = append(nals, avcNal(c.Rng, t, sizes[i]))
			}
			if annexbPkt {
				data = append(append(data, scs[i]...), nals[i]...)
			}
		}
		pt := av.PacketTypeAnnexB
		if !annexbPkt {
			data = lengthPrefixed(nals, 4)
			pt = av.PacketTypeAVCC
		}
		if mem == nil {
			mem = make([]byte, len(data))
		}
		copy(mem, data)
		if len(data) != len(mem) {
			panic("sizes differ")
		}
		pkt := av.NewVideoPacket(mem, dts, dts, key, pt, id, 0, 1000)
		a := splitAnnexB(av.AVCCPacket2AnnexB(st, pkt))
		var pre [][]byte
		if key {
			pre = sets
		}
		if annexbPkt {
			if !sameNals(a, nals) && !(key && sameNals(a, append(append([][]byte{}, sets...), nals...))) {
				c.Failf("packet %d over the same memory: as Annex-B %s, it holds %s", k, describeNals(a), describeNals(nals))
			}
			v, ok := splitLength(av.AnnexBPacket2AVCC(pkt), 4)
			if !ok || !sameNals(v, nals) {
				c.Failf("packet %d over the same memory: length-prefixed %s, it holds %s", k, describeNals(v), describeNals(nals))
			}
		} else {
			if !matchConverted(a, pre, nals, hev) {
				c.Failf("packet %d over the same memory: as Annex-B %s, it holds %s (stream %s)", k, describeNals(a), describeNals(nals), describeNals(pre))
			}
			if !bytes.Equal(av.AnnexBPacket2AVCC(pkt), data) {
				c.Failf("packet %d over the same memory: not passed through", k)
			}
		}
		if !bytes.Equal(mem, data) {
			c.Failf("conversion changed the data of the packet")
		}
		av.FreePacket(pkt)
		c.Ev("same_memory", 1)
		c.Eval(1)
	}
	c.Distinct(hashInts(append(append([]int{int(b2u(hev)), int(b2u(annexbPkt)), int(b2u(key))}, types...), sizes...)...))
}

// ---- C23

// bitsLarge accesses bit ranges far inside large slices; the bytes around the
// range are compared.
func bitsLarge(c *C) {
	n := pick(c.Rng, []int{300, 1000, 8191, 8192, 8193, 70000, 1 << 20})
	if c.idx%25 == 0 {
		n = 1<<28 + 4000 // beyond 2^31 bits; hardly any of it is touched
	}
	data := make([]byte, n)
	if n <= 1<<20 {
		c.Fill(data)
	}
	local := func(bit int) (lo, hi int) {
		lo, hi = bit/8-40, bit/8+40
		if lo < 0 {
			lo = 0
		}
		if hi > n {
			hi = n
		}
		return
	}
	pos := func() int {
		bits := []int{255, 256, 2047, 2048, 32767, 32768, 65535, 65536, 65536 * 8, 131072, 1 << 19, 1 << 20, n*8 - 64, n * 8, 1<<31 - 3, 1 << 31, 1<<31 + 500, c.N(n * 8), c.N(n * 8)}
		for {
			if p := pick(c.Rng, bits) + c.Range(-70, 70); p >= 0 && p <= n*8 {
				return p
			}
		}
	}
	w, r := &bufio.BitsWriter{Data: data}, &bufio.BitsReader{Data: data}
	for i := 0; i < 60; i++ {
		start, k, v := pos(), c.Range(0, 64), c.U64()
		if start+k > n*8 {
			k = n*8 - start
		}
		lo, hi := local(start)
		want := clone(data[lo:hi])
		if got, m := bufio.ReadBits(data, start, k), modelRead(want, start-lo*8, k); got != m {
			c.Failf("ReadBits of %d bits at %d of %d bytes gave %#x, the bits are %#x", k, start, n, got, m)
		}
		modelWrite(want, start-lo*8, k, v)
		if c.Bool() {
			bufio.WriteBits(data, start, k, v)
		} else {
			w.Offset = 0
			w.Seek(start)
			w.Write(k, v)
			if w.Offset != start+k {
				c.Failf("the writer is at bit %d after %d bits at %d", w.Offset, k, start)
			}
		}
		if !bytes.Equal(data[lo:hi], want) {
			c.Failf("WriteBits of %#x as %d bits at %d of %d bytes gave %x, want %x", v, k, start, n, data[lo:hi], want)
		}
		r.Offset = 0
		r.Seek(start)
		if got := r.Read(k); got != modelRead(want, start-lo*8, k) || r.Offset != start+k {
			c.Failf("read %#x back from %d bits at %d, now at %d", got, k, start, r.Offset)
		}
		if m := start / 8; start%8 == 0 && m+k <= n {
			b := c.Bytes(k)
			w.Offset = start
			w.WriteBytes(b)
			r.Offset = start
			if got := r.ReadBytes(k); !bytes.Equal(got, b) || !bytes.Equal(data[m:m+k], b) {
				c.Failf("%d bytes at bit %d: wrote %x, read %x", k, start, b, got)
			}
		}
		c.Eval(1)
		c.Ev("large_position", 1)
		c.Distinct(hashInts(n, start, k))
	}
}
