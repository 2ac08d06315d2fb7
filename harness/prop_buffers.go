package main

import (
	"bytes"
	"fmt"
	"unsafe"

	av "github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
)

// ---- shadow model of a block buffer -------------------------------------
//
// A block is what was written between two fetches. It stays alive until it is
// popped (oldest first) or popped back (newest first). The bytes of every
// fetched, unreleased block are compared after every operation.

type sblk struct {
	data []byte // what was written
	done bool   // fetched
	got  []byte // the slice the buffer handed out
}

type shadow struct {
	name     string
	blks     []*sblk
	lastAddr uintptr
	// linear buffer only
	all   []byte // appended since last empty
	dirty bool   // a newest block was dropped since last empty
}

func (s *shadow) pending() *sblk {
	if n := len(s.blks); n > 0 && !s.blks[n-1].done {
		return s.blks[n-1]
	}
	return nil
}

func (s *shadow) pendingSize() int {
	if b := s.pending(); b != nil {
		return len(b.data)
	}
	return 0
}

func (s *shadow) append(p []byte) {
	b := s.pending()
	if b == nil {
		b = &sblk{}
		s.blks = append(s.blks, b)
	}
	b.data = append(b.data, p...)
	s.all = append(s.all, p...)
}

func (s *shadow) emptied() {
	if len(s.blks) == 0 {
		s.all = s.all[:0]
		s.dirty = false
	}
}

func (s *shadow) pop() {
	s.blks = s.blks[1:]
	s.emptied()
}

func (s *shadow) popBack() {
	s.blks = s.blks[:len(s.blks)-1]
	s.dirty = true
	s.emptied()
}

func (s *shadow) clear() { s.blks = nil; s.emptied() }

func (s *shadow) verify(c *C, what string) {
	for i, b := range s.blks {
		if b.done && !bytes.Equal(b.got, b.data) {
			c.Failf("%s: after %s, unreleased block %d of %d changed: has %s, written %s", s.name, what, i, len(s.blks), hexs(b.got), hexs(b.data))
		}
	}
}

func hexs(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

func addr(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(unsafe.SliceData(b)))
}

// bbDriver applies operations to a real block buffer and its shadow.
type bbDriver struct {
	c      *C
	b      collections.BlockBuffer
	s      *shadow
	linear bool
	capa   int
	sealed bool
	wraps  int
	grows  int
	every  int // verify all blocks only after every so many operations
	calls  int
}

func (d *bbDriver) check(what string) {
	c := d.c
	if d.calls++; d.every == 0 || d.calls%d.every == 0 {
		d.s.verify(c, what)
	}
	if d.sealed {
		return
	}
	if got, want := d.b.PendingBlockSize(), d.s.pendingSize(); got != want {
		c.Failf("%s: after %s the pending block size is %d, unfetched bytes are %d", d.s.name, what, got, want)
	}
	n := d.b.Size()
	if n < 0 || n > len(d.s.blks) {
		c.Failf("%s: after %s the buffer reports %d blocks, %d are unreleased", d.s.name, what, n, len(d.s.blks))
	}
	if d.linear {
		if n != len(d.s.blks) {
			c.Failf("%s: after %s the buffer reports %d blocks, %d are unreleased", d.s.name, what, n, len(d.s.blks))
		}
		if d.b.AvailableBytes() < 0 {
			c.Failf("%s: after %s negative available bytes", d.s.name, what)
		}
		if !d.s.dirty {
			if v, ok := d.b.(interface{ Data() []byte }); ok {
				if got := v.Data(); !bytes.Equal(got, d.s.all) {
					c.Failf("%s: after %s the data view is %s, appended since last empty %s", d.s.name, what, hexs(got), hexs(d.s.all))
				}
			}
		}
	}
}

func (d *bbDriver) write(n int) {
	p := d.c.Bytes(n)
	keep := append([]byte(nil), p...)
	avail := d.b.AvailableBytes()
	d.c.T("%s.Write(%d bytes)", d.s.name, n)
	d.b.Write(p)
	for i := range p {
		p[i] ^= 0xA5 // the caller's slice is the caller's
	}
	d.s.append(keep)
	if d.linear && n <= avail {
		if a := d.b.AvailableBytes(); a != avail-n {
			d.c.Failf("%s: writing %d bytes moved the available bytes from %d to %d", d.s.name, n, avail, a)
		}
	}
	d.check("Write")
}

func (d *bbDriver) alloc(n int) {
	d.c.T("%s.Alloc(%d)", d.s.name, n)
	s := d.b.Alloc(n)
	if len(s) != n {
		d.c.Failf("%s: Alloc(%d) returned %d bytes", d.s.name, n, len(s))
	}
	// fill only after the call, as a reader into the allocated space would
	d.c.Fill(s)
	d.s.append(s)
	d.check("Alloc")
}

func (d *bbDriver) fetch() bool {
	if len(d.s.blks) == 0 {
		return false
	}
	d.c.T("%s.Fetch()", d.s.name)
	b := d.s.pending()
	var got []byte
	if b == nil {
		// refusing loudly is as good as returning nothing
		d.c.Try(func() { got = d.b.Fetch() })
	} else {
		got = d.b.Fetch()
	}
	if b == nil {
		if len(got) != 0 {
			d.c.Failf("%s: Fetch with nothing pending returned %s", d.s.name, hexs(got))
		}
		d.check("empty Fetch")
		return true
	}
	if !bytes.Equal(got, b.data) {
		d.c.Failf("%s: Fetch returned %s, written %s", d.s.name, hexs(got), hexs(b.data))
	}
	b.done, b.got = true, got
	if a := addr(got); a != 0 {
		if d.s.lastAddr != 0 {
			diff := int64(a) - int64(d.s.lastAddr)
			if diff < 0 && -diff < int64(d.capa) {
				d.wraps++
			} else if diff > int64(d.capa) || -diff > int64(d.capa) {
				d.grows++
			}
		}
		d.s.lastAddr = a
	}
	d.check("Fetch")
	return true
}

func (d *bbDriver) pop() bool {
	if len(d.s.blks) == 0 {
		return false
	}
	d.c.T("%s.Pop()", d.s.name)
	d.b.Pop()
	d.s.pop()
	d.check("Pop")
	return true
}

func (d *bbDriver) popBack() bool {
	if len(d.s.blks) == 0 {
		return false
	}
	d.c.T("%s.PopBack()", d.s.name)
	d.b.PopBack()
	d.s.popBack()
	d.check("PopBack")
	return true
}

func (d *bbDriver) clear() {
	d.c.T("%s.Clear()", d.s.name)
	d.b.Clear()
	d.s.clear()
	d.sealed = false
	d.check("Clear")
}

func newDriver(c *C, linear bool, capa int, name string) *bbDriver {
	d := &bbDriver{c: c, linear: linear, capa: capa, s: &shadow{name: name}}
	if linear {
		d.b = collections.NewDirectBlockBuffer(capa)
	} else {
		d.b = collections.NewRBBlockBuffer(capa)
	}
	c.T("%s := new buffer, linear=%v capacity=%d", name, linear, capa)
	return d
}

// bias steers a random run: how many blocks are kept unreleased on average.
func bufRandom(c *C, linear bool, capa, ops, maxSize int) {
	d := newDriver(c, linear, capa, "b")
	keep := c.Range(0, 12)
	popb := c.N(8)
	frag := c.Range(1, 6)
	allocs := c.N(3)
	sig := uint64(0)
	for i := 0; i < ops; i++ {
		switch r := c.N(20); {
		case r < 10:
			for k := c.Range(1, frag); k > 0; k-- {
				n := c.SizeSkewed(maxSize)
				if c.N(3) < allocs {
					d.alloc(n)
				} else {
					d.write(n)
				}
				c.Ev("write", 1)
			}
			if c.N(10) > 0 {
				d.fetch()
				c.Ev("fetch", 1)
			}
			if c.N(16) < popb {
				d.popBack()
				c.Ev("pop_back", 1)
			}
		case r < 18:
			for len(d.s.blks) > keep && c.N(6) > 0 {
				d.pop()
				c.Ev("pop", 1)
			}
			if c.N(6) == 0 {
				d.pop()
			}
		case r == 18:
			if c.N(6) == 0 {
				d.clear()
				c.Ev("clear", 1)
			}
		default:
			d.fetch()
		}
		sig = hashInts(int(sig&0xffff), len(d.s.blks), d.wraps, d.grows)
		c.Eval(1)
		c.Distinct(hashInts(capa, len(d.s.blks), d.s.pendingSize(), d.wraps&7, d.grows&3, int(sig&0xff)))
	}
	for len(d.s.blks) > 0 {
		d.pop()
	}
	c.Ev("wrap_observed", d.wraps)
	c.Ev("regrow_observed", d.grows)
	c.Sample(func() string {
		return fmt.Sprintf("capacity %d, %d ops, max write %d, keeps ~%d blocks: %d wraps, %d growths seen", capa, ops, maxSize, keep, d.wraps, d.grows)
	})
}

// bufExhaustive replays every applicable operation sequence up to a depth.
type bbOp struct {
	name string
	run  func(d *bbDriver) bool
}

func wOp(n int) bbOp {
	return bbOp{fmt.Sprintf("W%d", n), func(d *bbDriver) bool { d.write(n); return true }}
}
func wfOp(n int) bbOp {
	return bbOp{fmt.Sprintf("WF%d", n), func(d *bbDriver) bool { d.write(n); d.fetch(); return true }}
}

var (
	fOp = bbOp{"F", func(d *bbDriver) bool {
		if d.s.pending() == nil {
			return false
		}
		return d.fetch()
	}}
	pOp = bbOp{"P", func(d *bbDriver) bool { return d.pop() }}
	bOp = bbOp{"B", func(d *bbDriver) bool { return d.popBack() }}
)

func bufExhaustive(c *C, linear bool, capa int, alphabet []bbOp, prefix []int, depth int) {
	seq := make([]int, depth)
	copy(seq, prefix)
	n := len(alphabet)
	for {
		d := newDriver(c, linear, capa, "b")
		stop := -1
		for i := 0; i < depth; i++ {
			if !alphabet[seq[i]].run(d) {
				stop = i
				break
			}
		}
		c.Eval(1)
		if d.wraps > 0 {
			c.Ev("wrap_observed", 1)
		}
		if d.grows > 0 {
			c.Ev("regrow_observed", 1)
		}
		c.Ev("fetch", 1)
		if stop < 0 {
			c.Distinct(hashInts(append([]int{capa}, seq...)...))
		}
		// next sequence; an inapplicable operation prunes its whole subtree
		k := depth - 1
		if stop >= 0 {
			k = stop
			for j := k + 1; j < depth; j++ {
				seq[j] = 0
			}
		}
		for k >= len(prefix) {
			seq[k]++
			if seq[k] < n {
				break
			}
			seq[k] = 0
			k--
		}
		if k < len(prefix) {
			return
		}
		if c.st.Evals%4096 == 0 {
			c.Tick()
		}
	}
}

var exAlpha = [][]bbOp{
	{wfOp(1), wfOp(2), wfOp(3), pOp, bOp},
	{wOp(1), wOp(2), fOp, pOp, bOp, wfOp(3)},
	{wfOp(1), wfOp(4), wOp(0), fOp, pOp},
	{wfOp(2), wfOp(3), wfOp(7), pOp, bOp},
}

func exhaustiveFamily(linear bool, quickDepth, thoroughDepth int) *Family {
	caps := []int{4, 5, 6, 8}
	per := 36
	return &Family{Name: "exhaustive-small", Quick: len(caps) * len(exAlpha) * per, Thorough: len(caps) * len(exAlpha) * per, Run: func(c *C) {
		i := c.idx
		capa := caps[i%len(caps)]
		i /= len(caps)
		al := exAlpha[i%len(exAlpha)]
		i /= len(exAlpha)
		a, b := i/6, i%6
		if a >= len(al) || b >= len(al) {
			return
		}
		depth := quickDepth
		if c.tier == "thorough" {
			depth = thoroughDepth
		}
		bufExhaustive(c, linear, capa, al, []int{a, b}, depth)
	}}
}

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "operation sequences on the ring block buffer (bounded-exhaustive for capacities 4-8, random for 1..2 MB); after every operation all unreleased fetched blocks are compared with shadow copies; distinct = distinct complete sequences (exhaustive) or distinct (capacity, unreleased blocks, pending size, wraps, growths, recent history) states (random)",
		Need: []string{"fetch", "pop", "pop_back"},
		Families: []*Family{
			exhaustiveFamily(false, 8, 10),
			{Name: "random-small", Quick: 18000, Thorough: 360000, Run: func(c *C) {
				capa := pick(c.Rng, []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64, 100, 256})
				m := pick(c.Rng, []int{capa / 4, capa / 2, capa, capa + capa/2, 3})
				if m < 1 {
					m = 1
				}
				bufRandom(c, false, capa, 250, m)
			}},
			{Name: "random-fifo", Quick: 6000, Thorough: 120000, Run: func(c *C) { ringFifo(c) }},
			{Name: "random-large", Quick: 42, Thorough: 700, Run: func(c *C) {
				capa := pick(c.Rng, []int{4096, 65536, 576000, 2 << 20})
				bufRandom(c, false, capa, 80, pick(c.Rng, []int{capa / 16, capa / 5, capa / 2, capa + 100}))
			}},
			{Name: "many-blocks", Quick: 160, Thorough: 4000, Run: ringMany},
			{Name: "large-blocks", Quick: 28, Thorough: 500, Run: func(c *C) { pendingLarge(c, false) }},
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "operation sequences on the linear block buffer and on split-off families of linear and ring buffers, shadow-compared after every operation; distinct as for C06 plus split-tree shapes",
		Need: []string{"fetch", "split", "refused_write", "reuse_after_clear"},
		Families: []*Family{
			exhaustiveFamily(true, 8, 10),
			{Name: "random", Quick: 12000, Thorough: 240000, Run: func(c *C) {
				capa := pick(c.Rng, []int{0, 1, 2, 3, 5, 8, 16, 24, 64, 256, 4096})
				m := pick(c.Rng, []int{capa / 4, capa, capa + capa/2, 3})
				if m < 1 {
					m = 1
				}
				bufRandom(c, true, capa, 200, m)
			}},
			{Name: "large-blocks", Quick: 28, Thorough: 500, Run: func(c *C) { pendingLarge(c, true) }},
			{Name: "split", Quick: 60000, Thorough: 1200000, Run: splitRun},
		},
	})
	register(&Prop{
		ID:   "C08",
		Rule: "interleaved operation sequences over 1-7 stream indices in random first-use order on the per-stream pipeline, and on the direct pipeline; distinct = (index order, unreleased counts, pending sizes) states",
		Need: []string{"fetch", "discard_head", "discard_back", "direct_fetch", "seek_back", "first_use_out_of_order"},
		Families: []*Family{
			{Name: "streams", Quick: 1050, Thorough: 18000, Run: streamsRun},
			{Name: "streams-large", Quick: 28, Thorough: 400, Run: streamsLarge},
			{Name: "direct", Quick: 18000, Thorough: 300000, Run: directRun},
		},
	})
}

// ringFifo: the steady packet pattern, blocks of similar size, with sizes that
// exactly fill the space to the oldest block.
func ringFifo(c *C) {
	unit := c.Range(1, 5)
	capa := unit * c.Range(2, 9)
	d := newDriver(c, false, capa, "b")
	depth := c.Range(1, 8)
	for i := 0; i < 300; i++ {
		n := unit * c.Range(1, 3)
		if c.N(9) == 0 {
			n = capa
		}
		if c.Bool() {
			d.write(n)
		} else {
			d.write(n - n/2)
			d.alloc(n / 2)
		}
		d.fetch()
		c.Ev("fetch", 1)
		if c.N(12) == 0 {
			d.popBack()
			c.Ev("pop_back", 1)
		}
		for len(d.s.blks) > depth {
			d.pop()
			c.Ev("pop", 1)
		}
		if c.N(40) == 0 {
			depth = c.Range(0, 8)
		}
		c.Eval(1)
		c.Distinct(hashInts(capa, unit, len(d.s.blks), d.wraps&15, d.grows&7))
	}
	c.Ev("wrap_observed", d.wraps)
	c.Ev("regrow_observed", d.grows)
}

func splitRun(c *C) {
	capa := pick(c.Rng, []int{0, 1, 4, 8, 16, 24, 40, 100})
	m := capa/3 + 2
	lin := c.N(4) > 0
	ds := []*bbDriver{newDriver(c, lin, capa, "b0")}
	shape := uint64(0)
	ops := c.Range(10, 60)
	for i := 0; i < ops; i++ {
		d := pick(c.Rng, ds)
		if d.sealed {
			switch c.N(4) {
			case 0:
				// further writes to the original are refused and change nothing
				n := c.Range(1, m)
				c.T("%s.Write(%d) must be refused", d.s.name, n)
				p, _ := c.Try(func() {
					if c.Bool() {
						d.b.Write(c.Bytes(n))
					} else {
						_ = d.b.Alloc(n)
					}
				})
				if p == nil {
					c.Failf("%s accepted a write after being split off", d.s.name)
				}
				c.Ev("refused_write", 1)
				if v, ok := d.b.(interface{ Data() []byte }); ok && d.linear && !d.s.dirty {
					if !bytes.Equal(v.Data(), d.s.all) {
						c.Failf("%s: data view changed after split-off", d.s.name)
					}
				}
			case 1:
				if c.N(3) == 0 {
					d.clear()
					c.Ev("reuse_after_clear", 1)
				}
			}
		} else {
			switch r := c.N(12); {
			case r < 6:
				d.write(c.SizeSkewed(m))
				if c.N(4) > 0 {
					d.fetch()
					c.Ev("fetch", 1)
				}
			case r < 7:
				d.alloc(c.SizeSkewed(m))
			case r < 8:
				d.pop()
			case r < 9:
				d.popBack()
			case r < 10:
				if c.N(4) == 0 {
					d.clear()
				}
			default:
				if len(ds) < 5 {
					avail := d.b.AvailableBytes()
					c.T("%s := %s.SplitOff()", fmt.Sprintf("b%d", len(ds)), d.s.name)
					nb := d.b.SplitOff()
					d.sealed = true
					nd := &bbDriver{c: c, b: nb, s: &shadow{name: fmt.Sprintf("b%d", len(ds))}, capa: avail + 1}
					_, isRing := nb.(*collections.RBBlockBuffer)
					nd.linear = !isRing
					if nb.Size() != 0 || nb.PendingBlockSize() != 0 {
						c.Failf("split-off buffer is not empty: %d blocks, %d pending", nb.Size(), nb.PendingBlockSize())
					}
					if d.linear && nb.AvailableBytes() != avail {
						c.Failf("split-off buffer holds %d free bytes, the original had %d", nb.AvailableBytes(), avail)
					}
					nd.check("SplitOff")
					ds = append(ds, nd)
					c.Ev("split", 1)
					shape = mix64(shape ^ uint64(len(d.s.blks)<<8|len(ds)))
				}
			}
		}
		// nothing done to one may change what the others hold
		for _, o := range ds {
			o.s.verify(c, "an operation on "+d.s.name)
			if o.linear && !o.s.dirty {
				if v, ok := o.b.(interface{ Data() []byte }); ok && !bytes.Equal(v.Data(), o.s.all) {
					c.Failf("data view of %s changed by an operation on %s", o.s.name, d.s.name)
				}
			}
		}
		c.Eval(1)
	}
	c.Distinct(hashInts(capa, len(ds), int(shape&0xffffff), len(ds[0].s.blks)))
	c.Sample(func() string {
		return fmt.Sprintf("capacity %d linear=%v: %d buffers after %d ops", capa, lin, len(ds), ops)
	})
}

// ------------------------------------------------------------- pipelines

type streamShadow struct {
	shadow
	live int // blocks written since the newest was last dropped: only those can be dropped again
}

func streamsDrive(c *C, ns, ops, maxSize int) {
	sb := &av.StreamsBuffer{}
	var dp av.DataPipeline = sb
	order := make([]int, ns)
	for i := range order {
		order[i] = i
	}
	for i := ns - 1; i > 0; i-- {
		j := c.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	types := make([]utils.AVMediaType, ns)
	ss := make([]*streamShadow, ns)
	used := make([]bool, ns)
	for i := range ss {
		ss[i] = &streamShadow{shadow: shadow{name: fmt.Sprintf("stream %d", i)}}
		types[i] = pick(c.Rng, []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio, utils.AVMediaTypeData})
	}
	next := 0
	for i := 0; i < ops; i++ {
		var x int
		if next < ns && (next == 0 || c.N(4) == 0) {
			x = order[next]
			if x > next {
				c.Ev("first_use_out_of_order", 1)
			}
			next++
			used[x] = true
			// first use: a write or a size query
			if c.N(4) == 0 {
				c.T("PendingBlockSize(%d) as first use", x)
				if n := dp.PendingBlockSize(x); n != 0 {
					c.Failf("unused stream %d has %d pending bytes", x, n)
				}
				continue
			}
		} else {
			x = order[c.N(next)]
		}
		s := ss[x]
		switch r := c.N(14); {
		case r < 7 || len(s.blks) == 0:
			for k := c.Range(1, 4); k > 0; k-- {
				p := c.Bytes(c.SizeSkewed(maxSize))
				keep := append([]byte(nil), p...)
				c.T("Write(stream %d, %d bytes)", x, len(p))
				_, err := dp.Write(p, x, types[x])
				if err != nil {
					c.Failf("write to stream %d failed: %v", x, err)
				}
				for i := range p {
					p[i] = 0xEE
				}
				if s.pending() == nil {
					s.live++
				}
				s.append(keep)
			}
		case r < 11:
			if s.pending() != nil {
				c.T("Fetch(stream %d)", x)
				got, err := dp.Fetch(x)
				b := s.pending()
				if err != nil || !bytes.Equal(got, b.data) {
					c.Failf("fetch of stream %d: error %v, got %s, written %s", x, err, hexs(got), hexs(b.data))
				}
				b.done, b.got = true, got
				c.Ev("fetch", 1)
				if c.N(5) == 0 && s.live > 0 {
					c.T("DiscardBackPacket(stream %d)", x)
					dp.DiscardBackPacket(x)
					s.popBack()
					s.live = 0
					c.Ev("discard_back", 1)
				}
			}
		case r < 13:
			for len(s.blks) > 0 && s.blks[0].done {
				c.T("DiscardHeadPacket(stream %d)", x)
				if c.N(5) == 0 {
					sb.Discard(x)
				} else {
					dp.DiscardHeadPacket(x)
				}
				s.pop()
				if s.live > len(s.blks) {
					s.live = len(s.blks)
				}
				c.Ev("discard_head", 1)
				if c.N(3) == 0 {
					break
				}
			}
		}
		for j, o := range ss {
			if !used[j] {
				continue
			}
			o.verify(c, fmt.Sprintf("an operation on stream %d", x))
			if n := dp.PendingBlockSize(j); n != o.pendingSize() {
				c.Failf("after an operation on stream %d, stream %d reports %d pending bytes, unfetched are %d", x, j, n, o.pendingSize())
			}
		}
		c.Eval(1)
		c.Distinct(hashInts(ns, x, order[0], len(s.blks), s.pendingSize()))
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d streams, first use order %v, %d ops, writes up to %d bytes", ns, order, ops, maxSize)
	})
}

func streamsRun(c *C) {
	if c.P(1, 150) { // as many elementary streams as a program can have
		streamsDrive(c, pick(c.Rng, []int{c.Range(17, 40), c.Range(17, 40), c.Range(60, 140)}), 250, pick(c.Rng, []int{10, 400}))
		c.Ev("many_streams", 1)
		return
	}
	streamsDrive(c, c.Range(1, 6), 250, pick(c.Rng, []int{10, 400, 5000}))
}
func streamsLarge(c *C) {
	streamsDrive(c, c.Range(1, 3), 120, pick(c.Rng, []int{150000, 400000, 900000}))
}

func directRun(c *C) {
	p := &av.DirectDataPipeline{}
	var dp av.DataPipeline = p
	var pend []byte
	var last, lastGot []byte
	sizes := []int{4, 40, 3000}
	if c.P(1, 600) { // whole pictures, and files in one piece
		sizes = []int{40, 70000, 300000, 1200000}
		c.Ev("direct_large", 1)
	}
	for i := 0; i < 80; i++ {
		x := c.N(3)
		switch r := c.N(10); {
		case r < 6:
			b := c.Bytes(c.SizeSkewed(pick(c.Rng, sizes)))
			c.T("Write(%d)", len(b))
			if _, err := dp.Write(b, x, utils.AVMediaTypeVideo); err != nil {
				c.Failf("write failed: %v", err)
			}
			pend = append(pend, b...)
			c.Fill(b)
			last, lastGot = nil, nil // valid only until the next write
		case r < 8:
			c.T("Fetch")
			got, err := dp.Fetch(x)
			if err != nil || !bytes.Equal(got, pend) {
				c.Failf("fetch: error %v, got %s, written since %s", err, hexs(got), hexs(pend))
			}
			last, lastGot = append([]byte(nil), pend...), got
			pend = nil
			c.Ev("direct_fetch", 1)
		case r < 9:
			k := c.N(len(pend) + 3)
			if len(sizes) > 3 && c.Bool() {
				k = c.N(200)
			}
			if c.P(1, 15) {
				k = pick(c.Rng, []int{1 << 31, 1<<31 - 1, 1 << 32, 1 << 33, 1<<32 + len(pend), 1 << 62})
			}
			c.T("Seek(-%d)", k)
			if err := p.Seek(int64(-k), x); err != nil {
				c.Failf("seek back failed: %v", err)
			}
			if k > len(pend) {
				k = len(pend)
			}
			pend = pend[:len(pend)-k]
			c.Ev("seek_back", 1)
		default:
			if c.Bool() {
				dp.DiscardHeadPacket(x)
			} else {
				dp.DiscardBackPacket(x)
			}
		}
		if n := dp.PendingBlockSize(x); n != len(pend) {
			c.Failf("pending size %d, unfetched bytes %d", n, len(pend))
		}
		if lastGot != nil && !bytes.Equal(lastGot, last) {
			c.Failf("fetched bytes changed before the next write")
		}
		c.Eval(1)
		c.Distinct(hashInts(len(pend), i&15))
	}
}
