package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/lkmio/avformat/bufio"
)

// ------------------------------------------------------------------- C23

// guarded returns a slice of n bytes with spare capacity on both sides of its
// window, and a function that reports whether anything outside was changed.
func guarded(r *Rng, n int) ([]byte, func() bool) {
	pre, post := r.Range(1, 9), r.Range(1, 24)
	mem := r.Bytes(pre + n + post)
	copyMem := append([]byte(nil), mem...)
	w := mem[pre : pre+n]
	return w, func() bool {
		return bytes.Equal(mem[:pre], copyMem[:pre]) && bytes.Equal(mem[pre+n:], copyMem[pre+n:])
	}
}

func getBit(b []byte, i int) byte { return b[i/8] >> (7 - i%8) & 1 }

func setBit(b []byte, i int, v byte) {
	m := byte(1) << (7 - i%8)
	b[i/8] &^= m
	if v != 0 {
		b[i/8] |= m
	}
}

func modelRead(b []byte, start, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(getBit(b, start+i))
	}
	return
}

func modelWrite(b []byte, start, n int, v uint64) {
	for i := 0; i < n; i++ {
		setBit(b, start+i, byte(v>>(n-1-i))&1)
	}
}

func bitsRange(c *C, data []byte, ok func() bool, start, n int, v uint64) {
	want := append([]byte(nil), data...)
	if got := bufio.ReadBits(data, start, n); got != modelRead(want, start, n) {
		c.Failf("ReadBits(%x, %d, %d) = %#x, the bits are %#x", data, start, n, got, modelRead(want, start, n))
	}
	before := append([]byte(nil), data...)
	modelWrite(want, start, n, v)
	bufio.WriteBits(data, start, n, v)
	if !bytes.Equal(data, want) {
		c.Failf("WriteBits(%x, %d, %d, %#x) gave %x, want %x", before, start, n, v, data, want)
	}
	if n < 64 {
		v &= 1<<n - 1
	}
	if got := bufio.ReadBits(data, start, n); got != v {
		c.Failf("wrote %#x to bits %d+%d, read back %#x", v, start, n, got)
	}
	if !ok() {
		c.Failf("bytes outside the slice changed (range %d+%d of %d bytes)", start, n, len(data))
	}
	c.Eval(1)
}

func bitsExhaustive(c *C) {
	size := c.idx/4 + 1
	for start := 0; start <= size*8; start++ {
		for n := 0; n <= 64 && start+n <= size*8; n++ {
			for k := 0; k < 6; k++ {
				data, ok := guarded(c.Rng, size)
				v := c.U64()
				switch k {
				case 0:
					v = 0
				case 1:
					v = math.MaxUint64
				case 2:
					v = 1
				case 3:
					for i := range data {
						data[i] = byte(0 - (c.idx & 1))
					}
				}
				bitsRange(c, data, ok, start, n, v)
				c.Distinct(hashInts(size, start, n))
			}
		}
	}
	c.Ev("bit_range", 1)
}

func bitsSequential(c *C) {
	n := c.Range(1, 40)
	data, ok := guarded(c.Rng, n)
	want := append([]byte(nil), data...)
	w := &bufio.BitsWriter{Data: data}
	type step struct {
		kind, n int
		v       uint64
		b       []byte
	}
	var steps []step
	pos := 0
	for pos < n*8 {
		left := n*8 - pos
		s := step{kind: c.N(4), n: c.Range(0, 64)}
		if s.n > left {
			s.n = left
		}
		switch s.kind {
		case 0, 1:
			s.v = c.U64()
			if c.N(4) != 0 && s.n < 64 {
				s.v &= 1<<s.n - 1
			}
			w.Write(s.n, s.v)
			modelWrite(want, pos, s.n, s.v)
		case 2:
			w.Seek(s.n)
		default:
			if pos%8 != 0 {
				continue
			}
			s.b = c.Bytes(c.N(left/8 + 1))
			s.n = len(s.b) * 8
			w.WriteBytes(s.b)
			copy(want[pos/8:], s.b)
		}
		pos += s.n
		if w.Offset != pos {
			c.Failf("writer is at bit %d after %+v, want %d", w.Offset, s, pos)
		}
		if !bytes.Equal(data, want) {
			c.Failf("after %+v ending at bit %d: %x, want %x", s, pos, data, want)
		}
		steps = append(steps, s)
		c.Ev("seq_write", 1)
		if c.N(12) == 0 {
			break
		}
	}
	r := &bufio.BitsReader{Data: data}
	pos = 0
	for _, s := range steps {
		switch s.kind {
		case 0, 1:
			v := s.v
			if s.n < 64 {
				v &= 1<<s.n - 1
			}
			if got := r.Read(s.n); got != v {
				c.Failf("read %d bits at %d: %#x, written %#x", s.n, pos, got, v)
			}
		case 2:
			r.Seek(s.n)
		default:
			if got := r.ReadBytes(len(s.b)); !bytes.Equal(got, s.b) {
				c.Failf("ReadBytes at bit %d: %x, written %x", pos, got, s.b)
			}
		}
		pos += s.n
		if r.Offset != pos {
			c.Failf("reader is at bit %d, want %d", r.Offset, pos)
		}
		c.Ev("seq_read", 1)
	}
	if !bytes.Equal(data, want) || !ok() {
		c.Failf("reading changed memory or something was written outside the slice")
	}
	// beyond the end: nothing outside the slice may be written, nothing before the range either
	start, k := n*8-c.N(n*8+1), c.Range(1, 64)
	if start+k > n*8 {
		before := append([]byte(nil), data...)
		if c.Bool() {
			if p, st := c.Try(func() { bufio.WriteBits(data, start, k, c.U64()) }); p != nil {
				c.Failf("WriteBits over the end panicked: %v %s", p, st)
			}
		} else {
			if p, st := c.Try(func() { bufio.ReadBits(data, start, k) }); p != nil {
				c.Failf("ReadBits over the end panicked: %v %s", p, st)
			}
			// callers recognise missing data by the position
			r := &bufio.BitsReader{Data: data, Offset: start}
			if r.Read(k); r.Offset != start+k {
				c.Failf("reading %d bits at %d over the end of %d bytes leaves the reader at bit %d", k, start, n, r.Offset)
			}
		}
		for i := 0; i < start; i++ {
			if getBit(before, i) != getBit(data, i) {
				c.Failf("access of %d bits at %d over the end changed bit %d", k, start, i)
			}
		}
		if !ok() {
			c.Failf("access of %d bits at %d over the end of %d bytes changed memory outside", k, start, n)
		}
		c.Ev("over_the_end", 1)
	}
	c.Distinct(hashInts(n, len(steps), pos))
}

// oddReader is a conforming byte source with unhelpful habits.
type oddReader struct {
	r    *Rng
	data []byte
	mode int // 0 plain, 1 one byte, 2 empty reads, 3 data with EOF, 4 all of these
	err  error
}

func (o *oddReader) Read(p []byte) (int, error) {
	mode := o.mode
	if mode == 4 {
		mode = o.r.N(4)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(o.data) == 0 {
		return 0, o.err
	}
	if mode == 2 && o.r.N(3) == 0 {
		return 0, nil
	}
	n := copy(p, o.data)
	if mode == 1 {
		n = 1
	}
	o.data = o.data[n:]
	if mode == 3 && len(o.data) == 0 {
		return n, o.err
	}
	return n, nil
}

type golItem struct {
	kind int // 0 ue, 1 se, 2 bit, 3 bits, 4 bits32, 5 bits64
	n    int
	v    int64
	u    uint64
	end  int // bit position behind it
}

var errSource = errors.New("source failed")

func golombRun(c *C) {
	w := &bitw{}
	var items []golItem
	for k := c.Range(1, 30); k > 0; k-- {
		it := golItem{kind: c.N(6)}
		switch it.kind {
		case 0:
			it.u = c.U64() >> (32 + c.N(32))
			if it.u == math.MaxUint32 {
				it.u--
			}
			if c.N(6) == 0 {
				it.u = pick(c.Rng, []uint64{0, 1, 2, 254, 255, 256, 65534, 65535, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1<<33 - 2})
			}
			if c.N(12) == 0 {
				it.u = 1<<32 - 1 + c.U64()>>32 // 32 leading zeros
			}
			w.ue(it.u)
		case 1:
			it.v = int64(c.U64()>>(33+c.N(31))) - int64(c.U64()>>(33+c.N(31)))
			if c.N(6) == 0 {
				it.v = pick(c.Rng, []int64{0, 1, -1, 2, -2, 127, -128, 1<<30 - 1, 1 << 30, -(1 << 30), 1<<31 - 1, -(1<<31 - 1), 1 << 31, -(1 << 31), 1<<32 - 1, -(1<<32 - 1)})
			}
			w.se(it.v)
		case 2:
			it.n = 1
			it.u = c.U64() & 1
			w.u(1, it.u)
		case 3, 5:
			it.n = c.Range(0, 64)
			it.u = c.U64()
			if it.n < 64 {
				it.u &= 1<<it.n - 1
			}
			w.u(it.n, it.u)
		case 4:
			it.n = c.Range(0, 32)
			it.u = c.U64() & (1<<it.n - 1)
			w.u(it.n, it.u)
		}
		it.end = w.n
		items = append(items, it)
	}
	for w.n%8 != 0 {
		w.u(1, uint64(c.N(2)))
	}
	full := w.b
	cut := len(full)
	if c.Bool() {
		cut = c.N(len(full) + 1)
	}
	src := &oddReader{r: c.Rng, data: append([]byte(nil), full[:cut]...), mode: c.N(5), err: pick(c.Rng, []error{io.EOF, errSource})}
	keep := src.data
	g := &bufio.GolombBitReader{R: src}
	pos := 0
	for i, it := range items {
		var u uint64
		var v int64
		var err error
		switch it.kind {
		case 0:
			var x uint
			x, err = g.ReadExponentialGolombCode()
			u = uint64(x)
		case 1:
			var x uint
			x, err = g.ReadSE()
			v = int64(x)
		case 2:
			var x uint
			x, err = g.ReadBit()
			u = uint64(x)
		case 3:
			var x uint
			x, err = g.ReadBits(it.n)
			u = uint64(x)
		case 4:
			var x uint32
			x, err = g.ReadBits32(uint(it.n))
			u = uint64(x)
		case 5:
			u, err = g.ReadBits64(uint(it.n))
		}
		c.Eval(1)
		if it.end > cut*8 {
			if err == nil {
				c.Failf("item %d (%+v at bit %d) read without error from a source of %d bytes", i, it, pos, cut)
			}
			c.Ev("source_end_reported", 1)
			// what is left can be read bit by bit, then the end stays the end
			left := 0
			for err = nil; err == nil; left++ {
				if _, err = g.ReadBit(); left > cut*8-pos {
					c.Failf("after item %d failed, %d bits were read although only %d were left", i, left, cut*8-pos)
				}
			}
			for n := c.Range(1, 9); n > 0; n-- {
				if x, err := g.ReadBits64(uint(c.Range(1, 12))); err == nil {
					c.Failf("%d read without error after the source of %d bytes had ended", x, cut)
				}
			}
			c.Ev("read_after_end", 1)
			break
		}
		if err != nil {
			c.Failf("item %d (%+v at bit %d of %d bytes, reader mode %d): error %v", i, it, pos, cut, src.mode, err)
		}
		if u != it.u || v != it.v {
			c.Failf("item %d (%+v at bit %d): read %d/%d", i, it, pos, u, v)
		}
		pos = it.end
		// exactly the code's bytes are consumed
		if used := cut - len(src.data); used != (pos+7)/8 {
			c.Failf("after item %d ending at bit %d, %d bytes were taken from the source", i, pos, used)
		}
		c.Ev([]string{"ue", "se", "bit", "bits", "bits32", "bits64"}[it.kind], 1)
		c.Distinct(hashInts(it.kind, it.end-pos, pos%8, int(it.u&0xff), int(it.v&0xff)))
	}
	if !bytes.Equal(keep, full[:cut]) {
		c.Failf("reading changed the source bytes")
	}
	c.Distinct(hashInts(src.mode, cut, len(items)))
	c.Sample(func() string {
		return fmt.Sprintf("%d items over %d of %d bytes, reader mode %d", len(items), cut, len(full), src.mode)
	})
}

// golombExhaustive: every small value, at every bit alignment.
func golombExhaustive(c *C) {
	align := c.idx % 8
	for v := 0; v < 3000; v++ {
		w := &bitw{}
		w.u(align, 0)
		w.ue(uint64(v))
		e1 := w.n
		w.se(int64(v))
		w.se(int64(-v))
		w.ue(uint64(v)*715827 + 3)
		w.u(1, 1)
		e2 := w.n
		for w.n%8 != 0 {
			w.u(1, 0)
		}
		g := &bufio.GolombBitReader{R: bytes.NewReader(w.b)}
		_, _ = g.ReadBits(align)
		a, err := g.ReadExponentialGolombCode()
		if err != nil || a != uint(v) {
			c.Failf("ue(%d) at bit %d..%d read as %d, %v", v, align, e1, a, err)
		}
		p, err1 := g.ReadSE()
		m, err2 := g.ReadSE()
		if err1 != nil || err2 != nil || int(p) != v || int(m) != -v {
			c.Failf("se(%d), se(%d) read as %d, %d (%v %v)", v, -v, int(p), int(m), err1, err2)
		}
		big, err := g.ReadExponentialGolombCode()
		if err != nil || uint64(big) != uint64(v)*715827+3 {
			c.Failf("ue(%d) read as %d, %v", uint64(v)*715827+3, big, err)
		}
		if b, err := g.ReadBit(); err != nil || b != 1 {
			c.Failf("wrong bit behind codes ending at %d: %d %v", e2, b, err)
		}
		c.Eval(1)
		c.Ev("ue", 2)
		c.Ev("se", 2)
		c.Distinct(hashInts(align, v, 5))
	}
}

// ------------------------------------------------------------------- C24

var hugeSizes = []int{-1, -2, -3, -8, math.MaxInt, math.MaxInt - 1, math.MinInt, math.MinInt + 1, math.MaxInt32, math.MinInt32, 1 << 40, -(1 << 40)}

func cursorRun(c *C) { cursorOver(c, []int{0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 100}, 60) }

func cursorLarge(c *C) {
	wins, ops := []int{255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131072}, 60
	if c.idx%8 == 0 {
		wins = []int{300000, 1 << 20, 1<<20 + 70000}
	}
	if c.idx%100 == 0 {
		wins, ops = []int{1<<24 - 1, 1 << 24, 1<<24 + 70000}, 20
	}
	cursorOver(c, wins, ops)
	c.Ev("large_window", 1)
}

func cursorOver(c *C, wins []int, ops int) {
	large := wins[0] > 100
	n := pick(c.Rng, wins)
	data, ok := guarded(c.Rng, n)
	model := append([]byte(nil), data...)
	writer := c.Bool()
	var rd bufio.BytesReader
	var wr bufio.BytesWriter
	var bb bufio.BytesBuffer
	if writer {
		wr = bufio.NewBytesWriter(data)
		bb = wr
	} else {
		rd = bufio.NewBytesReader(data)
		bb = rd
	}
	pos := 0
	type ret struct{ got, want []byte }
	var held []ret
	sig := uint64(0)
	check := func(op string) {
		if bb.Offset() != pos {
			c.Failf("after %s the position is %d, want %d", op, bb.Offset(), pos)
		}
		if bb.ReadableBytes() != n-pos {
			c.Failf("after %s %d bytes are left, want %d", op, bb.ReadableBytes(), n-pos)
		}
		if rem := bb.RemainingBytes(); !bytes.Equal(rem, model[pos:]) || (len(rem) > 0 && &rem[0] != &data[pos]) {
			c.Failf("after %s the remaining view is wrong: %x, want %x", op, rem, model[pos:])
		}
		if writer {
			if wv := wr.WrittenBytes(); !bytes.Equal(wv, model[:pos]) {
				c.Failf("after %s the written view is %x, want %x", op, wv, model[:pos])
			}
		}
		if !bytes.Equal(data, model) {
			c.Failf("after %s the data is %x, want %x", op, data, model)
		}
		if !ok() {
			c.Failf("%s changed memory outside the window", op)
		}
	}
	check("creation")
	// move applies the outcome of an operation over size bytes
	outcome := func(op string, err error, fits bool) bool {
		if (err == nil) != fits {
			c.Failf("%s at %d of %d: error %v, fits %v", op, pos, n, err, fits)
		}
		if fits {
			c.Ev("succeeded", 1)
		} else {
			c.Ev("refused", 1)
		}
		return fits
	}
	size := func() int {
		if large && c.N(3) != 0 {
			switch c.N(7) {
			case 5, 6:
				if n-pos > 100000 {
					return n - pos - c.N(60000)
				}
				return c.N(400) - 200
			case 0:
				return pick(c.Rng, []int{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20, 1 << 24}) * (1 - 2*c.N(2))
			case 1:
				return c.N(n - pos + 2)
			case 2:
				return -c.N(pos + 2)
			case 3:
				return c.N(n + 2)
			}
			return c.N(65536)
		}
		switch c.N(6) {
		case 0:
			return pick(c.Rng, hugeSizes)
		case 1:
			return n - pos
		case 2:
			return n - pos + 1
		case 3:
			return -pos
		case 4:
			return -pos - 1
		}
		return c.Range(-4, 10)
	}
	for i := 0; i < ops; i++ {
		var op string
		k := c.N(12)
		sig = mix64(sig ^ uint64(k)<<8 ^ uint64(pos))
		if p, st := c.Try(func() {
			switch k {
			case 0, 1:
				s := size()
				op = fmt.Sprintf("Seek(%d)", s)
				c.T("%s", op)
				// target computed without overflow
				fits := (s >= 0 && s <= n-pos) || (s < 0 && s >= -pos)
				if outcome(op, bb.Seek(s), fits) {
					pos += s
				}
				if s < 0 {
					c.Ev("negative_seek", 1)
				}
			case 2, 3:
				s := size()
				op = fmt.Sprintf("SeekBack(%d)", s)
				c.T("%s", op)
				fits := (s >= 0 && s <= pos) || (s < 0 && s >= -(n-pos))
				if outcome(op, bb.SeekBack(s), fits) {
					pos -= s
				}
			case 4:
				if c.N(5) != 0 {
					op = "nothing"
					return
				}
				op = "Clear"
				c.T("%s", op)
				bb.Clear()
				pos = 0
			case 5:
				if c.N(8) != 0 {
					op = "nothing"
					return
				}
				if !writer {
					held = nil
				}
				n = pick(c.Rng, []int{0, 1, 5, 9, 40})
				if large && c.N(4) != 0 {
					n = pick(c.Rng, wins)
				}
				op = fmt.Sprintf("Reset(%d bytes)", n)
				c.T("%s", op)
				data, ok = guarded(c.Rng, n)
				if n == 0 && c.Bool() {
					data = nil
				}
				model = append([]byte(nil), data...)
				bb.Reset(data)
				pos = 0
			default:
				w := pick(c.Rng, []int{1, 2, 3, 4, 8, 0})
				if writer && w == 3 {
					w = 4
				}
				s := size()
				if w != 0 {
					s = w
				} else if writer && (s < 0 || s > n+1000) {
					s = c.N(n + 4)
				}
				op = fmt.Sprintf("access of %d bytes (kind %d)", s, w)
				c.T("%s", op)
				fits := s >= 0 && s <= n-pos
				var err error
				var v uint64
				if !writer {
					switch w {
					case 1:
						var x uint8
						x, err = rd.ReadUint8()
						v = uint64(x)
					case 2:
						var x uint16
						x, err = rd.ReadUint16()
						v = uint64(x)
					case 3:
						var x uint32
						x, err = rd.ReadUint24()
						v = uint64(x)
					case 4:
						var x uint32
						x, err = rd.ReadUint32()
						v = uint64(x)
					case 8:
						v, err = rd.ReadUint64()
					default:
						var got []byte
						got, err = rd.ReadBytes(s)
						if err == nil && fits {
							if !bytes.Equal(got, model[pos:pos+s]) {
								c.Failf("ReadBytes(%d) at %d gave %x, want %x", s, pos, got, model[pos:pos+s])
							}
							held = append(held, ret{got, append([]byte(nil), got...)})
						}
					}
					if outcome(op, err, fits) {
						if w != 0 && v != modelRead(model, pos*8, w*8) {
							c.Failf("%s at %d gave %#x, the bytes are %x", op, pos, v, model[pos:pos+w])
						}
						pos += s
					}
				} else {
					v = c.U64()
					var payload []byte
					switch w {
					case 1:
						err = wr.WriteUint8(uint8(v))
					case 2:
						err = wr.WriteUint16(uint16(v))
					case 4:
						err = wr.WriteUint32(uint32(v))
					case 8:
						err = wr.WriteUint64(v)
					default:
						payload = c.Bytes(s)
						pc := append([]byte(nil), payload...)
						err = wr.Write(payload)
						if !bytes.Equal(pc, payload) {
							c.Failf("Write changed the bytes it was given")
						}
					}
					if outcome(op, err, fits) {
						if w != 0 {
							modelWrite(model, pos*8, w*8, v)
						} else {
							copy(model[pos:], payload)
						}
						pos += s
					}
				}
			}
		}); p != nil {
			c.Failf("%s at %d of %d panicked: %v %s", op, pos, n, p, st)
		}
		check(op)
		for _, h := range held {
			if !bytes.Equal(h.got, h.want) {
				c.Failf("after %s, bytes handed out earlier changed", op)
			}
		}
		c.Eval(1)
	}
	c.Distinct(sig)
	c.Sample(func() string {
		return fmt.Sprintf("writer=%v window %d, %d operations, ends at %d", writer, n, ops, pos)
	})
}

// cursorGrid: every position of small windows against every interesting size.
func cursorGrid(c *C) {
	for n := 0; n <= 12; n++ {
		for pos := 0; pos <= n; pos++ {
			sizes := append([]int(nil), hugeSizes...)
			for s := -14; s <= 14; s++ {
				sizes = append(sizes, s)
			}
			for _, base := range hugeSizes {
				sizes = append(sizes, base-pos, base+pos, base-n)
			}
			for _, s := range sizes {
				for k := 0; k < 4; k++ {
					data := c.Bytes(n)
					keep := append([]byte(nil), data...)
					r := bufio.NewBytesReader(data)
					if r.Seek(pos) != nil {
						c.Failf("Seek(%d) in %d bytes refused", pos, n)
					}
					var err error
					var fits bool
					want := pos
					p, st := c.Try(func() {
						switch k {
						case 0:
							fits = (s >= 0 && s <= n-pos) || (s < 0 && s >= -pos)
							err = r.Seek(s)
							want += s
						case 1:
							fits = (s >= 0 && s <= pos) || (s < 0 && s >= -(n-pos))
							err = r.SeekBack(s)
							want -= s
						case 2:
							fits = s >= 0 && s <= n-pos
							var b []byte
							b, err = r.ReadBytes(s)
							want += s
							if fits && err == nil && !bytes.Equal(b, keep[pos:pos+s]) {
								c.Failf("ReadBytes(%d) at %d of %d gave %x of %x", s, pos, n, b, keep)
							}
						default:
							if s < 0 || s > 64 {
								fits, err = true, nil
								return
							}
							w := bufio.NewBytesWriter(data)
							_ = w.Seek(pos)
							pl := c.Bytes(s)
							fits = s <= n-pos
							err = w.Write(pl)
							if fits {
								copy(keep[pos:], pl)
							}
							if fits == (err == nil) && fits && w.Offset() != pos+s {
								c.Failf("Write of %d at %d moved to %d", s, pos, w.Offset())
							}
						}
					})
					if p != nil {
						c.Failf("operation %d with size %d at %d of %d panicked: %v %s", k, s, pos, n, p, st)
					}
					if (err == nil) != fits {
						c.Failf("operation %d with size %d at %d of %d: error %v, fits %v", k, s, pos, n, err, fits)
					}
					if !fits || k == 3 {
						want = pos
					}
					if r.Offset() != want || r.ReadableBytes() != n-want || !bytes.Equal(data, keep) {
						c.Failf("operation %d with size %d at %d of %d: position %d want %d, left %d", k, s, pos, n, r.Offset(), want, r.ReadableBytes())
					}
					c.Eval(1)
					c.Distinct(hashInts(n, pos, s, k))
				}
			}
		}
	}
	// 24-bit helpers
	for i := 0; i < 2000; i++ {
		v := uint32(c.U64() & 0xffffff)
		b, ok := guarded(c.Rng, 3)
		bufio.PutUint24(b, v)
		if bufio.Uint24(b) != v || uint32(modelRead(b, 0, 24)) != v || !ok() {
			c.Failf("PutUint24(%#x) gave %x, read back %#x", v, b, bufio.Uint24(b))
		}
	}
	c.Ev("grid", 1)
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "bit ranges (every start and length in slices of 1-10 bytes, several data patterns), random sequential bit writes and read-backs with guard bytes around the slice, random Exp-Golomb streams over five kinds of byte source with truncation; distinct = distinct (size,start,length), (alignment,value) and stream shapes",
		Need: []string{"bit_range", "seq_write", "seq_read", "over_the_end", "ue", "se", "source_end_reported"},
		Families: []*Family{
			{Name: "ranges", Quick: 40, Thorough: 72, Run: bitsExhaustive},
			{Name: "sequential", Quick: 240000, Thorough: 6400000, Run: bitsSequential},
			{Name: "large", Quick: 100, Thorough: 1500, Run: bitsLarge},
			{Name: "golomb", Quick: 320000, Thorough: 8000000, Run: golombRun},
			{Name: "golomb-exhaustive", Quick: 16, Thorough: 160, Run: golombExhaustive},
		},
	})
	register(&Prop{
		ID:   "C24",
		Rule: "operation sequences on byte readers and writers against a cursor model, with guard bytes around the window, and the full grid of positions in windows of 0-12 bytes against small, negative, huge and overflowing sizes; distinct = distinct operation/position histories and grid points",
		Need: []string{"succeeded", "refused", "negative_seek", "grid"},
		Families: []*Family{
			{Name: "sequences", Quick: 200000, Thorough: 5000000, Run: cursorRun},
			{Name: "large", Quick: 800, Thorough: 16000, Run: cursorLarge},
			{Name: "grid", Quick: 14, Thorough: 140, Run: cursorGrid},
		},
	})
}
