package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/lkmio/avformat/collections"
)

// ------------------------------------------------------------------- C09

// seqBox is what the queue and the ring buffer have in common.
type seqBox[T any] interface {
	IsEmpty() bool
	Push(T)
	Pop() T
	Head() T
	Tail() T
	Size() int
	Data() ([]T, []T)
	Clear()
}

type elem struct {
	n int
	s string
}

type seqDriver[T comparable] struct {
	c     *C
	name  string
	box   seqBox[T]
	queue *collections.Queue[T] // nil for the ring buffer
	cap   int                   // of the ring buffer
	model []T
	mk    func(n int) T
	n     int
	light bool
}

func (d *seqDriver[T]) loud(what string, f func() T) {
	var v T
	if !d.c.Panics(func() { v = f() }) {
		d.c.Failf("%s: %s returned %v instead of failing; contents %v", d.name, what, v, d.model)
	}
}

func (d *seqDriver[T]) check(after string) {
	c := d.c
	n := len(d.model)
	if got := d.box.Size(); got != n {
		c.Failf("%s after %s: size %d, model holds %d", d.name, after, got, n)
	}
	if d.box.IsEmpty() != (n == 0) {
		c.Failf("%s after %s: IsEmpty %v with %d elements", d.name, after, d.box.IsEmpty(), n)
	}
	if d.queue == nil {
		rb := d.box.(collections.RingBuffer[T])
		if rb.IsFull() != (n == d.cap) {
			c.Failf("%s after %s: IsFull %v with %d of %d elements", d.name, after, rb.IsFull(), n, d.cap)
		}
		if rb.Capacity() != d.cap {
			c.Failf("%s after %s: capacity %d, created with %d", d.name, after, rb.Capacity(), d.cap)
		}
	}
	a, b := d.box.Data()
	if len(a)+len(b) != n {
		c.Failf("%s after %s: bulk view holds %d+%d elements, model %d", d.name, after, len(a), len(b), n)
	}
	for i, m := range d.model {
		var v T
		if i < len(a) {
			v = a[i]
		} else {
			v = b[i-len(a)]
		}
		if v != m {
			c.Failf("%s after %s: bulk view element %d is %v, model %v", d.name, after, i, v, m)
		}
	}
	if n > 0 {
		if v := d.box.Head(); v != d.model[0] {
			c.Failf("%s after %s: head %v, model %v", d.name, after, v, d.model[0])
		}
		if v := d.box.Tail(); v != d.model[n-1] {
			c.Failf("%s after %s: tail %v, model %v", d.name, after, v, d.model[n-1])
		}
	} else if !d.light {
		d.loud("Head of an empty one", d.box.Head)
		d.loud("Tail of an empty one", d.box.Tail)
	}
	if d.queue != nil {
		for i, m := range d.model {
			if v := d.queue.Peek(i); v != m {
				c.Failf("%s after %s: Peek(%d) is %v, model %v", d.name, after, i, v, m)
			}
		}
		if !d.light {
			for _, i := range []int{n, n + 1, n + 7, -1} {
				d.loud(fmt.Sprintf("Peek(%d)", i), func() T { return d.queue.Peek(i) })
			}
		}
	}
}

func (d *seqDriver[T]) push() {
	d.n++
	v := d.mk(d.n)
	d.c.T("%s.Push(%v)", d.name, v)
	d.box.Push(v)
	if d.queue == nil && len(d.model) == d.cap {
		d.model = d.model[1:]
		d.c.Ev("push_while_full", 1)
	}
	d.model = append(d.model[:len(d.model):len(d.model)], v)
	d.check("Push")
}

func (d *seqDriver[T]) pop() {
	d.c.T("%s.Pop()", d.name)
	if len(d.model) == 0 {
		var zero, v T
		p := d.c.Panics(func() { v = d.box.Pop() })
		if d.queue == nil {
			if p || v != zero {
				d.c.Failf("%s: Pop of an empty ring buffer: %v (panicked: %v), want the zero value", d.name, v, p)
			}
		} else if !p && v != zero {
			d.c.Failf("%s: Pop of an empty queue invented %v", d.name, v)
		}
		d.c.Ev("pop_while_empty", 1)
	} else {
		v := d.box.Pop()
		if v != d.model[0] {
			d.c.Failf("%s: Pop gave %v, model %v", d.name, v, d.model)
		}
		d.model = d.model[1:]
	}
	d.check("Pop")
}

func (d *seqDriver[T]) popBack() {
	d.c.T("%s.PopBack()", d.name)
	n := len(d.model)
	if n == 0 {
		d.loud("PopBack of an empty one", d.queue.PopBack)
		d.c.Ev("popback_while_empty", 1)
	} else {
		v := d.queue.PopBack()
		if v != d.model[n-1] {
			d.c.Failf("%s: PopBack gave %v, model %v", d.name, v, d.model)
		}
		d.model = d.model[:n-1]
	}
	d.check("PopBack")
}

func (d *seqDriver[T]) clear() {
	d.c.T("%s.Clear()", d.name)
	d.box.Clear()
	d.model = nil
	d.check("Clear")
}

func newSeq[T comparable](c *C, queue bool, capa int, mk func(int) T) *seqDriver[T] {
	d := &seqDriver[T]{c: c, cap: capa, mk: mk}
	if queue {
		d.queue = collections.NewQueue[T](capa)
		d.box = d.queue
		d.name = fmt.Sprintf("queue(%d)", capa)
	} else {
		d.box = collections.NewRingBuffer[T](capa)
		d.name = fmt.Sprintf("ring(%d)", capa)
	}
	d.check("creation")
	return d
}

func (d *seqDriver[T]) op(k int) {
	switch k {
	case 0:
		d.push()
	case 1:
		d.pop()
	case 2:
		if d.queue != nil {
			d.popBack()
		} else {
			d.clear()
		}
	default:
		d.clear()
	}
}

func seqExhaustive(c *C, queue bool, capa, first, depth int) {
	al := 3
	if queue {
		al = 4
	}
	seq := make([]int, depth)
	seq[0], seq[1] = first/al, first%al
	if seq[0] >= al {
		return
	}
	for {
		d := newSeq(c, queue, capa, func(n int) int { return n })
		d.light = true
		for _, k := range seq {
			d.op(k)
		}
		d.light = false
		d.check("the sequence")
		c.Eval(1)
		c.Distinct(hashInts(append([]int{capa, al}, seq...)...))
		k := depth - 1
		for k >= 2 {
			seq[k]++
			if seq[k] < al {
				break
			}
			seq[k] = 0
			k--
		}
		if k < 2 {
			return
		}
		if c.st.Evals%4096 == 0 {
			c.Tick()
		}
	}
}

func seqRandom[T comparable](c *C, mk func(int) T) {
	queue := c.Bool()
	d := newSeq(c, queue, pick(c.Rng, []int{1, 2, 3, 4, 5, 7, 8, 16, 33}), mk)
	d.light = true
	bias := c.Range(2, 8)
	for i := 0; i < 150; i++ {
		switch r := c.N(10); {
		case r < bias:
			d.op(0)
		case r == 9 && c.N(8) == 0:
			d.clear()
		case queue && c.N(3) == 0:
			d.op(2)
		default:
			d.op(1)
		}
		d.light = c.N(16) != 0
		if c.N(30) == 0 {
			bias = c.Range(2, 8)
		}
		c.Eval(1)
	}
	c.Distinct(hashInts(d.cap, len(d.model), d.n, bias))
	c.Sample(func() string { return fmt.Sprintf("%s: 150 operations, %d pushes, %d left", d.name, d.n, len(d.model)) })
}

type listDriver struct {
	c     *C
	l     *collections.LinkedList[elem]
	model []elem
	n     int
}

func (d *listDriver) check(after string, loud bool) {
	c := d.c
	if d.l.Size() != len(d.model) {
		c.Failf("list after %s: size %d, model %d", after, d.l.Size(), len(d.model))
	}
	for i, m := range d.model {
		if v := d.l.Get(i); v != m {
			c.Failf("list after %s: element %d is %v, model %v", after, i, v, m)
		}
	}
	if !loud {
		return
	}
	for _, i := range []int{len(d.model), len(d.model) + 1, len(d.model) + 5, -1, -2} {
		var v elem
		if !c.Panics(func() { v = d.l.Get(i) }) {
			c.Failf("list after %s: Get(%d) of %d elements returned %v instead of failing", after, i, len(d.model), v)
		}
		if !c.Panics(func() { v = d.l.Remove(i) }) {
			c.Failf("list after %s: Remove(%d) of %d elements returned %v instead of failing", after, i, len(d.model), v)
		}
	}
	c.Ev("bad_index_refused", 1)
	d.check(after+" and refused accesses", false)
}

func (d *listDriver) add() {
	d.n++
	e := elem{d.n, "x"}
	d.c.T("Add(%v)", e)
	d.l.Add(e)
	d.model = append(d.model, e)
	d.check("Add", false)
}

func (d *listDriver) remove(i int) {
	d.c.T("Remove(%d) of %d", i, len(d.model))
	v := d.l.Remove(i)
	if v != d.model[i] {
		d.c.Failf("Remove(%d) gave %v, model %v", i, v, d.model)
	}
	d.model = append(append([]elem(nil), d.model[:i]...), d.model[i+1:]...)
	d.check(fmt.Sprintf("Remove(%d)", i), false)
	d.c.Ev("list_remove", 1)
}

func (d *listDriver) op(k int) {
	n := len(d.model)
	switch {
	case k == 0 || n == 0:
		d.add()
	case k == 1:
		d.remove(0)
	case k == 2:
		d.remove(n - 1)
	case k == 3:
		d.remove(n / 2)
	default:
		d.add()
		d.add()
	}
}

func listExhaustive(c *C, first, depth int) {
	const al = 5
	seq := make([]int, depth)
	seq[0], seq[1] = first/al, first%al
	for {
		d := &listDriver{c: c, l: &collections.LinkedList[elem]{}}
		for _, k := range seq {
			d.op(k)
		}
		d.check("the sequence", true)
		c.Eval(1)
		c.Distinct(hashInts(append([]int{77}, seq...)...))
		k := depth - 1
		for k >= 2 {
			seq[k]++
			if seq[k] < al {
				break
			}
			seq[k] = 0
			k--
		}
		if k < 2 {
			return
		}
		if c.st.Evals%4096 == 0 {
			c.Tick()
		}
	}
}

// ------------------------------------------------------------------- C10

type rcOp struct {
	kind int // 0 refer, 1 release, 2 count
}

type rcOut struct {
	last  bool
	count int32
}

func rcModel(init int32) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			s := state.(int32)
			o := out.(rcOut)
			switch in.(rcOp).kind {
			case 0:
				return true, s + 1
			case 1:
				return o.last == (s-1 == 0), s - 1
			default:
				return o.count == s, s
			}
		},
	}
}

// rcHistory runs holders that share, count and release, and checks the
// recorded history for linearizability against an atomic integer.
func rcHistory(c *C) {
	holders := c.Range(2, 4)
	opsPer := c.Range(2, 6)
	rc := collections.NewReferenceCounter[int](c.N(1000))
	init := int32(1)
	if n := rc.UseCount(); n != 1 {
		c.Failf("a new counter reads %d", n)
	}
	own := make([]int, holders)
	own[0] = 1
	for i := 1; i < holders; i++ {
		rc.Refer()
		init++
		own[i] = 1
	}
	seeds := make([]uint64, holders)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	var clock atomic.Int64
	logs := make([][]porcupine.Operation, holders)
	var start atomic.Int32
	var wg sync.WaitGroup
	for h := 0; h < holders; h++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &Rng{s: seeds[h]}
			n := own[h]
			var log []porcupine.Operation
			start.Add(1)
			for k := 0; start.Load() < int32(holders); k++ {
				if k > 2000 {
					runtime.Gosched()
				}
			}
			do := func(kind int) {
				op := porcupine.Operation{ClientId: h, Input: rcOp{kind}, Call: clock.Add(1)}
				var o rcOut
				switch kind {
				case 0:
					rc.Refer()
					n++
				case 1:
					o.last = rc.Release()
					n--
				default:
					o.count = rc.UseCount()
				}
				op.Output, op.Return = o, clock.Add(1)
				log = append(log, op)
			}
			for i := 0; i < opsPer && n > 0; i++ {
				do(r.N(3))
				if r.N(4) == 0 {
					runtime.Gosched()
				}
			}
			for n > 0 {
				do(1)
			}
			logs[h] = log
		}()
	}
	wg.Wait()
	var all []porcupine.Operation
	lasts, overlap := 0, 0
	sig := uint64(0)
	for _, l := range logs {
		for _, o := range l {
			if o.Input.(rcOp).kind == 1 {
				c.Ev("release", 1)
				if o.Output.(rcOut).last {
					lasts++
				}
			}
			if o.Return-o.Call > 1 {
				overlap++
			}
			sig = mix64(sig ^ uint64(o.Call)<<32 ^ uint64(o.Return))
		}
		all = append(all, l...)
	}
	c.Ev("overlapping_ops", overlap)
	c.Ev("history_ops", len(all))
	c.Distinct(sig)
	if lasts != 1 {
		c.Failf("%d releases reported dropping the last reference; history %v", lasts, all)
	}
	if rc.UseCount() != 0 {
		c.Failf("after all references were released the counter reads %d", rc.UseCount())
	}
	if !porcupine.CheckOperations(rcModel(init), all) {
		c.Failf("history is not that of an atomic counter starting at %d: %v", init, all)
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d holders, %d recorded operations, %d overlapping, linearizable", holders, len(all), overlap)
	})
}

type rcPayload struct {
	slots [16]int
	freed int
}

// rcStress: many rounds in which all holders drop their references at once;
// the last one reads what the others wrote to their slots before releasing.
func rcStress(c *C) {
	holders := c.Range(2, 8)
	rounds := 250
	extra := c.N(4)
	type round struct {
		rc    *collections.ReferenceCounter[*rcPayload]
		lasts atomic.Int32
		bad   atomic.Int64
	}
	rs := make([]*round, rounds)
	for i := range rs {
		rs[i] = &round{rc: collections.NewReferenceCounter(&rcPayload{})}
		for h := 1; h < holders; h++ {
			rs[i].rc.Refer()
		}
	}
	barrier := make([]atomic.Int32, rounds)
	var wg sync.WaitGroup
	for h := 0; h < holders; h++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, r := range rs {
				barrier[i].Add(1)
				for k := 0; barrier[i].Load() < int32(holders); k++ {
					if k > 100 {
						runtime.Gosched()
					}
				}
				p := r.rc.Get()
				for e := 0; e < extra; e++ {
					r.rc.Refer()
				}
				if n := r.rc.UseCount(); n < int32(1+extra) || n > int32(holders*(1+extra)) {
					r.bad.Store(int64(n) | 1<<40)
				}
				p.slots[h] = i + 1
				for e := 0; e <= extra; e++ {
					if r.rc.Release() {
						r.lasts.Add(1)
						if n := r.rc.UseCount(); n != 0 {
							r.bad.Store(int64(n) | 1<<41)
						}
						for s := 0; s < holders; s++ {
							if p.slots[s] != i+1 {
								r.bad.Store(1 << 42)
							}
						}
						p.freed++
					}
				}
			}
		}()
	}
	wg.Wait()
	for i, r := range rs {
		if n := r.lasts.Load(); n != 1 {
			c.Failf("round %d with %d holders of %d references: %d releases reported dropping the last one", i, holders, 1+extra, n)
		}
		if b := r.bad.Load(); b != 0 {
			c.Failf("round %d with %d holders: impossible reading %#x (bit 40: count outside what was held, bit 41: count after the last release, bit 42: last releaser before the others)", i, holders, b)
		}
		if p := r.rc.Get(); p.freed != 1 || r.rc.UseCount() != 0 {
			c.Failf("round %d: freed %d times, count %d", i, p.freed, r.rc.UseCount())
		}
	}
	c.Ev("stress_rounds", rounds)
	c.Eval(rounds)
	c.Distinct(hashInts(holders, extra))
}

// rcSequential: the plain integer semantics and the payload.
func rcSequential(c *C) {
	want := []byte{1}
	rc := collections.NewReferenceCounter[[]byte](want)
	n := int32(1)
	for i := 0; i < 60; i++ {
		switch c.N(4) {
		case 0:
			k := c.N(20)
			if c.P(1, 2500) { // a packet shared with very many consumers
				k = pick(c.Rng, []int{1 << 8, 1<<15 - 1, 1 << 15, 1 << 16, 1<<16 + c.N(100), 1<<17 + c.N(1000)})
				c.Ev("many_references", 1)
			}
			for ; k >= 0; k-- {
				rc.Refer()
				n++
				if n&(n-1) == 0 && rc.UseCount() != n {
					c.Failf("count %d, references held %d", rc.UseCount(), n)
				}
			}
		case 1:
			if n > 0 {
				k := c.N(int(n) + 1)
				for ; k > 0; k-- {
					n--
					if last := rc.Release(); last != (n == 0) {
						c.Failf("release to %d reported last=%v", n, last)
					}
					c.Ev("release", 1)
				}
			}
		case 2:
			want = c.Bytes(c.N(5))
			rc.ResetData(want)
		}
		if n == 0 {
			c.Ev("reached_zero", 1)
			if rc.UseCount() != 0 {
				c.Failf("count %d after the last release", rc.UseCount())
			}
			if c.Bool() { // replacing the payload is not taking a reference
				want = c.Bytes(c.N(5))
				rc.ResetData(want)
				if g := rc.Get(); rc.UseCount() != 0 || len(g) != len(want) {
					c.Failf("count %d, payload of %d bytes after setting a payload of %d bytes with nothing referenced", rc.UseCount(), len(g), len(want))
				}
				c.Ev("reset_at_zero", 1)
			}
			rc = collections.NewReferenceCounter(want)
			n = 1
		}
		if rc.UseCount() != n {
			c.Failf("count %d, references held %d", rc.UseCount(), n)
		}
		got := rc.Get()
		if len(got) != len(want) || (len(got) > 0 && &got[0] != &want[0]) {
			c.Failf("payload is not the one last set")
		}
		c.Eval(1)
		c.Distinct(hashInts(int(n), i&7))
	}
}

func listRandom(c *C) {
	d := &listDriver{c: c, l: &collections.LinkedList[elem]{}}
	bias := c.Range(3, 7)
	for i := 0; i < 120; i++ {
		if n := len(d.model); n == 0 || c.N(10) < bias {
			d.add()
		} else {
			d.remove(pick(c.Rng, []int{0, n - 1, c.N(n), c.N(n)}))
		}
		if c.N(12) == 0 {
			d.check("random operations", true)
		}
		if c.N(30) == 0 {
			bias = c.Range(2, 8)
		}
		c.Eval(1)
	}
	c.Distinct(hashInts(len(d.model), d.n, bias))
}

func init() {
	caps := []int{1, 2, 3, 4, 5}
	register(&Prop{
		ID:   "C09",
		Rule: "operation sequences on queue, ring buffer and linked list (bounded-exhaustive for small capacities, random beyond), every observer compared with a sequence model after every operation, non-existing ends and indices probed; distinct = distinct complete sequences",
		Need: []string{"push_while_full", "pop_while_empty", "popback_while_empty", "bad_index_refused", "list_remove"},
		Families: []*Family{
			{Name: "queue-exhaustive", Quick: 16 * len(caps), Thorough: 16 * len(caps), Run: func(c *C) {
				depth := 8
				if c.tier == "thorough" {
					depth = 11
				}
				seqExhaustive(c, true, caps[c.idx%len(caps)], c.idx/len(caps), depth)
			}},
			{Name: "ring-exhaustive", Quick: 9 * len(caps), Thorough: 9 * len(caps), Run: func(c *C) {
				depth := 11
				if c.tier == "thorough" {
					depth = 14
				}
				seqExhaustive(c, false, caps[c.idx%len(caps)], c.idx/len(caps), depth)
			}},
			{Name: "list-exhaustive", Quick: 25, Thorough: 25, Run: func(c *C) {
				depth := 8
				if c.tier == "thorough" {
					depth = 10
				}
				listExhaustive(c, c.idx, depth)
			}},
			{Name: "seq-random", Quick: 12000, Thorough: 400000, Run: func(c *C) {
				switch c.N(3) {
				case 0:
					seqRandom(c, func(n int) int { return n })
				case 1:
					seqRandom(c, func(n int) *elem { return &elem{n, "p"} })
				default:
					seqRandom(c, func(n int) elem { return elem{n, fmt.Sprint(n)} })
				}
			}},
			{Name: "seq-large", Quick: 400, Thorough: 12000, Run: seqLargeRun},
			{Name: "list-large", Quick: 30, Thorough: 600, Run: listLarge},
			{Name: "list-random", Quick: 6000, Thorough: 160000, Run: listRandom},
		},
	})
	register(&Prop{
		ID:   "C10",
		Rule: "concurrent histories of holders that share, count and release, checked for linearizability against an atomic integer (porcupine); stress rounds with simultaneous last releases; race detector; distinct = distinct interleavings of call and return events",
		Need: []string{"release", "overlapping_ops", "stress_rounds", "reached_zero"},
		Families: []*Family{
			{Name: "sequential", Quick: 8000, Thorough: 240000, Run: rcSequential},
			{Name: "history", Quick: 20000, Thorough: 400000, RaceQ: 4000, RaceT: 40000, Run: rcHistory},
			{Name: "stress", Quick: 400, Thorough: 12000, RaceQ: 60, RaceT: 1500, Run: rcStress},
		},
	})
}
