package vsched

import (
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// Happens-before state caching. Every operation on a shared object extends the hash of the thread that
// performs it by the hash of the object's history; the sum over all threads then identifies the
// happens-before graph of the execution so far, and with it the state of a race-free program. A scheduling
// or environment choice that is reached with a graph (and a running thread) seen before leads to nothing
// new: the explorer cuts the execution there. Operations are made dependent wherever in doubt.

// Obj is the history of a shared object: reads commute with each other, writes with nothing.
type Obj struct {
	ep   uint64
	w, r uint64
}

const timeID = 252 // the actor that lets time pass when nobody can run

func mix(a, b uint64) uint64 {
	v := a*0x9E3779B97F4A7C15 + (b<<31 | b>>33)
	v ^= v >> 29
	v *= 0xBF58476D1CE4E5B9
	v ^= v >> 32
	v *= 0x94D049BB133111EB
	return v ^ v>>30
}

var epoch uint64

func (e *Exec) actor() int {
	if e.inTime {
		return timeID
	}
	return e.cur.id
}

func (e *Exec) bump(v uint64) uint64 {
	id := e.actor()
	o := e.hs[id]
	n := mix(o, v)
	e.hs[id] = n
	e.key += mix(uint64(id)+1, n) - mix(uint64(id)+1, o)
	return n
}

func (e *Exec) touch(o *Obj, write bool) {
	if o.ep != e.epoch {
		*o = Obj{ep: e.epoch}
	}
	if write {
		o.w = e.bump(mix(o.w, o.r) | 1)
		o.r = 0
	} else {
		o.r += e.bump(mix(o.w, 7) &^ 1)
	}
}

// Touch notes an access of the running goroutine to a shared object.
func Touch(o *Obj, write bool) {
	if x != nil && !x.aborted {
		x.touch(o, write)
	}
}

type addrObj struct {
	p unsafe.Pointer
	o Obj
}

// TouchAddr is Touch for the object at an address.
func TouchAddr(p unsafe.Pointer, write bool) {
	if x == nil || x.aborted {
		return
	}
	// no map: the runtime's map operations carry race instrumentation
	var o *Obj
	for _, c := range x.addrs {
		if c.p == p {
			o = &c.o
			break
		}
	}
	if o == nil {
		c := &addrObj{p: p}
		o = &c.o
		x.addrs = append(x.addrs, c)
	}
	x.touch(o, write)
}

// learn makes the running goroutine depend on the event with hash h.
func (e *Exec) learn(h uint64) { e.bump(h) }

// Learn makes the running goroutine depend on the event with hash h.
func Learn(h uint64) {
	if x != nil && !x.aborted {
		x.learn(h)
	}
}

// Event is the hash of the running goroutine's last event.
func Event() uint64 {
	if x == nil {
		return 0
	}
	return x.hs[x.actor()]
}

// learnAll makes the actor depend on everything that has happened.
func (e *Exec) learnAll() { e.bump(e.key) }

// local is a choice of the running goroutine that depends on nobody else.
func (e *Exec) local(v uint64) { e.bump(mix(v, 11)) }

// visit is called at a choice that is not part of the prefix; it ends the execution if the state is known.
func (e *Exec) visit(cur int, kind uint64) {
	if e.seen == nil || e.nocache {
		return
	}
	k := mix(e.key, uint64(cur+2)*64+kind)
	if e.seen.audit {
		e.marks = append(e.marks, mark{k, len(e.ops)})
		return
	}
	if !e.seen.add(k, e.pre) {
		e.Cut = true
		e.stop()
	}
}

// Cache holds the states seen, each with the number of deviations it was reached with.
type Cache struct {
	m      []uint64 // open addressing, 0 is free; the low 4 bits are the deviations
	n      int
	known  int  // of them, counted elsewhere
	shared bool // m is memory shared with the processes of the other shards
	audit  bool
	fp     map[uint64]uint64
	Hits   int64
	Bad    string
}

type mark struct {
	key uint64
	op  int
}

// NewCache makes a cache; an auditing one never cuts but compares what follows equal states.
func NewCache(audit bool) *Cache {
	return &Cache{m: make([]uint64, 1<<12), audit: audit, fp: map[uint64]uint64{}}
}

// add reports whether the state is new, or reached with fewer deviations than before.
func (c *Cache) add(k uint64, pre int) bool {
	if 2*c.n > len(c.m) && !c.shared {
		o := c.m
		c.m, c.n = make([]uint64, 2*len(o)), 0
		for _, v := range o {
			if v != 0 {
				c.put(v)
			}
		}
	}
	if pre > 15 {
		pre = 15
	}
	if k < 16 {
		k += 16
	}
	if !c.put(k&^15 | uint64(pre)) {
		c.Hits++
		return false
	}
	return true
}

// put works on memory that other processes write at the same time: a lost entry means that a state is
// explored twice.
func (c *Cache) put(v uint64) bool {
	mask := len(c.m) - 1
	for i, n := int(v>>4)&mask, 0; n < 64 || !c.shared; i, n = (i+1)&mask, n+1 {
		o := c.m[i]
		if o == 0 {
			c.m[i] = v
			c.n++
			return true
		}
		if o>>4 == v>>4 {
			if o&15 <= v&15 {
				return false
			}
			c.m[i] = v
			return true
		}
	}
	return true // no room: not remembered
}

// share moves the states to a file that the processes of all shards map.
func (c *Cache) share(path string, size int) error {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(int64(size) * 8); err != nil {
		return err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	o := c.m
	c.m, c.shared = unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), size), true
	n := c.n
	for _, v := range o {
		if v != 0 {
			c.put(v)
		}
	}
	c.n = n
	return nil
}

// Len is the number of states seen.
func (c *Cache) Len() int {
	if c.audit {
		return len(c.fp)
	}
	return c.n - c.known
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix(h, uint64(len(s)))
}

// check compares the rest of the execution after each marked state with that of its earlier visit.
func (c *Cache) check(e *Exec) {
	if len(e.marks) == 0 || e.nocache {
		return
	}
	suf := make([]uint64, len(e.ops)+1)
	suf[len(e.ops)] = hashStr(hashStr(1469598103934665603, e.Out), e.Fail)
	for i := len(e.ops) - 1; i >= 0; i-- {
		suf[i] = hashStr(suf[i+1], e.ops[i])
	}
	for _, m := range e.marks {
		f := suf[m.op]
		if o, ok := c.fp[m.key]; ok {
			c.Hits++
			if o != f && c.Bad == "" {
				c.Bad = "two executions with the same happens-before graph go on differently"
			}
		} else {
			c.fp[m.key] = f
		}
	}
}

// NoCache switches state caching off for this execution (for sources of non-determinism that are not objects).
func NoCache() {
	if x != nil {
		x.nocache = true
	}
}

// StampI is Stamp at the invocation of an operation, StampR at its response: invocations commute with
// each other and so do responses, as only whether a response precedes an invocation matters.
//
//go:noinline
func StampI() int64 {
	x.stamp++
	x.bump(mix(x.resps, 3))
	return x.stamp
}

//go:noinline
func StampR() int64 {
	x.stamp++
	x.resps += x.bump(5)
	return x.stamp
}

// Serial is a number that the running goroutine has not used before; with the id it is unique.
func Serial() (id int, n int64) {
	if x == nil {
		return 0, 0
	}
	if x.aborted {
		runtime.Goexit()
	}
	g := x.cur
	g.serial++
	return g.id, g.serial
}
