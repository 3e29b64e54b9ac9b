package simrt

// Chan stands in for a channel; blocking and wake-up are the scheduler's.
type Chan[T any] struct {
	buf    []T
	size   int
	closed bool
	sendq  []*party[T]
	recvq  []*party[T]
	vc     VC
}

// wait is one blocked operation, possibly offered to several channels.
type wait struct {
	done bool
	idx  int
}

type party[T any] struct {
	w   *wait
	idx int
	v   T
	ok  bool
	c   *Case[T]
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{size: n}
}

// MakeAny is make of a named channel type.
func MakeAny[C ~*Chan[T], T any](n int) C { return MakeChan[T](n) }

// ChanOf gives any named channel type the methods below.
func ChanOf[T any](c *Chan[T]) *Chan[T] { return c }

func (c *Chan[T]) meet() { c.vc.Acquire(); c.vc.Release() }

func first[T any](q *[]*party[T]) *party[T] {
	for len(*q) > 0 {
		p := (*q)[0]
		*q = (*q)[1:]
		if !p.w.done {
			return p
		}
	}
	return nil
}

func live[T any](q []*party[T]) bool {
	for _, p := range q {
		if !p.w.done {
			return true
		}
	}
	return false
}

func (c *Chan[T]) finish(p *party[T], v T, ok bool) {
	p.v, p.ok = v, ok
	if p.c != nil {
		p.c.V, p.c.OK = v, ok
	}
	p.w.done, p.w.idx = true, p.idx
}

func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if p := first(&c.recvq); p != nil {
		c.meet()
		c.finish(p, v, true)
		return true
	}
	if len(c.buf) < c.size {
		c.meet()
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if len(c.buf) > 0 {
		c.meet()
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		if p := first(&c.sendq); p != nil {
			c.buf = append(c.buf, p.v)
			c.finish(p, p.v, true)
		}
		return v, true, true
	}
	if p := first(&c.sendq); p != nil {
		c.meet()
		c.finish(p, p.v, true)
		return p.v, true, true
	}
	if c.closed {
		c.meet()
		return v, false, true
	}
	return v, false, false
}

// Send is c <- v.
func (c *Chan[T]) Send(v T, site uint32) {
	if Aborting() {
		return
	}
	YI(site)
	if c == nil {
		Wait(func() bool { return false }, "a nil channel")
	}
	if c.trySend(v) {
		YI(site)
		return
	}
	w := &wait{}
	p := &party[T]{w: w, v: v}
	c.vc.Release()
	c.sendq = append(c.sendq, p)
	Wait(func() bool { return w.done }, "a channel send")
	c.vc.Acquire()
	if !p.ok {
		panic("send on closed channel")
	}
}

// Recv is <-c.
func (c *Chan[T]) Recv(site uint32) T {
	v, _ := c.Recv2(site)
	return v
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2(site uint32) (v T, ok bool) {
	if Aborting() {
		return
	}
	YI(site)
	if c == nil {
		Wait(func() bool { return false }, "a nil channel")
	}
	v, ok, done := c.tryRecv()
	if done {
		YI(site)
		return v, ok
	}
	w := &wait{}
	p := &party[T]{w: w}
	c.vc.Release()
	c.recvq = append(c.recvq, p)
	Wait(func() bool { return w.done }, "a channel receive")
	c.vc.Acquire()
	return p.v, p.ok
}

// Close is close(c).
func (c *Chan[T]) Close(site uint32) {
	if Aborting() {
		return
	}
	YI(site)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.meet()
	c.closed = true
	var z T
	for p := first(&c.recvq); p != nil; p = first(&c.recvq) {
		c.finish(p, z, false)
	}
	for p := first(&c.sendq); p != nil; p = first(&c.sendq) {
		c.finish(p, z, false)
	}
	YI(site)
}

// Len and Cap are len(c) and cap(c).
func (c *Chan[T]) Len() int {
	YI(0)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.size
}

// Case is one communication of a select statement.
type Case[T any] struct {
	V    T
	OK   bool
	ch   *Chan[T]
	send bool
}

// SelSend and SelRecv name a communication of a select statement.
func SelSend[T any](c *Chan[T], v T) *Case[T] { return &Case[T]{ch: c, V: v, send: true} }
func SelRecv[T any](c *Chan[T]) *Case[T]      { return &Case[T]{ch: c} }

// SendCase is SelSend for values that convert to the element type.
func (c *Chan[T]) SendCase(v T) *Case[T] { return SelSend(c, v) }

// RecvCase is SelRecv.
func (c *Chan[T]) RecvCase() *Case[T] { return SelRecv(c) }

// Comm is what Select needs of a case.
type Comm interface {
	try() bool
	offer(w *wait, idx int)
	woken()
}

func (k *Case[T]) ready() bool {
	c := k.ch
	switch {
	case c == nil:
		return false
	case c.closed:
		return true
	case k.send:
		return len(c.buf) < c.size || live(c.recvq)
	}
	return len(c.buf) > 0 || live(c.sendq)
}

func (k *Case[T]) try() bool {
	if !k.ready() {
		return false
	}
	if k.send {
		return k.ch.trySend(k.V)
	}
	v, ok, done := k.ch.tryRecv()
	k.V, k.OK = v, ok
	return done
}

func (k *Case[T]) offer(w *wait, idx int) {
	if k.ch == nil {
		return
	}
	p := &party[T]{w: w, idx: idx, v: k.V, c: k}
	k.ch.vc.Release()
	if k.send {
		k.ch.sendq = append(k.ch.sendq, p)
	} else {
		k.ch.recvq = append(k.ch.recvq, p)
	}
}

func (k *Case[T]) woken() {
	k.ch.vc.Acquire()
	if k.send && !k.OK {
		panic("send on closed channel")
	}
}

// Select performs one of the communications and returns its index, or -1 for
// the default clause; which one, if several can proceed, is the simulation's choice.
func Select(def bool, site uint32, cs ...Comm) int {
	if Aborting() {
		panic(kill{})
	}
	YI(site)
	if n := len(cs); n > 0 {
		at := 0
		if S != nil {
			at = S.maps.Intn(n)
		}
		for i := range cs {
			if j := (at + i) % n; cs[j].try() {
				YI(site)
				return j
			}
		}
	}
	if def {
		return -1
	}
	w := &wait{}
	for i, k := range cs {
		k.offer(w, i)
	}
	Wait(func() bool { return w.done }, "a select")
	cs[w.idx].woken()
	return w.idx
}
