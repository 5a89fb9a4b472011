package sim

import "unsafe"

// Channels stay native Go channels in type and identity; their state lives in
// a side table, so that who proceeds is decided by the simulator.

type chanHdr interface{ key() unsafe.Pointer }

type waiter[T any] struct {
	t   *Task
	gen uint64
	idx int // select case index
	val T
	ok  bool
	sel *selState
}

type selState struct {
	fired int
}

type cs[T any] struct {
	keep   any // keeps the native channel alive (its address is the key)
	cap    int
	buf    []T
	head   int
	n      int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

var chans map[unsafe.Pointer]any

func resetChans() { chans = make(map[unsafe.Pointer]any, 256) }

func ptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func st[T any](p unsafe.Pointer, capa int, keep any) *cs[T] {
	if p == nil {
		return nil
	}
	if s, ok := chans[p]; ok {
		return s.(*cs[T])
	}
	if chans == nil {
		resetChans()
	}
	s := &cs[T]{keep: keep, cap: capa}
	if capa > 0 && capa <= 64 {
		s.buf = make([]T, capa)
	}
	chans[p] = s
	return s
}

func (s *cs[T]) push(v T) {
	if s.n == len(s.buf) {
		nb := make([]T, max(8, 2*len(s.buf)))
		for i := 0; i < s.n; i++ {
			nb[i] = s.buf[(s.head+i)%len(s.buf)]
		}
		s.buf, s.head = nb, 0
	}
	s.buf[(s.head+s.n)%len(s.buf)] = v
	s.n++
}
func (s *cs[T]) pop() T {
	var z T
	v := s.buf[s.head]
	s.buf[s.head] = z
	s.head = (s.head + 1) % len(s.buf)
	s.n--
	return v
}

func deq[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if w.t.gen == w.gen && w.t.state == tsBlocked {
			return w
		}
	}
	return nil
}

func hasLive[T any](q *[]*waiter[T]) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.t.gen == w.gen && w.t.state == tsBlocked {
			return true
		}
		(*q)[0] = nil
		*q = (*q)[1:]
	}
	return false
}

func remove[T any](q *[]*waiter[T], w *waiter[T]) {
	for i, x := range *q {
		if x == w {
			copy((*q)[i:], (*q)[i+1:])
			(*q)[len(*q)-1] = nil
			*q = (*q)[:len(*q)-1]
			return
		}
	}
}

func (w *waiter[T]) fire() {
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	Wake(w.t)
}

// trySend performs a send that does not block.
func (s *cs[T]) trySend(v T) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if w := deq(&s.recvq); w != nil {
		w.val, w.ok = v, true
		w.fire()
		return true
	}
	if s.n < s.cap {
		s.push(v)
		return true
	}
	return false
}

func (s *cs[T]) canSend() bool { return s.closed || s.n < s.cap || hasLive(&s.recvq) }
func (s *cs[T]) canRecv() bool { return s.n > 0 || s.closed || hasLive(&s.sendq) }

func (s *cs[T]) tryRecv() (v T, ok bool, done bool) {
	if s.n > 0 {
		v = s.pop()
		if w := deq(&s.sendq); w != nil {
			s.push(w.val)
			w.ok = true
			w.fire()
		}
		return v, true, true
	}
	if w := deq(&s.sendq); w != nil {
		v = w.val
		w.ok = true
		w.fire()
		return v, true, true
	}
	if s.closed {
		return v, false, true
	}
	return v, false, false
}

// Sender is the left half of a rewritten send statement.
type Sender[T any] struct {
	p    unsafe.Pointer
	capa int
	keep any
}

// SendTo evaluates the channel operand of a send.
func SendTo[T any](c chan<- T) Sender[T] { return Sender[T]{ptr(c), cap(c), c} }

// Do performs the send.
func (d Sender[T]) Do(v T) {
	Yield("send")
	if d.p == nil {
		BlockForever()
	}
	if dead {
		return
	}
	s := st[T](d.p, d.capa, d.keep)
	if s.trySend(v) {
		return
	}
	if cur == nil {
		panic("sim: blocking send outside a task")
	}
	w := &waiter[T]{t: cur, gen: cur.gen, val: v}
	s.sendq = append(s.sendq, w)
	park("chan send")
	if !w.ok {
		panic("send on closed channel")
	}
}

// TrySend is a non-blocking send from scheduler context (timers).
func TrySend[T any](c chan T, v T) bool {
	s := st[T](ptr(c), cap(c), c)
	if s.closed {
		return false
	}
	return s.trySend(v)
}

// TryRecv takes a value that is there (or a waiting sender's).
func TryRecv[T any](c <-chan T) (v T, ok, done bool) {
	if c == nil {
		return
	}
	return st[T](ptr(c), cap(c), c).tryRecv()
}

// Recv is the rewritten receive expression.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the two-valued receive.
func Recv2[T any](c <-chan T) (T, bool) {
	Yield("recv")
	p := ptr(c)
	if p == nil {
		BlockForever()
	}
	if dead && cur != nil {
		var z T
		return z, false
	}
	s := st[T](p, cap(c), c)
	if v, ok, done := s.tryRecv(); done {
		return v, ok
	}
	if cur == nil {
		panic("sim: blocking receive outside a task")
	}
	w := &waiter[T]{t: cur, gen: cur.gen}
	s.recvq = append(s.recvq, w)
	park("chan receive")
	return w.val, w.ok
}

// Close is the rewritten close builtin.
func Close[T any](c chan<- T) {
	Yield("close")
	if dead {
		return
	}
	p := ptr(c)
	if p == nil {
		panic("close of nil channel")
	}
	closeState(st[T](p, cap(c), c))
}

func closeState[T any](s *cs[T]) {
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for {
		w := deq(&s.recvq)
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
	for {
		w := deq(&s.sendq)
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
}

// Len is len(ch).
func Len[T any](c <-chan T) int {
	Yield("len")
	p := ptr(c)
	if p == nil {
		return 0
	}
	return st[T](p, cap(c), c).n
}

// BlockForever is a select with no cases or an operation on a nil channel.
func BlockForever() {
	for {
		park("forever")
	}
}

// ---------------------------------------------------------------- select

// Case is one communication clause.
type Case interface {
	ready() bool
	exec()
	enq(t *Task, sel *selState, i int)
	finish(mine bool)
}

// RecvC is a receive clause.
type RecvC[T any] struct {
	s  *cs[T]
	v  T
	ok bool
	w  *waiter[T]
}

// RecvCase evaluates the channel of a receive clause.
func RecvCase[T any](c <-chan T) *RecvC[T] {
	return &RecvC[T]{s: st[T](ptr(c), cap(c), c)}
}

// V is the received value.
func (c *RecvC[T]) V() T { return c.v }

// V2 is the two-valued form.
func (c *RecvC[T]) V2() (T, bool) { return c.v, c.ok }

func (c *RecvC[T]) ready() bool { return c.s != nil && c.s.canRecv() }
func (c *RecvC[T]) exec()       { c.v, c.ok, _ = c.s.tryRecv() }
func (c *RecvC[T]) enq(t *Task, sel *selState, i int) {
	if c.s == nil {
		return
	}
	c.w = &waiter[T]{t: t, gen: t.gen, sel: sel, idx: i}
	c.s.recvq = append(c.s.recvq, c.w)
}
func (c *RecvC[T]) finish(mine bool) {
	if c.w == nil {
		return
	}
	if mine {
		c.v, c.ok = c.w.val, c.w.ok
	} else {
		remove(&c.s.recvq, c.w)
	}
}

// SendC is a send clause.
type SendC[T any] struct {
	s *cs[T]
	v T
	w *waiter[T]
}

// SendCase evaluates the channel of a send clause.
func SendCase[T any](c chan<- T) *SendC[T] {
	return &SendC[T]{s: st[T](ptr(c), cap(c), c)}
}

// Val supplies the value to send.
func (c *SendC[T]) Val(v T) *SendC[T] { c.v = v; return c }

func (c *SendC[T]) ready() bool { return c.s != nil && c.s.canSend() }
func (c *SendC[T]) exec()       { c.s.trySend(c.v) }
func (c *SendC[T]) enq(t *Task, sel *selState, i int) {
	if c.s == nil {
		return
	}
	c.w = &waiter[T]{t: t, gen: t.gen, sel: sel, idx: i, val: c.v}
	c.s.sendq = append(c.s.sendq, c.w)
}
func (c *SendC[T]) finish(mine bool) {
	if c.w == nil {
		return
	}
	if mine {
		if !c.w.ok {
			panic("send on closed channel")
		}
	} else {
		remove(&c.s.sendq, c.w)
	}
}

// Select runs a rewritten select statement and returns the chosen clause.
func Select(hasDefault bool, cases ...Case) int {
	Yield("select")
	if dead {
		if cur != nil {
			park("select")
		}
		return -1
	}
	var buf [8]int
	r := buf[:0]
	for i, c := range cases {
		if c.ready() {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = Choose(len(r))
		}
		cases[r[k]].exec()
		return r[k]
	}
	if hasDefault {
		return -1
	}
	if cur == nil {
		panic("sim: blocking select outside a task")
	}
	sel := &selState{fired: -1}
	for i, c := range cases {
		c.enq(cur, sel, i)
	}
	park("select")
	for i, c := range cases {
		if i != sel.fired {
			c.finish(false)
		}
	}
	if sel.fired < 0 {
		panic("sim: select woken without a case")
	}
	cases[sel.fired].finish(true)
	return sel.fired
}

// ChanIter iterates over a channel (rewritten range).
type ChanIter[T any] struct {
	c <-chan T
	v T
}

// RangeChan starts ranging over c.
func RangeChan[T any](c <-chan T) *ChanIter[T] { return &ChanIter[T]{c: c} }

// Next receives the next value.
func (i *ChanIter[T]) Next() bool {
	var ok bool
	i.v, ok = Recv2(i.c)
	return ok
}

// K is the current value (range over a channel has only one variable).
func (i *ChanIter[T]) K() T { return i.v }

// Cap is kept for completeness.
func Cap[T any](c <-chan T) int { return cap(c) }

// CloseQuiet closes a channel without a scheduling point (also from scheduler
// context).
func CloseQuiet[T any](c chan T) {
	if dead {
		return
	}
	s := st[T](ptr(c), cap(c), c)
	if !s.closed {
		closeState(s)
	}
}
