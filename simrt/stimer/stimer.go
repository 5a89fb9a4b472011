// Package stimer stands in for github.com/singchia/go-timer/v2. By default it
// provides a timer with the documented semantics of the real one (10 ms ticks
// rounded up, handlers on a small worker pool, Close fires every pending tick
// with an error) driven by the simulated clock; on runs that ask for it, it
// hands out the real (instrumented) implementation.
package stimer

import (
	"time"

	timer "github.com/singchia/go-timer/v2"
	"simrt/sim"
	"simrt/ssync"
)

type (
	Timer       = timer.Timer
	Tick        = timer.Tick
	Event       = timer.Event
	TimerOption = timer.TimerOption
	TickOption  = TickOpt
)

// TickOpt mirrors the real tick options (whose fields are not visible).
type TickOpt = timer.TickOption

var (
	ErrDurationOutOfRange   = timer.ErrDurationOutOfRange
	ErrTimerNotStarted      = timer.ErrTimerNotStarted
	ErrTimerForceClosed     = timer.ErrTimerForceClosed
	ErrOperationForceClosed = timer.ErrOperationForceClosed
	ErrDelayOnCyclically    = timer.ErrDelayOnCyclically
	ErrCancelOnNonWait      = timer.ErrCancelOnNonWait
)

func WithTimeInterval(d time.Duration) TimerOption { return timer.WithTimeInterval(d) }
func WithOperationBufferSize(n int) TimerOption    { return timer.WithOperationBufferSize(n) }
func WithData(d interface{}) TickOption            { return timer.WithData(d) }
func WithCyclically() TickOption                   { return timer.WithCyclically() }
func WithChan(c chan *Event) TickOption            { return timer.WithChan(c) }
func WithHandler(h func(*Event)) TickOption        { return timer.WithHandler(h) }

// NewTimer returns the stand-in or the real timing wheel, per run.
func NewTimer(opts ...TimerOption) Timer {
	if sim.Cfg().RealTimer {
		sim.Count("probe-real-timing-wheel")
		return timer.NewTimer(opts...)
	}
	return newStub()
}

const tickNs = int64(10 * time.Millisecond)

type stub struct {
	mtx    ssync.Mutex
	closed bool
	paused bool
	ticks  []*tick
	work   chan func()
	start  int64
}

type tick struct {
	s        *stub
	data     interface{}
	ch       chan *Event
	outside  bool
	handler  func(*Event)
	cyc      bool
	d        time.Duration
	ins      time.Time
	fired    int64
	t        *sim.Timer
	pending  bool
	canceled bool
}

func newStub() Timer {
	s := &stub{work: make(chan func(), 1024), start: sim.Now()}
	n := sim.Cfg().TimerWorkers
	if n <= 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		sim.Go(func() {
			for {
				f, ok := sim.Recv2(s.work)
				if !ok {
					return
				}
				f()
			}
		})
	}
	return s
}

func (s *stub) Add(d time.Duration, opts ...TickOption) Tick {
	o := timer.SimApply(opts...)
	t := &tick{s: s, data: o.Data, ch: o.Ch, outside: o.ChOutside, handler: o.Handler, cyc: o.Cyc, d: d, ins: sim.Wall()}
	if t.ch == nil && t.handler == nil {
		t.ch = make(chan *Event, 1)
	}
	s.mtx.Lock()
	if s.closed || s.paused {
		s.mtx.Unlock()
		t.deliver(ErrTimerNotStarted)
		return t
	}
	s.arm(t, d)
	s.ticks = append(s.ticks, t)
	if len(s.ticks) > 256 {
		k := s.ticks[:0]
		for _, x := range s.ticks {
			if x.pending {
				k = append(k, x)
			}
		}
		s.ticks = k
	}
	s.mtx.Unlock()
	return t
}

func (s *stub) arm(t *tick, d time.Duration) {
	q := uint64((d + time.Duration(tickNs) - 1) / time.Duration(tickNs))
	if q == 0 {
		// the real wheel indexes out of range in its drive goroutine
		sim.Go(func() { panic("runtime error: index out of range [-1] (go-timer drive, duration <= 0)") })
		return
	}
	t.pending = true
	if q > 1<<40 {
		return // never fires
	}
	// the next q-th edge of the 10ms grid
	el := sim.Now() - s.start
	w := (el/tickNs+int64(q))*tickNs - el
	t.t = sim.After(w, func() {
		if !t.pending || s.closed {
			return
		}
		if !t.cyc {
			t.pending = false
		}
		sim.TrySend(s.work, func() {
			if !t.canceled {
				t.deliver(nil)
			}
		})
		if t.cyc {
			s.arm(t, t.d)
		}
	})
}

func (t *tick) deliver(err error) {
	if err == nil {
		t.fired++
	}
	ev := &Event{Duration: t.d, InsertTIme: t.ins, Data: t.data, Error: err}
	if t.ch == nil {
		t.handler(ev)
		return
	}
	sim.SendTo(t.ch).Do(ev)
	if err != nil && !t.outside {
		sim.Close(t.ch)
	}
}

func (s *stub) Close() {
	s.mtx.Lock()
	if s.closed {
		s.mtx.Unlock()
		return
	}
	s.closed = true
	l := s.ticks
	s.ticks = nil
	s.mtx.Unlock()
	sim.Go(func() {
		for _, t := range l {
			t := t
			if t.pending && !t.canceled {
				t.pending = false
				t.t.Stop()
				sim.SendTo(s.work).Do(func() { t.deliver(ErrTimerForceClosed) })
			}
		}
		sim.Close(s.work)
	})
}

func (s *stub) Pause()  { s.paused = true }
func (s *stub) Moveon() { s.paused = false }

func (t *tick) op() error {
	sim.Yield("tick")
	if t.s.closed || t.s.paused {
		return ErrTimerNotStarted
	}
	if !t.pending {
		return ErrCancelOnNonWait
	}
	return nil
}

func (t *tick) Reset(data interface{}) error {
	if err := t.op(); err != nil {
		return err
	}
	t.data = data
	return nil
}

func (t *tick) Cancel() error {
	if err := t.op(); err != nil {
		return err
	}
	t.pending = false
	t.canceled = true
	t.t.Stop()
	return nil
}

func (t *tick) Delay(d time.Duration) error {
	if t.cyc {
		return ErrDelayOnCyclically
	}
	if err := t.op(); err != nil {
		return err
	}
	t.t.Stop()
	t.pending = false
	t.s.arm(t, d)
	return nil
}

func (t *tick) C() <-chan *Event        { return t.ch }
func (t *tick) InsertTime() time.Time   { return t.ins }
func (t *tick) Duration() time.Duration { return t.d }
func (t *tick) Fired() int64            { return t.fired }
