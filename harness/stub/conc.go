package stub

import (
	"sync"
	"time"

	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ErrorsAs is errors.As.
func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if sym.AsTarget(err, target) {
			return true
		}
		if a, ok := err.(interface{ As(interface{}) bool }); ok && a.As(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- timers ----

// A ticker stops after some ticks: nothing else would happen any more.
const maxTicks = 3

type alarm struct {
	mu     sync.Mutex
	gen    int
	active bool
	every  time.Duration
	f      func()
	ch     chan time.Time
}

var (
	alarms  = map[*time.Timer]*alarm{}
	tickers = map[*time.Ticker]*alarm{}
)

func (a *alarm) start(d time.Duration) {
	a.gen++
	a.active = true
	gen := a.gen
	go func() {
		for n := 0; n < maxTicks; n++ {
			sym.Timer(int64(d))
			a.mu.Lock()
			on := a.active && a.gen == gen
			if a.every == 0 && on {
				a.active = false
			}
			a.mu.Unlock()
			if !on {
				return
			}
			if a.f != nil {
				a.f()
			} else {
				select {
				case a.ch <- time.Now():
				default:
				}
			}
			if a.every == 0 {
				return
			}
		}
	}()
}

func (a *alarm) stop() bool {
	a.mu.Lock()
	was := a.active
	a.active = false
	a.mu.Unlock()
	return was
}

func (a *alarm) reset(d time.Duration) bool {
	a.mu.Lock()
	was := a.active
	a.start(d)
	a.mu.Unlock()
	return was
}

func NewTimer(d time.Duration) *time.Timer {
	a := &alarm{ch: make(chan time.Time, 1)}
	t := &time.Timer{C: a.ch}
	alarms[t] = a
	a.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	a := &alarm{f: f}
	t := &time.Timer{}
	alarms[t] = a
	a.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	a := &alarm{every: d, ch: make(chan time.Time, 1)}
	t := &time.Ticker{C: a.ch}
	tickers[t] = a
	a.start(d)
	return t
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func TimerStop(t *time.Timer) bool                   { return alarms[t].stop() }
func TimerReset(t *time.Timer, d time.Duration) bool { return alarms[t].reset(d) }
func TickerStop(t *time.Ticker)                      { tickers[t].stop() }
func TickerReset(t *time.Ticker, d time.Duration) {
	tickers[t].every = d
	tickers[t].reset(d)
}

// ---- sync.Cond ----

type cond struct {
	mu      sync.Mutex
	waiting []chan struct{}
}

var conds = map[*sync.Cond]*cond{}

func condOf(c *sync.Cond) *cond {
	if conds[c] == nil {
		conds[c] = &cond{}
	}
	return conds[c]
}

func CondWait(c *sync.Cond) {
	s, ch := condOf(c), make(chan struct{}, 1)
	s.mu.Lock()
	s.waiting = append(s.waiting, ch)
	s.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func CondSignal(c *sync.Cond) {
	s := condOf(c)
	s.mu.Lock()
	if len(s.waiting) > 0 {
		s.waiting[0] <- struct{}{}
		s.waiting = s.waiting[1:]
	}
	s.mu.Unlock()
}

func CondBroadcast(c *sync.Cond) {
	s := condOf(c)
	s.mu.Lock()
	for _, ch := range s.waiting {
		ch <- struct{}{}
	}
	s.waiting = nil
	s.mu.Unlock()
}

// ---- sync.Map ----

type table struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

var tables = map[*sync.Map]*table{}

func tableOf(m *sync.Map) *table {
	if tables[m] == nil {
		tables[m] = &table{m: map[interface{}]interface{}{}}
	}
	return tables[m]
}

func MapLoad(m *sync.Map, key interface{}) (interface{}, bool) {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	t.mu.Unlock()
	return v, ok
}

func MapStore(m *sync.Map, key, value interface{}) { MapSwap(m, key, value) }

func MapClear(m *sync.Map) {
	t := tableOf(m)
	t.mu.Lock()
	t.m = map[interface{}]interface{}{}
	t.mu.Unlock()
}

func MapLoadOrStore(m *sync.Map, key, value interface{}) (interface{}, bool) {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	if !ok {
		v = value
		t.m[key] = v
	}
	t.mu.Unlock()
	return v, ok
}

func MapLoadAndDelete(m *sync.Map, key interface{}) (interface{}, bool) {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	delete(t.m, key)
	t.mu.Unlock()
	return v, ok
}

func MapDelete(m *sync.Map, key interface{}) { MapLoadAndDelete(m, key) }

func MapSwap(m *sync.Map, key, value interface{}) (interface{}, bool) {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	t.m[key] = value
	t.mu.Unlock()
	return v, ok
}

func MapCompareAndSwap(m *sync.Map, key, old, new interface{}) bool {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	if ok = ok && v == old; ok {
		t.m[key] = new
	}
	t.mu.Unlock()
	return ok
}

func MapCompareAndDelete(m *sync.Map, key, old interface{}) bool {
	t := tableOf(m)
	t.mu.Lock()
	v, ok := t.m[key]
	if ok = ok && v == old; ok {
		delete(t.m, key)
	}
	t.mu.Unlock()
	return ok
}

func MapRange(m *sync.Map, f func(key, value interface{}) bool) {
	t := tableOf(m)
	t.mu.Lock()
	var keys []interface{}
	for k := range t.m {
		keys = append(keys, k)
	}
	t.mu.Unlock()
	for _, k := range keys {
		if v, ok := MapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}
