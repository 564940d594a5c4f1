// Package ztime is package time with a clock that can be moved on: what was to happen in between happens then.
package ztime

import (
	"sync"
	"time"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	ANSIC       = time.ANSIC
	April       = time.April
	August      = time.August
	DateOnly    = time.DateOnly
	DateTime    = time.DateTime
	December    = time.December
	February    = time.February
	Friday      = time.Friday
	Hour        = time.Hour
	January     = time.January
	July        = time.July
	June        = time.June
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	March       = time.March
	May         = time.May
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Minute      = time.Minute
	Monday      = time.Monday
	Nanosecond  = time.Nanosecond
	November    = time.November
	October     = time.October
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RubyDate    = time.RubyDate
	Saturday    = time.Saturday
	Second      = time.Second
	September   = time.September
	Stamp       = time.Stamp
	StampMicro  = time.StampMicro
	StampMilli  = time.StampMilli
	StampNano   = time.StampNano
	Sunday      = time.Sunday
	Thursday    = time.Thursday
	TimeOnly    = time.TimeOnly
	Tuesday     = time.Tuesday
	UnixDate    = time.UnixDate
	Wednesday   = time.Wednesday
)

var (
	UTC                    = time.UTC
	Local                  = time.Local
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
)

var clock struct {
	sync.Mutex
	ahead  time.Duration
	timers map[*timer]bool
}

// timer calls a function when its time has come, by itself or because the clock was moved.
type timer struct {
	due    time.Time // on the moved clock
	period time.Duration
	real   *time.Timer
	f      func(time.Time)
}

func now() time.Time { return time.Now().Add(clock.ahead) }

func (t *timer) start(d time.Duration) {
	clock.Lock()
	defer clock.Unlock()
	if clock.timers == nil {
		clock.timers = map[*timer]bool{}
	}
	t.due = now().Add(d)
	clock.timers[t] = true
	t.real = time.AfterFunc(d, func() { t.fire(true) })
}

func (t *timer) fire(byItself bool) {
	clock.Lock()
	if !clock.timers[t] || now().Before(t.due) {
		clock.Unlock()
		return
	}
	t.real.Stop()
	n := now()
	if t.period > 0 {
		t.due = n.Add(t.period)
		t.real = time.AfterFunc(t.period, func() { t.fire(true) })
	} else {
		delete(clock.timers, t)
	}
	clock.Unlock()
	t.f(n)
}

func (t *timer) stop() bool {
	clock.Lock()
	defer clock.Unlock()
	was := clock.timers[t]
	delete(clock.timers, t)
	if t.real != nil {
		t.real.Stop()
	}
	return was
}

// Jump moves the clock.
func Jump(d time.Duration) {
	clock.Lock()
	clock.ahead += d
	due := []*timer{}
	for t := range clock.timers {
		if !now().Before(t.due) {
			due = append(due, t)
		}
	}
	clock.Unlock()
	for _, t := range due {
		t.fire(false)
	}
	if len(due) > 0 {
		time.Sleep(30 * time.Millisecond) // for what follows from it
	}
}

func Now() Time {
	clock.Lock()
	defer clock.Unlock()
	return now()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

type Timer struct {
	C <-chan Time
	t *timer
}

func give(c chan Time) func(Time) {
	return func(n Time) {
		select {
		case c <- n:
		default:
		}
	}
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{c, &timer{f: give(c)}}
	t.t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{nil, &timer{f: func(Time) { go f() }}}
	t.t.start(d)
	return t
}

func (t *Timer) Stop() bool { return t.t.stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.t.stop()
	t.t.start(d)
	return was
}

type Ticker struct {
	C <-chan Time
	t *timer
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{c, &timer{period: d, f: give(c)}}
	t.t.start(d)
	return t
}

func (t *Ticker) Stop() { t.t.stop() }
func (t *Ticker) Reset(d Duration) {
	t.t.stop()
	t.t.period = d
	t.t.start(d)
}

func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Sleep(d Duration)             { <-After(d) }
