// Package simtime stands in for package time in instrumented copies of the code under test: the clock is the
// simulator's. Code that uses more of package time than this keeps the real one.
package simtime

import (
	"mksim/simhook"
	"time"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	ANSIC       = time.ANSIC
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
)

var (
	UTC   = time.UTC
	Local = time.Local
)

// Clock, when set, is the simulated clock in nanoseconds since 1970; Wait makes d pass.
var (
	Clock func() int64
	Wait  func(d time.Duration)
)

func Now() Time {
	if Clock == nil {
		return time.Now()
	}
	simhook.Off()
	defer simhook.On()
	return time.Unix(0, Clock())
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if Wait == nil {
		time.Sleep(d)
		return
	}
	simhook.Off()
	Wait(d)
	simhook.On()
	simhook.Y()
}

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}
func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us) }
func Parse(layout, value string) (Time, error) { return time.Parse(layout, value) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
