// Package stime replaces the clock of package time.
package stime

import (
	"time"

	"zkverif/simio"
)

func Now() time.Time                  { return simio.W.Now() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simio.W.NowUs += d.Microseconds() }
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Sleep(d)
	c <- Now()
	return c
}
