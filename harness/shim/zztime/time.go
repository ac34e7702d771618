// Package zztime replaces time for the code under check: the clock is a free value.
package zztime

import (
	real "time"

	"github.com/CAU-CPSS/logument/internal/zzvf"
)

// Clock gives the next clock value as seconds and nanoseconds; nil makes it any value after 1970
// (below 2^33 seconds) that is not before the last one.
var Clock func() (sec, nsec int64)

var last int64

func init() {
	zzvf.OnReset(func() { Clock, last = nil, 0 })
}

func Now() real.Time {
	if Clock != nil {
		return real.Unix(Clock())
	}
	s := int64(zzvf.Int("sec", 0, 1<<33))
	zzvf.Assume(s >= last)
	last = s
	n := int64(zzvf.Int("nsec", 0, 999999999))
	return real.Unix(s, n)
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(real.Duration)             {}
func After(real.Duration) <-chan real.Time {
	c := make(chan real.Time, 1)
	c <- Now()
	return c
}
func Tick(d real.Duration) <-chan real.Time { return After(d) }
