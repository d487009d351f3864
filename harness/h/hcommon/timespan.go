// Package hcommon checks the time span conversions.
package hcommon

import (
	"math"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C34 budget=120 bound="every int64 duration"
func FromDuration() {
	d := sym.I64("d")
	ts := int64(common.TimeSpanFromDuration(time.Duration(d)))
	// |ts*100| must not wrap, then d-ts*100 is the remainder of a division
	// truncated toward zero
	sym.Assert(sym.And(ts <= math.MaxInt64/100, ts >= math.MinInt64/100), "ticks out of the range of d/100")
	r := d - ts*100
	sym.Assert(sym.Or(sym.And(d >= 0, r >= 0, r < 100), sym.And(d < 0, r <= 0, r > -100)), "ticks are not d/100 truncated toward zero")
	sym.Assert(sym.Or(ts == 0, (ts < 0) == (d < 0)), "sign flipped")
}

//verif:harness prop=C34 budget=120 bound="every int64 time span"
func ToDuration() {
	s := sym.I64("s")
	d := int64(common.TimeSpan(s).ToDuration())
	if s > math.MaxInt64/100 {
		sym.Reach("saturate high")
		sym.Assert(d == math.MaxInt64, "a too large time span must become the largest duration")
		return
	}
	if s < math.MinInt64/100 {
		sym.Reach("saturate low")
		sym.Assert(d == math.MinInt64, "a too small time span must become the smallest duration")
		return
	}
	sym.Reach("exact")
	sym.Assert(d == s*100, "a representable time span must convert exactly")
}

//verif:harness prop=C34 budget=120 bound="every whole-tick duration and every time span that fits"
func RoundTrip() {
	s := sym.I64("s")
	sym.Assume(sym.And(s <= math.MaxInt64/100, s >= math.MinInt64/100))
	back := common.TimeSpanFromDuration(common.TimeSpan(s).ToDuration())
	sym.Assert(int64(back) == s, "time span -> duration -> time span changed the value")
}

//verif:harness prop=C34 budget=30 bound="TimeSpanMax"
func MaxConst() {
	d := common.TimeSpanMax.ToDuration()
	sym.Assert(d == time.Duration(math.MaxInt64), "TimeSpanMax must convert to the largest duration")
}
