package runner

import (
	"math/big"
	"time"

	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// goTemporal returns a temporal or spatial value as a caller passes it, and
// what must arrive at the server.
func goTemporal(r *simrt.RNG) (interface{}, interface{}) {
	const ns = 1000000000
	clock := func(t time.Time) int64 {
		h, m, s := t.Clock()
		return int64(h*3600+m*60+s)*ns + int64(t.Nanosecond())
	}
	offset := func(t time.Time) int64 {
		_, o := t.Zone()
		return int64(o)
	}
	loc := func() *time.Location {
		switch r.Intn(5) {
		case 0:
			return time.UTC
		case 1:
			return time.Local
		case 2:
			l, err := time.LoadLocation(world.Zones[r.Intn(len(world.Zones))])
			if err != nil {
				panic(err)
			}
			return l
		}
		return time.FixedZone("", world.Offset(r))
	}
	instant := func() (interface{}, interface{}) {
		t := time.Unix(world.Instant(r, -4000), world.Nanos(r)).In(loc())
		if r.Intn(30) == 0 {
			t = time.Time{}
		}
		return t, &world.Struct{Tag: 0x46, Fields: []interface{}{t.Unix() + offset(t), int64(t.Nanosecond()), offset(t)}}
	}
	date := func() (interface{}, interface{}) {
		t := time.Unix(world.Instant(r, -4000), 0).UTC()
		d := gotime.NewDate(t.Year(), t.Month(), t.Day())
		if r.Intn(3) == 0 {
			d = gotime.NewDateFromTime(t)
		}
		u := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC).Unix()
		return d, &world.Struct{Tag: 0x44, Fields: []interface{}{u / 86400}}
	}
	dur := func() (interface{}, interface{}) {
		d := time.Duration(int64(r.Uint64()) >> uint(r.Intn(64)))
		switch r.Intn(4) {
		case 0:
			d = time.Duration(r.Intn(200)-100) * simrt.Pick(r, time.Millisecond, time.Second, time.Minute, time.Hour, 24*time.Hour)
		case 1:
			d = time.Duration(r.Intn(400)-200) * 500 * time.Millisecond
		}
		return d, &world.Struct{Tag: 0x45, Fields: []interface{}{int64(0), int64(0), int64(0), int64(d)}}
	}
	switch r.Intn(13) {
	case 0, 1:
		return date()
	case 2:
		t := time.Unix(world.Instant(r, -4000), world.Nanos(r)).In(loc())
		c := gotime.NewClock(t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc())
		if r.Intn(3) == 0 {
			c = gotime.NewClockFromTime(t)
		}
		return c, &world.Struct{Tag: 0x54, Fields: []interface{}{clock(c.GetTime()), offset(c.GetTime())}}
	case 3:
		t := time.Unix(world.Instant(r, 1950), world.Nanos(r)).In(loc())
		c := gotime.NewLocalClock(t.Hour(), t.Minute(), t.Second(), t.Nanosecond())
		if r.Intn(3) == 0 {
			c = gotime.NewLocalClockFromTime(t)
		}
		return c, &world.Struct{Tag: 0x74, Fields: []interface{}{clock(c.GetTime())}}
	case 4, 5:
		t := time.Unix(world.Instant(r, -4000), world.Nanos(r)).In(loc())
		l := gotime.NewLocalTimeFromTime(t)
		g := l.GetTime()
		u := time.Date(g.Year(), g.Month(), g.Day(), g.Hour(), g.Minute(), g.Second(), g.Nanosecond(), time.UTC)
		return l, &world.Struct{Tag: 0x64, Fields: []interface{}{u.Unix(), int64(u.Nanosecond())}}
	case 6, 7:
		return instant()
	case 8:
		return dur()
	case 9:
		p := &types.Point2D{SRID: simrt.Pick(r, 4326, 7203), X: world.GenFloat(r), Y: world.GenFloat(r)}
		return p, &world.Struct{Tag: 0x58, Fields: []interface{}{int64(p.SRID), p.X, p.Y}}
	case 10:
		p := &types.Point3D{SRID: simrt.Pick(r, 4979, 9157), X: world.GenFloat(r), Y: world.GenFloat(r), Z: world.GenFloat(r)}
		return p, &world.Struct{Tag: 0x59, Fields: []interface{}{int64(p.SRID), p.X, p.Y, p.Z}}
	case 11: // lists of one type
		n := r.Intn(20)
		w := make([]interface{}, n)
		switch r.Intn(3) {
		case 0:
			l := make([]time.Time, n)
			for i := range l {
				v, x := instant()
				l[i], w[i] = v.(time.Time), x
			}
			return l, w
		case 1:
			l := make([]time.Duration, n)
			for i := range l {
				v, x := dur()
				l[i], w[i] = v.(time.Duration), x
			}
			return l, w
		}
		l := make([]gotime.Date, n)
		for i := range l {
			v, x := date()
			l[i], w[i] = v.(gotime.Date), x
		}
		return l, w
	}
	// inside lists and maps
	a, x := goTemporal(r)
	b, y := goTemporal(r)
	if r.Intn(2) == 0 {
		return []interface{}{a, int64(1), b}, []interface{}{x, int64(1), y}
	}
	return map[string]interface{}{"a": a, "b": b, "c": "d"}, map[string]interface{}{"a": x, "b": y, "c": "d"}
}

// temporal is a value of a temporal type the driver returned.
type temporal struct{ v interface{} }

// sameTemporal says whether a temporal value denotes what the server sent.
func sameTemporal(got interface{}, w *world.Struct) bool {
	num := func(i int) int64 {
		n, _ := w.Fields[i].(int64)
		return n
	}
	const ns = 1000000000
	// wall is what a clock showed, as seconds since the epoch.
	wall := func(t time.Time, secs int64) bool {
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC).Unix() == secs
	}
	nano := func(t time.Time) int64 {
		return int64(t.Hour()*3600+t.Minute()*60+t.Second())*ns + int64(t.Nanosecond())
	}
	offset := func(t time.Time) int64 {
		_, o := t.Zone()
		return int64(o)
	}
	switch x := got.(type) {
	case gotime.Date:
		t := x.GetTime()
		return w.Tag == 0x44 && wall(t, num(0)*86400) && nano(t) == 0 && x.Year() == t.Year() && x.Month() == t.Month() && x.Day() == t.Day()
	case gotime.Clock:
		return w.Tag == 0x54 && nano(x.GetTime()) == num(0) && offset(x.GetTime()) == num(1)
	case gotime.LocalClock:
		return w.Tag == 0x74 && nano(x.GetTime()) == num(0)
	case gotime.LocalTime:
		return w.Tag == 0x64 && wall(x.GetTime(), num(0)) && int64(x.Nanosecond()) == num(1)
	case time.Time:
		switch w.Tag {
		case 0x46:
			return wall(x, num(0)) && int64(x.Nanosecond()) == num(1) && offset(x) == num(2) && x.Unix() == num(0)-num(2)
		case 0x66:
			return wall(x, num(0)) && int64(x.Nanosecond()) == num(1) && x.Location().String() == w.Fields[2]
		}
	case time.Duration:
		if w.Tag != 0x45 {
			return false
		}
		t, m, ok := world.DurationNs(w)
		if !ok {
			return false
		}
		// a month has no fixed length: 28 to 31 days
		d := new(big.Int).Sub(big.NewInt(int64(x)), t)
		if m < 0 {
			m = -m
			d.Neg(d)
		}
		day := big.NewInt(m * 86400)
		day.Mul(day, big.NewInt(ns))
		return d.Cmp(new(big.Int).Mul(day, big.NewInt(28))) >= 0 && d.Cmp(new(big.Int).Mul(day, big.NewInt(31))) <= 0
	}
	return false
}
