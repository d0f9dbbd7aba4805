package world

import (
	"math/big"
	"time"

	"verif.local/sim/simrt"
)

// Values of the temporal and spatial types protocol version 2 added, as they
// go over the wire.

// Zones are the named time zones servers use.
var Zones = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Africa/Casablanca", "Europe/Dublin"}

// day is the length of a day in seconds.
const day = 86400

// Instant is a moment in unix seconds, from lo on.
func Instant(r *simrt.RNG, lo int) int64 {
	y := func(y int) int64 { return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() }
	span := func(a, b int) int64 {
		if a < lo {
			a = lo
		}
		return y(a) + int64(r.Uint64()%uint64(y(b)-y(a)))
	}
	switch r.Intn(8) {
	case 0:
		return span(-4000, 9999)
	case 1:
		return span(1600, 2400)
	case 2: // around the epoch
		if lo < 1969 {
			return int64(r.Intn(2*day)) - day
		}
	case 3:
		return span(1990, 2030) / day * day // midnight
	}
	return span(1950, 2100)
}

// Nanos is the part of a second.
func Nanos(r *simrt.RNG) int64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return 999999999
	case 2:
		return int64(r.Intn(1000)) * 1000000
	case 3:
		return int64(r.Intn(1000))
	}
	return int64(r.Intn(1000000000))
}

// Offset is the offset of a clock from UTC in seconds.
func Offset(r *simrt.RNG) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return simrt.Pick(r, 18*3600, -18*3600, 14*3600, -12*3600)
	case 2:
		return simrt.Pick(r, 5*3600+1800, 5*3600+45*60, -3*3600-1800, -1800, 1800, 17762, -17762)
	case 3:
		return r.Intn(36*3600+1) - 18*3600
	}
	return (r.Intn(27) - 12) * 3600
}

// nearChange is a moment close to a change of the offset of a zone.
func nearChange(r *simrt.RNG, loc *time.Location, t time.Time) time.Time {
	a, b := t.ZoneBounds()
	if !b.IsZero() && (a.IsZero() || r.Intn(2) == 0) {
		a = b
	}
	if a.IsZero() || a.Year() < 1950 {
		return t
	}
	return a.Add(time.Duration(r.Intn(6*3600)-3*3600) * time.Second)
}

// GenTemporal is a temporal or spatial value a server may return.
func GenTemporal(r *simrt.RNG) *Struct {
	switch r.Intn(10) {
	case 0:
		return &Struct{0x44, []interface{}{floorDiv(Instant(r, -4000), day)}}
	case 1:
		return &Struct{0x54, []interface{}{int64(r.Intn(day))*1000000000 + Nanos(r), int64(Offset(r))}}
	case 2:
		return &Struct{0x74, []interface{}{int64(r.Intn(day))*1000000000 + Nanos(r)}}
	case 3: // the zone of the client's computer has not changed since 1950
		return &Struct{0x64, []interface{}{Instant(r, 1950), Nanos(r)}}
	case 4, 5:
		return &Struct{0x46, []interface{}{Instant(r, -4000), Nanos(r), int64(Offset(r))}}
	case 6, 7:
		z := Zones[r.Intn(len(Zones))]
		loc, err := time.LoadLocation(z)
		if err != nil {
			panic(err)
		}
		t := time.Unix(Instant(r, 1950), Nanos(r)).In(loc)
		if r.Intn(2) == 0 {
			t = nearChange(r, loc, t)
		}
		_, off := t.Zone()
		return &Struct{0x66, []interface{}{t.Unix() + int64(off), int64(t.Nanosecond()), z}}
	case 8:
		m, d := int64(0), int64(0)
		if r.Intn(3) == 0 {
			m = int64(r.Intn(60)) - 20
		}
		if r.Intn(2) == 0 {
			d = int64(r.Intn(2000)) - 500
		}
		s := int64(0)
		switch r.Intn(3) {
		case 0:
			s = int64(r.Intn(200000)) - 100000
		case 1:
			s = int64(r.Uint64()%8000000000) - 4000000000
		}
		n := Nanos(r)
		return &Struct{0x45, []interface{}{m, d, s, n}}
	}
	if r.Intn(2) == 0 {
		return &Struct{0x58, []interface{}{simrt.Pick(r, int64(4326), 7203), GenFloat(r), GenFloat(r)}}
	}
	return &Struct{0x59, []interface{}{simrt.Pick(r, int64(4979), 9157), GenFloat(r), GenFloat(r), GenFloat(r)}}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// DurationNs is the length of a duration without its months in nanoseconds,
// and the months.
func DurationNs(s *Struct) (*big.Int, int64, bool) {
	if len(s.Fields) != 4 {
		return nil, 0, false
	}
	var v [4]int64
	for i, f := range s.Fields {
		n, ok := f.(int64)
		if !ok {
			return nil, 0, false
		}
		v[i] = n
	}
	t := new(big.Int).Mul(big.NewInt(v[1]), big.NewInt(day))
	t.Add(t, big.NewInt(v[2]))
	t.Mul(t, big.NewInt(1000000000))
	return t.Add(t, big.NewInt(v[3])), v[0], true
}

// sameDuration: a duration may be split into days, seconds and nanoseconds in
// several ways.
func sameDuration(a, b *Struct) bool {
	x, m, ok := DurationNs(a)
	y, n, ok2 := DurationNs(b)
	return ok && ok2 && m == n && x.Cmp(y) == 0
}

// genTemporals is a temporal value, at times within others.
func genTemporals(r *simrt.RNG) interface{} {
	switch r.Intn(8) {
	case 0:
		l := make([]interface{}, r.Intn(20))
		for i := range l {
			l[i] = GenTemporal(r)
		}
		return l
	case 1:
		return map[string]interface{}{"a": GenTemporal(r), "b": genTemporals(r)}
	case 2:
		n := genNode(r)
		n.Fields[2].(map[string]interface{})["t"] = GenTemporal(r)
		return n
	}
	return GenTemporal(r)
}
