package world

import (
	"fmt"
	"math"
	"strings"

	"verif.local/sim/simrt"
)

// Deterministic values from a seed. Param values are what a caller may pass;
// Row values are what a server may return.

var lenBound = []int{0, 1, 14, 15, 16, 17, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000}
var lenBig = []int{4000, 8191, 8192, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131070, 140000}
var intBound = []int64{0, 1, -1, -16, -17, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, math.MaxInt64, math.MinInt64}

func GenInt(r *simrt.RNG) int64 {
	if r.Intn(3) == 0 {
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
	return intBound[r.Intn(len(intBound))]
}

func GenFloat(r *simrt.RNG) float64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return -1.5
	case 2:
		return math.Inf(1)
	case 3:
		return math.MaxFloat64
	case 4:
		return math.Copysign(0, -1)
	}
	return r.Float() * 1e6
}

// GenStr makes a string with exactly n bytes.
func GenStr(r *simrt.RNG, n int) string {
	if n == 0 {
		return ""
	}
	switch r.Intn(4) {
	case 0: // any bytes that matter to framing
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint64()) & 0x7f
		}
		return string(b)
	case 1:
		u := "é☃x"
		s := strings.Repeat(u, n/len(u)+1)
		s = s[:n/len(u)*len(u)]
		return s + strings.Repeat("y", n-len(s))
	case 2:
		return strings.Repeat("\x00", n)
	}
	u := fmt.Sprintf("%x.", r.Uint64())
	return strings.Repeat(u, n/len(u)+1)[:n]
}

func genLen(r *simrt.RNG, sz int) int {
	switch {
	case sz <= 0:
		return r.Intn(20)
	case sz == 1:
		return lenBound[r.Intn(len(lenBound))]
	}
	if r.Intn(3) == 0 {
		return lenBig[r.Intn(len(lenBig))]
	}
	return lenBound[r.Intn(len(lenBound))]
}

// GenVal is a value both directions share: nil, bool, int64, float64, string,
// list, map. sz: 0 small, 1 around every size boundary up to 1000, 2 up to 140 kB.
func GenVal(r *simrt.RNG, sz, depth int) interface{} {
	k := r.Intn(10)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 1
	case 2, 3:
		return GenInt(r)
	case 4:
		return GenFloat(r)
	case 5, 6:
		return GenStr(r, genLen(r, sz))
	case 7, 8:
		n := r.Intn(4)
		if sz > 0 && r.Intn(4) == 0 {
			n = genLen(r, sz)
		}
		l := make([]interface{}, n)
		for i := range l {
			if n > 40 {
				l[i] = int64(i) * 7
			} else {
				l[i] = GenVal(r, 0, depth-1)
			}
		}
		return l
	}
	n := r.Intn(4)
	if sz > 0 && r.Intn(4) == 0 {
		n = genLen(r, 1)
		if sz > 1 && r.Intn(8) == 0 {
			n = genLen(r, sz)
		}
	}
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", i)
		if n < 40 && r.Intn(12) == 0 {
			k = GenStr(r, genLen(r, sz/2*r.Intn(2)))
		}
		if n > 40 {
			m[k] = int64(i)
		} else {
			m[k] = GenVal(r, 0, depth-1)
		}
	}
	return m
}

func genProps(r *simrt.RNG) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Intn(3); i > 0; i-- {
		m[fmt.Sprintf("p%d", i)] = GenVal(r, 0, 1)
	}
	return m
}

func genNode(r *simrt.RNG) *Struct {
	var ls []interface{}
	for i := r.Intn(3); i > 0; i-- {
		ls = append(ls, fmt.Sprintf("L%d", r.Intn(100)))
	}
	if ls == nil {
		ls = []interface{}{}
	}
	return &Struct{0x4E, []interface{}{GenInt(r), ls, genProps(r)}}
}

func genURel(r *simrt.RNG) *Struct {
	return &Struct{0x72, []interface{}{GenInt(r), "T" + GenStr(r, r.Intn(5)), genProps(r)}}
}

// GenRowVal is a value a server may return.
func GenRowVal(r *simrt.RNG, sz int) interface{} {
	switch r.Intn(8) {
	case 0:
		return genNode(r)
	case 1:
		return &Struct{0x52, []interface{}{GenInt(r), GenInt(r), GenInt(r), "R" + GenStr(r, r.Intn(6)), genProps(r)}}
	case 2:
		return genURel(r)
	case 3:
		n := 1 + r.Intn(3)
		var ns, rs, sq []interface{}
		for i := 0; i < n; i++ {
			ns = append(ns, genNode(r))
		}
		rs = []interface{}{}
		sq = []interface{}{}
		for i := 1; i < n; i++ {
			rs = append(rs, genURel(r))
			d := int64(len(rs))
			if r.Intn(2) == 0 {
				d = -d
			}
			sq = append(sq, d, int64(i))
		}
		return &Struct{0x50, []interface{}{ns, rs, sq}}
	}
	return GenVal(r, sz, 2)
}

// ---- parameters as a caller writes them, and what must arrive

// GoParam returns a Go value as a caller might pass it and the value a server
// must decode.
func GoParam(r *simrt.RNG, sz int) (interface{}, interface{}) {
	switch r.Intn(19) {
	case 12:
		v := uint(r.Uint64()) >> uint(1+r.Intn(60))
		return v, int64(v)
	case 13: // slices of any type
		n := genLen(r, sz)
		if n > 1000 {
			n = 1000
		}
		w := make([]interface{}, n)
		switch r.Intn(6) {
		case 0:
			a := make([]byte, n)
			for i := range a {
				a[i] = byte(r.Uint64())
				w[i] = int64(a[i])
			}
			return a, w
		case 1:
			a := make([]bool, n)
			for i := range a {
				a[i] = r.Intn(2) == 0
				w[i] = a[i]
			}
			return a, w
		case 2:
			a := make([]float64, n)
			for i := range a {
				a[i] = GenFloat(r)
				w[i] = a[i]
			}
			return a, w
		case 3:
			a := make([]int64, n)
			for i := range a {
				a[i] = GenInt(r)
				w[i] = a[i]
			}
			return a, w
		case 4:
			a := make([][]string, n)
			for i := range a {
				b := make([]interface{}, r.Intn(3))
				a[i] = make([]string, len(b))
				for j := range b {
					a[i][j] = GenStr(r, r.Intn(20))
					b[j] = a[i][j]
				}
				w[i] = b
			}
			return a, w
		}
		a := make([]map[string]interface{}, n)
		for i := range a {
			v := GenStr(r, r.Intn(20))
			a[i] = map[string]interface{}{"i": i, "v": []string{v}}
			w[i] = map[string]interface{}{"i": int64(i), "v": []interface{}{v}}
		}
		return a, w
	case 14: // nothing at all
		switch r.Intn(4) {
		case 0:
			return []string(nil), []interface{}{}
		case 1:
			return []interface{}(nil), []interface{}{}
		case 2:
			return map[string]interface{}(nil), map[string]interface{}{}
		}
		return [][]int{nil, {}}, []interface{}{[]interface{}{}, []interface{}{}}
	case 0:
		v := int8(r.Uint64())
		return v, int64(v)
	case 1:
		v := int16(r.Uint64())
		return v, int64(v)
	case 2:
		v := int32(r.Uint64())
		return v, int64(v)
	case 3:
		v := int(r.Uint64()) >> uint(r.Intn(60))
		return v, int64(v)
	case 4:
		v := uint8(r.Uint64())
		return v, int64(v)
	case 5:
		v := uint16(r.Uint64())
		return v, int64(v)
	case 6:
		v := uint32(r.Uint64())
		return v, int64(v)
	case 7:
		v := r.Uint64() >> uint(1+r.Intn(60))
		return v, int64(v)
	case 8:
		v := float32(GenFloat(r))
		return v, float64(v)
	case 9:
		n := r.Intn(5)
		a := make([]string, n)
		b := make([]interface{}, n)
		for i := range a {
			a[i] = GenStr(r, r.Intn(20))
			b[i] = a[i]
		}
		return a, b
	case 10:
		n := genLen(r, sz)
		if n > 2000 {
			n = 2000
		}
		a := make([]int, n)
		b := make([]interface{}, n)
		for i := range a {
			a[i] = i * 3
			b[i] = int64(i * 3)
		}
		return a, b
	case 11:
		n := genLen(r, sz)
		s := GenStr(r, n)
		return s, s
	}
	v := GenVal(r, sz, 3)
	return v, v
}

// BadParam returns a value that cannot be sent.
func BadParam(r *simrt.RNG) interface{} {
	switch r.Intn(6) {
	case 0:
		return struct{ A int }{1}
	case 1:
		return uint64(math.MaxInt64) + 1 + uint64(r.Intn(1000))
	case 2:
		return make(chan int)
	case 3:
		return []interface{}{int64(1), GenStr(r, 200), complex(1, 2)}
	case 4:
		return map[string]interface{}{"a": "b", "z": func() {}}
	}
	return []interface{}{GenStr(r, 3000), map[string]interface{}{"q": map[string]int{"x": 1}}}
}

// BigUint returns a parameter with a uint no Bolt integer can hold, and what
// would arrive if its bits were taken for a signed integer.
func BigUint(r *simrt.RNG) (interface{}, interface{}) {
	u := uint(1<<63) | uint(r.Uint64()>>uint(r.Intn(64)))
	switch r.Intn(4) {
	case 0:
		return []uint{1, u}, []interface{}{int64(1), int64(u)}
	case 1:
		return map[string]interface{}{"a": []interface{}{"b", u}}, map[string]interface{}{"a": []interface{}{"b", int64(u)}}
	}
	return u, int64(u)
}
