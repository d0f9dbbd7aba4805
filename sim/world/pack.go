// Package world is the simulated environment of the driver: a network, Bolt
// servers with a transactional store and a cluster, faults, and an independent
// record of what reached the servers. Nothing here uses the code under test.
package world

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Struct is a PackStream structure.
type Struct struct {
	Tag    byte
	Fields []interface{}
}

// ---- encoding

func Enc(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0xC0)
	case bool:
		if x {
			return append(b, 0xC3)
		}
		return append(b, 0xC2)
	case int:
		return encInt(b, int64(x))
	case int64:
		return encInt(b, x)
	case float64:
		b = append(b, 0xC1)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(x))
	case string:
		b = encSize(b, len(x), 0x80, 0xD0)
		return append(b, x...)
	case []interface{}:
		b = encSize(b, len(x), 0x90, 0xD4)
		for _, e := range x {
			b = Enc(b, e)
		}
		return b
	case map[string]interface{}:
		b = encSize(b, len(x), 0xA0, 0xD8)
		for _, k := range SortedKeys(x) {
			b = Enc(b, k)
			b = Enc(b, x[k])
		}
		return b
	case *Struct:
		b = append(b, 0xB0|byte(len(x.Fields)), x.Tag)
		for _, f := range x.Fields {
			b = Enc(b, f)
		}
		return b
	case Raw:
		return append(b, x...)
	}
	panic(fmt.Sprintf("world: cannot encode %T", v))
}

// Raw is pre-encoded data (used to build ill-formed replies).
type Raw []byte

func SortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func encSize(b []byte, n int, tiny, m8 byte) []byte {
	switch {
	case n <= 15:
		return append(b, tiny|byte(n))
	case n <= 255:
		return append(b, m8, byte(n))
	case n <= 65535:
		return append(b, m8+1, byte(n>>8), byte(n))
	}
	return append(b, m8+2, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

func encInt(b []byte, v int64) []byte {
	switch {
	case v >= -16 && v <= 127:
		return append(b, byte(v))
	case v >= -128 && v < -16:
		return append(b, 0xC8, byte(v))
	case v >= -32768 && v <= 32767:
		return append(b, 0xC9, byte(v>>8), byte(v))
	case v >= -2147483648 && v <= 2147483647:
		return append(b, 0xCA, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	b = append(b, 0xCB)
	return binary.BigEndian.AppendUint64(b, uint64(v))
}

// ---- decoding (strict)

var errShort = errors.New("value runs past the end of the message")

type decoder struct {
	b       []byte
	p       int
	depth   int
	lenient bool
	byTag   bool // the tag of a structure tells how many fields it has
}

var arity = map[byte]int{0x70: 1, 0x71: 1, 0x7F: 1, 0x4E: 3, 0x52: 5, 0x72: 3, 0x50: 3, 0x58: 3, 0x59: 4,
	0x44: 1, 0x54: 2, 0x74: 1, 0x46: 3, 0x66: 3, 0x64: 2, 0x45: 4}

// DecodeAll decodes exactly one value that must fill b.
func DecodeAll(b []byte) (v interface{}, err error) {
	d := &decoder{b: b}
	v, err = d.val()
	if err != nil {
		return nil, err
	}
	if d.p != len(b) {
		return nil, fmt.Errorf("%d stray bytes after the message", len(b)-d.p)
	}
	return v, nil
}

func (d *decoder) take(n int) ([]byte, error) {
	if n < 0 || len(d.b)-d.p < n {
		return nil, errShort
	}
	x := d.b[d.p : d.p+n]
	d.p += n
	return x, nil
}

func (d *decoder) uint(n int) (int, error) {
	x, err := d.take(n)
	if err != nil {
		return 0, err
	}
	r := 0
	for _, c := range x {
		r = r<<8 | int(c)
	}
	return r, nil
}

func (d *decoder) val() (interface{}, error) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 200 {
		return nil, errors.New("nested too deeply")
	}
	m, err := d.take(1)
	if err != nil {
		return nil, err
	}
	c := m[0]
	switch {
	case c <= 0x7F:
		return int64(c), nil
	case c >= 0xF0:
		return int64(int8(c)), nil
	case c == 0xC0:
		return nil, nil
	case c == 0xC2:
		return false, nil
	case c == 0xC3:
		return true, nil
	case c == 0xC1:
		x, err := d.take(8)
		if err != nil {
			return nil, err
		}
		return math.Float64frombits(binary.BigEndian.Uint64(x)), nil
	case c >= 0xC8 && c <= 0xCB:
		x, err := d.take(1 << (c - 0xC8))
		if err != nil {
			return nil, err
		}
		switch len(x) {
		case 1:
			return int64(int8(x[0])), nil
		case 2:
			return int64(int16(binary.BigEndian.Uint16(x))), nil
		case 4:
			return int64(int32(binary.BigEndian.Uint32(x))), nil
		}
		return int64(binary.BigEndian.Uint64(x)), nil
	case c>>4 == 0x8:
		return d.str(int(c & 15))
	case c >= 0xD0 && c <= 0xD2:
		n, err := d.uint(1 << (c - 0xD0))
		if err != nil {
			return nil, err
		}
		return d.str(n)
	case c>>4 == 0x9:
		return d.list(int(c & 15))
	case c >= 0xD4 && c <= 0xD6:
		n, err := d.uint(1 << (c - 0xD4))
		if err != nil {
			return nil, err
		}
		return d.list(n)
	case c>>4 == 0xA:
		return d.mapp(int(c & 15))
	case c >= 0xD8 && c <= 0xDA:
		n, err := d.uint(1 << (c - 0xD8))
		if err != nil {
			return nil, err
		}
		return d.mapp(n)
	case c>>4 == 0xB:
		return d.strct(int(c & 15))
	case c == 0xDC || c == 0xDD:
		n, err := d.uint(1 << (c - 0xDC))
		if err != nil {
			return nil, err
		}
		return d.strct(n)
	}
	return nil, fmt.Errorf("unknown marker %#x", c)
}

func (d *decoder) str(n int) (interface{}, error) {
	x, err := d.take(n)
	if err != nil {
		return nil, err
	}
	return string(x), nil
}

func (d *decoder) list(n int) (interface{}, error) {
	if n > len(d.b)-d.p {
		return nil, errShort
	}
	r := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	return r, nil
}

func (d *decoder) mapp(n int) (interface{}, error) {
	if n > len(d.b)-d.p {
		return nil, errShort
	}
	r := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		k, err := d.val()
		if err != nil {
			return nil, err
		}
		ks, ok := k.(string)
		if !ok {
			return nil, fmt.Errorf("map key is a %T", k)
		}
		if _, dup := r[ks]; dup && !d.lenient {
			return nil, fmt.Errorf("duplicate map key %q", ks)
		}
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		r[ks] = v
	}
	return r, nil
}

func (d *decoder) strct(n int) (interface{}, error) {
	t, err := d.take(1)
	if err != nil {
		return nil, err
	}
	s := &Struct{Tag: t[0]}
	if d.byTag {
		if a, ok := arity[t[0]]; ok {
			n = a
		}
	}
	for i := 0; i < n; i++ {
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		s.Fields = append(s.Fields, v)
	}
	return s, nil
}

// ---- comparison and printing

// Equal compares two decoded values exactly (floats by their bits).
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	case *Struct:
		y, ok := b.(*Struct)
		if ok && x.Tag == 0x45 && y.Tag == 0x45 {
			return sameDuration(x, y)
		}
		if !ok || x.Tag != y.Tag || len(x.Fields) != len(y.Fields) {
			return false
		}
		for i := range x.Fields {
			if !Equal(x.Fields[i], y.Fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Show prints a value shortly.
func Show(v interface{}) string {
	var sb strings.Builder
	show(&sb, v, 0)
	s := sb.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func show(sb *strings.Builder, v interface{}, d int) {
	if sb.Len() > 400 {
		return
	}
	switch x := v.(type) {
	case string:
		if len(x) > 60 {
			fmt.Fprintf(sb, "%q...(%d bytes)", x[:40], len(x))
		} else {
			fmt.Fprintf(sb, "%q", x)
		}
	case []interface{}:
		fmt.Fprintf(sb, "[%d:", len(x))
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			show(sb, e, d+1)
		}
		sb.WriteByte(']')
	case map[string]interface{}:
		fmt.Fprintf(sb, "{%d:", len(x))
		for i, k := range SortedKeys(x) {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "%.20s:", k)
			show(sb, x[k], d+1)
		}
		sb.WriteByte('}')
	case *Struct:
		fmt.Fprintf(sb, "<%#x", x.Tag)
		for _, e := range x.Fields {
			sb.WriteByte(' ')
			show(sb, e, d+1)
		}
		sb.WriteByte('>')
	default:
		fmt.Fprintf(sb, "%T(%v)", v, v)
	}
}
