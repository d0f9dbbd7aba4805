package world

import (
	"bytes"
	"fmt"

	"verif.local/sim/simrt"
)

// mangle turns a correct reply into something a correct server would not send.
// From here on the connection's plain bytes are kept, so that what the client
// returns can be compared with what was really sent.
func mangle(out []reply, f *Fault, ss *session) []reply {
	r := simrt.NewRNG(uint64(f.Arg))
	ss.c.keepWire = true
	i := r.Intn(len(out))
	raw := func(j int) []byte {
		if out[j].raw != nil {
			return append([]byte(nil), out[j].raw...)
		}
		return Enc(nil, &Struct{out[j].tag, out[j].fields})
	}
	kinds := []string{"trunc", "flip", "type", "huge", "odd", "extra", "drop", "stream", "meta", "flip", "odd"}
	k := f.Str
	if k == "" {
		k = kinds[r.Intn(len(kinds))]
	}
	ss.w.Count("mangle-" + k)
	set := func(j int, b []byte) { out[j] = reply{raw: b, pause: out[j].pause, delivered: out[j].delivered} }
	switch k {
	case "nest": // far more deeply than anything real, complete or cut off
		unit := [][]byte{{0x91}, {0xA1, 0x80}, {0xB1, 0x71}, {0xB1, 0x70}, {0x92, 0x01}, {0xA1}, {0xD4, 0x01}, {0xB3, 0x4E, 0x01}, {0xB3, 0x50}}[r.Intn(9)]
		depth := 200 + r.Intn(simRange(r))
		if r.Intn(6) == 0 {
			depth = 3000000 + r.Intn(2000000)
		}
		b := [][]byte{{0xB1, 0x71, 0x91}, {0xB1, 0x70, 0xA1, 0x81, 'x'}, {0xB1, 0x7F, 0xA1, 0x87, 'm', 'e', 's', 's', 'a', 'g', 'e'}, {}}[r.Intn(4)]
		b = append(b, bytes.Repeat(unit, depth)...)
		if r.Intn(2) == 0 {
			b = append(b, 0xC0)
		}
		ss.c.deep = true
		set(i, b)
	case "bomb": // every item announces as many items as the message has bytes left
		n := 1000 + r.Intn(5000)
		head := []byte{0xB1, 0x71, 0x91}
		if r.Intn(3) == 0 {
			head = []byte{0xB1, 0x70, 0xA1, 0x81, 'x'}
		}
		b := head
		maps := r.Intn(4) == 0
		for j := 0; j < n; j++ {
			left := 6 * (n - j - 1)
			if maps {
				left /= 2
				b = append(b, 0xDA, byte(left>>24), byte(left>>16), byte(left>>8), byte(left), 0x80)
			} else {
				b = append(b, 0xD6, byte(left>>24), byte(left>>16), byte(left>>8), byte(left))
			}
		}
		for j := 0; j < n; j++ {
			b = append(b, 0xC0)
		}
		ss.c.deep = true
		set(i, b)
	case "trunc":
		b := raw(i)
		set(i, b[:r.Intn(len(b))+0])
		if len(out[i].raw) == 0 {
			set(i, []byte{0xB1})
		}
	case "flip":
		b := raw(i)
		for n := 1 + r.Intn(4); n > 0; n-- {
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		}
		set(i, b)
	case "type":
		opts := [][]byte{
			Enc(nil, &Struct{0x71, []interface{}{[]interface{}{int64(1)}}}),
			Enc(nil, &Struct{0x7E, nil}),
			Enc(nil, &Struct{0x7E, []interface{}{map[string]interface{}{}}}),
			Enc(nil, &Struct{0x70, []interface{}{int64(3)}}),
			Enc(nil, &Struct{0x70, nil}),
			Enc(nil, &Struct{0x71, []interface{}{"x"}}),
			Enc(nil, &Struct{0x71, nil}),
			Enc(nil, &Struct{0x7F, []interface{}{"bad"}}),
			Enc(nil, &Struct{0x7F, []interface{}{map[string]interface{}{"code": int64(1)}}}),
			Enc(nil, &Struct{0x7F, []interface{}{map[string]interface{}{}}}),
			Enc(nil, &Struct{0x7F, nil}),
			Enc(nil, &Struct{0x55, []interface{}{int64(1)}}),
			Enc(nil, &Struct{0x10, []interface{}{"RETURN 1", map[string]interface{}{}}}),
			Enc(nil, &Struct{0x4E, []interface{}{int64(1), []interface{}{}, map[string]interface{}{}}}),
			Enc(nil, int64(42)),
			Enc(nil, "hello"),
			Enc(nil, nil),
			Enc(nil, []interface{}{int64(1)}),
			{0xC5}, {0xDF}, {0xEF}, {0xB0}, {0xBF, 0x70},
			{0xDC, 0x01, 0x70, 0xA0}, {0xDD, 0x00, 0x01, 0x70, 0xA0},
		}
		set(i, opts[r.Intn(len(opts))])
	case "huge":
		heads := [][]byte{
			{0xD2, 0x7F, 0xFF, 0xFF, 0xFF}, {0xD2, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD2, 0x80, 0, 0, 0},
			{0xD6, 0x7F, 0xFF, 0xFF, 0xFF}, {0xD6, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD6, 0x10, 0, 0, 0}, {0xD6, 0, 0xFF, 0xFF, 0xFF},
			{0xDA, 0x7F, 0xFF, 0xFF, 0xFF}, {0xDA, 0xFF, 0xFF, 0xFF, 0xFF}, {0xDA, 0x08, 0, 0, 0}, {0xDA, 0, 0xFF, 0xFF, 0xFF},
			{0xD1, 0xFF, 0xFF}, {0xD5, 0xFF, 0xFF}, {0xD9, 0xFF, 0xFF}, {0xD0, 0xFF}, {0xD4, 0xFF}, {0xD8, 0xFF},
			{0xCE, 0x7F, 0xFF, 0xFF, 0xFF}, {0xDC, 0xFF, 0x70}, {0xDD, 0xFF, 0xFF, 0x70},
		}
		h := heads[r.Intn(len(heads))]
		switch r.Intn(3) {
		case 0:
			set(i, append([]byte{0xB1, 0x71}, h...))
		case 1:
			set(i, append([]byte{0xB1, 0x70}, h...))
		case 2:
			set(i, append(append([]byte{0xB1, 0x71, 0x91}, h...), 1, 2, 3))
		}
	case "odd":
		m := func(v interface{}) []byte { return Enc(nil, &Struct{0x71, []interface{}{[]interface{}{int64(1), v}}}) }
		mm := map[string]interface{}{}
		ll := []interface{}{}
		vals := []interface{}{
			&Struct{0x4E, []interface{}{"x", ll, mm}}, &Struct{0x4E, []interface{}{int64(1), "x", mm}}, &Struct{0x4E, []interface{}{int64(1), ll, ll}},
			&Struct{0x4E, []interface{}{int64(1), []interface{}{int64(2)}, mm}}, &Struct{0x4E, []interface{}{int64(1), ll}}, &Struct{0x4E, nil},
			&Struct{0x52, []interface{}{"a", int64(1), int64(2), "T", mm}}, &Struct{0x52, []interface{}{int64(1), nil, int64(2), "T", mm}},
			&Struct{0x52, []interface{}{int64(1), int64(1), int64(2), int64(7), mm}}, &Struct{0x52, []interface{}{int64(1), int64(1), int64(2), "T", nil}}, &Struct{0x52, []interface{}{int64(1)}},
			&Struct{0x72, []interface{}{nil, "T", mm}}, &Struct{0x72, []interface{}{int64(1), nil, mm}}, &Struct{0x72, []interface{}{int64(1), "T", nil}}, &Struct{0x72, []interface{}{int64(1), "T", mm, int64(9)}},
			&Struct{0x50, []interface{}{nil, ll, ll}}, &Struct{0x50, []interface{}{ll, []interface{}{int64(1)}, ll}}, &Struct{0x50, []interface{}{ll, ll, []interface{}{"a", 1.5}}}, &Struct{0x50, []interface{}{[]interface{}{nil}, ll, ll}}, &Struct{0x50, []interface{}{ll}},
			&Struct{0x58, []interface{}{int64(1), 2.0}}, &Struct{0x58, []interface{}{"x", 1.0, 2.0}}, &Struct{0x59, []interface{}{int64(7203), 1.0, 2.0, "z"}}, &Struct{0x59, []interface{}{int64(7203), 1.0}},
			&Struct{0x44, []interface{}{"d"}}, &Struct{0x44, nil}, &Struct{0x54, []interface{}{int64(1)}}, &Struct{0x54, []interface{}{nil, nil}}, &Struct{0x74, []interface{}{"t"}}, &Struct{0x74, nil},
			&Struct{0x46, []interface{}{int64(1), int64(2), "UTC"}}, &Struct{0x46, []interface{}{int64(1), int64(2)}}, &Struct{0x66, []interface{}{int64(1), int64(2), int64(3)}}, &Struct{0x66, []interface{}{int64(1), int64(2), "No/Where"}}, &Struct{0x66, []interface{}{"a", "b", "c"}},
			&Struct{0x64, []interface{}{nil, int64(1)}}, &Struct{0x64, []interface{}{int64(1)}}, &Struct{0x45, []interface{}{int64(1), int64(2)}}, &Struct{0x45, []interface{}{"a", nil, 1.0, ll}},
			&Struct{0x6E, []interface{}{int64(1)}}, &Struct{0x70, []interface{}{mm}}, &Struct{0x71, []interface{}{ll}}, &Struct{0x7E, nil}, &Struct{0x7F, []interface{}{mm}},
			Raw{0xA1, 0x01, 0x02}, Raw{0xA1, 0xC0, 0x02}, Raw{0xA1, 0x90, 0x02}, Raw{0xA1, 0xA0, 0x02}, Raw{0xA2, 0x81, 'a', 1, 0x81, 'a', 2}, Raw{0xA1, 0xB3, 0x4E, 0x01, 0x90, 0xA0, 0x01},
			Raw{0x83, 0xFF, 0xFE, 0x41}, Raw{0xC4}, Raw{0xCC, 0x01, 0x05}, Raw{0xD3}, Raw{0xDB},
		}
		if r.Intn(4) == 0 {
			// in the summary rather than in a record
			set(i, Enc(nil, &Struct{0x70, []interface{}{map[string]interface{}{"fields": vals[r.Intn(len(vals))], "stats": int64(1)}}}))
		} else {
			v := vals[r.Intn(len(vals))]
			if r.Intn(3) == 0 {
				v = map[string]interface{}{"in": []interface{}{v}}
			}
			set(i, m(v))
			if out2 := out[len(out)-1]; i == len(out)-1 && out2.raw != nil {
				// keep the summary after the record
				out = append(out, success(nil))
			}
		}
	case "extra":
		j := r.Intn(len(out))
		out = append(out[:i+1], append([]reply{{raw: raw(j)}}, out[i+1:]...)...)
	case "drop":
		out = append(out[:i], out[i+1:]...)
	case "meta":
		mds := []interface{}{nil, int64(1), "x", []interface{}{}, map[string]interface{}{"fields": int64(1)}, map[string]interface{}{"stats": nil}, map[string]interface{}{"stats": map[string]interface{}{"nodes-created": "x", "nodes-deleted": nil}}, map[string]interface{}{"t_first": "x", "result_available_after": nil}}
		j := len(out) - 1
		set(j, Enc(nil, &Struct{0x70, []interface{}{mds[r.Intn(len(mds))]}}))
	case "stream":
		var all []byte
		for _, x := range out {
			all = append(all, ss.frame(x)...)
		}
		switch r.Intn(4) {
		case 0:
			for n := 1 + r.Intn(6); n > 0; n-- {
				all[r.Intn(len(all))] = byte(r.Uint64())
			}
		case 1:
			p := r.Intn(len(all))
			all = append(all[:p:p], all[min(p+1+r.Intn(8), len(all)):]...)
		case 2:
			p := r.Intn(len(all))
			ins := make([]byte, 1+r.Intn(8))
			for q := range ins {
				ins[q] = byte(r.Uint64())
			}
			all = append(all[:p:p], append(ins, all[p:]...)...)
		case 3:
			all = make([]byte, 1+r.Intn(300))
			for q := range all {
				all[q] = byte(r.Uint64())
			}
		}
		out = []reply{{wire: all}}
	}
	return out
}

func simRange(r *simrt.RNG) int { return []int{500, 20000, 200000}[r.Intn(3)] }

// SentMessages are the messages a client can have received on this connection
// since the first mangled reply, decoded leniently.
func (c *Conn) SentMessages() []interface{} {
	var msgs []interface{}
	b := c.wire
	var cur []byte
	for len(b) >= 2 {
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n == 0 {
			if len(cur) > 0 {
				for _, byTag := range []bool{false, true} {
					d := &decoder{b: cur, lenient: true, byTag: byTag}
					if v, err := d.val(); err == nil {
						msgs = append(msgs, v)
					}
				}
			}
			cur = nil
			continue
		}
		if n > len(b) {
			break
		}
		cur = append(cur, b[:n]...)
		b = b[n:]
	}
	return msgs
}

// WireDump shows the end of what was sent since the first mangled reply.
func (c *Conn) WireDump() string {
	b := c.wire
	if len(b) > 600 {
		b = b[:600]
	}
	return fmt.Sprintf(" (it sent % x)", b)
}
