package runner

import (
	"fmt"
	"time"

	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"

	"verif.local/sim/world"
)

// wild stands for a value the model has no opinion on.
type wild struct{ v interface{} }

// canon turns a value returned by the driver into the simulator's own terms.
func canon(v interface{}) interface{} {
	switch x := v.(type) {
	case nil, bool, int64, float64, string:
		return v
	case int:
		return int64(x)
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = canon(x[i])
		}
		return r
	case []string:
		return strs(x)
	case map[string]interface{}:
		r := make(map[string]interface{}, len(x))
		for k, e := range x {
			r[k] = canon(e)
		}
		return r
	case graph.Node:
		return &world.Struct{Tag: 0x4E, Fields: []interface{}{x.NodeIdentity, strs(x.Labels), props(x.Properties)}}
	case *graph.Node:
		return canon(*x)
	case graph.Relationship:
		return &world.Struct{Tag: 0x52, Fields: []interface{}{x.RelIdentity, x.StartNodeIdentity, x.EndNodeIdentity, x.Type, props(x.Properties)}}
	case *graph.Relationship:
		return canon(*x)
	case graph.UnboundRelationship:
		return &world.Struct{Tag: 0x72, Fields: []interface{}{x.RelIdentity, x.Type, props(x.Properties)}}
	case *graph.UnboundRelationship:
		return canon(*x)
	case graph.Path:
		ns := make([]interface{}, len(x.Nodes))
		for i := range x.Nodes {
			ns[i] = canon(x.Nodes[i])
		}
		rs := make([]interface{}, len(x.Relationships))
		for i := range x.Relationships {
			rs[i] = canon(x.Relationships[i])
		}
		sq := make([]interface{}, len(x.Sequence))
		for i := range x.Sequence {
			sq[i] = int64(x.Sequence[i])
		}
		return &world.Struct{Tag: 0x50, Fields: []interface{}{ns, rs, sq}}
	case *graph.Path:
		return canon(*x)
	case types.Point2D:
		return &world.Struct{Tag: 0x58, Fields: []interface{}{int64(x.SRID), x.X, x.Y}}
	case *types.Point2D:
		return canon(*x)
	case types.Point3D:
		return &world.Struct{Tag: 0x59, Fields: []interface{}{int64(x.SRID), x.X, x.Y, x.Z}}
	case *types.Point3D:
		return canon(*x)
	case gotime.Date, gotime.Clock, gotime.LocalClock, gotime.LocalTime, time.Time, time.Duration:
		return temporal{v}
	}
	return wild{v}
}

func strs(x []string) []interface{} {
	r := make([]interface{}, len(x))
	for i := range x {
		r[i] = x[i]
	}
	return r
}

func props(m map[string]interface{}) interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return canon(m)
}

// same compares a canonical value with one the server sent; wild values match
// any structure.
var loose bool

// sameLoose also lets an absent map pass for an empty one.
func sameLoose(got, want interface{}) bool {
	loose = true
	defer func() { loose = false }()
	return same(got, want)
}

func same(got, want interface{}) bool {
	switch g := got.(type) {
	case wild:
		_, ok := want.(*world.Struct)
		return ok && loose
	case temporal:
		w, ok := want.(*world.Struct)
		return ok && (loose || sameTemporal(g.v, w))
	case []interface{}:
		w, ok := want.([]interface{})
		if !ok || len(w) != len(g) {
			return false
		}
		for i := range g {
			if !same(g[i], w[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		if loose && want == nil && len(g) == 0 {
			return true
		}
		w, ok := want.(map[string]interface{})
		if !ok || len(w) != len(g) {
			return false
		}
		for k, e := range g {
			x, ok := w[k]
			if !ok || !same(e, x) {
				return false
			}
		}
		return true
	case *world.Struct:
		w, ok := want.(*world.Struct)
		if !ok || w.Tag != g.Tag || len(w.Fields) != len(g.Fields) {
			return false
		}
		for i := range g.Fields {
			if !same(g.Fields[i], w.Fields[i]) {
				return false
			}
		}
		return true
	}
	return world.Equal(got, want)
}

func show(v interface{}) string {
	if w, ok := v.(wild); ok {
		return fmt.Sprintf("%T", w.v)
	}
	if w, ok := v.(temporal); ok {
		if s, ok := w.v.(interface{ GetTime() time.Time }); ok {
			return fmt.Sprintf("%T(%v)", w.v, s.GetTime())
		}
		return fmt.Sprintf("%T(%v)", w.v, w.v)
	}
	return world.Show(v)
}
