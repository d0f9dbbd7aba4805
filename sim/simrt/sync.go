package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// ---- Mutex

type Mutex struct {
	epoch  uint64
	locked bool
	sem    byte
}

func (m *Mutex) fresh(s *Sim) {
	if s != nil && m.epoch != s.epoch {
		m.epoch = s.epoch
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	s := enter(pkLock)
	m.fresh(s)
	if m.locked {
		if s == nil || s.dead() {
			return
		}
		s.Probe("lock-contended")
		s.Block("mutex", func() bool { return !m.locked }, -1)
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
}

func (m *Mutex) TryLock() bool {
	s := enter(pkLock)
	m.fresh(s)
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
	return true
}

func (m *Mutex) Unlock() {
	s := enterQuiet()
	m.fresh(s)
	if !m.locked {
		if s == nil || s.dead() {
			return
		}
		s.Fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.sem))
	m.locked = false
	enter(pkUnlock)
}

// ---- RWMutex (writer preference, as in package sync)

type RWMutex struct {
	epoch   uint64
	w       bool
	readers int
	waiting int
	rsem    byte
	wsem    byte
}

func (m *RWMutex) fresh(s *Sim) {
	if s != nil && m.epoch != s.epoch {
		m.epoch = s.epoch
		m.w, m.readers, m.waiting = false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	s := enter(pkLock)
	m.fresh(s)
	if m.w || m.readers > 0 {
		if s == nil || s.dead() {
			return
		}
		s.Probe("lock-contended")
		m.waiting++
		s.Block("rwmutex", func() bool { return !m.w && m.readers == 0 }, -1)
		m.waiting--
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
}

func (m *RWMutex) TryLock() bool {
	s := enter(pkLock)
	m.fresh(s)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

func (m *RWMutex) Unlock() {
	s := enterQuiet()
	m.fresh(s)
	if !m.w {
		if s == nil || s.dead() {
			return
		}
		s.Fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rsem))
	m.w = false
	enter(pkUnlock)
}

func (m *RWMutex) RLock() {
	s := enter(pkLock)
	m.fresh(s)
	if m.w || m.waiting > 0 {
		if s == nil || s.dead() {
			return
		}
		s.Probe("lock-contended")
		s.Block("rlock", func() bool { return !m.w && m.waiting == 0 }, -1)
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
}

func (m *RWMutex) TryRLock() bool {
	s := enter(pkLock)
	m.fresh(s)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

func (m *RWMutex) RUnlock() {
	s := enterQuiet()
	m.fresh(s)
	if m.readers <= 0 {
		if s == nil || s.dead() {
			return
		}
		s.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceRelMerge(unsafe.Pointer(&m.wsem))
	m.readers--
	enter(pkUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// ---- Once

type Once struct {
	epoch uint64
	m     Mutex
	done  bool
	sem   byte
}

func (o *Once) Do(f func()) {
	s := enter(pkLock)
	if s != nil && o.epoch != s.epoch {
		o.epoch = s.epoch
		o.done = false
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.sem))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			raceRelease(unsafe.Pointer(&o.sem))
		}()
		f()
	}
}

// ---- Pool: deterministic LIFO

type Pool struct {
	New   func() interface{}
	epoch uint64
	items []interface{}
	sem   byte
}

func (p *Pool) fresh(s *Sim) {
	if s != nil && p.epoch != s.epoch {
		p.epoch = s.epoch
		p.items = nil
	}
}
func (p *Pool) Get() interface{} {
	s := enter(pkLock)
	p.fresh(s)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		raceAcquire(unsafe.Pointer(&p.sem))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	s := enterQuiet()
	p.fresh(s)
	if x == nil {
		return
	}
	raceRelMerge(unsafe.Pointer(&p.sem))
	p.items = append(p.items, x)
	enter(pkUnlock)
}

// ---- Map: deterministic (insertion order)

type Map struct {
	epoch uint64
	keys  []interface{}
	m     map[interface{}]interface{}
	sem   byte
}

func (p *Map) fresh(s *Sim) {
	if p.m == nil || s != nil && p.epoch != s.epoch {
		if s != nil {
			p.epoch = s.epoch
		}
		p.m = map[interface{}]interface{}{}
		p.keys = nil
	}
}
func (p *Map) op() {
	p.fresh(enter(pkLock))
	raceAcquire(unsafe.Pointer(&p.sem))
	raceRelMerge(unsafe.Pointer(&p.sem))
}
func (p *Map) Load(k interface{}) (interface{}, bool) { p.op(); v, ok := p.m[k]; return v, ok }
func (p *Map) Store(k, v interface{})                 { p.op(); p.put(k, v) }
func (p *Map) put(k, v interface{}) {
	if _, ok := p.m[k]; !ok {
		p.keys = append(p.keys, k)
	}
	p.m[k] = v
}
func (p *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	p.op()
	if x, ok := p.m[k]; ok {
		return x, true
	}
	p.put(k, v)
	return v, false
}
func (p *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	p.op()
	v, ok := p.m[k]
	p.del(k)
	return v, ok
}
func (p *Map) del(k interface{}) {
	if _, ok := p.m[k]; ok {
		delete(p.m, k)
		for i := range p.keys {
			if p.keys[i] == k {
				p.keys = append(append([]interface{}{}, p.keys[:i]...), p.keys[i+1:]...)
				break
			}
		}
	}
}
func (p *Map) Delete(k interface{}) { p.op(); p.del(k) }
func (p *Map) Swap(k, v interface{}) (interface{}, bool) {
	p.op()
	o, ok := p.m[k]
	p.put(k, v)
	return o, ok
}
func (p *Map) CompareAndSwap(k, o, n interface{}) bool {
	p.op()
	if x, ok := p.m[k]; ok && x == o {
		p.m[k] = n
		return true
	}
	return false
}
func (p *Map) CompareAndDelete(k, o interface{}) bool {
	p.op()
	if x, ok := p.m[k]; ok && x == o {
		p.del(k)
		return true
	}
	return false
}
func (p *Map) Clear() { p.op(); p.m = map[interface{}]interface{}{}; p.keys = nil }
func (p *Map) Range(f func(k, v interface{}) bool) {
	p.op()
	for _, k := range append([]interface{}{}, p.keys...) {
		v, ok := p.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// ---- map iteration in a fixed order

type MapIt struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func MapIter(m interface{}) *MapIt {
	v := reflect.ValueOf(m)
	ks := v.MapKeys()
	if len(ks) > 1 {
		switch ks[0].Kind() {
		case reflect.String:
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(ks, func(i, j int) bool { return ks[i].Int() < ks[j].Int() })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			sort.Slice(ks, func(i, j int) bool { return ks[i].Uint() < ks[j].Uint() })
		case reflect.Float32, reflect.Float64:
			sort.Slice(ks, func(i, j int) bool { return ks[i].Float() < ks[j].Float() })
		case reflect.Ptr, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
			sort.SliceStable(ks, func(i, j int) bool { return ptrOrder(ks[i]) < ptrOrder(ks[j]) })
		default:
			sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		}
		// which order a program sees is the simulator's choice, not always ascending
		if s := cur; s != nil && s.LibRNG.Intn(2) == 1 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return &MapIt{m: v, keys: ks, i: -1}
}

// ptrOrder gives things that can say who they are a stable order.
func ptrOrder(v reflect.Value) string {
	if v.CanInterface() {
		if c, ok := v.Interface().(interface{ GetConnectionId() string }); ok {
			return c.GetConnectionId()
		}
	}
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	}
	return ""
}

func (it *MapIt) Next() bool {
	for {
		it.i++
		if it.i >= len(it.keys) {
			return false
		}
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
}
func (it *MapIt) Key() interface{}   { return it.keys[it.i].Interface() }
func (it *MapIt) Value() interface{} { return it.m.MapIndex(it.keys[it.i]).Interface() }

// SelectOrder is the order in which a select polls its cases.
func SelectOrder(n int) []int {
	s := enter(pkLock)
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if s != nil {
		for i := n - 1; i > 0; i-- {
			j := s.LibRNG.Intn(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

// AfterFunc runs f in a simulated task.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	s := cur
	if s == nil {
		return time.AfterFunc(d, f)
	}
	id := s.newID()
	return time.AfterFunc(d, func() { s.adopt(id, "afterfunc", f) })
}

// OnceFunc, OnceValue and OnceValues do as their namesakes in package sync.
func OnceFunc(f func()) func() {
	do := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { do() }
}

func OnceValue[T any](f func() T) func() T {
	do := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := do(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var (
		once   Once
		done   bool
		failed interface{}
		v      T
		u      U
	)
	return func() (T, U) {
		once.Do(func() {
			defer func() {
				if !done {
					failed = recover()
					panic(failed)
				}
			}()
			v, u = f()
			done = true
		})
		if !done {
			panic(failed)
		}
		return v, u
	}
}
