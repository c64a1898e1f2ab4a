//go:build go1.22

package zsim

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Simulated channel operations on real Go channels. Buffered channels and closing use the real
// channel with non-blocking operations; a rendezvous on an unbuffered channel between two tasks
// goes through a table of offers.

// party is one task blocked in one select statement: at most one of its cases is matched.
type party struct {
	task *Task
	done bool
}

// offer is a send that waits for a receiver, want a receive that waits for a sender.
type offer struct {
	ch    unsafe.Pointer
	val   any
	taken bool
	party *party
}

type want struct {
	ch     unsafe.Pointer
	val    any
	filled bool
	party  *party
}

var (
	offers []*offer
	wants  []*want
)

func init() { Resets = append(Resets, func() { offers, wants = nil, nil }) }

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (p *party) open(self *Task) bool { return !p.done && !p.task.killed && p.task != self }

// findOffer finds an offer of a task other than self.
func findOffer(p unsafe.Pointer, self *Task) *offer {
	for _, o := range offers {
		if o.ch == p && o.party.open(self) {
			return o
		}
	}
	return nil
}

func findWant(p unsafe.Pointer, self *Task) *want {
	for _, w := range wants {
		if w.ch == p && w.party.open(self) {
			return w
		}
	}
	return nil
}

func remove[T comparable](xs []T, x T) []T {
	for i, y := range xs {
		if x == y {
			return append(xs[:i:i], xs[i+1:]...)
		}
	}
	return xs
}

// SelOp is one case of a select.
type SelOp interface {
	try() bool    // attempt without blocking
	ready() bool  // would try succeed (no side effects)
	post(*party)  // wait for a partner
	unpost() bool // withdraw; true if a partner was found
}

type RecvOp[T any] struct {
	c    <-chan T
	Val  T
	Ok   bool
	self *Task
	w    *want
}

func Recv[T any](c <-chan T) *RecvOp[T] { return &RecvOp[T]{c: c} }

func (r *RecvOp[T]) try() bool {
	r.self = cur
	if r.c == nil {
		return false
	}
	p := chanPtr(r.c)
	if cap(r.c) == 0 {
		if o := findOffer(p, cur); o != nil {
			Acquire(p)
			o.taken, o.party.done = true, true
			r.Val, r.Ok = o.val.(chanVal[T]).v, true
			Release(p)
			return true
		}
	}
	select {
	case v, ok := <-r.c:
		Acquire(p)
		r.Val, r.Ok = v, ok
		return true
	default:
		return false
	}
}

type chanVal[T any] struct{ v T }

// closed tells whether a receive on an empty channel would succeed because it is closed.
func closedNow[T any](c <-chan T) bool {
	if len(c) > 0 {
		return false
	}
	// A receive from an empty channel succeeds without blocking only if it is closed (no real
	// goroutine ever blocks in a send on it).
	select {
	case _, ok := <-c:
		return !ok
	default:
		return false
	}
}

func (r *RecvOp[T]) ready() bool {
	if r.c == nil {
		return false
	}
	if cap(r.c) == 0 && findOffer(chanPtr(r.c), r.self) != nil {
		return true
	}
	return len(r.c) > 0 || closedNow(r.c)
}
func (r *RecvOp[T]) post(p *party) {
	if r.c != nil && cap(r.c) == 0 {
		r.w = &want{ch: chanPtr(r.c), party: p}
		Release(r.w.ch)
		wants = append(wants, r.w)
	}
}
func (r *RecvOp[T]) unpost() bool {
	w := r.w
	if w == nil {
		return false
	}
	r.w = nil
	wants = remove(wants, w)
	if !w.filled {
		return false
	}
	Acquire(w.ch)
	r.Val, r.Ok = w.val.(chanVal[T]).v, true
	return true
}

type SendOp[T any] struct {
	c chan<- T
	v T
	o *offer
}

func Send[T any](c chan<- T, v T) *SendOp[T] { return &SendOp[T]{c: c, v: v} }

func (s *SendOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)) }

func (s *SendOp[T]) try() bool {
	if s.c == nil {
		return false
	}
	Release(s.ptr())
	if isClosed(s.ptr()) {
		panic("send on closed channel")
	}
	if cap(s.c) == 0 {
		if w := findWant(s.ptr(), cur); w != nil {
			Acquire(w.ch)
			w.val, w.filled, w.party.done = chanVal[T]{s.v}, true, true
			return true
		}
	}
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}
func (s *SendOp[T]) ready() bool {
	if s.c == nil {
		return false
	}
	return isClosed(s.ptr()) || (cap(s.c) > 0 && len(s.c) < cap(s.c))
}
func (s *SendOp[T]) post(p *party) {
	if s.c != nil && cap(s.c) == 0 {
		s.o = &offer{ch: s.ptr(), val: chanVal[T]{s.v}, party: p}
		offers = append(offers, s.o)
	}
}
func (s *SendOp[T]) unpost() bool {
	o := s.o
	if o == nil {
		return false
	}
	s.o = nil
	offers = remove(offers, o)
	if o.taken {
		Acquire(o.ch)
	}
	return o.taken
}

var closedSet = map[unsafe.Pointer]bool{}

func init() { Resets = append(Resets, func() { closedSet = map[unsafe.Pointer]bool{} }) }

func isClosed(p unsafe.Pointer) bool { return closedSet[p] }

// Close is the instrumented form of the builtin.
func Close[T any](c chan<- T) {
	if !active {
		close(c)
		return
	}
	if Dead() {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	CoreEnter()
	Release(p)
	close(c)
	closedSet[p] = true
	CoreExit()
	Yield(3)
}

// To and SendC keep the element type of the channel out of type inference on the value.
func To[T any](c chan<- T) func(T)               { return func(v T) { Send1(c, v) } }
func SendC[T any](c chan<- T) func(T) *SendOp[T] { return func(v T) *SendOp[T] { return Send(c, v) } }

type selWait struct {
	ops []SelOp
	p   *party
}

func (w selWait) Complex() {}
func (w selWait) Ready() bool {
	if w.p.done {
		return true
	}
	for _, o := range w.ops {
		if o.ready() {
			return true
		}
	}
	return false
}

// Select runs a select statement and returns the index of the chosen case, or -1 for the default.
func Select(hasDefault bool, ops ...SelOp) int {
	if !active {
		return realSelect(hasDefault, ops)
	}
	if Dead() {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	Yield(4)
	if Dead() {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	CoreEnter()
	defer CoreExit()
	for {
		n := len(ops)
		if n > 0 {
			start := 0
			if n > 1 {
				start = Env(n)
			}
			for i := 0; i < n; i++ {
				k := (start + i) % n
				if ops[k].try() {
					return k
				}
			}
		}
		if hasDefault {
			return -1
		}
		p := &party{task: cur}
		for _, o := range ops {
			o.post(p)
		}
		CoreExit()
		Block(selWait{ops, p}, -1)
		CoreEnter()
		took := -1
		for i, o := range ops {
			if o.unpost() {
				took = i
			}
		}
		if took >= 0 {
			return took
		}
	}
}

func realSelect(hasDefault bool, ops []SelOp) int {
	for {
		for i, o := range ops {
			if o.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		realYield()
	}
}

func Recv1[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	if !active {
		v, ok := <-c
		return v, ok
	}
	r := Recv(c)
	Select(false, r)
	return r.Val, r.Ok
}

func Send1[T any](c chan<- T, v T) {
	if !active {
		c <- v
		return
	}
	Select(false, Send(c, v))
}

// --- deterministic map iteration

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
}

func MapEntries[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if active && len(it.keys) > 1 {
		// any order is legal: a random permutation, or the plain one
		if Chance(1, 2) {
			for i := len(it.keys) - 1; i > 0; i-- {
				j := Env(i + 1)
				// Env 0 must be the identity
				j = i - j
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func MapNext[K comparable, V any](it *MapIter[K, V], k *K, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func ChanRange[T any](c <-chan T) (<-chan T, T)                     { var v T; return c, v }
func MapK[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K) { var k K; return MapEntries(m), k }
func MapV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], V) { var v V; return MapEntries(m), v }
func MapKV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return MapEntries(m), k, v
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	strs := make([]string, len(keys))
	for i, k := range keys {
		strs[i] = keyString(reflect.ValueOf(&k).Elem())
	}
	// insertion sort keeps equal keys in place
	for i := 1; i < len(keys); i++ {
		for j := i; j > 0 && strs[j] < strs[j-1]; j-- {
			strs[j], strs[j-1] = strs[j-1], strs[j]
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
}
