// Package c00 exercises the engine itself: every result observed here is
// compared with a native run of the same inputs.
package c00

import (
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"maps"
	"math"
	"math/bits"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"verif/harness/sym"
)

func obs(xs ...int) {
	sym.Assert(len(xs) > 0, "something is observed")
	for _, x := range xs {
		sym.Observe(x)
	}
}

func b2i(b bool) int { return sym.Ite(b, 1, 0) }

// VArith: integer arithmetic of every width.
func VArith() {
	a, b := sym.Int64(), sym.Int64()
	obs(int(a+b), int(a-b), int(a*3), int(a&b), int(a|b), int(a^b), int(a&^b), int(-a), int(^a))
	s := uint(sym.Byte())
	obs(int(a<<s), int(a>>s), int(uint64(a)>>s))
	i8, u8 := int8(a), uint8(a)
	obs(int(i8), int(u8), int(i8+1), int(u8+255), int(i8>>1), int(u8>>1), int(int8(u8)<<3))
	i16, u32 := int16(a), uint32(b)
	obs(int(i16), int(u32), int(int32(u32)), int(uint16(i16)), int(i16*i16), int(u32*u32>>16))
	obs(b2i(a < b), b2i(uint64(a) < uint64(b)), b2i(i8 < int8(b)), b2i(u8 < uint8(b)), b2i(a == b))
}

// VDivide: division and remainder, also by zero.
func VDivide() {
	a, b := sym.Int8(), sym.Int8()
	defer func() {
		if recover() != nil {
			obs(-99)
		}
	}()
	obs(int(a/b), int(a%b))
	obs(int(uint8(a)/uint8(b)), int(uint8(a)%uint8(b)))
}

// VBits: math/bits.
func VBits() {
	x := uint64(sym.Uint16())
	obs(bits.Len64(x), bits.LeadingZeros64(x), bits.TrailingZeros64(x), bits.OnesCount64(x), int(bits.Reverse8(uint8(x))), int(bits.RotateLeft16(uint16(x), 5)))
	hi, lo := bits.Mul64(x, 1<<60)
	obs(int(hi), int(lo))
}

// VIndex: slices, bounds and panics.
func VIndex() {
	s := []int{10, 20, 30, 40}
	i, j := int(sym.Int8()), int(sym.Int8())
	defer func() {
		if e := recover(); e != nil {
			_, isErr := e.(error)
			obs(-1, b2i(isErr))
		}
	}()
	switch sym.Choose(5) {
	case 0:
		obs(s[i])
	case 1:
		obs(len(s[i:j]), cap(s[i:j]))
	case 2:
		obs(cap(s[:2:i]))
	case 3:
		s[i] = 7
		obs(s[0], s[1], s[2], s[3])
	case 4:
		obs(int("hello"[i]))
	}
}

// VAppend: sharing and growth.
func VAppend() {
	a := make([]int, 2, 4)
	b := append(a, 5)
	c := append(a, 6)
	obs(b[2], c[2], len(b), cap(b))
	d := append(b, 7, 8, 9)
	d[0] = 1
	obs(a[0], d[0], len(d))
	n := copy(a, d)
	obs(n, a[0], a[1])
	var e []byte
	e = append(e, "xyz"...)
	e = append(e[:1], e[2:]...)
	obs(len(e), int(e[0]), int(e[1]))
	x := sym.Int()
	f := []int{x, 2}
	g := f
	g[0]++
	obs(f[0])
	arr := [3]int{1, x, 3}
	h := arr
	h[1] = 9
	obs(arr[1], h[1], b2i(arr == h))
	p := &arr
	for k := range p {
		p[k] += k
	}
	obs(arr[0], arr[1], arr[2])
}

// VStrings: strings and bytes.
func VStrings() {
	x := sym.Bytes(3)
	s := string(x)
	obs(len(s), b2i(s == "abc"), b2i(s < "abc"), b2i(strings.HasPrefix(s, "a")), strings.IndexByte(s, 'b'), bytes.IndexByte(x, 0))
	obs(b2i(strings.Contains("xabcx", s)), strings.Compare(s, "b"), bytes.Compare(x, []byte("ab")))
	var b strings.Builder
	b.WriteString(s)
	b.WriteByte('-')
	fmt.Fprintf(&b, "%d", 12)
	obs(b.Len(), int(b.String()[2]), int(b.String()[4]))
	var buf bytes.Buffer
	buf.Write(x)
	buf.WriteString("tail")
	r, _ := buf.ReadByte()
	obs(int(r), buf.Len())
	obs(len(strings.Join([]string{s, s}, ", ")), len(strings.Repeat(s, 2)), len(bytes.Join([][]byte{x, x}, nil)))
	y := bytes.Clone(x)
	y[0]++
	obs(int(x[0]), int(y[0]), b2i(bytes.Equal(x, y)), b2i(bytes.HasSuffix(x, y[1:])))
}

// VText: conversions of concrete text.
func VText() {
	n := sym.Choose(3) - 1
	obs(len(strconv.Itoa(n*1234)), len(fmt.Sprint(n, "x", n)), len(fmt.Sprintf("%v|%5d|%x|%q|%t", n, n, 255, "a", n > 0)))
	k, err := strconv.Atoi([]string{"12", "x", "-7"}[n+1])
	obs(k, b2i(err == nil))
	f := strings.Fields(" a b  c ")
	obs(len(f), len(strings.Split("a,b,c", ",")), len(strings.TrimSpace("  q ")), len(strings.ToUpper("abc")), len(strings.ReplaceAll("aXbX", "X", "YY")))
	t := 0
	for i, r := range "aé世" {
		t += i * int(r)
	}
	obs(t, utf8.RuneCountInString("aé世"), len([]rune("aé世")), len(string(rune(0x4e16))))
	e := fmt.Errorf("wrap: %w", io.EOF)
	obs(b2i(errors.Is(e, io.EOF)), b2i(errors.Unwrap(e) == io.EOF), b2i(errors.Is(errors.Join(io.EOF, e), io.EOF)))
	var pe *posErr
	obs(b2i(errors.As(fmt.Errorf("x %w", &posErr{n}), &pe)), pe.pos)
}

type posErr struct{ pos int }

func (p *posErr) Error() string { return "pos" }

type point struct{ x, y int }

type shape interface{ area() int }
type square struct{ s int }
type rect struct{ point }

func (s square) area() int { return s.s * s.s }
func (r *rect) area() int  { return r.x * r.y }
func (p *point) move(d int) {
	p.x += d
}

// VTypes: interfaces, embedding, method values, type switches.
func VTypes() {
	n := int(sym.Int8())
	var s shape = square{n}
	if sym.Bool() {
		s = &rect{point{n, 3}}
	}
	obs(s.area())
	switch x := s.(type) {
	case square:
		obs(1, x.s, b2i(s == shape(square{n})))
	case *rect:
		x.move(2)
		obs(2, x.x, s.area())
	}
	f := s.area
	obs(f())
	g := (*point).move
	p := point{1, n}
	g(&p, n)
	obs(p.x)
	m := p.move
	m(1)
	obs(p.x)
	_, ok := s.(interface{ area() int })
	_, no := s.(fmt.Stringer)
	obs(b2i(ok), b2i(no))
	var e interface{} = p
	q := e.(point)
	q.x++
	obs(e.(point).x, q.x, b2i(e == interface{}(point{p.x, p.y})))
	func() {
		defer func() { obs(b2i(recover() != nil)) }()
		_ = e.(shape)
	}()
	func() {
		defer func() { obs(b2i(recover() != nil)) }()
		var a, b interface{} = []int{1}, []int{1}
		obs(b2i(a == b))
	}()
}

// VMaps: Go maps with symbolic and structured keys.
func VMaps() {
	m := map[int]int{}
	a, b := int(sym.Int8()), int(sym.Int8())
	m[a] = 1
	m[b] += 2
	v, ok := m[3]
	obs(len(m), m[a], m[b], v, b2i(ok))
	delete(m, a)
	obs(len(m))
	t := 0
	for k, v := range m {
		t += k*10 + v
	}
	obs(t)
	pm := map[point]string{{1, a}: "x", {1, b}: "yy"}
	obs(len(pm), len(pm[point{1, 5}]))
	sm := map[string][]int{}
	sm["q"] = append(sm["q"], a)
	sm["q"] = append(sm["q"], b)
	obs(len(sm["q"]), sm["q"][1])
	im := map[interface{}]int{1: 1, "a": 2, point{1, 2}: 3}
	obs(im[1], im["a"], im[point{1, 2}], im[int8(1)])
	ks := slices.Sorted(maps.Keys(map[int]bool{3: true, 1: true, 2: false}))
	obs(ks[0], ks[1], ks[2])
	clear(im)
	var nilm map[int]int
	obs(len(im), nilm[4], len(nilm))
	func() {
		defer func() { obs(b2i(recover() != nil)) }()
		nilm[1] = 2
	}()
}

type number interface {
	~int8 | ~int | ~uint16
}

func sum[T number](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

type stack[T any] struct{ items []T }

func (s *stack[T]) push(x T) { s.items = append(s.items, x) }
func (s *stack[T]) pop() (x T, ok bool) {
	if len(s.items) == 0 {
		return
	}
	x = s.items[len(s.items)-1]
	s.items = s.items[:len(s.items)-1]
	return x, true
}

type tree[K cmp.Ordered, V any] struct {
	l, r *tree[K, V]
	k    K
	v    V
}

func (t *tree[K, V]) put(k K, v V) *tree[K, V] {
	if t == nil {
		return &tree[K, V]{k: k, v: v}
	}
	switch c := cmp.Compare(k, t.k); {
	case c < 0:
		t.l = t.l.put(k, v)
	case c > 0:
		t.r = t.r.put(k, v)
	default:
		t.v = v
	}
	return t
}

func (t *tree[K, V]) all(yield func(K, V) bool) bool {
	return t == nil || t.l.all(yield) && yield(t.k, t.v) && t.r.all(yield)
}

// VGenerics: generic functions and types, iterators.
func VGenerics() {
	a, b, c := sym.Int8(), sym.Int8(), sym.Int8()
	obs(int(sum(a, b, c)), sum(1, 2, int(a)), int(sum(uint16(a), uint16(b))))
	var s stack[point]
	s.push(point{int(a), 1})
	s.push(point{int(b), 2})
	x, _ := s.pop()
	y, _ := s.pop()
	_, ok := s.pop()
	obs(x.x, y.x, b2i(ok), int(min(a, b, c)), int(max(a, b)))
	var t *tree[int8, int]
	for i, k := range []int8{a, b, c} {
		t = t.put(k, i)
	}
	seq := func(yield func(int8, int) bool) { t.all(yield) }
	for k, v := range seq {
		if v == 1 {
			continue
		}
		obs(int(k), v)
	}
	for i := range 3 {
		obs(i)
	}
}

// VSort: sorting and searching.
func VSort() {
	a := []int{int(sym.Int8()), int(sym.Int8()), int(sym.Int8())}
	b, c, d := slices.Clone(a), slices.Clone(a), slices.Clone(a)
	sort.Ints(a)
	sort.Slice(b, func(i, j int) bool { return b[i] > b[j] })
	slices.SortFunc(c, func(x, y int) int { return cmp.Compare(y, x) })
	sort.Stable(sort.Reverse(sort.IntSlice(d)))
	for i := range a {
		obs(a[i], b[i], c[i], d[i])
	}
	obs(sort.SearchInts(a, 3), b2i(slices.Contains(a, 5)), slices.Index(a, 7), b2i(slices.Equal(b, c)))
	i, ok := slices.BinarySearch(a, 4)
	obs(i, b2i(ok), slices.Max(a), slices.Min(a))
	slices.Reverse(a)
	a = slices.Insert(a, 1, 100)
	a = slices.Delete(a, 0, 1)
	obs(a[0], a[1])
	obs(len(slices.Compact(a)))
}

type ints []int

func (h ints) Len() int           { return len(h) }
func (h ints) Less(i, j int) bool { return h[i] < h[j] }
func (h ints) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ints) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// VContainers: container/heap and container/list.
func VContainers() {
	h := &ints{int(sym.Int8()), int(sym.Int8())}
	heap.Init(h)
	heap.Push(h, int(sym.Int8()))
	for h.Len() > 0 {
		obs(heap.Pop(h).(int))
	}
	l := list.New()
	e := l.PushBack(1)
	l.PushFront(2)
	l.InsertAfter(3, e)
	l.MoveToFront(e)
	l.Remove(l.Back())
	for e := l.Front(); e != nil; e = e.Next() {
		obs(e.Value.(int))
	}
}

// VHashes: hash functions.
func VHashes() {
	x := sym.Bytes(2)
	h := fnv.New32a()
	h.Write(x)
	obs(int(h.Sum32()))
	g := fnv.New64()
	io.WriteString(g, string(x))
	obs(int(g.Sum64()))
	obs(int(crc32.ChecksumIEEE([]byte("abc"))))
}

// VBinary: byte orders.
func VBinary() {
	x := sym.Uint32()
	var buf bytes.Buffer
	binary.Write(&buf, binary.BigEndian, x)
	binary.Write(&buf, binary.LittleEndian, int16(x))
	b := binary.LittleEndian.AppendUint64(buf.Bytes(), uint64(x)<<7)
	for _, c := range b {
		obs(int(c))
	}
	var y uint32
	obs(b2i(binary.Read(bytes.NewReader(b), binary.BigEndian, &y) == nil), int(y))
	obs(int(binary.LittleEndian.Uint32(b[2:])), len(binary.AppendUvarint(nil, 300)))
}

// VReflect: the common uses of reflection.
func VReflect() {
	var p *point
	vals := []interface{}{nil, p, &point{}, 3, "s", []int(nil), []int{1}, map[int]int(nil), square{1}, (func())(nil)}
	v := vals[sym.Choose(len(vals))]
	r := reflect.ValueOf(v)
	obs(b2i(r.IsValid()))
	if v == nil {
		return
	}
	obs(int(r.Kind()), int(reflect.TypeOf(v).Kind()))
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Slice:
		obs(b2i(r.IsNil()), b2i(r.Pointer() == 0), b2i(r.IsZero()))
	}
	if r.Kind() == reflect.Ptr && !r.IsNil() {
		obs(r.Elem().NumField(), int(r.Elem().Field(0).Int()), int(r.Elem().Kind()))
	}
	obs(b2i(reflect.TypeOf(v) == reflect.TypeOf(3)), b2i(reflect.TypeOf(v).Comparable()))
	obs(b2i(reflect.DeepEqual(v, vals[6])), b2i(reflect.DeepEqual(v, 3)))
	obs(b2i(reflect.DeepEqual([]interface{}{v, 1}, []interface{}{[]int{1}, 1})))
}

// VDefer: defer, recover, closures, named results, goto and labels.
func VDefer() {
	x := sym.Choose(4)
	f := func() (r int) {
		defer func() {
			if e := recover(); e != nil {
				r += e.(int)
			}
		}()
		for i := 0; i < 3; i++ {
			defer func() { r = r*2 + i }()
		}
		if x == 1 {
			panic(50)
		}
		if x == 2 {
			defer func() { panic(7) }()
			panic(50)
		}
		return 5
	}
	obs(f())
	n := 0
outer:
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			switch {
			case j == x:
				continue outer
			case i*j == 6:
				break outer
			case i == 2:
				fallthrough
			default:
				n += i + j
			}
		}
	}
	obs(n)
again:
	if n > 3 {
		n -= 3
		goto again
	}
	obs(n)
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i += 10; return i })
	}
	obs(fs[0](), fs[1](), fs[0]())
}

// VFloats: concrete floating point.
func VFloats() {
	x := float64(sym.Choose(5)) - 2.5
	obs(int(x), int(math.Floor(x)), int(x*1e6/7), b2i(x < 0.5), int(math.Sqrt(x*x)*100), int(float32(x)*3), b2i(math.IsNaN(math.NaN())), int(math.MaxInt32))
	obs(int(math.Float64bits(x)>>48), int(math.Round(x)), int(math.Mod(7, 4)), int(math.Log2(1024)), int(math.Max(x, 1)))
}

// VConc: synchronisation.
func VConc() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var once sync.Once
	var n atomic.Int32
	total := 0
	ch := make(chan int, 2)
	done := make(chan struct{})
	go func() {
		for x := range ch {
			mu.Lock()
			total += x
			mu.Unlock()
		}
		close(done)
	}()
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			once.Do(func() { n.Add(10) })
			n.Add(1)
			ch <- i + 1
		}()
	}
	wg.Wait()
	close(ch)
	<-done
	obs(total, int(n.Load()))
	v, ok := <-ch
	obs(v, b2i(ok))
	select {
	case <-done:
		obs(1)
	case ch2 := <-make(chan int):
		obs(ch2)
	}
	select {
	case <-make(chan int):
	default:
		obs(2)
	}
}

// VSyncMore: the rest of sync.
func VSyncMore() {
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	_, loaded := m.LoadOrStore("a", 2)
	obs(v.(int), b2i(ok), b2i(loaded))
	var av atomic.Value
	av.Store(point{1, 2})
	obs(av.Load().(point).y)
	var ap atomic.Pointer[point]
	ap.Store(&point{3, 4})
	obs(ap.Load().x, b2i(ap.CompareAndSwap(nil, nil)))
	f := sync.OnceValue(func() int { return 9 })
	obs(f(), f())
	p := sync.Pool{New: func() any { return new(point) }}
	q := p.Get().(*point)
	p.Put(q)
	var rw sync.RWMutex
	rw.RLock()
	obs(b2i(rw.TryLock()), b2i(rw.TryRLock()))
	rw.RUnlock()
	rw.RUnlock()
	var u uint64
	atomic.AddUint64(&u, 3)
	obs(int(atomic.LoadUint64(&u)), b2i(atomic.CompareAndSwapUint64(&u, 3, 4)), int(atomic.SwapUint64(&u, 9)))
}

// VTime: durations, sleeping and timers.
func VTime() {
	d := 3 * time.Second
	obs(int(d.Milliseconds()))
	time.Sleep(time.Millisecond)
	select {
	case <-time.After(time.Millisecond):
		obs(1)
	}
}

// VMapOrder: the order of a map is arbitrary, its contents are not.
func VMapOrder() {
	a, b := int(sym.Int8()), int(sym.Int8())
	m := map[int]int{a: 1, b: 2}
	first, n, sum := 0, 0, 0
	for k, v := range m {
		if n == 0 {
			first = k
		}
		n++
		sum += v
		if v == 2 {
			delete(m, a)
		}
	}
	sym.Assert(first == a || first == b, "the first key is a key")
	sym.Assert(n == 2 && sum == 3 || sum == 2 && n == 1, "every entry that stays is visited once")
}
