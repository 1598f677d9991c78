package h

import (
	"bytes"
	"cmp"
	"container/list"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"math/bits"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"verif/harness/sym"
)

// S01_Std: what the library's code might reasonably come to use, in the machine and natively.
func S01_Std() {
	a, b, c := sym.U8("a"), sym.U16("b"), sym.U32("c")
	d := sym.U64("d")
	bs := sym.Bytes("bs", 4)
	ob := func(x any) { sym.Observe("x", x) }
	switch sym.Choose("case", 38) {
	case 0:
		x := binary.BigEndian.AppendUint32(nil, c)
		x = binary.LittleEndian.AppendUint16(x, b)
		ob(x)
	case 1:
		var buf bytes.Buffer
		buf.WriteByte(a)
		buf.Write(bs)
		buf.WriteString("xyz")
		fmt.Fprintf(&buf, "%d", 5)
		ob(buf.Bytes())
		ob(buf.Len())
		y := buf.Next(2)
		ob(y)
	case 2:
		r := bytes.NewReader(bs)
		x := make([]byte, 3)
		n, err := io.ReadFull(r, x)
		ob(n)
		ob(err)
		ob(x)
		n, err = io.ReadFull(r, x)
		ob(n)
		ob(err == io.ErrUnexpectedEOF)
		rest, err := io.ReadAll(bytes.NewReader(bs))
		ob(rest)
		ob(err)
	case 3:
		var sb strings.Builder
		sb.WriteByte(a & 127)
		sb.WriteString("q")
		sb.Grow(10)
		sb.WriteRune('é')
		ob(sb.String())
	case 4:
		ob(bits.LeadingZeros8(a))
		ob(bits.Reverse8(a))
		ob(bits.ReverseBytes32(c))
		ob(bits.ReverseBytes64(d))
		ob(bits.RotateLeft16(b, 3))
		ob(bits.Len32(c))
		ob(bits.OnesCount64(d))
		ob(bits.TrailingZeros16(b))
		hi, lo := bits.Mul64(d, 3)
		ob(hi)
		ob(lo)
		s, cy := bits.Add64(d, d, 1)
		ob(s)
		ob(cy)
	case 5:
		x := slices.Clone(bs)
		slices.Reverse(x)
		ob(x)
		ob(slices.Contains(x, a))
		ob(slices.Index(x, a))
		ob(slices.Max(x))
		ob(slices.Equal(x, bs))
	case 6:
		x := slices.Clone(bs)
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		ob(x)
		y := slices.Clone(bs)
		slices.Sort(y)
		ob(y)
		sort.Ints([]int{3, 1, 2})
	case 7:
		m := map[string]int{"a": 1, "b": 2, "c": 3}
		ks := slices.Sorted(maps.Keys(m))
		ob(ks)
		delete(m, "b")
		ob(len(m))
		clear(m)
		ob(len(m))
	case 8:
		var m sync.Map
		m.Store("x", a)
		v, ok := m.Load("x")
		ob(v)
		ob(ok)
		v, l := m.LoadOrStore("y", b)
		ob(v)
		ob(l)
		m.Range(func(k, v any) bool { return true })
		m.Delete("x")
	case 9:
		p := sync.Pool{New: func() any { return new([8]byte) }}
		x := p.Get().(*[8]byte)
		x[0] = a
		p.Put(x)
		ob(x[0])
	case 10:
		var o sync.Once
		n := 0
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		ob(n)
		f := sync.OnceValue(func() int { return 5 })
		ob(f())
	case 11:
		var x atomic.Int64
		x.Add(3)
		x.Store(x.Load() + int64(a))
		ob(x.Load())
		ob(x.CompareAndSwap(3, 4))
		var p atomic.Pointer[int]
		ob(p.Load() == nil)
		var v atomic.Value
		v.Store(7)
		ob(v.Load())
		var u uint32
		atomic.AddUint32(&u, 2)
		ob(u)
	case 12:
		var mu sync.Mutex
		mu.Lock()
		ob(mu.TryLock())
		mu.Unlock()
		var rw sync.RWMutex
		rw.RLock()
		rw.RUnlock()
	case 13:
		var wg sync.WaitGroup
		x := make([]int, 3)
		for i := range 3 {
			wg.Add(1)
			go func() { defer wg.Done(); x[i] = i * int(a) }()
		}
		wg.Wait()
		ob(x)
	case 14:
		ch := make(chan int, 2)
		ch <- 1
		ch <- 2
		close(ch)
		s := 0
		for x := range ch {
			s += x
		}
		ob(s)
	case 15:
		ob(math.Float64frombits(d) == 1)
		ob(math.IsInf(math.Float64frombits(d), 0))
		ob(math.Signbit(math.Float64frombits(d)))
		ob(math.Inf(1))
		ob(math.Copysign(1, -1))
		ob(math.MaxInt8)
		ob(math.Mod(7, 3))
		ob(math.Pow(2, 3))
		ob(math.Ldexp(1, 3))
		ob(math.Round(2.5))
		ob(math.Max(1, 2))
	case 16:
		n, err := strconv.ParseInt("12"+string(rune('0'+a%10)), 0, 64)
		ob(n)
		ob(err)
		u, err := strconv.ParseUint("0x1f", 0, 64)
		ob(u)
		ob(err)
		_, err = strconv.Atoi("q")
		ob(err)
		ob(strconv.Itoa(77))
		ob(strconv.Quote("a\nb"))
		q, err := strconv.Unquote(`"a\x41"`)
		ob(q)
		ob(err)
		f, err := strconv.ParseFloat("1.5", 64)
		ob(f)
		ob(err)
		ob(strconv.FormatUint(12, 16))
		ob(string(strconv.AppendInt(nil, -5, 10)))
	case 17:
		s := string(bs)
		ob(strings.Contains(s, "a"))
		ob(strings.HasPrefix(s, "ab"))
		ob(strings.TrimLeft(s, " \t"))
		ob(strings.TrimSpace(s))
		ob(strings.Split("a,b,c", ","))
		ob(strings.Fields(" a b "))
		ob(strings.Join([]string{"a", s}, "-"))
		ob(strings.Repeat("ab", 2))
		ob(strings.IndexAny(s, "xy"))
		ob(strings.EqualFold("aB", "Ab"))
		ob(strings.TrimRight(s, "\x00"))
		ob(strings.ReplaceAll("abab", "a", "c"))
		x, y, ok := strings.Cut(s, "=")
		ob(x)
		ob(y)
		ob(ok)
		ob(strings.ToLower("ABC"))
	case 18:
		ob(bytes.IndexByte(bs, 0))
		ob(bytes.TrimRight(bs, "\x00"))
		ob(bytes.Equal(bs, []byte{1, 2, 3, 4}))
		ob(bytes.Repeat([]byte{a}, 3))
		ob(bytes.Clone(bs))
		ob(bytes.HasPrefix(bs, []byte{1}))
		x, y, ok := bytes.Cut(bs, []byte{0})
		ob(x)
		ob(y)
		ob(ok)
		ob(bytes.TrimRightFunc(bs, func(r rune) bool { return r == 0 }))
		ob(bytes.IndexFunc(bs, func(r rune) bool { return r == 0 }))
		ob(bytes.Contains(bs, []byte("ab")))
		ob(bytes.Count(bs, []byte{0}))
	case 19:
		r, n := utf8.DecodeRune(bs)
		ob(r)
		ob(n)
		ob(utf8.Valid(bs[:2]))
		ob(utf8.RuneLen('é'))
		ob(utf8.AppendRune(nil, rune(b)))
		ob(unicode.IsLetter(rune(a)))
		ob(unicode.IsDigit(rune(a)))
		ob(unicode.IsSpace(rune(a)))
		for i, r := range string(bs[:2]) {
			ob(i)
			ob(r)
		}
	case 20:
		e := errors.New("x")
		w := fmt.Errorf("w: %w", e)
		ob(errors.Is(w, e))
		ob(errors.Unwrap(w) == e)
		j := errors.Join(e, nil, w)
		ob(errors.Is(j, e))
		ob(j.Error())
		ob(w.Error())
		var ne *strconv.NumError
		_, err := strconv.Atoi("q")
		ob(errors.As(err, &ne))
	case 21:
		ob(fmt.Sprintf("%d %s %q %x %v %T %5d|%-5s|%05d", 1, "a", "b", 255, []int{1}, uint8(1), 7, "z", 42))
		ob(fmt.Sprint("a", 1, true))
		ob(fmt.Sprintf("%v %+v", struct{ A, B int }{1, 2}, struct{ A int }{3}))
	case 22:
		x := *(*uint32)(unsafe.Pointer(&c))
		ob(x)
		ob(unsafe.Sizeof(x))
		s := "hello"
		ob(unsafe.StringData(s) != nil)
	case 23:
		x := unsafe.String(&bs[0], 2)
		ob(x)
	case 24:
		ob(hex.EncodeToString(bs))
		y, err := hex.DecodeString("0aff")
		ob(y)
		ob(err)
	case 25:
		l := list.New()
		l.PushBack(a)
		l.PushFront(b)
		for e := l.Front(); e != nil; e = e.Next() {
			ob(e.Value)
		}
	case 26:
		ob(cmp.Compare(a, 7))
		ob(min(a, 3))
		ob(max(b, 300))
	case 27:
		func() {
			defer func() {
				r := recover()
				e, ok := r.(error)
				ob(ok)
				ob(e != nil)
			}()
			var x []int
			_ = x[int(a)]
		}()
	case 28:
		var x struct {
			A uint8
			B uint32
		}
		err := binary.Read(bytes.NewReader([]byte{1, 2, 3, 4, 5}), binary.BigEndian, &x)
		ob(err)
		ob(x.A)
		ob(x.B)
	case 29:
		var buf bytes.Buffer
		err := binary.Write(&buf, binary.LittleEndian, c)
		ob(err)
		ob(buf.Bytes())
	case 30:
		x, n := binary.Uvarint(bs)
		ob(x)
		ob(n)
		ob(binary.AppendUvarint(nil, uint64(b)))
	case 31:
		ob(binary.Size(uint32(1)))
		y, err := binary.Append(nil, binary.BigEndian, b)
		ob(y)
		ob(err)
		var z uint16
		n, err := binary.Decode(bs, binary.BigEndian, &z)
		ob(n)
		ob(err)
		ob(z)
	case 32:
		type T struct {
			A uint8 `k:"v"`
			B []uint16
			C string
			D *int
			E map[string]int
		}
		v := reflect.ValueOf(&T{A: a}).Elem()
		t := v.Type()
		ob(t.NumField())
		ob(t.Name())
		ob(t.Kind().String())
		f, ok := t.FieldByName("B")
		ob(ok)
		ob(f.Index)
		ob(f.Type.String())
		ob(t.Field(0).Tag.Get("k"))
		v.Field(1).Set(reflect.Append(v.Field(1), reflect.ValueOf(b)))
		v.Field(1).Grow(4)
		v.Field(1).SetLen(2)
		ob(v.Field(1).Len())
		v.Field(3).Set(reflect.New(t.Field(3).Type.Elem()))
		ob(v.Field(3).IsNil())
		ob(v.Field(0).IsZero())
		v.Field(0).SetZero()
		ob(v.Field(0).Uint())
		v.Field(2).SetString("q")
		ob(v.Field(2).String())
		v.Field(4).Set(reflect.MakeMap(t.Field(4).Type))
		v.Field(4).SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(3))
		ob(v.Field(4).MapIndex(reflect.ValueOf("k")).Int())
		it := v.Field(4).MapRange()
		for it.Next() {
			ob(it.Key().String())
		}
		ob(v.NumField())
		ob(v.CanAddr())
		ob(v.Field(0).CanSet())
		ob(v.Field(0).Addr().Type().String())
		ob(reflect.Indirect(v.Field(3)).Int())
		ob(v.Field(1).Slice(0, 1).Len())
		ob(reflect.TypeFor[int]().String())
		ob(t.Comparable())
		ob(v.Kind() == reflect.Struct)
		ob(t.Size())
		ob(v.Field(1).Cap() >= 2)
	case 33:
		v := reflect.ValueOf(&bs).Elem()
		ob(v.Bytes())
		v.SetBytes([]byte{1})
		ob(bs)
		x := reflect.MakeSlice(reflect.TypeOf(bs), 2, 4)
		reflect.Copy(x, reflect.ValueOf([]byte{a, a}))
		ob(x.Bytes())
		ob(reflect.DeepEqual([]byte{1}, []byte{1}))
		y := reflect.ValueOf(c).Convert(reflect.TypeOf(uint64(0)))
		ob(y.Uint())
		ob(y.CanConvert(reflect.TypeOf(uint8(0))))
		ob(reflect.ValueOf(int8(5)).OverflowInt(200))
		ob(reflect.Zero(reflect.TypeOf(c)).Uint())
		ob(reflect.ValueOf(c).Comparable())
		ob(reflect.ValueOf(c).Equal(reflect.ValueOf(c)))
		ob(reflect.ValueOf(a).CanUint())
		for i, e := range reflect.ValueOf([]int{4, 5}).Seq2() {
			ob(i.Int())
			ob(e.Int())
		}
	case 34:
		f := reflect.ValueOf(func(x uint8, y int) int { return int(x) + y })
		r := f.Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(3)})
		ob(r[0].Int())
		ob(f.Type().NumIn())
		ob(f.Type().In(0).String())
		ob(f.Type().IsVariadic())
		g := reflect.MakeFunc(f.Type(), func(in []reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf(int(in[0].Uint()))} })
		ob(g.Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(3)})[0].Int())
	case 35:
		type S struct{ X, Y int }
		t := reflect.TypeOf(S{})
		ob(t.PkgPath() != "")
		m := reflect.MapOf(reflect.TypeOf(""), t)
		ob(m.Kind().String())
		ob(reflect.PointerTo(t).Elem() == t)
		ob(reflect.SliceOf(t).Elem() == t)
		ob(t.ConvertibleTo(reflect.TypeOf(1)))
		ob(t.AssignableTo(t))
		ob(reflect.TypeOf((*error)(nil)).Elem().Kind() == reflect.Interface)
		ob(reflect.TypeOf(io.EOF).Implements(reflect.TypeOf((*error)(nil)).Elem()))
		ob(len(reflect.VisibleFields(t)))
		ob(t.NumMethod())
		ob(reflect.ValueOf(S{1, 2}).FieldByName("Y").Int())
		ob(reflect.ValueOf(S{1, 2}).FieldByIndex([]int{1}).Int())
		ob(reflect.ValueOf(&S{1, 2}).Elem().Field(0).Addr().Interface().(*int) != nil)
	case 36:
		x := [...]uint8{1, 2, 3}
		y := x[:]
		z := [3]uint8(y)
		p := (*[2]uint8)(y)
		p[0] = a
		ob(x)
		ob(z)
		for i := range y {
			y[i] ^= 0xff
		}
		ob(x)
		copy(y[1:], y)
		ob(y)
	case 37:
	l:
		for i := 0; ; i++ {
			switch {
			case i == 2:
				continue l
			case i > 4:
				break l
			}
			ob(i)
		}
		i := 0
	m:
		if i < int(a&3) {
			i++
			goto m
		}
		ob(i)
	}
}
