package main

import (
	"bytes"
	"errors"
	"fmt"
	"image/color"
	"io"
	"math"
	"reflect"
	"unsafe"

	"github.com/qmuntal/gltf"
	gltfbin "github.com/qmuntal/gltf/binary"
)

func init() {
	register(&Property{
		ID: "C12", Level: "model_checking",
		Rule:        "a case is one slice type (42 formats and the two colour types), stride, element count and slice of the target inside an arena of sentinel bytes; the whole arena is compared with an independently computed layout after Write, and the whole destination after Read; value sets contain every 8 and 16-bit pattern and every byte of 32-bit patterns in every lane; a state is the distinct case",
		Assumptions: []string{"when a stride is smaller than the padded element, writes only have to stay inside the target", "whether the trailing padding of the last element must be present is left open: it is between the lengths that must succeed and must fail"},
		Harnesses: []Harness{
			{Name: "write", Run: func(x *X) { codecLayout(x, true) }},
			{Name: "read", Run: func(x *X) { codecLayout(x, false) }},
			{Name: "values", Run: codecValues},
			{Name: "components", Run: codecComponents},
			{Name: "strides", Run: codecStrides},
		},
	})
	register(&Property{
		ID: "C13", Level: "model_checking",
		Rule:        "every integer value of every normalised type and every float32 of the valid range (for colours every 13th float in the quick tier, every float in the thorough tier) is converted; an execution covers one block of consecutive values, a transition is one value",
		Assumptions: []string{"inputs of Normalize functions are in range: [0,1], or [-1,1] for signed types", "integer colour conversions may truncate, so they are exact to one unit"},
		Harnesses: []Harness{
			{Name: "integers", Run: normIntegers},
			{Name: "floats", Run: normFloats},
			{Name: "colors-int", Run: colorInts},
			{Name: "colors-float", Run: colorFloats},
		},
	})
}

type codecType struct {
	c  gltf.ComponentType
	t  gltf.AccessorType
	el reflect.Type
}

var codecTypes = func() []codecType {
	var out []codecType
	for _, c := range allComps {
		for _, t := range allTypes {
			out = append(out, codecType{c, t, goElem(c, t)})
		}
	}
	return append(out, codecType{gltf.ComponentUbyte, gltf.AccessorVec4, reflect.TypeOf(color.RGBA{})},
		codecType{gltf.ComponentUshort, gltf.AccessorVec4, reflect.TypeOf(color.RGBA64{})})
}()

func (ct codecType) slice(n, extra int) any {
	return reflect.MakeSlice(reflect.SliceOf(ct.el), n, n+extra).Interface()
}

func sentinel(n int, s byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = s + byte(i*13)
	}
	return b
}

// codecLayout checks one Write or Read call against the reference layout.
func codecLayout(x *X, write bool) {
	ct := codecTypes[x.All("type", len(codecTypes))]
	ms, es, cs := refMemSize(ct.c, ct.t), refElemSize(ct.c, ct.t), compSize(ct.c)
	counts := []int{2, 0, 1, 3}
	if x.Thorough {
		counts = append(counts, 4, 5, 9)
	}
	n := counts[x.All("count", len(counts))]
	strides := []int{0, es, es + 1, es + cs, es + 4, 2 * es, 255}
	if !write {
		strides = append(strides, 1, es-1, ms)
	}
	stride := strides[x.All("stride", len(strides))]
	st := stride
	if st == 0 {
		st = es
	}
	need, least := 0, 0
	if n > 0 {
		need = (n-1)*st + es
		// without the padding of the last column
		r, nc := dims(ct.t)
		least = (n-1)*st + (nc-1)*ceil4(r*cs) + r*cs
		if nc == 1 {
			least = (n-1)*st + r*cs
		}
	}
	lens := []int{need, need + 1, need + es, need + 7, need - 1, least, least - 1, 0, es - 1, (n - 1) * st}
	l := max(lens[x.All("len", len(lens))], 0)
	const lead = 32
	arena := sentinel(lead+l+lead, 0x60)
	orig := append([]byte{}, arena...)
	b := arena[lead : lead+l : lead+l]
	if x.All("spare-cap", 2) == 1 {
		b = arena[lead : lead+l]
	}
	if l == 0 && x.All("nil", 2) == 1 {
		b = nil
	}
	x.State(fmt.Sprint(ct.el, n, stride, l, write, cap(b)))
	x.Log("%v x%d stride %d into %d bytes (need %d)", ct.el, n, stride, l, need)
	data := ct.slice(n, 2)
	vals := pattern(n*ms, 3)
	if write {
		copy(mem(data), vals)
	} else {
		m := memCap(data)
		copy(m, sentinel(len(m), 0x21))
	}
	if !write && l >= least {
		for i := 0; i < n; i++ {
			if st >= es {
				e := make([]byte, es)
				copy(e, arena[lead+i*st:])
				memToElem(e, vals[i*ms:], ct.c, ct.t)
				copy(b[i*st:], e)
			}
		}
		copy(orig, arena)
	}
	want := append([]byte{}, orig...)
	if write && l >= least {
		for i := 0; i < n; i++ {
			e := append([]byte{}, arena[lead+i*st:lead+i*st+es]...)
			memToElem(e, vals[i*ms:], ct.c, ct.t)
			copy(want[lead+i*st:], e)
		}
	}
	var err error
	if write {
		err = gltfbin.Write(b, stride, data)
	} else {
		err = gltfbin.Read(b, stride, data)
	}
	name := "Read"
	if write {
		name = "Write"
	}
	desc := fmt.Sprintf("%s(%d bytes, stride %d, %d x %v)", name, l, stride, n, ct.el)
	if l < least && !errors.Is(err, io.ErrShortBuffer) {
		x.Fail("short", "%s needs %d bytes: error %v, want io.ErrShortBuffer", desc, least, err)
	}
	if l >= need && err != nil {
		x.Fail("rejected", "%s: %v", desc, err)
	}
	if err != nil && !errors.Is(err, io.ErrShortBuffer) {
		x.Fail("error", "%s: unexpected error %v", desc, err)
	}
	if write {
		if err != nil {
			for i := range arena {
				if (i < lead || i >= lead+l) && arena[i] != orig[i] {
					x.Fail("outside", "%s failed and changed byte %d", desc, i-lead)
				}
			}
		} else if !bytes.Equal(arena, want) {
			for i := range arena {
				if arena[i] != want[i] {
					x.Fail("layout", "%s: byte %d is %#x, want %#x", desc, i-lead, arena[i], want[i])
				}
			}
		}
		if !bytes.Equal(mem(data), vals) {
			x.Fail("source", "%s changed its data", desc)
		}
		return
	}
	if !bytes.Equal(arena, orig) {
		x.Fail("source", "%s changed the bytes it read", desc)
	}
	m := memCap(data)
	s := sentinel(len(m), 0x21)
	if !bytes.Equal(m[n*ms:], s[n*ms:]) {
		x.Fail("outside", "%s wrote past the length of its destination", desc)
	}
	if err == nil {
		exp := make([]byte, ms)
		for i := 0; i < n; i++ {
			elemToMem(exp, arena[lead+i*st:], ct.c, ct.t)
			if !bytes.Equal(m[i*ms:(i+1)*ms], exp) {
				x.Fail("layout", "%s: element %d is % x, want % x", desc, i, m[i*ms:(i+1)*ms], exp)
			}
		}
	}
}

// laneValues gives, for one component size, how many elements show every
// pattern in every lane and the pattern of each.
func laneValues(cs int) (n int, val func(i, lane int) uint32) {
	switch cs {
	case 1:
		return 256, func(i, l int) uint32 { return uint32(i ^ l*77) }
	case 2:
		return 65536, func(i, l int) uint32 { return uint32(i ^ l*0x3A71) }
	}
	return 1024 + 2*len(floatBits), func(i, l int) uint32 {
		if i < 1024 {
			j := i ^ l*0x155
			return uint32(j&255)<<(8*(j>>8&3)) ^ 0x01020304*uint32(l)
		}
		return floatBits[(i+l*11)%len(floatBits)]
	}
}

func laneMem(cs, n, lanes int, val func(i, lane int) uint32) []byte {
	m := make([]byte, n*lanes*cs)
	for i := 0; i < n; i++ {
		for l := 0; l < lanes; l++ {
			v := val(i, l)
			for b := 0; b < cs; b++ {
				m[(i*lanes+l)*cs+b] = byte(v >> (8 * b))
			}
		}
	}
	return m
}

func codecValues(x *X) {
	ct := codecTypes[x.All("type", len(codecTypes))]
	ms, es, cs := refMemSize(ct.c, ct.t), refElemSize(ct.c, ct.t), compSize(ct.c)
	n, val := laneValues(cs)
	m := laneMem(cs, n, ms/cs, val)
	stride := []int{0, es + 3}[x.All("stride", 2)]
	st := stride
	if st == 0 {
		st = es
	}
	x.State(fmt.Sprint(ct.el, stride))
	x.Step(n * ms / cs)
	data := ct.slice(n, 0)
	copy(mem(data), m)
	b := sentinel((n-1)*st+es, 0x90)
	want := append([]byte{}, b...)
	for i := 0; i < n; i++ {
		memToElem(want[i*st:], m[i*ms:], ct.c, ct.t)
	}
	if err := gltfbin.Write(b, stride, data); err != nil {
		x.Fail("rejected", "Write of %d x %v: %v", n, ct.el, err)
	}
	if !bytes.Equal(b, want) {
		for i := range b {
			if b[i] != want[i] {
				x.Fail("layout", "Write of %v with stride %d: element %d byte %d is %#x, want %#x", ct.el, stride, i/st, i%st, b[i], want[i])
			}
		}
	}
	back := ct.slice(n, 0)
	if err := gltfbin.Read(want, stride, back); err != nil {
		x.Fail("rejected", "Read of %d x %v: %v", n, ct.el, err)
	}
	if g := mem(back); !bytes.Equal(g, m) {
		for i := range g {
			if g[i] != m[i] {
				x.Fail("layout", "Read of %v with stride %d: element %d byte %d is %#x, want %#x", ct.el, stride, i/ms, i%ms, g[i], m[i])
			}
		}
	}
}

// codecComponents drives the exported per-element functions.
func codecComponents(x *X) {
	c := allComps[x.All("comp", 6)]
	ti := x.All("type", 7)
	t := allTypes[ti]
	comp := map[gltf.ComponentType]any{gltf.ComponentByte: gltfbin.Byte, gltf.ComponentUbyte: gltfbin.Ubyte, gltf.ComponentShort: gltfbin.Short,
		gltf.ComponentUshort: gltfbin.Ushort, gltf.ComponentUint: gltfbin.Uint, gltf.ComponentFloat: gltfbin.Float}[c]
	name := []string{"Scalar", "Vec2", "Vec3", "Vec4", "Mat2", "Mat3", "Mat4"}[ti]
	get, put := reflect.ValueOf(comp).MethodByName(name), reflect.ValueOf(comp).MethodByName("Put"+name)
	ms, es, cs := refMemSize(c, t), refElemSize(c, t), compSize(c)
	n, val := laneValues(cs)
	if !x.Thorough && n > 4096 {
		full := val
		n, val = 1024, func(i, l int) uint32 { // every value of each byte
			if i < 512 {
				return uint32(i&255) << (8 * (i >> 8))
			}
			return full(i*64+i/8, l)
		}
	}
	m := laneMem(cs, n, ms/cs, val)
	x.State(fmt.Sprint(c, t))
	x.Step(n)
	slack := []int{0, 1, 8}[x.All("slack", 3)]
	for i := 0; i < n; i++ {
		v := reflect.New(goElem(c, t)).Elem()
		copy(memOf(v), m[i*ms:(i+1)*ms])
		b := sentinel(es+slack, 0x90)
		want := append([]byte{}, b...)
		memToElem(want, m[i*ms:(i+1)*ms], c, t)
		put.Call([]reflect.Value{reflect.ValueOf(b), v})
		if !bytes.Equal(b, want) {
			x.Fail("layout", "%v.Put%s(%v) wrote % x, want % x", c, name, v, b, want)
		}
		r := get.Call([]reflect.Value{reflect.ValueOf(want)})[0]
		o := reflect.New(goElem(c, t)).Elem()
		o.Set(r)
		if !bytes.Equal(memOf(o), m[i*ms:(i+1)*ms]) {
			x.Fail("layout", "%v.%s(% x) returned bytes % x, want % x", c, name, want, memOf(o), m[i*ms:(i+1)*ms])
		}
	}
}

func memOf(v reflect.Value) []byte {
	return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), int(v.Type().Size()))
}

// codecStrides offers boundary strides.
func codecStrides(x *X) {
	ct := codecTypes[x.All("type", len(codecTypes))]
	es := refElemSize(ct.c, ct.t)
	strides := []int{1, 2, 3, es - 1, -1, -es, -4, math.MaxInt, math.MinInt, math.MaxInt - 1, math.MaxInt / 2, math.MaxInt/2 + 1, 1 << 62, 1<<62 + 1, -1 << 62, 1 << 32, 1 << 31, math.MinInt + 1}
	stride := strides[x.All("stride", len(strides))]
	n := x.All("count", 5)
	l := []int{0, es, 2 * es, 5*es + 9}[x.All("len", 4)]
	const lead = 64
	arena := sentinel(lead+l+lead, 0x60)
	orig := append([]byte{}, arena...)
	b := arena[lead : lead+l]
	data := ct.slice(n, 0)
	copy(mem(data), pattern(len(mem(data)), 3))
	write := x.All("write", 2) == 1
	x.State(fmt.Sprint(ct.el, stride, n, l, write))
	var err error
	if write {
		err = gltfbin.Write(b, stride, data)
	} else {
		err = gltfbin.Read(b, stride, data)
	}
	if err != nil && !errors.Is(err, io.ErrShortBuffer) {
		x.Fail("error", "stride %d, %d x %v in %d bytes: unexpected error %v", stride, n, ct.el, l, err)
	}
	tooBig := n > 1 && (stride < 0 || stride > l)
	if tooBig && err == nil {
		x.Fail("short", "stride %d, %d x %v in %d bytes: no error", stride, n, ct.el, l)
	}
	for i := range arena {
		if arena[i] != orig[i] && (!write || i < lead || i >= lead+l) {
			x.Fail("outside", "stride %d, %d x %v in %d bytes: byte %d changed", stride, n, ct.el, l, i-lead)
		}
	}
}

// ---- C13 ----

func normIntegers(x *X) {
	fn := x.All("fn", 4)
	x.State(fmt.Sprint(fn))
	chk := func(v int, f float32, back int, maxv float64) {
		want := math.Max(float64(v)/maxv, -1)
		if math.Abs(float64(f)-want) > 1e-7 {
			x.Fail("denormalize", "denormalising %d with maximum %v gives %v, want %v", v, maxv, f, want)
		}
		if v == 0 && f != 0 || v == int(maxv) && f != 1 || v <= -int(maxv) && f != -1 {
			x.Fail("denormalize", "denormalising %d with maximum %v gives %v", v, maxv, f)
		}
		exp := v
		if v < -int(maxv) {
			exp = -int(maxv) // both lowest integers mean -1
		}
		if back != exp {
			x.Fail("inverse", "normalising the denormalised %d (maximum %v) gives %d", v, maxv, back)
		}
	}
	switch fn {
	case 0:
		for v := -128; v <= 127; v++ {
			f := gltf.DenormalizeByte(int8(v))
			chk(v, f, int(gltf.NormalizeByte(f)), 127)
		}
		x.Step(256)
	case 1:
		for v := 0; v <= 255; v++ {
			f := gltf.DenormalizeUbyte(uint8(v))
			chk(v, f, int(gltf.NormalizeUbyte(f)), 255)
		}
		x.Step(256)
	case 2:
		for v := -32768; v <= 32767; v++ {
			f := gltf.DenormalizeShort(int16(v))
			chk(v, f, int(gltf.NormalizeShort(f)), 32767)
		}
		x.Step(65536)
	case 3:
		for v := 0; v <= 65535; v++ {
			f := gltf.DenormalizeUshort(uint16(v))
			chk(v, f, int(gltf.NormalizeUshort(f)), 65535)
		}
		x.Step(65536)
	}
}

const oneBits = 0x3f800000
const blocks = 127 // 127 * 2^23 = 0x3f800000

// normFloats converts every float of the range, in blocks of consecutive bit patterns.
func normFloats(x *X) {
	fn := x.All("fn", 4)
	neg := x.All("negative", 2) == 1
	if neg && fn%2 == 1 {
		return
	}
	blk := uint32(x.All("block", blocks))
	lo, hi := blk<<23, (blk+1)<<23 // inclusive end overlaps the next block
	maxv := []float64{127, 255, 32767, 65535}[fn]
	x.State(fmt.Sprint(fn, neg, blk))
	x.Step(int(hi-lo) + 1)
	prev := math.MinInt32
	for b := lo; ; b++ {
		v := math.Float32frombits(b)
		if neg {
			v = -v
		}
		var g int
		switch fn {
		case 0:
			g = int(gltf.NormalizeByte(v))
		case 1:
			g = int(gltf.NormalizeUbyte(v))
		case 2:
			g = int(gltf.NormalizeShort(v))
		case 3:
			g = int(gltf.NormalizeUshort(v))
		}
		if d := float64(g) - float64(v)*maxv; d > 0.5 || d < -0.5 {
			x.Fail("nearest", "normalising %v (bits %#x) with maximum %v gives %d", v, math.Float32bits(v), maxv, g)
		}
		m := g
		if neg {
			m = -g
		}
		if m < prev {
			x.Fail("monotone", "normalising is not monotone at %v (maximum %v): %d", v, maxv, g)
		}
		prev = m
		if b == hi {
			break
		}
	}
}

// colour functions by index: 8-bit RGB, RGBA, 16-bit RGB, RGBA
func colorNorm(fn int, v [4]float32) [4]int {
	switch fn {
	case 0:
		r := gltf.NormalizeRGB([3]float32{v[0], v[1], v[2]})
		return [4]int{int(r[0]), int(r[1]), int(r[2])}
	case 1:
		r := gltf.NormalizeRGBA(v)
		return [4]int{int(r[0]), int(r[1]), int(r[2]), int(r[3])}
	case 2:
		r := gltf.NormalizeRGB64([3]float32{v[0], v[1], v[2]})
		return [4]int{int(r[0]), int(r[1]), int(r[2])}
	}
	r := gltf.NormalizeRGBA64(v)
	return [4]int{int(r[0]), int(r[1]), int(r[2]), int(r[3])}
}

func colorDenorm(fn int, v [4]int) [4]float32 {
	switch fn {
	case 0:
		r := gltf.DenormalizeRGB([3]uint8{uint8(v[0]), uint8(v[1]), uint8(v[2])})
		return [4]float32{r[0], r[1], r[2]}
	case 1:
		return gltf.DenormalizeRGBA([4]uint8{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])})
	case 2:
		r := gltf.DenormalizeRGB64([3]uint16{uint16(v[0]), uint16(v[1]), uint16(v[2])})
		return [4]float32{r[0], r[1], r[2]}
	}
	return gltf.DenormalizeRGBA64([4]uint16{uint16(v[0]), uint16(v[1]), uint16(v[2]), uint16(v[3])})
}

func colorLanes(fn int) int { return 3 + fn%2 }
func colorMax(fn int) int {
	if fn >= 2 {
		return 65535
	}
	return 255
}

func colorInts(x *X) {
	fn := x.All("fn", 4)
	lanes, maxv := colorLanes(fn), colorMax(fn)
	lane := x.All("lane", lanes)
	others := []int{0, maxv, maxv / 3}[x.All("others", 3)]
	x.State(fmt.Sprint(fn, lane, others))
	x.Step(maxv + 1)
	var prev float32 = -1
	var rest [4]float32
	for v := 0; v <= maxv; v++ {
		in := [4]int{others, others, others, others}
		in[lane] = v
		f := colorDenorm(fn, in)
		if v == 0 {
			rest = f
		}
		for l := 0; l < lanes; l++ {
			if l != lane && f[l] != rest[l] {
				x.Fail("independent", "denormalising %v: channel %d changes with channel %d", in, l, lane)
			}
		}
		if !(f[lane] >= prev) || v > 0 && f[lane] == prev && maxv == 255 {
			x.Fail("monotone", "denormalising channel %d of %v gives %v after %v", lane, in, f[lane], prev)
		}
		prev = f[lane]
		if v == 0 && f[lane] != 0 || v == maxv && math.Abs(float64(f[lane])-1) > 1e-6 || !(f[lane] >= 0 && f[lane] <= 1) {
			x.Fail("range", "denormalising channel %d of %v gives %v", lane, in, f[lane])
		}
		if lane == 3 && math.Abs(float64(f[3])-float64(v)/float64(maxv)) > 1e-6 {
			x.Fail("alpha", "denormalising alpha %d gives %v", v, f[3])
		}
		back := colorNorm(fn, f)
		for l := 0; l < lanes; l++ {
			if d := back[l] - in[l]; d < -1 || d > 1 {
				x.Fail("inverse", "colour %v denormalises to %v and normalises to %v", in, f, back)
			}
		}
	}
}

// colorFloats walks the float range in every channel at once, each channel at
// a different place, and compares with the channel alone.
func colorFloats(x *X) {
	fn := x.All("fn", 4)
	lanes, maxv := colorLanes(fn), colorMax(fn)
	step := uint32(13)
	if x.Thorough {
		step = 1
	}
	blk := uint32(x.All("block", blocks))
	lo, hi := blk<<23, (blk+1)<<23
	x.State(fmt.Sprint(fn, blk))
	x.Step(int((hi-lo)/step) + 1)
	// the other channels move through the range in the opposite direction
	var prev [4]int
	for i := range prev {
		prev[i] = -1
	}
	last := uint32(0)
	for b := lo; ; b += step {
		if b > hi || b < lo {
			b = hi
		}
		v := math.Float32frombits(b)
		o := math.Float32frombits(oneBits - b)
		// rotate which channels ascend
		up := int(b/step) % 3
		in := [4]float32{o, o, o, o}
		in[up] = v
		if lanes == 4 {
			in[3] = v
		}
		g := colorNorm(fn, in)
		for l := 0; l < lanes; l++ {
			if g[l] < 0 || g[l] > maxv {
				x.Fail("range", "%v gives %v", in, g)
			}
		}
		if g[up] < prev[0] {
			x.Fail("monotone", "normalising channel %d of %v gives %d, after %d for a smaller value", up, in, g[up], prev[0])
		}
		prev[0] = g[up]
		dn := g[(up+1)%3]
		if dn != g[(up+2)%3] {
			x.Fail("channels", "equal channels of %v give different values %v", in, g)
		}
		if prev[1] >= 0 && dn > prev[1] {
			x.Fail("monotone", "normalising a channel of %v gives %d, after %d for a larger value", in, dn, prev[1])
		}
		prev[1] = dn
		if lanes == 4 {
			if d := float64(g[3]) - float64(v)*float64(maxv); d > 1 || d < -1 {
				x.Fail("alpha", "alpha %v gives %d of %d", v, g[3], maxv)
			}
		}
		if b == 0 && g[up] != 0 || b == oneBits && g[up] != maxv {
			x.Fail("range", "channel value %v gives %d of %d", v, g[up], maxv)
		}
		if b-last > 1<<16 || b == hi {
			last = b
			// the channel alone, and through the three-channel function
			one := [4]float32{}
			one[up] = v
			if a := colorNorm(fn, one); a[up] != g[up] {
				x.Fail("independent", "channel %d of %v gives %d, alone %d", up, in, g[up], a[up])
			}
			if a := colorNorm(fn&^1, in); max(a[up]-g[up], g[up]-a[up], a[(up+1)%3]-dn, dn-a[(up+1)%3]) > 1 {
				x.Fail("variants", "%v gives %v with alpha and %v without", in, g, a)
			}
			// 8 and 16-bit results agree
			if a := colorNorm(fn^2, in); math.Abs(float64(a[up])/float64(colorMax(fn^2))-float64(g[up])/float64(maxv)) > 1.01/255 {
				x.Fail("variants", "%v gives %v of %d and %v of %d", in, g, maxv, a, colorMax(fn^2))
			}
			// and the inverse comes back
			f := colorDenorm(fn, g)
			b := colorNorm(fn, f)
			for l := 0; l < lanes; l++ {
				if d := b[l] - g[l]; d < -1 || d > 1 {
					x.Fail("inverse", "colour %v denormalises to %v and normalises to %v", g, f, b)
				}
			}
		}
		if b == hi {
			break
		}
	}
}
