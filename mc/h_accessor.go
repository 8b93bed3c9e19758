package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"unsafe"

	"github.com/qmuntal/gltf"
	gltfbin "github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/modeler"
)

// ---- reference model of accessor data ----

func compSize(c gltf.ComponentType) int {
	switch c {
	case gltf.ComponentByte, gltf.ComponentUbyte:
		return 1
	case gltf.ComponentShort, gltf.ComponentUshort:
		return 2
	case gltf.ComponentUint, gltf.ComponentFloat:
		return 4
	}
	return 0
}

// dims gives rows and columns.
func dims(t gltf.AccessorType) (rows, cols int) {
	switch t {
	case gltf.AccessorScalar:
		return 1, 1
	case gltf.AccessorVec2:
		return 2, 1
	case gltf.AccessorVec3:
		return 3, 1
	case gltf.AccessorVec4:
		return 4, 1
	case gltf.AccessorMat2:
		return 2, 2
	case gltf.AccessorMat3:
		return 3, 3
	case gltf.AccessorMat4:
		return 4, 4
	}
	return 0, 0
}

func ceil4(n int) int { return (n + 3) &^ 3 }

// refElemSize is the number of bytes one element occupies: columns of matrices
// and multi-component elements are padded to four bytes.
func refElemSize(c gltf.ComponentType, t gltf.AccessorType) int {
	r, n := dims(t)
	if r == 1 {
		return compSize(c)
	}
	return ceil4(r*compSize(c)) * n
}

// refMemSize is the size of the element in memory, without padding.
func refMemSize(c gltf.ComponentType, t gltf.AccessorType) int {
	r, n := dims(t)
	return r * n * compSize(c)
}

var compTypes = map[gltf.ComponentType]reflect.Type{
	gltf.ComponentByte: reflect.TypeOf(int8(0)), gltf.ComponentUbyte: reflect.TypeOf(uint8(0)), gltf.ComponentShort: reflect.TypeOf(int16(0)),
	gltf.ComponentUshort: reflect.TypeOf(uint16(0)), gltf.ComponentUint: reflect.TypeOf(uint32(0)), gltf.ComponentFloat: reflect.TypeOf(float32(0)),
}

// goElem is the documented Go element type of a format.
func goElem(c gltf.ComponentType, t gltf.AccessorType) reflect.Type {
	e := compTypes[c]
	r, n := dims(t)
	switch {
	case n > 1:
		return reflect.ArrayOf(r, reflect.ArrayOf(n, e))
	case r > 1:
		return reflect.ArrayOf(r, e)
	}
	return e
}

// mem returns the memory of a slice of fixed-size elements.
func mem(v any) []byte {
	r := reflect.ValueOf(v)
	n := r.Len() * int(r.Type().Elem().Size())
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(r.UnsafePointer()), n)
}

// memCap returns the memory of a slice up to its capacity.
func memCap(v any) []byte {
	r := reflect.ValueOf(v)
	return mem(r.Slice(0, r.Cap()).Interface())
}

// elemToMem copies one stored element (column-major, padded columns) to the
// layout of its Go value (rows first, no padding).
func elemToMem(dst, src []byte, c gltf.ComponentType, t gltf.AccessorType) {
	cs := compSize(c)
	r, n := dims(t)
	col := ceil4(r * cs)
	k := 0
	for i := 0; i < r; i++ {
		for j := 0; j < n; j++ {
			copy(dst[k:k+cs], src[j*col+i*cs:])
			k += cs
		}
	}
}

func memToElem(dst, src []byte, c gltf.ComponentType, t gltf.AccessorType) {
	cs := compSize(c)
	r, n := dims(t)
	col := ceil4(r * cs)
	k := 0
	for i := 0; i < r; i++ {
		for j := 0; j < n; j++ {
			copy(dst[j*col+i*cs:j*col+i*cs+cs], src[k:])
			k += cs
		}
	}
}

// refVal is the data of an accessor in Go memory layout.
type refVal struct {
	c gltf.ComponentType
	t gltf.AccessorType
	n int
	m []byte
}

func refView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
	if bv.Buffer < 0 || bv.Buffer >= len(doc.Buffers) {
		return nil, fmt.Errorf("buffer %d does not exist", bv.Buffer)
	}
	if doc.Buffers[bv.Buffer] == nil {
		return nil, fmt.Errorf("buffer %d is null", bv.Buffer)
	}
	d := doc.Buffers[bv.Buffer].Data
	if bv.ByteOffset < 0 || bv.ByteLength < 0 {
		return nil, fmt.Errorf("negative offset or length")
	}
	if bv.ByteOffset > len(d) || bv.ByteLength > len(d)-bv.ByteOffset {
		return nil, fmt.Errorf("view %d+%d exceeds the %d bytes of its buffer", bv.ByteOffset, bv.ByteLength, len(d))
	}
	return d[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
}

// refRange copies count elements out of a view.
func refRange(doc *gltf.Document, view, off, count int, c gltf.ComponentType, t gltf.AccessorType) ([]byte, error) {
	if view < 0 || view >= len(doc.BufferViews) || doc.BufferViews[view] == nil {
		return nil, fmt.Errorf("buffer view %d does not exist", view)
	}
	bv := doc.BufferViews[view]
	b, err := refView(doc, bv)
	if err != nil {
		return nil, err
	}
	if off < 0 || bv.ByteStride < 0 {
		return nil, fmt.Errorf("negative offset or stride")
	}
	if count == 0 {
		return nil, nil
	}
	sz := refElemSize(c, t)
	st := bv.ByteStride
	if st == 0 {
		st = sz
	}
	if _, n := dims(t); n == 1 {
		sz = refMemSize(c, t) // the padding after the last vector may be missing
	}
	// off + (count-1)*st + sz <= len(b), over unbounded integers
	end := new(big.Int).Mul(big.NewInt(int64(count-1)), big.NewInt(int64(st)))
	end.Add(end, big.NewInt(int64(off)))
	end.Add(end, big.NewInt(int64(sz)))
	if end.Cmp(big.NewInt(int64(len(b)))) > 0 {
		return nil, fmt.Errorf("element %d ends at %v of %d bytes", count-1, end, len(b))
	}
	ms := refMemSize(c, t)
	out := make([]byte, ms*count)
	for i := 0; i < count; i++ {
		elemToMem(out[i*ms:], b[off+i*st:], c, t)
	}
	return out, nil
}

// refRead is the reference reader.
func refRead(doc *gltf.Document, a *gltf.Accessor) (*refVal, error) {
	if r, _ := dims(a.Type); r == 0 || compSize(a.ComponentType) == 0 {
		return nil, fmt.Errorf("unknown format")
	}
	if a.Count < 0 {
		return nil, fmt.Errorf("negative count")
	}
	v := &refVal{c: a.ComponentType, t: a.Type, n: a.Count}
	ms := refMemSize(a.ComponentType, a.Type)
	if a.BufferView == nil {
		if a.Count > 1<<30 {
			return nil, fmt.Errorf("count does not fit in memory")
		}
		v.m = make([]byte, ms*a.Count)
	} else {
		m, err := refRange(doc, *a.BufferView, a.ByteOffset, a.Count, a.ComponentType, a.Type)
		if err != nil {
			return nil, err
		}
		v.m = m
	}
	if sp := a.Sparse; sp != nil {
		switch sp.Indices.ComponentType {
		case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
		default:
			return nil, fmt.Errorf("sparse index type")
		}
		if sp.Count < 0 {
			return nil, fmt.Errorf("negative sparse count")
		}
		idx, err := refRange(doc, sp.Indices.BufferView, sp.Indices.ByteOffset, sp.Count, sp.Indices.ComponentType, gltf.AccessorScalar)
		if err != nil {
			return nil, fmt.Errorf("sparse indices: %w", err)
		}
		vals, err := refRange(doc, sp.Values.BufferView, sp.Values.ByteOffset, sp.Count, a.ComponentType, a.Type)
		if err != nil {
			return nil, fmt.Errorf("sparse values: %w", err)
		}
		is := compSize(sp.Indices.ComponentType)
		for i := 0; i < sp.Count; i++ {
			k := leUint(idx[i*is:], is)
			if k >= uint64(a.Count) {
				return nil, fmt.Errorf("sparse index %d of %d", k, a.Count)
			}
			copy(v.m[int(k)*ms:int(k+1)*ms], vals[i*ms:])
		}
	}
	return v, nil
}

func leUint(b []byte, n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

// errSkip: the reference does not define this conversion.
const skipCompare = "\x00skip"

// expectRead converts reference data to what the named reader must return.
func expectRead(fn string, v *refVal) (reflect.Type, []byte, bool) {
	lanes, _ := dims(v.t)
	_, nc := dims(v.t)
	lanes *= nc
	cs := compSize(v.c)
	conv := func(width int, f func(raw uint64) uint64) []byte {
		out := make([]byte, v.n*lanes*width)
		for i := 0; i < v.n*lanes; i++ {
			x := f(leUint(v.m[i*cs:], cs))
			for b := 0; b < width; b++ {
				out[i*width+b] = byte(x >> (8 * b))
			}
		}
		return out
	}
	same := func(raw uint64) uint64 { return raw }
	switch fn {
	case "ReadAccessor", "ReadNormal", "ReadTangent", "ReadPosition", "ReadInverseBindMatrices":
		return goElem(v.c, v.t), v.m, true
	case "ReadIndices":
		return reflect.TypeOf(uint32(0)), conv(4, same), true
	case "ReadJoints":
		return reflect.TypeOf([4]uint16{}), conv(2, same), true
	case "ReadTextureCoord", "ReadWeights":
		tp := reflect.TypeOf([2]float32{})
		if fn == "ReadWeights" {
			tp = reflect.TypeOf([4]float32{})
		}
		div := map[gltf.ComponentType]float64{gltf.ComponentUbyte: 255, gltf.ComponentUshort: 65535}[v.c]
		return tp, conv(4, func(raw uint64) uint64 {
			if v.c == gltf.ComponentFloat {
				return raw
			}
			return uint64(math.Float32bits(float32(float64(raw) / div)))
		}), true
	case "ReadColor", "ReadColor64":
		wide := fn == "ReadColor64"
		w := 1
		tp := reflect.TypeOf([4]uint8{})
		if wide {
			w, tp = 2, reflect.TypeOf([4]uint16{})
		}
		out := make([]byte, 0, v.n*4*w)
		put := func(x uint64) {
			out = append(out, byte(x))
			if wide {
				out = append(out, byte(x>>8))
			}
		}
		for i := 0; i < v.n; i++ {
			var f [4]float32
			var raw [4]uint64
			for k := 0; k < lanes; k++ {
				raw[k] = leUint(v.m[(i*lanes+k)*cs:], cs)
				f[k] = math.Float32frombits(uint32(raw[k]))
				if v.c == gltf.ComponentFloat && !(f[k] >= 0 && f[k] <= 1) {
					return tp, nil, false // colours outside [0,1] have no defined conversion
				}
			}
			switch {
			case v.c == gltf.ComponentFloat && wide:
				r := gltf.NormalizeRGBA64(f)
				for k := 0; k < 4; k++ {
					raw[k] = uint64(r[k])
				}
			case v.c == gltf.ComponentFloat:
				r := gltf.NormalizeRGBA(f)
				for k := 0; k < 4; k++ {
					raw[k] = uint64(r[k])
				}
			case v.c == gltf.ComponentUbyte && wide:
				for k := range raw {
					raw[k] |= raw[k] << 8
				}
			case v.c == gltf.ComponentUshort && !wide:
				return tp, nil, false // decided by its own harness
			}
			if lanes == 3 {
				raw[3] = 65535
				if !wide {
					raw[3] = 255
				}
			}
			for k := 0; k < 4; k++ {
				put(raw[k])
			}
		}
		return tp, out, true
	}
	panic("unknown reader " + fn)
}

// compareRead compares the result of a reading function with the reference.
func compareRead(fn string, got any, want *refVal) string {
	tp, m, ok := expectRead(fn, want)
	rv := reflect.ValueOf(got)
	if !rv.IsValid() || rv.Kind() != reflect.Slice || rv.Type().Elem() != tp {
		return fmt.Sprintf("returned %T, want []%v", got, tp)
	}
	if rv.Len() != want.n {
		return fmt.Sprintf("returned %d elements, want %d", rv.Len(), want.n)
	}
	if !ok {
		return ""
	}
	if g := mem(got); !bytes.Equal(g, m) {
		sz := int(tp.Size())
		for i := 0; i < want.n; i++ {
			if !bytes.Equal(g[i*sz:(i+1)*sz], m[i*sz:(i+1)*sz]) {
				return fmt.Sprintf("element %d of %d is %v (% x), want bytes % x", i, want.n, rv.Index(i), g[i*sz:(i+1)*sz], m[i*sz:(i+1)*sz])
			}
		}
	}
	return ""
}

// ---- building accessors ----

// layout places count elements holding m (Go layout) and returns the bytes of
// a view in which they start at off with the given stride (0: tight).
func layout(m []byte, c gltf.ComponentType, t gltf.AccessorType, off, stride, slack int) []byte {
	ms, es := refMemSize(c, t), refElemSize(c, t)
	n := len(m) / ms
	st := stride
	if st == 0 {
		st = es
	}
	size := off + slack
	if n > 0 {
		size += (n-1)*st + es
	}
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(0xC3 + 7*i)
	}
	for i := 0; i < n; i++ {
		memToElem(b[off+i*st:], m[i*ms:], c, t)
	}
	return b
}

// patterned data with every byte position distinct from its neighbours
func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*73 + i/251*17 + seed*29 + 11)
	}
	return b
}

func addView(doc *gltf.Document, buf int, lead int, b []byte, stride int) int {
	for len(doc.Buffers) <= buf {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Data: []byte{0xD1, 0xD2, 0xD3, 0xD4}, ByteLength: 4})
	}
	bf := doc.Buffers[buf]
	for i := 0; i < lead; i++ {
		bf.Data = append(bf.Data, byte(0x91+i))
	}
	off := len(bf.Data)
	bf.Data = append(bf.Data, b...)
	bf.ByteLength = len(bf.Data)
	doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{Buffer: buf, ByteOffset: off, ByteLength: len(b), ByteStride: stride})
	return len(doc.BufferViews) - 1
}

func sealBuffers(doc *gltf.Document, tail int) {
	for _, b := range doc.Buffers {
		for i := 0; i < tail; i++ {
			b.Data = append(b.Data, byte(0xE1+i))
		}
		b.ByteLength = len(b.Data)
	}
}

func addSparse(doc *gltf.Document, a *gltf.Accessor, idx []int, ic gltf.ComponentType, vals []byte, ioff, voff, buf int) {
	is := compSize(ic)
	im := make([]byte, is*len(idx))
	for i, k := range idx {
		for b := 0; b < is; b++ {
			im[i*is+b] = byte(k >> (8 * b))
		}
	}
	sp := &gltf.Sparse{Count: len(idx)}
	sp.Indices.BufferView = addView(doc, buf, 0, layout(im, ic, gltf.AccessorScalar, ioff, 0, 0), 0)
	sp.Indices.ByteOffset, sp.Indices.ComponentType = ioff, ic
	sp.Values.BufferView = addView(doc, buf, 4-len(im)%4, layout(vals, a.ComponentType, a.Type, voff, 0, 0), 0)
	sp.Values.ByteOffset = voff
	a.Sparse = sp
}

// addSparseShared puts indices and values in one view, in either order.
func addSparseShared(doc *gltf.Document, a *gltf.Accessor, idx []int, ic gltf.ComponentType, vals []byte, ioff, voff int, valuesFirst bool) {
	tmp := &gltf.Document{}
	ta := &gltf.Accessor{ComponentType: a.ComponentType, Type: a.Type}
	addSparse(tmp, ta, idx, ic, vals, ioff, voff, 0)
	part := func(v int) []byte {
		bv := tmp.BufferViews[v]
		b := append([]byte{}, tmp.Buffers[bv.Buffer].Data[bv.ByteOffset:bv.ByteOffset+bv.ByteLength]...)
		for len(b)%4 != 0 {
			b = append(b, 0xE1)
		}
		return b
	}
	im, vm := part(ta.Sparse.Indices.BufferView), part(ta.Sparse.Values.BufferView)
	if valuesFirst {
		ta.Sparse.Indices.ByteOffset += len(vm)
		im = append(vm, im...)
	} else {
		ta.Sparse.Values.ByteOffset += len(im)
		im = append(im, vm...)
	}
	v := 0
	if a.BufferView != nil {
		// the view of the accessor itself, which is the last one
		v = *a.BufferView
		bv := doc.BufferViews[v]
		bf := doc.Buffers[bv.Buffer]
		for (len(bf.Data)-bv.ByteOffset)%4 != 0 {
			bf.Data = append(bf.Data, 0xE9)
		}
		n := len(bf.Data) - bv.ByteOffset
		bf.Data = append(bf.Data, im...)
		bf.ByteLength, bv.ByteLength = len(bf.Data), n+len(im)
		ta.Sparse.Indices.ByteOffset += n
		ta.Sparse.Values.ByteOffset += n
	} else {
		v = addView(doc, 0, 0, im, 0)
	}
	ta.Sparse.Indices.BufferView, ta.Sparse.Values.BufferView = v, v
	a.Sparse = ta.Sparse
}

func mustRead(x *X, doc *gltf.Document, a *gltf.Accessor) *refVal {
	w, err := refRead(doc, a)
	if err != nil {
		panic(divergence{"reference reader: " + err.Error() + " " + descAccessor(doc, a)})
	}
	return w
}

var idxComps = []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}

func init() {
	register(&Property{
		ID: "C09", Level: "model_checking",
		Rule:        "a case is one well-formed accessor (component type, element type, count, offsets, stride, buffer, sparse set, backing slice) whose bytes were laid out by an independent writer; the result must be exactly the values laid out; a state is the distinct document, accessor and backing slice",
		Assumptions: []string{"elements occupy SizeOfElement bytes when no stride is given, and views hold complete elements including their padding", "offsets and strides are multiples of the component size, as glTF requires"},
		Harnesses: []Harness{
			{Name: "plain", Run: accPlain},
			{Name: "sparse", Run: accSparse},
			{Name: "no-view", Run: accNoView},
			{Name: "large", Run: accLarge},
			{Name: "huge", Run: accHuge},
			{Name: "min-max", Run: accDecoded},
		},
	})
	register(&Property{
		ID: "C11", Level: "model_checking",
		Rule:        "a case is one typed reader with one accessor format, data set and reuse slice; all component/element combinations are offered to every reader, data sets contain every 8 and 16-bit value in every lane, reuse slices cover all relations of length and capacity to the count; a state is the distinct case",
		Assumptions: []string{"floating point colours lie in [0,1]; their conversion to integers is decided by C13"},
		Harnesses: []Harness{
			{Name: "formats", Run: typedFormats},
			{Name: "values", Run: typedValues},
			{Name: "reuse", Run: typedReuse},
			{Name: "vectors", Run: typedVectors},
			{Name: "color-ushort", Run: typedColorUshort},
		},
	})
	register(&Property{
		ID: "C20", Level: "model_checking",
		Rule:        "an execution is a sequence of up to 3 (quick) or 4 (thorough) operations - reads with every reading function of accessors of different formats and sizes, with or without reuse of an earlier result, and scribbling over an earlier result; after each the result is compared with the reference reader, all earlier results with their snapshots, and the document with its original; a state is the set of live results after a step",
		Assumptions: []string{"a result read with a caller-supplied backing slice is no longer expected to keep its contents once that slice is supplied again"},
		Harnesses: []Harness{
			{Name: "history", Run: readHistory},
			{Name: "history-large", Run: readHistoryLarge},
			{Name: "formats", Run: readTwice},
			{Name: "stale", Run: readStale},
		},
	})
	register(&Property{
		ID: "C23", Level: "model_checking",
		Rule:        "a case is one of the 42 formats (or an invalid one) with one count and one backing buffer (length, capacity, alignment, sentinels around it); a state is the distinct case",
		Assumptions: []string{"counts are not negative and fit in memory"},
		Harnesses: []Harness{
			{Name: "make", Run: makeSlices},
			{Name: "type", Run: typeOf},
			{Name: "invalid", Run: invalidFormats},
		},
	})
}

// backing builds a backing slice for a result of need bytes.
func backing(x *X, need int) []byte {
	kinds := 8
	var b []byte
	switch x.All("backing", kinds) {
	case 0:
		return nil
	case 1:
		b = make([]byte, 0)
	case 2:
		b = make([]byte, max(need-1, 0))
	case 3:
		b = make([]byte, need)
	case 4:
		b = make([]byte, need+64)
	case 5:
		b = make([]byte, 0, need+1)
	case 6:
		b = make([]byte, 1, max(need/2, 1))
	case 7:
		b = make([]byte, need*2+8)[:need/3]
	}
	full := b[:cap(b)]
	for i := range full {
		full[i] = 0xB7
	}
	return b
}

func accPlain(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	cs, es := compSize(c), refElemSize(c, t)
	counts := []int{3, 0, 1, 2}
	if x.Thorough {
		counts = append(counts, 4, 5, 17, 64)
	}
	n := counts[x.All("count", len(counts))]
	offs := []int{0, cs, 4, 12}
	off := offs[x.All("off", len(offs))]
	strides := []int{0, es, es + cs, es + 4, 252, 256}
	stride := strides[x.All("stride", len(strides))]
	if stride != 0 && stride%cs != 0 || stride != 0 && stride < es {
		stride = es + 4
	}
	buf := x.All("buffer", 2)
	slack := []int{0, 1, es, -1}[x.All("slack", 4)]
	if slack < 0 { // without the padding after the last vector
		slack = refMemSize(c, t) - es
		if _, nc := dims(t); nc > 1 || slack == 0 || n == 0 {
			return
		}
	}
	data := pattern(n*refMemSize(c, t), 1)
	doc := &gltf.Document{}
	if buf == 1 {
		addView(doc, 0, 0, pattern(300, 5), 0)
	}
	v := addView(doc, buf, 4, layout(data, c, t, off, stride, slack), stride)
	doc.BufferViews[v].Target = []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[x.All("target", 3)]
	if x.All("tail", 2) == 0 {
		sealBuffers(doc, 8)
	}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, BufferView: gltf.Index(v), ByteOffset: off, Normalized: off == 4}
	checkAcc(x, doc, a, data, backing(x, n*refMemSize(c, t)))
}

// checkAcc reads a, whose elements are data (Go layout).
func checkAcc(x *X, doc *gltf.Document, a *gltf.Accessor, data, back []byte) {
	x.State(fmt.Sprint(descAccessor(doc, a), len(back), cap(back)))
	x.Log("%s backing %d/%d", descAccessor(doc, a), len(back), cap(back))
	got, err := modeler.ReadAccessor(doc, a, back)
	if err != nil {
		x.Fail("rejected", "%v: %s", err, descAccessor(doc, a))
	}
	want := &refVal{a.ComponentType, a.Type, a.Count, data}
	if d := compareRead("ReadAccessor", got, want); d != "" {
		x.Fail("differs", "%s\n%s backing %d/%d", d, descAccessor(doc, a), len(back), cap(back))
	}
	// the same again: nothing a read leaves behind matters
	got2, err := modeler.ReadAccessor(doc, a, nil)
	if err != nil {
		x.Fail("rejected", "second read: %v", err)
	}
	if d := compareRead("ReadAccessor", got2, want); d != "" {
		x.Fail("differs", "second read: %s\n%s", d, descAccessor(doc, a))
	}
	if d := compareRead("ReadAccessor", got, want); d != "" {
		x.Fail("clobbered", "first result after second read: %s", d)
	}
	for _, fn := range readFns[1:] {
		if !fn.ok(a.ComponentType, a.Type) {
			continue
		}
		g, err := fn.call(doc, a)
		if err != nil {
			x.Fail("rejected", "%s: %v: %s", fn.name, err, descAccessor(doc, a))
		}
		if d := compareRead(fn.name, g, want); d != "" {
			x.Fail("differs", "%s: %s\n%s", fn.name, d, descAccessor(doc, a))
		}
	}
}

func accSparse(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	ms := refMemSize(c, t)
	maxN := 3
	if x.Thorough {
		maxN = 4
	}
	n := x.All("count", maxN) + 1
	set := x.All("set", 1<<n-1) + 1
	ic := idxComps[x.All("idxtype", 3)]
	ioff := []int{0, 4, compSize(ic)}[x.All("ioff", 3)]
	voff := []int{0, 4, compSize(c), 3 * compSize(c)}[x.All("voff", 4)]
	doc := &gltf.Document{}
	data := make([]byte, n*ms)
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
	switch x.All("base", 3) {
	case 1:
		data = pattern(n*ms, 1)
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(data, c, t, 4, 0, 0), 0))
		a.ByteOffset = 4
	case 2:
		data = pattern(n*ms, 2)
		st := refElemSize(c, t) + 8
		a.BufferView = gltf.Index(addView(doc, 0, 8, layout(data, c, t, 0, st, 0), st))
	}
	var idx []int
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			idx = append(idx, i)
		}
	}
	vals := pattern(len(idx)*ms, 3)
	for i, k := range idx {
		copy(data[k*ms:(k+1)*ms], vals[i*ms:])
	}
	if k := x.All("spbuf", 6); k < 2 {
		addSparse(doc, a, idx, ic, vals, ioff, voff, k)
	} else {
		own := a.BufferView
		if k < 4 || own != nil && doc.BufferViews[*own].ByteStride != 0 {
			a.BufferView = nil
		}
		addSparseShared(doc, a, idx, ic, vals, ioff, voff, k%2 == 1)
		a.BufferView = own
	}
	var back []byte
	switch x.All("backing", 4) {
	case 1:
		back = bytes.Repeat([]byte{0xB7}, n*ms+16)
	case 2:
		back = bytes.Repeat([]byte{0xB7}, ms)
	case 3:
		back = bytes.Repeat([]byte{0xB7}, n*ms)[:0]
	}
	checkAcc(x, doc, a, data, back)
}

// accNoView reads accessors without buffer view: zeros, whatever the backing
// slice holds.
func accNoView(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	counts := []int{3, 0, 1, 2, 64, 255, 256, 257, 1025}
	n := counts[x.All("count", len(counts))]
	doc := &gltf.Document{}
	if x.All("buffer", 2) == 1 {
		addView(doc, 0, 0, pattern(300, 5), 0)
		sealBuffers(doc, 8)
	}
	ms := refMemSize(c, t)
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, ByteOffset: []int{0, 4}[x.All("off", 2)]}
	checkAcc(x, doc, a, make([]byte, n*ms), backing(x, n*ms))
}

// accLarge crosses the sizes of internal scratch buffers.
func accLarge(x *X) {
	f := [][2]int{{1, 0}, {3, 0}, {4, 0}, {5, 0}, {1, 2}, {3, 3}, {5, 2}, {0, 5}, {2, 4}, {5, 6}}[x.All("format", 10)]
	c, t := allComps[f[0]], allTypes[f[1]]
	ms := refMemSize(c, t)
	counts := []int{99, 100, 101, 255, 256, 257, 1023 / ms, 1024 / ms, 1024/ms + 1, 2049}
	n := counts[x.All("count", len(counts))]
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
	data := make([]byte, n*ms)
	if x.All("base", 2) == 1 {
		data = pattern(n*ms, 1)
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(data, c, t, 0, 0, 0), 0))
	}
	// leave something in every pool first
	dirty := &gltf.Document{}
	da := &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorVec4, Count: 700,
		BufferView: gltf.Index(addView(dirty, 0, 0, bytes.Repeat([]byte{0x5A}, 2800), 0))}
	modeler.ReadJoints(dirty, da, nil)
	modeler.ReadColor(dirty, da, nil)
	if k := x.All("sparse", 5); k > 0 {
		var idx []int
		step := []int{1, 2, 3, n - 1}[k-1]
		if step < 1 {
			step = 1
		}
		for i := 0; i < n; i += step {
			idx = append(idx, i)
		}
		ic := gltf.ComponentUshort
		if x.All("idx32", 2) == 1 {
			ic = gltf.ComponentUint
		}
		vals := pattern(len(idx)*ms, 3)
		for i, k := range idx {
			copy(data[k*ms:(k+1)*ms], vals[i*ms:])
		}
		addSparse(doc, a, idx, ic, vals, 0, 0, 0)
	}
	checkAcc(x, doc, a, data, nil)
}

// accHuge crosses the ranges of 8 and 16-bit counts and indices.
func accHuge(x *X) {
	f := [][2]int{{1, 0}, {3, 0}, {4, 0}, {5, 2}, {1, 4}, {3, 3}}[x.All("format", 6)]
	c, t := allComps[f[0]], allTypes[f[1]]
	ms := refMemSize(c, t)
	n := []int{65535, 65536, 65537, 65792, 131073}[x.All("count", 5)]
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
	data := make([]byte, n*ms)
	if x.All("base", 2) == 1 {
		data = pattern(n*ms, 1)
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(data, c, t, 0, 0, 0), 0))
	}
	var idx []int
	ic := gltf.ComponentUint
	switch x.All("sparse", 5) {
	case 1: // few, far apart
		idx = []int{0, 255, 256, 257, 32767, 32768, 65534, n - 1}
	case 2: // the last ones only
		idx = []int{n - 2, n - 1}
	case 3: // all but one
		for i := 0; i < n-1; i++ {
			idx = append(idx, i)
		}
	case 4: // every second below the 16-bit limit
		ic = gltf.ComponentUshort
		for i := 0; i < 65535; i += 2 {
			idx = append(idx, i)
		}
	}
	if idx != nil {
		vals := pattern(len(idx)*ms, 3)
		for i, k := range idx {
			copy(data[k*ms:(k+1)*ms], vals[i*ms:])
		}
		addSparse(doc, a, idx, ic, vals, 0, 0, 0)
	}
	checkAcc(x, doc, a, data, nil)
}

// accDecoded reads accessors of documents that went through the decoder.
func accDecoded(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	n := x.All("count", 3) + 1
	ms := refMemSize(c, t)
	data := pattern(n*ms, 4)
	b := layout(data, c, t, 4, 0, 2)
	sparse := x.All("sparse", 2) == 1
	names := map[gltf.ComponentType]int{gltf.ComponentByte: 5120, gltf.ComponentUbyte: 5121, gltf.ComponentShort: 5122, gltf.ComponentUshort: 5123, gltf.ComponentUint: 5125, gltf.ComponentFloat: 5126}
	tn := []string{"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}
	vi := 0
	for allTypes[vi] != t {
		vi++
	}
	views := fmt.Sprintf(`{"buffer":0,"byteOffset":0,"byteLength":%d}`, len(b))
	sp := ""
	all := append([]byte{}, b...)
	if sparse {
		for len(all)%4 != 0 {
			all = append(all, 0)
		}
		vals := pattern(ms, 6)
		vb := layout(vals, c, t, 0, 0, 0)
		views += fmt.Sprintf(`,{"buffer":0,"byteOffset":%d,"byteLength":4}`, len(all))
		all = append(all, byte(n-1), 0, 0, 0)
		views += fmt.Sprintf(`,{"buffer":0,"byteOffset":%d,"byteLength":%d}`, len(all), len(vb))
		all = append(all, vb...)
		copy(data[(n-1)*ms:], vals)
		sp = fmt.Sprintf(`,"sparse":{"count":1,"indices":{"bufferView":1,"componentType":%d},"values":{"bufferView":2}}`, []int{5121, 5123, 5125}[x.All("idxtype", 3)])
	}
	acr := fmt.Sprintf(`{"bufferView":0,"byteOffset":4,"componentType":%d,"count":%d,"type":%q%s}`, names[c], n, tn[vi], sp)
	js := fmt.Sprintf(`{"asset":{"version":"2.0"},"accessors":[%s],"bufferViews":[%s],"buffers":[{"byteLength":%d`, acr, views, len(all))
	var in []byte
	if x.All("glb", 2) == 1 {
		in = glbSpec{json: []byte(js + "}]}"), bin: all, hasBin: true}.bytes()
	} else {
		in = []byte(js + fmt.Sprintf(`,"uri":%q}]}`, dataURI(octet, all)))
	}
	doc, err := decodeBytes(in, nil)
	if err != nil {
		x.Fail("rejected", "decoding %s: %v", js, err)
	}
	checkAcc(x, doc, doc.Accessors[0], data, nil)
}

// ---- C11 ----

// reuse builds a slice to be reused for count elements.
func reuse[T any](kind, count int) []T {
	var s []T
	switch kind {
	case 0:
		return nil
	case 1:
		s = make([]T, 0)
	case 2:
		s = make([]T, count/2)
	case 3:
		s = make([]T, count/2, count+3)
	case 4:
		s = make([]T, count)
	case 5:
		s = make([]T, count+1)
	case 6:
		s = make([]T, 2*count+5)
	case 7:
		s = make([]T, 0, count)
	case 8:
		s = make([]T, max(count-1, 0))
	}
	m := memCap(s)
	for i := range m {
		m[i] = 0xEE
	}
	return s
}

const numReuse = 9

// typedFn reads with a reuse slice of the given kind, or with the slice prev.
type typedFn struct {
	readFn
	with func(doc *gltf.Document, a *gltf.Accessor, kind int, prev any) (any, error)
}

func mkTyped[T any](i int, f func(*gltf.Document, *gltf.Accessor, []T) ([]T, error)) typedFn {
	return typedFn{readFns[i], func(doc *gltf.Document, a *gltf.Accessor, kind int, prev any) (any, error) {
		if p, ok := prev.([]T); ok {
			return f(doc, a, p)
		}
		return f(doc, a, reuse[T](kind, max(a.Count, 0)))
	}}
}

var typedFns = []typedFn{
	mkTyped(1, modeler.ReadIndices), mkTyped(2, modeler.ReadNormal), mkTyped(3, modeler.ReadTangent), mkTyped(4, modeler.ReadTextureCoord),
	mkTyped(5, modeler.ReadWeights), mkTyped(6, modeler.ReadJoints), mkTyped(7, modeler.ReadPosition), mkTyped(8, modeler.ReadColor),
	mkTyped(9, modeler.ReadColor64), mkTyped(10, modeler.ReadInverseBindMatrices),
}

func checkTyped(x *X, fn typedFn, doc *gltf.Document, a *gltf.Accessor, kind int) {
	x.State(fmt.Sprint(fn.name, descAccessor(doc, a), kind))
	got, err := fn.with(doc, a, kind, nil)
	if !fn.ok(a.ComponentType, a.Type) {
		if err == nil {
			x.Fail("accepted", "%s accepts component type %v with type %v", fn.name, a.ComponentType, a.Type)
		}
		return
	}
	if err != nil {
		x.Fail("rejected", "%s: %v: %s", fn.name, err, descAccessor(doc, a))
	}
	if d := compareRead(fn.name, got, mustRead(x, doc, a)); d != "" {
		x.Fail("differs", "%s (reuse kind %d): %s\n%s", fn.name, kind, d, descAccessor(doc, a))
	}
}

func typedFormats(x *X) {
	fn := typedFns[x.All("fn", len(typedFns))]
	ci, ti := x.All("comp", 8), x.All("type", 9)
	a := &gltf.Accessor{ComponentType: 6, Type: 7, Normalized: x.All("normalized", 2) == 1}
	if ci == 7 {
		a.ComponentType = 0xffff
	} else if ci < 6 {
		a.ComponentType = allComps[ci]
	}
	if ti == 8 {
		a.Type = 255
	} else if ti < 7 {
		a.Type = allTypes[ti]
	}
	a.Count = x.All("count", 3)
	doc := &gltf.Document{}
	if x.All("view", 2) == 0 && ci < 6 && ti < 7 {
		m := pattern(a.Count*refMemSize(a.ComponentType, a.Type), 2)
		if ci == 5 {
			m = unitFloats(len(m)/4, 1)
		}
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(m, a.ComponentType, a.Type, 4, 0, 0), 0))
		a.ByteOffset = 4
	}
	checkTyped(x, fn, doc, a, x.All("reuse", numReuse))
}

// unitFloats has values spread over [0,1], including its ends.
func unitFloats(n, seed int) []byte {
	b := make([]byte, 4*n)
	for i := 0; i < n; i++ {
		v := float32(i*37%1001) / 1000
		if i%7 == seed {
			v = float32(i & 1)
		}
		binary.LittleEndian.PutUint32(b[4*i:], math.Float32bits(v))
	}
	return b
}

var floatBits = func() []uint32 {
	out := []uint32{0, 1 << 31, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x7fffffff, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x80000001}
	for i := 0; i < 32; i++ {
		out = append(out, 1<<i, 1<<i-1, ^uint32(1<<i))
	}
	return out
}()

// typedValues reads every value of the component type in every lane.
func typedValues(x *X) {
	fn := typedFns[x.All("fn", len(typedFns))]
	var fm [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fm = append(fm, [2]int{ci, ti})
			}
		}
	}
	k := x.All("format", 6)
	if k >= len(fm) {
		return
	}
	c, t := allComps[fm[k][0]], allTypes[fm[k][1]]
	r, nc := dims(t)
	lanes := r * nc
	cs := compSize(c)
	var n int
	var val func(i, lane int) uint32
	color := fn.name == "ReadColor" || fn.name == "ReadColor64"
	switch {
	case cs == 1:
		n = 256
		val = func(i, l int) uint32 { return uint32(i ^ (l * 77)) }
	case cs == 2:
		n = 65536
		val = func(i, l int) uint32 { return uint32(i ^ (l * 0x3A71)) }
	case c == gltf.ComponentFloat && color:
		n = 100001
		val = func(i, l int) uint32 { return math.Float32bits(float32((i+l*331)%n) / float32(n-1)) }
	default:
		n = 4096
		val = func(i, l int) uint32 {
			if i < len(floatBits)*2 {
				return floatBits[(i+l*11)%len(floatBits)]
			}
			return uint32(i*2654435761) + uint32(l)*40503
		}
	}
	m := make([]byte, n*lanes*cs)
	for i := 0; i < n; i++ {
		for l := 0; l < lanes; l++ {
			v := val(i, l)
			for b := 0; b < cs; b++ {
				m[(i*lanes+l)*cs+b] = byte(v >> (8 * b))
			}
		}
	}
	off, stride := 0, 0
	switch x.All("stride", 3) {
	case 1:
		stride = refElemSize(c, t) + 4
	case 2:
		off = 8
	}
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, ByteOffset: off, Normalized: true}
	a.BufferView = gltf.Index(addView(doc, 0, 0, layout(m, c, t, off, stride, 0), stride))
	x.Step(n * lanes)
	checkTyped(x, fn, doc, a, 0)
}

// typedVectors reads every vector whose lanes are special values: unit and almost
// unit vectors, weights that add up to one or almost, equal lanes.
func typedVectors(x *X) {
	fn := typedFns[x.All("fn", len(typedFns))]
	var fm [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fm = append(fm, [2]int{ci, ti})
			}
		}
	}
	k := x.All("format", 6)
	if k >= len(fm) {
		return
	}
	c, t := allComps[fm[k][0]], allTypes[fm[k][1]]
	r, nc := dims(t)
	lanes, cs := r*nc, compSize(c)
	var vals []uint32
	switch {
	case c == gltf.ComponentFloat:
		fl := []float32{0, 1, 0.5, 0.25, 0.33333334, 0.70710677, 0.57735026, 0.9995, 1e-6, 0.2502}
		if fn.name != "ReadColor" && fn.name != "ReadColor64" {
			fl = append(fl, -1, -0.5, -0.70710677, 1.0005, 2, float32(math.Copysign(0, -1)), 1e30)
		}
		for _, f := range fl {
			vals = append(vals, math.Float32bits(f))
		}
	case cs == 1:
		vals = []uint32{0, 1, 2, 63, 64, 85, 127, 128, 254, 255}
	case cs == 2:
		vals = []uint32{0, 1, 255, 256, 0x3fff, 0x5555, 0x7fff, 0x8000, 0xfffe, 0xffff}
	default:
		vals = []uint32{0, 1, 255, 256, 65535, 65536, 1 << 31, 0xfffffffe, 0xffffffff, 7}
	}
	if fn.name == "ReadColor" && cs == 2 { // the known finding has its own harness
		return
	}
	free := lanes
	if free > 4 {
		free = 4
	}
	n := 1
	for l := 0; l < free; l++ {
		n *= len(vals)
	}
	first := 0
	if lanes > 4 { // matrices: a few lanes at a time
		first = 4 * x.All("lane", 4)
	}
	m := make([]byte, n*lanes*cs)
	for i := 0; i < n; i++ {
		d := i
		for l := 0; l < lanes; l++ {
			v := uint32(0)
			if l%5 == 0 && lanes > 4 {
				v = vals[1]
			}
			if l >= first && l < first+free {
				v = vals[d%len(vals)]
				d /= len(vals)
			}
			for b := 0; b < cs; b++ {
				m[(i*lanes+l)*cs+b] = byte(v >> (8 * b))
			}
		}
	}
	stride := 0
	if x.All("stride", 2) == 1 {
		stride = refElemSize(c, t) + 4
	}
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, Normalized: x.All("normalized", 2) == 1}
	a.BufferView = gltf.Index(addView(doc, 0, 0, layout(m, c, t, 0, stride, 0), stride))
	x.Step(n * lanes)
	checkTyped(x, fn, doc, a, 0)
}

func typedReuse(x *X) {
	fn := typedFns[x.All("fn", len(typedFns))]
	var fm [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fm = append(fm, [2]int{ci, ti})
			}
		}
	}
	k := x.All("format", 6)
	if k >= len(fm) {
		return
	}
	c, t := allComps[fm[k][0]], allTypes[fm[k][1]]
	counts := []int{0, 1, 2, 3, 7, 63, 64, 65, 85, 86, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097}
	if x.Thorough {
		counts = append(counts, 2047, 2048, 2049, 65535, 65536, 65537)
	}
	n := counts[x.All("count", len(counts))]
	m := pattern(n*refMemSize(c, t), 2)
	if c == gltf.ComponentFloat {
		m = unitFloats(len(m)/4, 1)
	}
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, Normalized: x.All("normalized", 2) == 1}
	switch x.All("data", 3) {
	case 0:
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(m, c, t, 0, 0, 0), 0))
	case 2:
		if n == 0 {
			return
		}
		addSparse(doc, a, []int{n - 1}, gltf.ComponentUint, m[:refMemSize(c, t)], 0, 0, 0)
	}
	checkTyped(x, fn, doc, a, x.All("reuse", numReuse))
}

// typedColorUshort decides the 16 to 8-bit conversion of ReadColor.
func typedColorUshort(x *X) {
	t := []gltf.AccessorType{gltf.AccessorVec3, gltf.AccessorVec4}[x.All("type", 2)]
	r, _ := dims(t)
	n := 65536
	m := make([]byte, n*r*2)
	val := func(i, l int) uint16 { return uint16(i ^ (l * 0x3A71)) }
	for i := 0; i < n; i++ {
		for l := 0; l < r; l++ {
			binary.LittleEndian.PutUint16(m[(i*r+l)*2:], val(i, l))
		}
	}
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: gltf.ComponentUshort, Type: t, Count: n, Normalized: true}
	a.BufferView = gltf.Index(addView(doc, 0, 0, layout(m, a.ComponentType, t, 0, 0, 0), 0))
	got, err := modeler.ReadColor(doc, a, nil)
	x.State(fmt.Sprint(t))
	x.Step(n * r)
	if err != nil || len(got) != n {
		x.Fail("rejected", "ReadColor of 16-bit colours: %d elements, error %v", len(got), err)
	}
	low, scaled := "", ""
	for i := 0; i < n; i++ {
		for l := 0; l < 4; l++ {
			if l == 3 && r == 3 {
				if got[i][3] != 255 {
					x.Fail("color-alpha", "missing alpha read as %d", got[i][3])
				}
				continue
			}
			v, g := val(i, l), got[i][l]
			if g != uint8(v) && low == "" {
				low = fmt.Sprintf("element %d lane %d: %d became %d", i, l, v, g)
			}
			if d := float64(g) - float64(v)*255/65535; (d < -1 || d > 1) && scaled == "" {
				scaled = fmt.Sprintf("element %d lane %d: 16-bit %d became 8-bit %d", i, l, v, g)
			}
		}
	}
	if scaled == "" {
		return
	}
	if low == "" {
		x.Fail("readcolor-ushort-low-byte", "ReadColor converts 16-bit colours by dropping their high byte: %s", scaled)
	}
	x.Fail("readcolor-ushort", "%s (and %s)", scaled, low)
}

// ---- C20 ----

func histDoc(large bool) *gltf.Document {
	doc := &gltf.Document{}
	add := func(c gltf.ComponentType, t gltf.AccessorType, n, seed, stride int) *gltf.Accessor {
		m := pattern(n*refMemSize(c, t), seed)
		if c == gltf.ComponentFloat {
			m = unitFloats(len(m)/4, seed)
		}
		a := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
		a.BufferView = gltf.Index(addView(doc, 0, 4, layout(m, c, t, 0, stride, 0), stride))
		doc.Accessors = append(doc.Accessors, a)
		return a
	}
	big := 5
	if large {
		big = 400
	}
	add(gltf.ComponentUshort, gltf.AccessorScalar, 3, 1, 0)
	add(gltf.ComponentUint, gltf.AccessorScalar, big, 2, 0)
	add(gltf.ComponentFloat, gltf.AccessorVec3, 2, 3, 20)
	add(gltf.ComponentUbyte, gltf.AccessorVec4, big, 4, 0)
	add(gltf.ComponentUshort, gltf.AccessorVec4, 2, 5, 0)
	// sparse over nothing, and sparse over a view
	z := &gltf.Accessor{ComponentType: gltf.ComponentUshort, Type: gltf.AccessorScalar, Count: 4}
	addSparse(doc, z, []int{1, 3}, gltf.ComponentUbyte, pattern(4, 6), 0, 0, 0)
	s := add(gltf.ComponentUbyte, gltf.AccessorVec4, 3, 7, 0)
	addSparse(doc, s, []int{0, 2}, gltf.ComponentUint, pattern(8, 8), 0, 0, 0)
	doc.Accessors = append(doc.Accessors, z, &gltf.Accessor{ComponentType: gltf.ComponentFloat, Type: gltf.AccessorVec3, Count: big})
	doc.Accessors = append(doc.Accessors, &gltf.Accessor{ComponentType: gltf.ComponentUint, Type: gltf.AccessorScalar, Count: 0})
	add(gltf.ComponentFloat, gltf.AccessorVec4, 2, 9, 0)
	add(gltf.ComponentFloat, gltf.AccessorMat4, 2, 10, 0)
	return doc
}

type histOp struct {
	fn  int // -1 ReadAccessor, otherwise typedFns
	acr int
}

var histOps = map[bool][]histOp{}

func init() {
	for _, large := range []bool{false, true} {
		doc := histDoc(large)
		for i, a := range doc.Accessors {
			histOps[large] = append(histOps[large], histOp{-1, i})
			for k, fn := range typedFns {
				if fn.ok(a.ComponentType, a.Type) && !(fn.name == "ReadColor" && a.ComponentType == gltf.ComponentUshort) {
					histOps[large] = append(histOps[large], histOp{k, i})
				}
			}
		}
	}
}

type liveResult struct {
	v     any
	snap  []byte
	dead  bool
	back  []byte // backing slice supplied
	scrib bool
}

func readHistory(x *X) {
	depth := 3
	runHistory(x, depth, false)
}

func readHistoryLarge(x *X) {
	depth := 2
	if x.Thorough {
		depth = 3
	}
	runHistory(x, depth, true)
}

func runHistory(x *X, depth int, large bool) {
	doc := histDoc(large)
	orig := hashDoc(doc)
	ops := histOps[large]
	var live []*liveResult
	check := func(what string) {
		for i, l := range live {
			if !l.dead && !bytes.Equal(mem(l.v), l.snap) {
				x.Fail("clobbered", "after %s, result %d changed", what, i)
			}
		}
		if hashDoc(doc) != orig {
			x.Fail("document", "%s changed the document", what)
		}
	}
	for step := 0; step < depth; step++ {
		k := x.All("op", len(ops)+len(live))
		if k >= len(ops) {
			// the caller modifies its own result
			l := live[k-len(ops)]
			if l.dead {
				return // may share memory with its successor
			}
			m := mem(l.v)
			for i := range m {
				m[i] ^= 0x5C
			}
			l.snap = append([]byte{}, m...)
			x.Log("scribble result %d", k-len(ops))
			// others share memory only if the caller shared it
			for _, o := range live {
				if o != l && o.back != nil && l.back != nil {
					o.dead = true
				}
			}
			check("scribbling over a result")
			continue
		}
		op := ops[k]
		a := doc.Accessors[op.acr]
		want := mustRead(x, doc, a)
		var got any
		var err error
		name := "ReadAccessor"
		var back []byte
		if op.fn < 0 {
			// none, or one backing slice shared by all reads
			if x.All("backing", 2) == 1 {
				for _, o := range live {
					if o.back != nil {
						back = o.back
						o.dead = true
					}
				}
				if back == nil {
					back = bytes.Repeat([]byte{0xB7}, 40)
				}
			}
			got, err = modeler.ReadAccessor(doc, a, back)
		} else {
			fn := typedFns[op.fn]
			name = fn.name
			// reuse one of the earlier results of the same type
			var prev any
			tp, _, _ := expectRead(name, want)
			var cand []*liveResult
			for _, o := range live {
				if reflect.TypeOf(o.v).Elem() == tp && !o.dead {
					cand = append(cand, o)
				}
			}
			if r := x.All("reuse", len(cand)+1); r > 0 {
				prev = cand[r-1].v
				cand[r-1].dead = true
				if cand[r-1].back != nil {
					back = cand[r-1].back
					for _, o := range live {
						if o.back != nil {
							o.dead = true
						}
					}
				}
			}
			got, err = fn.with(doc, a, 0, prev)
		}
		x.Log("%s accessor %d -> %s, %v", name, op.acr, short(got), err)
		if err != nil {
			x.Fail("rejected", "%s of accessor %d: %v", name, op.acr, err)
		}
		if d := compareRead(name, got, want); d != "" {
			x.Fail("differs", "%s of accessor %d: %s", name, op.acr, d)
		}
		live = append(live, &liveResult{v: got, snap: append([]byte{}, mem(got)...), back: back})
		check(name)
		// not only the elements: memory between length and capacity must not
		// be shared with the document or other results either
		sum := ""
		for _, l := range live {
			sum += fmt.Sprint(l.dead, hashBytes(l.snap), reflect.TypeOf(l.v))
		}
		x.State(sum)
	}
}

// readTwice reads every format of accessor with every function that accepts
// it, writes all over the result up to its capacity, lets every other reader
// run, and reads again.
func readTwice(x *X) {
	c, t := allComps[x.All("comp", 6)], allTypes[x.All("type", 7)]
	ms := refMemSize(c, t)
	n := []int{1, 3, 64, 300, 1024 / ms, 1024/ms + 1, 512/ms + 1}[x.All("count", 7)]
	doc := &gltf.Document{}
	data := pattern(n*ms, 3)
	if c == gltf.ComponentFloat {
		data = unitFloats(n*ms/4, 3)
	}
	a := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
	base := x.All("base", 4)
	switch base {
	case 1, 3:
		a.BufferView = gltf.Index(addView(doc, 0, 4, layout(data, c, t, 0, 0, 0), 0))
	case 2:
		st := refElemSize(c, t) + 4
		a.BufferView = gltf.Index(addView(doc, 1, 0, layout(data, c, t, 4, st, 0), st))
		a.ByteOffset = 4
	}
	if base == 3 || base == 0 && x.All("sparse", 2) == 1 {
		v := pattern(ms, 5)
		if c == gltf.ComponentFloat {
			v = unitFloats(ms/4, 5)
		}
		addSparse(doc, a, []int{n - 1}, gltf.ComponentUshort, v, 0, 0, 0)
	}
	doc.Accessors = []*gltf.Accessor{a}
	// some others, to run the readers in between
	others := histDoc(n > 50)
	orig, orig2 := hashDoc(doc), hashDoc(others)
	fn := x.All("fn", len(typedFns)+1)
	name := "ReadAccessor"
	if fn > 0 {
		name = typedFns[fn-1].name
		if !typedFns[fn-1].ok(c, t) {
			return
		}
		if c == gltf.ComponentUshort && name == "ReadColor" {
			return // known finding of C11
		}
	}
	want := mustRead(x, doc, a)
	read := func() any {
		var got any
		var err error
		if fn == 0 {
			got, err = modeler.ReadAccessor(doc, a, nil)
		} else {
			got, err = typedFns[fn-1].with(doc, a, 0, nil)
		}
		if err != nil {
			x.Fail("rejected", "%s: %v: %s", name, err, descAccessor(doc, a))
		}
		if d := compareRead(name, got, want); d != "" {
			x.Fail("differs", "%s: %s: %s", name, d, descAccessor(doc, a))
		}
		return got
	}
	disturb := func() {
		for i := range others.Accessors {
			if _, err := modeler.ReadAccessor(others, others.Accessors[i], nil); err != nil {
				panic(divergence{err.Error()})
			}
			for _, f := range typedFns {
				if b := others.Accessors[i]; f.ok(b.ComponentType, b.Type) {
					f.with(others, b, 0, nil)
				}
			}
		}
	}
	x.State(name + descAccessor(doc, a))
	r1 := read()
	for i, m := 0, memCap(r1); i < len(m); i++ {
		m[i] ^= 0xA5
	}
	if hashDoc(doc) != orig {
		x.Fail("aliased", "writing to the result of %s changed the document: %s", name, descAccessor(doc, a))
	}
	snap := append([]byte{}, memCap(r1)...)
	r2 := read()
	if !bytes.Equal(snap, memCap(r1)) {
		x.Fail("clobbered", "a second %s changed the first result: %s", name, descAccessor(doc, a))
	}
	snap2 := append([]byte{}, memCap(r2)...)
	disturb()
	if !bytes.Equal(snap, memCap(r1)) || !bytes.Equal(snap2, memCap(r2)) {
		x.Fail("clobbered", "other reads changed a result of %s: %s", name, descAccessor(doc, a))
	}
	for i, m := 0, memCap(r2); i < len(m); i++ {
		m[i] = 0x3C
	}
	if !bytes.Equal(snap, memCap(r1)) {
		x.Fail("aliased", "two results of %s share memory: %s", name, descAccessor(doc, a))
	}
	disturb()
	read()
	if hashDoc(doc) != orig || hashDoc(others) != orig2 {
		x.Fail("document", "reading changed the document: %s", descAccessor(doc, a))
	}
}

// readStale: sparse accessors with every sequence of indices, repeated ones and
// ones outside the accessor included, read over memory holding different
// left-overs, supplied by the caller or of earlier reads: the result must not
// depend on them.
func readStale(x *X) {
	f := []struct {
		c gltf.ComponentType
		t gltf.AccessorType
	}{{gltf.ComponentUbyte, gltf.AccessorVec4}, {gltf.ComponentFloat, gltf.AccessorVec3}, {gltf.ComponentUshort, gltf.AccessorScalar}, {gltf.ComponentByte, gltf.AccessorMat2}, {gltf.ComponentFloat, gltf.AccessorMat4}}[x.All("format", 5)]
	ms := refMemSize(f.c, f.t)
	n := 1 + x.All("count", 4)
	doc := &gltf.Document{}
	a := &gltf.Accessor{ComponentType: f.c, Type: f.t, Count: n}
	fill := func(n, seed int) []byte {
		if f.c == gltf.ComponentFloat {
			return unitFloats(n*ms/4, seed)
		}
		return pattern(n*ms, seed)
	}
	if x.All("base", 2) == 1 {
		a.BufferView = gltf.Index(addView(doc, 0, 0, layout(fill(n, 3), f.c, f.t, 0, 0, 0), 0))
	}
	idx := make([]int, x.All("sparse", n+1))
	for i := range idx {
		idx[i] = x.All("index", n+1)
	}
	if len(idx) > 0 {
		addSparse(doc, a, idx, gltf.ComponentUbyte, fill(len(idx), 5), 0, 0, 0)
	}
	dirt := &gltf.Document{}
	for _, seed := range []int{7, 9} {
		m := fill(64, seed)
		dirt.Accessors = append(dirt.Accessors, &gltf.Accessor{ComponentType: f.c, Type: f.t, Count: 64, BufferView: gltf.Index(addView(dirt, 0, 0, layout(m, f.c, f.t, 0, 0, 0), 0))})
	}
	x.State(fmt.Sprint(x.choices()))
	check := func(name string, read func(k int) (any, error)) {
		r0, err0 := read(0)
		var s0 []byte
		if err0 == nil {
			s0 = append(s0, mem(r0)...)
		}
		for k := 1; k < 4; k++ {
			r, err := read(k)
			if (err == nil) != (err0 == nil) {
				x.Fail("stale", "%s: %v, and %v with other left-overs: indices %v of %d", name, err0, err, idx, n)
			}
			if err == nil && !bytes.Equal(s0, mem(r)) {
				x.Fail("stale", "%s: %x, and %x with other left-overs: indices %v of %d", name, s0, mem(r), idx, n)
			}
		}
	}
	check("ReadAccessor", func(k int) (any, error) {
		var back []byte
		if k > 0 {
			back = bytes.Repeat([]byte{byte(0x37 * k)}, 400)
		}
		return modeler.ReadAccessor(doc, a, back)
	})
	for _, fn := range typedFns {
		if !fn.ok(f.c, f.t) {
			continue
		}
		fn := fn
		check(fn.name, func(k int) (any, error) {
			var prev any
			for i := 0; i <= k%2; i++ { // leaves its data in memory kept for reuse
				var err error
				if prev, err = fn.with(dirt, dirt.Accessors[i], 0, nil); err != nil {
					panic(divergence{err.Error()})
				}
			}
			if k < 2 {
				prev = nil
			}
			return fn.with(doc, a, 0, prev)
		})
	}
}

func hashDoc(doc *gltf.Document) uint64 {
	h := uint64(0)
	for _, b := range doc.Buffers {
		h = h*31 + hashBytes(b.Data) + uint64(b.ByteLength)
	}
	for _, v := range doc.BufferViews {
		h = h*31 + uint64(v.Buffer*7+v.ByteOffset*11+v.ByteLength*13+v.ByteStride*17)
	}
	for _, a := range doc.Accessors {
		h = h*31 + uint64(a.Count*3+a.ByteOffset*5+int(a.ComponentType)*7+int(a.Type)*11)
		if a.BufferView != nil {
			h += uint64(*a.BufferView + 1)
		}
		if s := a.Sparse; s != nil {
			h = h*31 + uint64(s.Count*3+s.Indices.BufferView*5+s.Indices.ByteOffset*7+int(s.Indices.ComponentType)*11+s.Values.BufferView*13+s.Values.ByteOffset*17)
		}
	}
	return h
}

// ---- C23 ----

func makeSlices(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	ms := refMemSize(c, t)
	counts := []int{0, 1, 2, 3, 5, 16, 100, 4, 7, 255, 256, 257, 1000, 1025, 4097, 65537}
	if x.Thorough {
		counts = append(counts, 65535, 65536, 70001, 131072, 300001)
	}
	n := counts[x.All("count", len(counts))]
	want := reflect.SliceOf(goElem(c, t))
	check := func(fn string, v any, err error) {
		if err != nil {
			x.Fail("rejected", "%s(%v, %v, %d): %v", fn, c, t, n, err)
		}
		if reflect.TypeOf(v) != want {
			x.Fail("type", "%s(%v, %v, %d) returned %T, want %v", fn, c, t, n, v, want)
		}
		if l := reflect.ValueOf(v).Len(); l != n {
			x.Fail("length", "%s(%v, %v, %d) returned %d elements", fn, c, t, n, l)
		}
		c2, t2, n2 := gltfbin.Type(v)
		if c2 != c || t2 != t || n2 != n {
			x.Fail("infer", "Type of %T with %d elements is %v %v %d", v, n, c2, t2, n2)
		}
	}
	v, err := gltfbin.MakeSlice(c, t, n)
	check("MakeSlice", v, err)
	for _, b := range mem(v) {
		if b != 0 {
			x.Fail("zero", "MakeSlice(%v, %v, %d) is not zeroed", c, t, n)
		}
	}
	// sizes
	if g := c.ByteSize(); g != compSize(c) {
		x.Fail("size", "%v.ByteSize() = %d", c, g)
	}
	r, nc := dims(t)
	if g := t.Components(); g != r*nc {
		x.Fail("size", "%v.Components() = %d", t, g)
	}
	if g := gltf.SizeOfElement(c, t); g != refElemSize(c, t) {
		x.Fail("size", "SizeOfElement(%v, %v) = %d, want %d", c, t, g, refElemSize(c, t))
	}
	// a backing buffer inside an arena with sentinels on both sides
	need := n * ms
	caps := []int{need, 0, 1, need - 1, need + 1, need + ms, need / 2, need * 2, ms, ms - 1}
	cp := max(caps[x.All("cap", len(caps))], 0)
	ln := []int{cp, 0, cp / 2}[x.All("len", 3)]
	const lead = 64
	arena := make([]byte, lead+cp+lead)
	for i := range arena {
		arena[i] = 0xA7
	}
	back := arena[lead : lead+ln : lead+cp]
	if x.All("nil", 2) == 1 {
		if cp != 0 {
			return
		}
		back = nil
	}
	x.State(fmt.Sprint(c, t, n, cp, ln, back == nil))
	v, err = gltfbin.MakeSliceBuffer(c, t, n, back)
	check("MakeSliceBuffer", v, err)
	m := mem(v)
	used := n > 0 && cp > 0 && len(m) > 0 && unsafe.Pointer(&m[0]) == unsafe.Pointer(&arena[lead])
	if n > 0 && cp >= need && !used {
		x.Fail("unused", "MakeSliceBuffer(%v, %v, %d) does not use a backing buffer of capacity %d", c, t, n, cp)
	}
	if cp < need && used {
		x.Fail("overrun", "MakeSliceBuffer(%v, %v, %d) needs %d bytes but uses a buffer of capacity %d", c, t, n, need, cp)
	}
	for i := range m {
		m[i] = 0x11
	}
	for i, b := range arena {
		in := i >= lead && i < lead+cp
		if b != 0xA7 && !in {
			x.Fail("overrun", "MakeSliceBuffer(%v, %v, %d) with capacity %d: writing the result changed byte %d", c, t, n, cp, i-lead)
		}
	}
	// appending to the result must not run over the arena either
	rv := reflect.ValueOf(v)
	if rv.Cap() > 0 && used && rv.Cap()*ms > cp {
		x.Fail("overrun", "the result has capacity %d elements in a buffer of %d bytes", rv.Cap(), cp)
	}
}

func typeOf(x *X) {
	c := allComps[x.All("comp", 6)]
	t := allTypes[x.All("type", 7)]
	n := []int{0, 1, 2, 255, 256, 65535, 65536, 65537, 1 << 20}[x.All("count", 9)]
	v := reflect.MakeSlice(reflect.SliceOf(goElem(c, t)), n, n+2).Interface()
	if x.All("nil", 2) == 1 {
		if n > 0 {
			return
		}
		v = reflect.Zero(reflect.SliceOf(goElem(c, t))).Interface()
	}
	x.State(fmt.Sprintf("%T %d", v, n))
	c2, t2, n2 := gltfbin.Type(v)
	if c2 != c || t2 != t || n2 != n {
		x.Fail("infer", "Type of %T with %d elements is %v %v %d", v, n, c2, t2, n2)
	}
}

func invalidFormats(x *X) {
	cs := []int{0, 1, 2, 3, 4, 5, 6, 7, 255, 5120, 5126, 0xffff}
	ts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 255}
	c := gltf.ComponentType(cs[x.All("comp", len(cs))])
	t := gltf.AccessorType(ts[x.All("type", len(ts))])
	r, _ := dims(t)
	valid := compSize(c) != 0 && r != 0
	n := []int{0, 1, 3}[x.All("count", 3)]
	back := [][]byte{nil, {}, make([]byte, 64)}[x.All("backing", 3)]
	x.State(fmt.Sprint(c, t, n, len(back)))
	_, e1 := gltfbin.MakeSlice(c, t, n)
	_, e2 := gltfbin.MakeSliceBuffer(c, t, n, back)
	if (e1 == nil) != valid || (e2 == nil) != valid {
		x.Fail("invalid", "format (%d, %d): MakeSlice error %v, MakeSliceBuffer error %v", c, t, e1, e2)
	}
}
