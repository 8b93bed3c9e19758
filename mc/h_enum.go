package main

import (
	"encoding/json"
	"fmt"
	"image/color"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
)

func init() {
	register(&Property{
		ID: "C29", Level: "model_checking",
		Rule: "a case is one value, JSON code or JSON name offered to one enumeration (their whole 8 and 16-bit ranges), or one pair of component and element type, or one Go slice type; names, codes, sizes and types are compared with tables written from the glTF specification; a state is the case",
		Harnesses: []Harness{
			{Name: "values", Run: enumValues},
			{Name: "codes", Run: enumCodes},
			{Name: "names", Run: enumNames},
			{Name: "sizes", Run: enumSizes},
			{Name: "slices", Run: enumSlices},
		},
	})
}

type enumEntry struct {
	name string
	code any // nil: not representable in JSON
}

// enumType is an enumeration seen through its exported behaviour only.
type enumType struct {
	name   string
	max    int // largest value of the underlying type
	vals   map[int]enumEntry
	str    func(v int) string
	enc    func(v int) ([]byte, error)
	dec    func(data []byte, prior int) (int, error)
	isText bool
}

func mkEnum[T ~uint8 | ~uint16](name string, isText bool, vals map[T]enumEntry) enumType {
	e := enumType{name: name, isText: isText, vals: map[int]enumEntry{}, max: int(^T(0))}
	for v, en := range vals {
		e.vals[int(v)] = en
	}
	e.str = func(v int) string { return any(T(v)).(fmt.Stringer).String() }
	e.enc = func(v int) ([]byte, error) { t := T(v); return json.Marshal(&t) }
	e.dec = func(data []byte, prior int) (int, error) {
		t := T(prior)
		err := json.Unmarshal(data, &t)
		return int(t), err
	}
	return e
}

var enumTypes = []enumType{
	mkEnum("ComponentType", false, map[gltf.ComponentType]enumEntry{
		gltf.ComponentByte: {"BYTE", 5120}, gltf.ComponentUbyte: {"UNSIGNED_BYTE", 5121}, gltf.ComponentShort: {"SHORT", 5122},
		gltf.ComponentUshort: {"UNSIGNED_SHORT", 5123}, gltf.ComponentUint: {"UNSIGNED_INT", 5125}, gltf.ComponentFloat: {"FLOAT", 5126}}),
	mkEnum("AccessorType", true, map[gltf.AccessorType]enumEntry{
		gltf.AccessorScalar: {"SCALAR", "SCALAR"}, gltf.AccessorVec2: {"VEC2", "VEC2"}, gltf.AccessorVec3: {"VEC3", "VEC3"}, gltf.AccessorVec4: {"VEC4", "VEC4"},
		gltf.AccessorMat2: {"MAT2", "MAT2"}, gltf.AccessorMat3: {"MAT3", "MAT3"}, gltf.AccessorMat4: {"MAT4", "MAT4"}}),
	mkEnum("PrimitiveMode", false, map[gltf.PrimitiveMode]enumEntry{
		gltf.PrimitivePoints: {"POINTS", 0}, gltf.PrimitiveLines: {"LINES", 1}, gltf.PrimitiveLineLoop: {"LINE_LOOP", 2}, gltf.PrimitiveLineStrip: {"LINE_STRIP", 3},
		gltf.PrimitiveTriangles: {"TRIANGLES", 4}, gltf.PrimitiveTriangleStrip: {"TRIANGLE_STRIP", 5}, gltf.PrimitiveTriangleFan: {"TRIANGLE_FAN", 6}}),
	mkEnum("AlphaMode", true, map[gltf.AlphaMode]enumEntry{
		gltf.AlphaOpaque: {"OPAQUE", "OPAQUE"}, gltf.AlphaMask: {"MASK", "MASK"}, gltf.AlphaBlend: {"BLEND", "BLEND"}}),
	mkEnum("MagFilter", false, map[gltf.MagFilter]enumEntry{
		gltf.MagUndefined: {"UNDEFINED", nil}, gltf.MagNearest: {"NEAREST", 9728}, gltf.MagLinear: {"LINEAR", 9729}}),
	mkEnum("MinFilter", false, map[gltf.MinFilter]enumEntry{
		gltf.MinUndefined: {"UNDEFINED", nil}, gltf.MinNearest: {"NEAREST", 9728}, gltf.MinLinear: {"LINEAR", 9729},
		gltf.MinNearestMipMapNearest: {"NEAREST_MIPMAP_NEAREST", 9984}, gltf.MinLinearMipMapNearest: {"LINEAR_MIPMAP_NEAREST", 9985},
		gltf.MinNearestMipMapLinear: {"NEAREST_MIPMAP_LINEAR", 9986}, gltf.MinLinearMipMapLinear: {"LINEAR_MIPMAP_LINEAR", 9987}}),
	mkEnum("WrappingMode", false, map[gltf.WrappingMode]enumEntry{
		gltf.WrapClampToEdge: {"CLAMP_TO_EDGE", 33071}, gltf.WrapMirroredRepeat: {"MIRRORED_REPEAT", 33648}, gltf.WrapRepeat: {"REPEAT", 10497}}),
	mkEnum("Interpolation", true, map[gltf.Interpolation]enumEntry{
		gltf.InterpolationLinear: {"LINEAR", "LINEAR"}, gltf.InterpolationStep: {"STEP", "STEP"}, gltf.InterpolationCubicSpline: {"CUBICSPLINE", "CUBICSPLINE"}}),
	mkEnum("Target", false, map[gltf.Target]enumEntry{
		gltf.TargetNone: {"NONE", nil}, gltf.TargetArrayBuffer: {"ARRAY_BUFFER", 34962}, gltf.TargetElementArrayBuffer: {"ELEMENT_ARRAY_BUFFER", 34963}}),
	mkEnum("TRSProperty", true, map[gltf.TRSProperty]enumEntry{
		gltf.TRSTranslation: {"translation", "translation"}, gltf.TRSRotation: {"rotation", "rotation"}, gltf.TRSScale: {"scale", "scale"}, gltf.TRSWeights: {"weights", "weights"}}),
}

// enumValues: every value of the underlying type has the right name and code, and
// encoding and decoding it gives it back.
func enumValues(x *X) {
	e := enumTypes[x.All("enum", len(enumTypes))]
	hi := x.All("high", e.max>>8+1)
	names := map[string]bool{}
	for _, en := range e.vals {
		names[en.name] = true
	}
	if len(names) != len(e.vals) {
		x.Fail("collision", "%s: constants share values", e.name)
	}
	x.State(fmt.Sprint(e.name, hi))
	x.Step(256)
	for v := hi << 8; v < hi<<8+256; v++ {
		en, ok := e.vals[v]
		s := e.str(v)
		if !ok {
			if names[s] || s == "" {
				x.Fail("name", "%s(%d) calls itself %q", e.name, v, s)
			}
			continue
		}
		if s != en.name {
			x.Fail("name", "%s(%d) calls itself %q, want %q", e.name, v, s, en.name)
		}
		if en.code == nil {
			continue
		}
		want, _ := json.Marshal(en.code)
		b, err := e.enc(v)
		if err != nil || string(b) != string(want) {
			x.Fail("code", "%s %s is encoded as %s (error %v), want %s", e.name, en.name, b, err, want)
		}
		for prior := range e.vals {
			got, err := e.dec(b, prior)
			if err != nil || got != v {
				x.Fail("round-trip", "%s %s encoded and decoded over %s is %s (error %v)", e.name, en.name, e.str(prior), e.str(got), err)
			}
		}
	}
}

// enumText offers a JSON text to an enumeration: what is not the code of a value must
// be an error or leave the default.
func enumText(x *X, e enumType, text []byte) {
	want, known := 0, false
	for v, en := range e.vals {
		if b, _ := json.Marshal(en.code); en.code != nil && string(b) == string(text) {
			want, known = v, true
		}
	}
	for prior := range e.vals {
		got, err := e.dec(text, prior)
		switch {
		case known && (err != nil || got != want):
			x.Fail("decode", "%s: %s decodes as %s (error %v), want %s", e.name, text, e.str(got), err, e.str(want))
		case !known && err == nil && got != 0:
			x.Fail("unknown", "%s: unknown %s decodes as %s", e.name, text, e.str(got))
		}
	}
}

func enumCodes(x *X) {
	e := enumTypes[x.All("enum", len(enumTypes))]
	if e.name == "Target" { // plain numbers
		return
	}
	hi := x.All("high", 258)
	x.State(fmt.Sprint(e.name, hi))
	x.Step(256)
	for i := hi << 8; i < hi<<8+256; i++ {
		enumText(x, e, []byte(fmt.Sprint(i)))
		if hi < 4 || hi > 255 {
			enumText(x, e, []byte(fmt.Sprint(-i-1)))
			enumText(x, e, []byte(fmt.Sprintf("%d.5", i)))
			enumText(x, e, []byte(fmt.Sprintf("%q", fmt.Sprint(i))))
		}
	}
	if hi > 0 {
		return
	}
	for v, en := range e.vals {
		c, ok := en.code.(int)
		if !ok {
			continue
		}
		for k := 1; k < 5; k++ { // codes which are equal after truncation
			enumText(x, e, []byte(fmt.Sprint(c+k<<8+k<<16)))
			enumText(x, e, []byte(fmt.Sprint(c+k<<16)))
			enumText(x, e, []byte(fmt.Sprint(uint64(c)+uint64(k)<<32)))
		}
		enumText(x, e, []byte(fmt.Sprintf("%q", en.name)))
		_ = v
	}
}

// enumNames: texts that resemble the names.
func enumNames(x *X) {
	e := enumTypes[x.All("enum", len(enumTypes))]
	if e.name == "Target" {
		return
	}
	var words []string
	for _, o := range enumTypes {
		for v := 0; v < 256 || o.name == "Target" && v < 34964; v++ {
			if en, ok := o.vals[v]; ok {
				words = append(words, en.name)
			}
		}
	}
	a := words[x.All("word", len(words))]
	how := x.All("how", 9)
	x.State(fmt.Sprint(e.name, a, how))
	try := func(s string) {
		b, _ := json.Marshal(s)
		enumText(x, e, b)
	}
	switch how {
	case 0:
		try(a)
	case 1:
		try(strings.ToLower(a))
		try(strings.ToUpper(a))
		try(strings.Title(strings.ToLower(a)))
	case 2:
		for i := 0; i <= len(a); i++ {
			if a[:i] != a {
				try(a[:i])
			}
			try(a[i:])
		}
	case 3:
		for i := range a {
			try(a[:i] + a[i+1:])
			try(a[:i] + string(a[i]^0x20) + a[i+1:])
			try(a[:i] + "\u017f" + a[i+1:])
		}
	case 4:
		for _, s := range []string{" ", "\t", "\n", "\x00", "_", "S", "2", "."} {
			try(s + a)
			try(a + s)
		}
	case 5:
		for _, b := range words {
			try(a + b)
			try(a + " " + b)
		}
	case 6:
		try(strings.ReplaceAll(a, "_", ""))
		try(strings.ReplaceAll(a, "_", " "))
		try(strings.ReplaceAll(a, "_", "-"))
	case 7:
		for _, t := range []string{`["%s"]`, `{"%s":1}`, `[]`, `{}`, `true`, `""`} {
			enumText(x, e, []byte(strings.ReplaceAll(t, "%s", a)))
		}
	case 8: // escapes denote the same text
		var b strings.Builder
		for _, r := range a {
			fmt.Fprintf(&b, `\u%04x`, r)
		}
		for v, en := range e.vals {
			if en.code == any(a) {
				if got, err := e.dec([]byte(`"`+b.String()+`"`), 0); err != nil || got != v {
					x.Fail("decode", "%s: escaped %q decodes as %s (error %v)", e.name, a, e.str(got), err)
				}
			}
		}
	}
}

// enumSizes: sizes of every pair of values, valid or not.
func enumSizes(x *X) {
	c := gltf.ComponentType(x.All("component", 300))
	if c >= 290 {
		c = gltf.ComponentType([]int{5120, 5121, 5122, 5123, 5124, 5125, 5126, 65535, 32768, 4096}[c-290])
	}
	x.State(fmt.Sprint(c))
	x.Step(256)
	_, okC := enumTypes[0].vals[int(c)]
	if cs := c.ByteSize(); okC && cs != compSize(c) || !okC && cs != 0 {
		x.Fail("component", "%v.ByteSize() = %d", c, cs)
	}
	for i := 0; i < 256; i++ {
		t := gltf.AccessorType(i)
		_, okT := enumTypes[1].vals[i]
		if okT {
			r, n := dims(t)
			if t.Components() != r*n {
				x.Fail("components", "%v.Components() = %d", t, t.Components())
			}
		} else if t.Components() != 0 {
			x.Fail("components", "%v.Components() = %d", t, t.Components())
		}
		es := gltf.SizeOfElement(c, t)
		s, err := binary.MakeSlice(c, t, 2)
		if !okC || !okT {
			if err == nil {
				x.Fail("accepted", "MakeSlice accepts %v %v", c, t)
			}
			continue
		}
		if es != refElemSize(c, t) {
			x.Fail("element", "SizeOfElement(%v, %v) = %d, want %d", c, t, es, refElemSize(c, t))
		}
		if err != nil {
			x.Fail("rejected", "MakeSlice rejects %v %v: %v", c, t, err)
		}
		want := reflect.SliceOf(goElem(c, t))
		if reflect.TypeOf(s) != want || reflect.ValueOf(s).Len() != 2 {
			x.Fail("type", "MakeSlice(%v, %v, 2) is a %T of length %d", c, t, s, reflect.ValueOf(s).Len())
		}
	}
}

// enumSlices: the format of every Go slice type.
func enumSlices(x *X) {
	k := x.All("type", 42+2+39)
	n := x.All("length", 4)
	x.State(fmt.Sprint(k, n))
	check := func(v any, c gltf.ComponentType, t gltf.AccessorType) {
		gc, gt, gn := binary.Type(v)
		if gc != c || gt != t || gn != n {
			x.Fail("type", "Type(%T of length %d) = %v, %v, %d", v, n, gc, gt, gn)
		}
	}
	if k < 42 {
		c, t := allComps[k/7], allTypes[k%7]
		tp := reflect.SliceOf(goElem(c, t))
		check(reflect.MakeSlice(tp, n, n).Interface(), c, t)
		check(reflect.MakeSlice(tp, n, n+3).Interface(), c, t)
		if n == 0 {
			check(reflect.Zero(tp).Interface(), c, t)
		}
		return
	}
	if k == 42 {
		check(make([]color.RGBA, n), gltf.ComponentUbyte, gltf.AccessorVec4)
		return
	}
	if k == 43 {
		check(make([]color.RGBA64, n), gltf.ComponentUshort, gltf.AccessorVec4)
		return
	}
	bad := []any{
		nil, 1, "abc", []int{1}, []int64{1}, []uint64{1}, []uint{1}, []int32{1}, []float64{1}, []string{"a"}, []bool{true}, []any{float32(1)},
		[3]float32{}, [][3]float32(nil)[:0:0], [][1]float32{{}}, [][5]float32{{}}, [][3]float64{{}}, [][3]int32{{}}, [][3]int{{}}, [][]float32{{1}},
		[][2][3]float32{{}}, [][3][2]float32{{}}, [][2][2][2]float32{{}}, [][1][1]float32{{}}, [][16]float32{{}}, [][9]uint8{{}}, [][4][4]float64{{}},
		[]*float32{nil}, &[]float32{1}, map[int]float32{}, make(chan float32), func() {}, struct{}{}, []struct{ X, Y float32 }{{}},
		[]color.NRGBA{{}}, []color.Gray{{}}, []color.Alpha16{{}}, []complex64{1}, []uintptr{1},
	}[k-44]
	if v, ok := bad.([][3]float32); ok && len(v) == 0 {
		return
	}
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		c, t, m := binary.Type(bad)
		x.Log("%v %v %d", c, t, m)
		return
	}()
	if !panicked {
		x.Fail("accepted", "Type accepts a %T", bad)
	}
}
