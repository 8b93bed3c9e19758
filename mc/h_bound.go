package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// C32: resource use is bounded by the input that is really there.

func init() {
	register(&Property{
		ID: "C32", Level: "model_checking",
		Rule:        "a case is one input of which some number (a declared length, count, offset, stride or index) is far larger than the data that is there, or one input of a series growing in one direction, and one operation on it; the memory the operation allocates, failed or not, is measured and must stay below a constant plus a fixed multiple of the input that is there; a state is the case",
		Assumptions: []string{"a count that no buffer view backs is left out (known finding of C08)", "a file system reports the sizes of its files truthfully"},
		Harnesses: []Harness{
			{Name: "glb", Run: boundGLB, Serial: true},
			{Name: "buffers", Run: boundBuffers, Serial: true},
			{Name: "accessors", Run: func(x *X) { boundAccessors(x, 0) }, Bound: 2, BoundDeep: 3, Serial: true},
			{Name: "sparse", Run: func(x *X) { boundAccessors(x, 1) }, Bound: 2, BoundDeep: 3, Serial: true},
			{Name: "sparse-only", Run: func(x *X) { boundAccessors(x, 2) }, Bound: 2, BoundDeep: 3, Serial: true},
			{Name: "views", Run: boundViews, Serial: true},
			{Name: "growth", Run: boundGrowth, Serial: true},
			{Name: "writes", Run: boundWrites, Serial: true},
		},
	})
}

const (
	boundBase  = 1 << 20
	boundInput = 4096 // bytes allowed per byte of JSON text
	boundData  = 64   // bytes allowed per byte of buffer data
)

// allocated is the memory f allocates, freed or not.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// within checks that f keeps to limit bytes; the smallest of three runs counts, as other
// parts of the process allocate now and then. Pools are emptied in between.
func within(x *X, limit int, what string, f func()) {
	var got uint64
	for i := 0; i < 3; i++ {
		n := allocated(f)
		if i == 0 || n < got {
			got = n
		}
		if got <= uint64(limit) {
			return
		}
		runtime.GC()
		runtime.GC()
	}
	x.Fail("memory", "%s allocates %d bytes, more than %d", what, got, limit)
}

var hugeWords = []uint32{0, 4, 1 << 24, 1 << 28, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 28, math.MaxUint32}

// boundGLB: headers that declare more than the stream delivers.
func boundGLB(x *X) {
	lens := []int{4, 1 << 24, 1 << 28, math.MaxUint32, 1 << 40, math.MaxInt}
	l := lens[x.All("byteLength", len(lens))]
	js := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}]}`, l)
	if x.All("buffers", 2) == 1 {
		js = fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d},{"byteLength":%d,"uri":"a.bin"}]}`, l, l)
	}
	n := []int{0, 4, 5000}[x.All("bin", 3)]
	g := glbSpec{json: []byte(js), bin: bufData(n, 1), hasBin: x.All("hasBin", 2) == 0}
	word := func(label string) *uint32 {
		k := x.All(label, len(hugeWords)+1)
		if k == 0 {
			return nil
		}
		return u32(hugeWords[k-1])
	}
	g.length = word("length")
	g.jsonLen = word("jsonLen")
	if g.hasBin {
		g.binLen = word("binLen")
	}
	b := g.bytes()
	cut := []int{0, 1, n / 2, n, n + 8, len(b) - 20}[x.All("cut", 6)]
	if cut > len(b) {
		return
	}
	b = b[:len(b)-cut]
	fsys := newMemFS()
	fsys.files["a.bin"] = bufData(100, 2)
	x.StateB(b)
	within(x, boundBase+boundInput*len(b), fmt.Sprintf("decoding %d bytes of GLB whose buffer declares %d", len(b), l), func() {
		decodeBytes(b, fsys)
	})
}

// boundBuffers: byteLength far beyond the resource.
func boundBuffers(x *X) {
	lens := []int{1, 1 << 24, 1 << 28, 1 << 32, 1 << 36, 1 << 44, 1 << 62, math.MaxInt - 7, math.MaxInt}
	l := lens[x.All("byteLength", len(lens))]
	n := []int{0, 1, 100, 5000}[x.All("size", 4)]
	d := bufData(n, 3)
	k := 1 + x.All("count", 3)*2
	kind := x.All("kind", 6)
	uri := []string{"a.bin", "missing.bin", dataURI(octet, d), octet, "", "../a.bin"}[kind]
	var bs []any
	for i := 0; i < k; i++ {
		b := map[string]any{"byteLength": l}
		if uri != "" {
			b["uri"] = uri
		}
		bs = append(bs, b)
	}
	tree := map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": bs}
	switch x.All("views", 3) {
	case 1:
		tree["bufferViews"] = []any{map[string]any{"buffer": 0, "byteLength": l, "byteOffset": l / 2}}
	case 2:
		tree["bufferViews"] = []any{map[string]any{"buffer": 0, "byteLength": l}}
		tree["accessors"] = []any{map[string]any{"bufferView": 0, "count": l, "componentType": 5126, "type": "MAT4", "byteOffset": l / 2}}
		tree["images"] = []any{map[string]any{"bufferView": 0, "mimeType": "image/png"}}
	}
	js, _ := json.Marshal(tree)
	b := js
	if x.All("glb", 2) == 1 {
		b = makeGLB(js, d, x.All("bin", 2) == 1)
	}
	x.State(fmt.Sprint(x.choices()))
	limit := boundBase + boundInput*len(b) + boundData*n*k
	if x.All("open", 2) == 1 {
		dir := scratch(x)
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "a.bin"), d, 0o644)
		name := filepath.Join(dir, "m")
		if err := os.WriteFile(name, b, 0o644); err != nil {
			panic(divergence{err.Error()})
		}
		within(x, limit, fmt.Sprintf("opening a file of %d bytes declaring %d buffers of %d bytes", len(b), k, l), func() { gltf.Open(name) })
		return
	}
	fsys := newMemFS()
	fsys.files["a.bin"] = d
	within(x, limit, fmt.Sprintf("decoding %d bytes declaring %d buffers of %d bytes", len(b), k, l), func() { decodeBytes(b, fsys) })
}

// boundAccessors: accessors of counts, offsets and strides far beyond their data.
func boundAccessors(x *X, sparse int) {
	fn := readFns[x.All("fn", len(readFns))]
	var fmts [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fmts = append(fmts, [2]int{ci, ti})
			}
		}
	}
	f := fmts[x.All("format", min(len(fmts), 3))*(len(fmts)-1)/2]
	c, t := allComps[f[0]], allTypes[f[1]]
	big := func(label string, def int, extra ...int) int {
		v := append([]int{def}, extra...)
		for _, sh := range []int{22, 26, 30, 32, 40, 59, 60, 62} {
			v = append(v, 1<<sh)
		}
		v = append(v, 1<<32-1, math.MaxInt, -1)
		return v[x.Dev(label, len(v))]
	}
	const n = 4
	esz := refElemSize(c, t)
	data := bufData(esz*n+8, 5)
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: data}}}
	doc.Buffers[0].ByteLength = big("buffer.byteLength", len(data))
	bv := &gltf.BufferView{ByteLength: big("view.byteLength", esz*n), ByteOffset: big("view.byteOffset", 0, 4), ByteStride: big("view.byteStride", 0, esz, 252)}
	doc.BufferViews = []*gltf.BufferView{bv}
	a := &gltf.Accessor{BufferView: gltf.Index(0), ComponentType: c, Type: t, Count: big("count", n, n+1, 1000), ByteOffset: big("byteOffset", 0, 4)}
	size := len(data)
	if sparse > 0 {
		s := &gltf.Sparse{Count: big("sparse.count", 2, n, n+1)}
		s.Indices.ComponentType = []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUint}[x.All("sparse.type", 2)]
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 64, Data: make([]byte, 64)})
		iv := &gltf.BufferView{Buffer: 1, ByteLength: big("indices.byteLength", 64), ByteOffset: big("indices.offset", 0)}
		doc.Buffers[1].Data[8], doc.Buffers[1].Data[compSize(s.Indices.ComponentType)] = 1, 1
		doc.BufferViews = append(doc.BufferViews, iv)
		s.Indices.BufferView, s.Indices.ByteOffset = 1, big("indices.byteOffset", 0)
		s.Values.ByteOffset = big("values.byteOffset", 0)
		a.Sparse = s
		size += 64
		if sparse == 2 {
			// no data but the substituted elements
			a.BufferView = nil
			if a.Count > 1000 {
				return
			}
		}
	}
	x.State(fmt.Sprint(fn.name, descAccessor(doc, a)))
	within(x, boundBase+boundInput*size, fn.name+" of "+descAccessor(doc, a), func() { fn.call(doc, a) })
}

// boundViews: raw views and images of huge extent.
func boundViews(x *X) {
	vals := []int{0, 1, 64, 65, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 62, math.MaxInt}
	v := func(l string) int { return vals[x.All(l, len(vals))] }
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: bufData(64, 1), ByteLength: v("buffer.byteLength")}}}
	bv := &gltf.BufferView{ByteOffset: v("offset"), ByteLength: v("length"), ByteStride: v("stride")}
	doc.BufferViews = []*gltf.BufferView{bv}
	x.State(fmt.Sprint(*bv, doc.Buffers[0].ByteLength))
	within(x, boundBase, fmt.Sprintf("ReadBufferView of %+v over 64 bytes", *bv), func() { modeler.ReadBufferView(doc, bv) })
}

// boundGrowth: inputs growing in one direction are decoded, and documents encoded, with
// memory in proportion.
func boundGrowth(x *X) {
	sizes := []int{1, 100, 3000, 20000}
	if x.Thorough {
		sizes = append(sizes, 100000)
	}
	n := sizes[x.All("size", len(sizes))]
	list := func(key, elem string) string {
		return `{"asset":{"version":"2.0"},"` + key + `":[` + strings.TrimSuffix(strings.Repeat(elem+",", n), ",") + `]}`
	}
	growers := []struct {
		name string
		text func() string
	}{
		{"nodes", func() string { return list("nodes", `{}`) }},
		{"meshes", func() string { return list("meshes", `{"primitives":[{"attributes":{"POSITION":0}}]}`) }},
		{"primitives", func() string {
			return list("meshes", `{"primitives":[{}]}`)
		}},
		{"materials", func() string { return list("materials", `{"pbrMetallicRoughness":{}}`) }},
		{"accessors", func() string { return list("accessors", `{"componentType":5126,"count":1,"type":"VEC3"}`) }},
		{"bufferViews", func() string { return list("bufferViews", `{"buffer":0,"byteLength":1}`) }},
		{"buffers", func() string { return list("buffers", `{"uri":"a.bin","byteLength":9007199254740993}`) }},
		{"cameras", func() string {
			return list("cameras", `{"type":"perspective","perspective":{"yfov":1,"znear":1}}`)
		}},
		{"images", func() string { return list("images", `{"uri":"%41.png"}`) }},
		{"textures", func() string { return list("textures", `{}`) }},
		{"samplers", func() string { return list("samplers", `{}`) }},
		{"skins", func() string { return list("skins", `{"joints":[0]}`) }},
		{"scenes", func() string { return list("scenes", `{"nodes":[0]}`) }},
		{"animations", func() string {
			return list("animations", `{"channels":[{"sampler":0,"target":{"path":"scale"}}],"samplers":[{"input":0,"output":0}]}`)
		}},
		{"extensionsUsed", func() string { return list("extensionsUsed", `"A"`) }},
		{"light", func() string {
			return `{"asset":{"version":"2.0"},"extensions":{"KHR_lights_punctual":` + list("lights", `{"type":"spot"}`) + `}}`
		}},
		{"transforms", func() string {
			return list("materials", `{"emissiveTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}}}`)
		}},
		{"name", func() string {
			return `{"asset":{"version":"2.0","generator":"` + strings.Repeat("<\\u2028é", n) + `"}}`
		}},
		{"extras", func() string { return `{"asset":{"version":"2.0"},"extras":` + list("x", `[1,{"a":null}]`) + `}` }},
		{"unknown", func() string { return list("unknown", `[1,{"a":null}]`) }},
		{"spaces", func() string {
			return strings.Repeat(" \n", n) + `{"asset":{"version":"2.0"}}` + strings.Repeat(" ", n)
		}},
		{"uri", func() string {
			return `{"asset":{"version":"2.0"},"images":[{"uri":"` + strings.Repeat("a/./", n) + `b"}]}`
		}},
		{"dots", func() string {
			return `{"asset":{"version":"2.0"},"images":[{"uri":"` + strings.Repeat("./", n) + `b"}]}`
		}},
		{"backslashes", func() string {
			return `{"asset":{"version":"2.0"},"images":[{"uri":"` + strings.Repeat(`\\`, n) + `b"}]}`
		}},
		{"data", func() string {
			return fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}]}`, n, dataURI(octet, bufData(n, 1)))
		}},
		{"truncated", func() string { return strings.Repeat(`{"nodes":[`, n) }},
	}
	g := growers[x.All("grower", len(growers))]
	s := g.text()
	b := []byte(s)
	if x.All("glb", 2) == 1 {
		b = makeGLB(b, bufData(n, 1), true)
	}
	fsys := newMemFS()
	fsys.files["a.bin"] = bufData(10, 2)
	x.State(fmt.Sprint(x.choices()))
	var doc *gltf.Document
	var err error
	within(x, boundBase+boundInput*len(b), fmt.Sprintf("decoding %d bytes (%s)", len(b), g.name), func() { doc, err = decodeBytes(b, fsys) })
	if err != nil {
		return
	}
	for _, b := range doc.Buffers {
		b.ByteLength = len(b.Data)
	}
	form := x.All("form", numForms)
	within(x, boundBase+2*boundInput*len(b), fmt.Sprintf("encoding (%s) the document of %d bytes (%s)", formNames[form], len(b), g.name), func() { encodeForm(doc, form, newMemFS()) })
}

// boundWrites: repeated writes, and saving and loading of large buffers, take memory in
// proportion to the data.
func boundWrites(x *X) {
	total := []int{1 << 12, 1 << 16, 1 << 20}[x.All("total", 3)]
	chunk := []int{48, 4800, 1 << 18}[x.All("chunk", 3)]
	if chunk > total {
		return
	}
	k := total / chunk
	if k > 5000 && !x.Thorough {
		return
	}
	ops := []struct {
		name string
		f    func(doc *gltf.Document)
	}{
		{"WritePosition", func(doc *gltf.Document) { modeler.WritePosition(doc, make([][3]float32, chunk/12)) }},
		{"WriteIndices", func(doc *gltf.Document) { modeler.WriteIndices(doc, make([]uint16, chunk/2)) }},
		{"WriteColor", func(doc *gltf.Document) { modeler.WriteColor(doc, make([][3]uint8, chunk/4)) }},
		{"WriteAccessor", func(doc *gltf.Document) { modeler.WriteAccessor(doc, gltf.TargetNone, make([][2][2]uint8, chunk/8)) }},
		{"WriteBufferView", func(doc *gltf.Document) {
			modeler.WriteBufferView(doc, gltf.TargetNone, make([]byte, chunk))
		}},
		{"WriteImage", func(doc *gltf.Document) {
			modeler.WriteImage(doc, "i", "image/png", bytes.NewReader(make([]byte, chunk)))
		}},
		{"WriteAccessorsInterleaved", func(doc *gltf.Document) {
			modeler.WriteAccessorsInterleaved(doc, make([][3]float32, chunk/24), make([][3]float32, chunk/24))
		}},
		{"WritePrimitiveAttributes", func(doc *gltf.Document) {
			modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: make([][3]float32, chunk/24)}, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: make([][3]float32, chunk/24)})
		}},
	}
	i := x.All("op", len(ops))
	op := ops[i]
	start := x.All("start", 2)
	x.State(fmt.Sprint(x.choices()))
	x.Log("%d calls of %s with %d bytes", k, op.name, chunk)
	var doc *gltf.Document
	within(x, boundBase+boundData*total+4096*k, fmt.Sprintf("%d calls of %s with %d bytes each", k, op.name, chunk), func() {
		doc = gltf.NewDocument()
		if start == 1 {
			// the data goes behind a buffer that has no room
			d := bufData(total, 1)
			doc.Buffers = []*gltf.Buffer{{ByteLength: total, Data: d[:total:total]}}
		}
		for j := 0; j < k; j++ {
			op.f(doc)
		}
	})
	size := len(doc.Buffers[0].Data)
	for form := 0; form < numForms; form++ {
		for p := 0; p < 3; p++ {
			d2 := *doc
			b := *doc.Buffers[0]
			b.URI = []string{"", "x.bin", octet}[p]
			if p == 2 {
				b.EmbeddedResource()
			}
			d2.Buffers = []*gltf.Buffer{&b}
			var out []byte
			fsys := newMemFS()
			limit := boundBase + boundData*size + 64*4096*k
			within(x, limit, fmt.Sprintf("saving (%s) %d bytes of data and %d accessors", formNames[form], size, len(doc.Accessors)), func() {
				fsys = newMemFS()
				out, _ = encodeForm(&d2, form, fsys)
			})
			within(x, limit, fmt.Sprintf("loading (%s) %d bytes of data and %d accessors", formNames[form], size, len(doc.Accessors)), func() { decodeBytes(out, fsys) })
		}
	}
	for _, a := range doc.Accessors[:min(len(doc.Accessors), 3)] {
		within(x, boundBase+boundData*size, "reading an accessor", func() { modeler.ReadAccessor(doc, a, nil) })
	}
}
