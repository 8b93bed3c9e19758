package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"image/color"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Property{
		ID: "C10", Level: "model_checking",
		Rule:        "an execution starts from one of several documents and applies a history of modeler writes (every writing function with every data type it accepts); after each write all objects and bytes written so far are compared with a model of the document and read back through both the library and the reference reader; a state is the document after a write",
		Assumptions: []string{"data slices are not empty", "elements interleaved with others have a size that is a multiple of 4 bytes", "buffers have byteLength equal to their data"},
		Harnesses: []Harness{
			{Name: "single", Run: func(x *X) { runWrites(x, x.All("start", numStarts+1), 1, nil) }},
			{Name: "formats", Run: writeFormats},
			{Name: "interleave", Run: writeInterleave},
			{Name: "interleave-many", Run: writeManyInterleaved},
			{Name: "attributes", Run: writeAttributes},
			{Name: "attribute-sets", Run: writeAttributeSets},
			{Name: "twins", Run: writeTwins},
			{Name: "counts", Run: writeCounts},
			{Name: "positions", Run: writePositions},
			{Name: "image-readers", Run: writeImageReaders},
			{Name: "history", Run: func(x *X) {
				d := 2
				if x.Thorough {
					d = 3
				}
				runWrites(x, x.All("start", numStarts), d, nil)
			}},
			{Name: "history-deep", Run: func(x *X) {
				d := 4
				if x.Thorough {
					d = 5
				}
				runWrites(x, []int{0, 3}[x.All("start", 2)], d, deepOps)
			}},
		},
	})
	register(&Property{
		ID: "C22", Level: "model_checking",
		Rule:        "an execution applies a valid write (or none), one write that must be rejected, then a valid write (or none); after the rejection the document is compared with its copy from before, encoded, decoded and compared again; a state is the document after the rejection and the rejected call",
		Assumptions: []string{"data types outside the glTF formats are rejected by an error or by the documented panic of binary.Type"},
		Harnesses: []Harness{
			{Name: "rejected", Run: rejectedWrites},
			{Name: "reader", Run: rejectedReaders},
			{Name: "interleave", Run: rejectedLengths},
		},
	})
	register(&Property{
		ID: "C24", Level: "model_checking",
		Rule:        "an execution is a history of modeler writes, in-place modifications, new documents, saves in any container form and placement of the buffers, and loads, over one file system that keeps earlier files; after every load and at the end all content is compared with a model, and after every save the files are checked byte for byte; a state is the content model together with the files",
		Assumptions: []string{"buffers have byteLength equal to their data", "each buffer has a file name of its own"},
		Harnesses: []Harness{
			{Name: "memory", Run: func(x *X) { runCycle(x, false) }},
			{Name: "files", Run: func(x *X) { runCycle(x, true) }},
			{Name: "forms", Run: formChains},
		},
	})
}

// ---- the write model ----

type written struct {
	acc    int
	c      gltf.ComponentType
	t      gltf.AccessorType
	n      int
	m      []byte // Go layout
	norm   bool
	anyN   bool // normalized not specified
	target []gltf.Target
	inter  bool
	padded bool // known to be stored padded without a stride
	min    []float64
	max    []float64
}

type wimage struct {
	img        int
	data       []byte
	name, mime string
}

type wraw struct {
	view int
	data []byte
}

// wmodel is what is known to be in the document.
type wmodel struct {
	doc    *gltf.Document
	accs   []*written
	images []*wimage
	raws   []*wraw
	views  int // views known to be disjoint start here
}

const numStarts = 8

func startDoc(k int) *gltf.Document {
	switch k {
	case 0:
		return &gltf.Document{}
	case 1:
		return gltf.NewDocument()
	case 2:
		return &gltf.Document{Buffers: []*gltf.Buffer{{}}}
	case 3, 4:
		n := 5
		if k == 4 {
			n = 8
		}
		doc := gltf.NewDocument()
		doc.Buffers = []*gltf.Buffer{{ByteLength: n, Data: append(make([]byte, 0, 64), bufData(n, 3)...)}}
		doc.BufferViews = []*gltf.BufferView{{ByteLength: 3}}
		doc.Accessors = []*gltf.Accessor{{BufferView: gltf.Index(0), ComponentType: gltf.ComponentUbyte, Count: 3, Name: "old"}}
		doc.Images = []*gltf.Image{{URI: "x.png"}}
		return doc
	case 5:
		doc := gltf.NewDocument()
		doc.Buffers = []*gltf.Buffer{{ByteLength: 4, Data: bufData(4, 3), URI: "a.bin"}, {ByteLength: 7, Data: bufData(7, 4)}}
		doc.BufferViews = []*gltf.BufferView{{Buffer: 1, ByteOffset: 1, ByteLength: 6}, {Buffer: 0, ByteLength: 4}}
		doc.Accessors = []*gltf.Accessor{{BufferView: gltf.Index(0), ByteOffset: 1, ComponentType: gltf.ComponentUbyte, Count: 4}, {Count: 2, Type: gltf.AccessorVec3}}
		return doc
	case 7:
		return &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 2, Data: bufData(2, 3)}, {URI: "new.bin", Name: "new"}}}
	}
	if k == 8 { // more objects of each kind than a byte can count
		doc := gltf.NewDocument()
		for i := 0; i < 300; i++ {
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 4, Data: bufData(4, i)})
			doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{Buffer: i, ByteLength: 4})
			doc.Accessors = append(doc.Accessors, &gltf.Accessor{BufferView: gltf.Index(i), ComponentType: gltf.ComponentUbyte, Count: 4})
			doc.Images = append(doc.Images, &gltf.Image{MimeType: "image/png", BufferView: gltf.Index(i)})
		}
		return doc
	}
	// a decoded document
	js := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":6,"uri":%q}],"bufferViews":[{"buffer":0,"byteLength":6}],"accessors":[{"bufferView":0,"componentType":5123,"count":3,"type":"SCALAR"}]}`, dataURI(octet, bufData(6, 5)))
	doc, err := decodeBytes([]byte(js), nil)
	if err != nil {
		panic(divergence{err.Error()})
	}
	return doc
}

// wop is one writing call. It returns what it claims to have written.
type wop struct {
	name string
	run  func(x *X, doc *gltf.Document) (accs []*written, imgs []*wimage, raws []*wraw)
}

func fillSlice(v any, seed int) any {
	m := mem(v)
	el := reflect.TypeOf(v).Elem()
	for el.Kind() == reflect.Array {
		el = el.Elem()
	}
	if el.Kind() == reflect.Float32 {
		for i := 0; i+4 <= len(m); i += 4 {
			k := i/4 + seed*5
			f := float32((k*37)%201)/8 - 12.5
			binary.LittleEndian.PutUint32(m[i:], math.Float32bits(f))
		}
		return v
	}
	copy(m, pattern(len(m), seed))
	return v
}

func mkSlice(c gltf.ComponentType, t gltf.AccessorType, n, seed int) any {
	return fillSlice(codecType{c, t, goElem(c, t)}.slice(n, 1), seed)
}

var (
	arrayTarget = []gltf.Target{gltf.TargetArrayBuffer}
	indexTarget = []gltf.Target{gltf.TargetElementArrayBuffer}
	anyTarget   = []gltf.Target{gltf.TargetArrayBuffer, gltf.TargetNone}
)

// simple is an operation writing one accessor.
func simple(name string, c gltf.ComponentType, t gltf.AccessorType, data func() any, norm bool, target []gltf.Target, call func(*gltf.Document, any) int) wop {
	return wop{name, func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		d := data()
		m := append([]byte{}, mem(d)...)
		i := call(doc, d)
		if !bytes.Equal(mem(d), m) {
			x.Fail("input", "%s changed the data it was given", name)
		}
		// what the caller does with its slice afterwards must not matter
		for j, b := 0, mem(d); j < len(b); j++ {
			b[j] ^= 0xff
		}
		n := reflect.ValueOf(d).Len()
		w := &written{acc: i, c: c, t: t, n: n, m: m, norm: norm, target: target}
		if name == "WritePosition" {
			w.min, w.max = minMaxRef(m)
		}
		return []*written{w}, nil, nil
	}}
}

func minMaxRef(m []byte) (lo, hi []float64) {
	for i := 0; i*4 < len(m); i++ {
		f := float64(math.Float32frombits(binary.LittleEndian.Uint32(m[4*i:])))
		if i < 3 {
			lo, hi = append(lo, f), append(hi, f)
		}
		if f < lo[i%3] {
			lo[i%3] = f
		}
		if f > hi[i%3] {
			hi[i%3] = f
		}
	}
	return
}

// maker makes operations writing one accessor with given data.
type maker struct {
	name string
	c    gltf.ComponentType
	t    gltf.AccessorType
	data func() any
	with func(data func() any) wop
}

var makers []maker

func made(name string, c gltf.ComponentType, t gltf.AccessorType, data func() any, norm bool, target []gltf.Target, call func(*gltf.Document, any) int) wop {
	makers = append(makers, maker{name, c, t, data, func(d func() any) wop { return simple(name, c, t, d, norm, target, call) }})
	return simple(name, c, t, data, norm, target, call)
}

func allWriteOps() []wop {
	var ops []wop
	add := func(o wop) { ops = append(ops, o) }
	sl := func(c gltf.ComponentType, t gltf.AccessorType, n, seed int) func() any {
		return func() any { return mkSlice(c, t, n, seed) }
	}
	F, UB, US, UI := gltf.ComponentFloat, gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint
	V2, V3, V4 := gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4
	wi := func(d *gltf.Document, v any) int { return modeler.WriteIndices(d, v) }
	add(made("WriteIndices", US, gltf.AccessorScalar, sl(US, gltf.AccessorScalar, 3, 1), false, indexTarget, wi))
	add(made("WriteIndices", US, gltf.AccessorScalar, sl(US, gltf.AccessorScalar, 1, 2), false, indexTarget, wi))
	add(made("WriteIndices", UI, gltf.AccessorScalar, sl(UI, gltf.AccessorScalar, 3, 3), false, indexTarget, wi))
	add(made("WriteNormal", F, V3, sl(F, V3, 2, 4), false, arrayTarget, func(d *gltf.Document, v any) int { return modeler.WriteNormal(d, v.([][3]float32)) }))
	add(made("WriteTangent", F, V4, sl(F, V4, 2, 5), false, arrayTarget, func(d *gltf.Document, v any) int { return modeler.WriteTangent(d, v.([][4]float32)) }))
	add(made("WritePosition", F, V3, sl(F, V3, 3, 6), false, arrayTarget, func(d *gltf.Document, v any) int { return modeler.WritePosition(d, v.([][3]float32)) }))
	add(made("WriteInverseBindMatrices", F, gltf.AccessorMat4, sl(F, gltf.AccessorMat4, 2, 7), false, anyTarget, func(d *gltf.Document, v any) int { return modeler.WriteInverseBindMatrices(d, v.([][4][4]float32)) }))
	for _, c := range []gltf.ComponentType{UB, US, F} {
		add(made("WriteTextureCoord", c, V2, sl(c, V2, 3, 8), c != F, arrayTarget, modeler.WriteTextureCoord))
		add(made("WriteWeights", c, V4, sl(c, V4, 3, 9), c != F, arrayTarget, modeler.WriteWeights))
		if c != F {
			add(made("WriteJoints", c, V4, sl(c, V4, 3, 10), false, arrayTarget, modeler.WriteJoints))
		}
		for _, t := range []gltf.AccessorType{V3, V4} {
			add(made("WriteColor", c, t, sl(c, t, 3, 11), c != F, arrayTarget, modeler.WriteColor))
		}
	}
	add(made("WriteColor", UB, V4, func() any { return fillSlice(make([]color.RGBA, 3), 12) }, true, arrayTarget, modeler.WriteColor))
	add(made("WriteColor", US, V4, func() any { return fillSlice(make([]color.RGBA64, 3), 13) }, true, arrayTarget, modeler.WriteColor))
	for _, n := range []int{1, 5, 8} {
		for _, kind := range []int{0, 1} {
			add(imageOp(n, kind))
		}
	}
	for _, tg := range []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer} {
		add(viewOp(tg, gltf.ComponentUbyte, gltf.AccessorScalar, 3))
		add(viewOp(tg, gltf.ComponentFloat, gltf.AccessorVec3, 2))
	}
	add(interOp("view", 2, [2]int{5, 2}, [2]int{5, 1}))
	add(interOp("accessors", 2, [2]int{5, 2}, [2]int{1, 3}))
	add(interOp("accessors", 3, [2]int{5, 2}))
	add(interOp("accessors", 1, [2]int{1, 3}, [2]int{3, 3}, [2]int{5, 6}))
	add(attrOp(2, gltf.POSITION, gltf.NORMAL, gltf.TEXCOORD_0))
	add(attrOp(1, gltf.COLOR_0, gltf.JOINTS_0, gltf.WEIGHTS_0, gltf.POSITION))
	return ops
}

func imageOp(n, kind int) wop {
	return wop{fmt.Sprintf("WriteImage/%d/%d", n, kind), func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		d := pattern(n, 20+kind)
		name, mime := fmt.Sprintf("img%d", n), []string{"image/png", "image/jpeg"}[kind]
		src := append([]byte{}, d...)
		var r io.Reader = bytes.NewBuffer(src)
		if kind == 1 {
			r = &fragReaderSimple{b: src}
		}
		i, err := modeler.WriteImage(doc, name, mime, r)
		if err != nil {
			x.Fail("rejected", "WriteImage of %d bytes: %v", n, err)
		}
		if !bytes.Equal(src, d) {
			x.Fail("input", "WriteImage changed the data it was given")
		}
		for j := range src {
			src[j] ^= 0xff
		}
		return nil, []*wimage{{i, d, name, mime}}, nil
	}}
}

// writeImageReaders writes images from readers of every kind, part of which has been
// consumed before: the image is what is left.
func writeImageReaders(x *X) {
	m := newModel(startDoc(x.All("start", numStarts)))
	n := []int{1, 2, 3, 4, 5, 511, 512, 513, 4096, 70000}[x.All("bytes", 10)]
	skip := []int{0, 1, 7, 600}[x.All("skip", 4)]
	kind := x.All("reader", 12)
	all := append(pattern(skip, 3), pattern(n, 21)...)
	want := append([]byte{}, all[skip:]...)
	var r io.Reader
	switch kind {
	case 0:
		r = bytes.NewBuffer(all)
	case 1:
		r = bytes.NewReader(all)
	case 2:
		r = strings.NewReader(string(all))
	case 3:
		r = bufio.NewReaderSize(bytes.NewReader(all), 16)
	case 4:
		r = io.LimitReader(bytes.NewReader(append(append([]byte{}, all...), 1, 2, 3)), int64(len(all)))
	case 5:
		r = io.NewSectionReader(bytes.NewReader(append(append([]byte{9, 9}, all...), 1, 2, 3)), 2, int64(len(all)))
	case 6:
		r = io.MultiReader(bytes.NewReader(all[:len(all)/2]), bytes.NewBuffer(append([]byte{}, all[len(all)/2:]...)))
	case 7:
		r = &fragReaderSimple{b: all}
	case 8:
		r = iotest.DataErrReader(bytes.NewReader(all))
	case 9:
		r = iotest.HalfReader(bytes.NewReader(all))
	case 10: // spare capacity behind the data
		r = bytes.NewBuffer(append(all, 1, 2, 3, 4, 5)[:len(all)])
	case 11: // a real file
		f, err := os.CreateTemp("", "img")
		if err != nil {
			panic(divergence{"scratch: " + err.Error()})
		}
		defer os.Remove(f.Name())
		defer f.Close()
		f.Write(all)
		f.Seek(0, io.SeekStart)
		r = f
	}
	if _, err := io.CopyN(io.Discard, r, int64(skip)); err != nil {
		panic(divergence{"skip: " + err.Error()})
	}
	op := wop{fmt.Sprintf("WriteImage/%d bytes after %d/reader %d", n, skip, kind), func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		i, err := modeler.WriteImage(doc, "img", "image/jpeg", r)
		if err != nil {
			x.Fail("rejected", "WriteImage of %d bytes: %v", n, err)
		}
		return nil, []*wimage{{i, want, "img", "image/jpeg"}}, nil
	}}
	m.apply(x, op)
	x.State(fmt.Sprint(n, skip, kind, hashDoc(m.doc)))
	m.apply(x, writeOps[5])
}

// fragReaderSimple delivers one byte at a time.
type fragReaderSimple struct {
	b []byte
}

func (f *fragReaderSimple) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = f.b[0]
	f.b = f.b[1:]
	return 1, nil
}

func viewOp(tg gltf.Target, c gltf.ComponentType, t gltf.AccessorType, n int) wop {
	return wop{fmt.Sprintf("WriteBufferView/%d/%v%v", tg, c, t), func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		d := mkSlice(c, t, n, 30)
		m := append([]byte{}, mem(d)...)
		i := modeler.WriteBufferView(doc, tg, d)
		checkTarget(x, doc, i, []gltf.Target{tg})
		return nil, nil, []*wraw{{i, m}}
	}}
}

func checkTarget(x *X, doc *gltf.Document, view int, ok []gltf.Target) {
	if view < 0 || view >= len(doc.BufferViews) {
		x.Fail("index", "buffer view index %d of %d", view, len(doc.BufferViews))
	}
	for _, t := range ok {
		if doc.BufferViews[view].Target == t {
			return
		}
	}
	x.Fail("target", "view %d has target %v, want %v", view, doc.BufferViews[view].Target, ok)
}

func interOp(kind string, n int, fs ...[2]int) wop {
	return wop{fmt.Sprint("interleaved/", kind, n, fs), func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		var data []any
		var ws []*written
		for i, f := range fs {
			c, t := allComps[f[0]], allTypes[f[1]]
			d := mkSlice(c, t, n, 40+i)
			data = append(data, d)
			ws = append(ws, &written{c: c, t: t, n: n, m: append([]byte{}, mem(d)...), target: arrayTarget, inter: true})
		}
		if kind == "view" {
			nv := len(doc.BufferViews)
			v, err := modeler.WriteBufferViewInterleaved(doc, data...)
			if err != nil {
				x.Fail("rejected", "WriteBufferViewInterleaved: %v", err)
			}
			if v != nv || len(doc.BufferViews) != nv+1 {
				x.Fail("index", "WriteBufferViewInterleaved returned view %d, %d views before, %d after", v, nv, len(doc.BufferViews))
			}
			checkTarget(x, doc, v, arrayTarget)
			// attribute k starts after the attributes before it
			off := 0
			for i, w := range ws {
				a := &gltf.Accessor{BufferView: gltf.Index(v), ByteOffset: off, ComponentType: w.c, Type: w.t, Count: n}
				r, err := refRead(doc, a)
				if err != nil || !bytes.Equal(r.m, w.m) {
					x.Fail("content", "interleaved attribute %d is not at offset %d (%v)", i, off, err)
				}
				off += refElemSize(w.c, w.t)
			}
			return nil, nil, nil
		}
		idx, err := modeler.WriteAccessorsInterleaved(doc, data...)
		if err != nil {
			x.Fail("rejected", "WriteAccessorsInterleaved: %v", err)
		}
		if len(idx) != len(ws) {
			x.Fail("index", "WriteAccessorsInterleaved returned %v for %d accessors", idx, len(ws))
		}
		for i := range ws {
			ws[i].acc = idx[i]
		}
		for _, d := range data {
			for j, b := 0, mem(d); j < len(b); j++ {
				b[j] ^= 0xff
			}
		}
		return ws, nil, nil
	}}
}

var attrFormats = map[string][2]int{gltf.POSITION: {5, 2}, gltf.NORMAL: {5, 2}, gltf.TANGENT: {5, 3}, gltf.TEXCOORD_0: {3, 1}, gltf.TEXCOORD_1: {1, 1},
	gltf.COLOR_0: {1, 2}, gltf.JOINTS_0: {3, 3}, gltf.WEIGHTS_0: {1, 3}, "_CUSTOM": {2, 3}}

func attrOp(n int, names ...string) wop {
	return wop{fmt.Sprint("attributes", n, names), func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		var as []attrData
		for i, nm := range names {
			f := attrFormats[nm]
			as = append(as, attrData{nm, mkSlice(allComps[f[0]], allTypes[f[1]], n, 50+i)})
		}
		return writeAttrs(x, doc, as), nil, nil
	}}
}

type attrData struct {
	name string
	data any
}

// writeAttrs calls WritePrimitiveAttributes and checks the map it returns.
func writeAttrs(x *X, doc *gltf.Document, as []attrData) []*written {
	var in []modeler.PrimitiveAttribute
	var ws []*written
	want := map[string]*written{}
	for _, a := range as {
		in = append(in, modeler.PrimitiveAttribute{Name: a.name, Data: a.data})
		if a.data == nil || reflect.ValueOf(a.data).Len() == 0 {
			continue
		}
		ct := typeOfSlice(a.data)
		w := &written{c: ct.c, t: ct.t, n: reflect.ValueOf(a.data).Len(), m: append([]byte{}, mem(a.data)...), target: arrayTarget, inter: true}
		switch a.name {
		case gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.COLOR_0, gltf.WEIGHTS_0:
			w.norm = ct.c != gltf.ComponentFloat
		case gltf.POSITION:
			w.min, w.max = minMaxRef(w.m)
		case gltf.NORMAL, gltf.TANGENT, gltf.JOINTS_0:
		default:
			w.anyN = true
		}
		ws = append(ws, w)
		want[a.name] = w
	}
	got, err := modeler.WritePrimitiveAttributes(doc, in...)
	if err != nil {
		x.Fail("rejected", "WritePrimitiveAttributes: %v", err)
	}
	if len(got) != len(want) {
		x.Fail("attributes", "WritePrimitiveAttributes returned %v for %d attributes with data", got, len(want))
	}
	for name, w := range want {
		i, ok := got[name]
		if !ok {
			x.Fail("attributes", "attribute %s is missing in %v", name, got)
		}
		w.acc = i
	}
	return ws
}

func typeOfSlice(v any) codecType {
	for _, ct := range codecTypes {
		if reflect.TypeOf(v).Elem() == ct.el {
			return ct
		}
	}
	panic(divergence{fmt.Sprintf("type %T", v)})
}

var writeOps = allWriteOps()

// deepOps are the operations used in longer histories.
var deepOps = []int{0, 2, 5, 8, 12, 19, 20, 25, 32, 33}

func newModel(doc *gltf.Document) *wmodel {
	m := &wmodel{doc: doc, views: len(doc.BufferViews)}
	for i, a := range doc.Accessors {
		if r, err := refRead(doc, a); err == nil {
			m.accs = append(m.accs, &written{acc: i, c: a.ComponentType, t: a.Type, n: a.Count, m: r.m, anyN: true, inter: true})
		}
	}
	return m
}

// apply runs one operation and checks the document against the model.
func (m *wmodel) apply(x *X, op wop) {
	doc := m.doc
	before := cloneDoc(doc)
	accs, imgs, raws := op.run(x, doc)
	desc := op.name
	// new objects
	for _, w := range accs {
		if w.acc < len(before.Accessors) || w.acc >= len(doc.Accessors) {
			x.Fail("index", "%s returned accessor %d, %d accessors before and %d after", desc, w.acc, len(before.Accessors), len(doc.Accessors))
		}
		for _, o := range accs {
			if o != w && o.acc == w.acc {
				x.Fail("index", "%s returned accessor %d twice", desc, w.acc)
			}
		}
	}
	if len(doc.Accessors) != len(before.Accessors)+len(accs) {
		x.Fail("count", "%s added %d accessors, want %d", desc, len(doc.Accessors)-len(before.Accessors), len(accs))
	}
	if len(doc.Images) != len(before.Images)+len(imgs) {
		x.Fail("count", "%s added %d images, want %d", desc, len(doc.Images)-len(before.Images), len(imgs))
	}
	for _, w := range imgs {
		if w.img != len(before.Images) {
			x.Fail("index", "%s returned image %d, %d images before", desc, w.img, len(before.Images))
		}
	}
	for _, w := range raws {
		if w.view != len(before.BufferViews) {
			x.Fail("index", "%s returned view %d, %d views before", desc, w.view, len(before.BufferViews))
		}
	}
	if nb := max(len(before.Buffers), 1); len(doc.Buffers) > nb {
		x.Fail("count", "%s added a buffer although there was one", desc)
	}
	m.accs, m.images, m.raws = append(m.accs, accs...), append(m.images, imgs...), append(m.raws, raws...)
	m.unchanged(x, before, desc)
	for i, w := range accs {
		a := doc.Accessors[w.acc]
		if a.ComponentType != w.c || a.Type != w.t || a.Count != w.n {
			x.Fail("format", "%s: accessor %d is %v %v x%d, want %v %v x%d", desc, w.acc, a.ComponentType, a.Type, a.Count, w.c, w.t, w.n)
		}
		if !w.anyN && a.Normalized != w.norm {
			x.Fail("normalized", "%s: accessor of %v %v has normalized %v", desc, w.c, w.t, a.Normalized)
		}
		if a.BufferView == nil || *a.BufferView < len(before.BufferViews) || *a.BufferView >= len(doc.BufferViews) {
			x.Fail("view", "%s: accessor %d does not refer to the new view", desc, w.acc)
		}
		checkTarget(x, doc, *a.BufferView, w.target)
		v := doc.BufferViews[*a.BufferView]
		es := refElemSize(w.c, w.t)
		if w.inter {
			if v.ByteStride%4 != 0 || a.ByteOffset%4 != 0 {
				x.Fail("stride", "%s: interleaved accessor at offset %d with stride %d", desc, a.ByteOffset, v.ByteStride)
			}
		} else {
			if v.ByteStride != 0 && v.ByteStride != es {
				x.Fail("stride", "%s: stride %d for elements of %d bytes", desc, v.ByteStride, es)
			}
			if v.ByteStride != 0 && v.Target != gltf.TargetArrayBuffer {
				x.Fail("stride", "%s: stride %d in a view that does not hold vertex attributes", desc, v.ByteStride)
			}
			if v.ByteStride == 0 && es != refMemSize(w.c, w.t) && v.Target == gltf.TargetArrayBuffer {
				x.Fail("stride", "%s: padded elements of %d bytes without stride", desc, es)
			}
			if (v.ByteOffset+a.ByteOffset)%4 != 0 {
				x.Fail("align", "%s: accessor data starts at byte %d", desc, v.ByteOffset+a.ByteOffset)
			}
		}
		if w.min != nil && (!reflect.DeepEqual(a.Min, w.min) || !reflect.DeepEqual(a.Max, w.max)) {
			x.Fail("minmax", "%s: min %v max %v, want %v and %v", desc, a.Min, a.Max, w.min, w.max)
		}
		_ = i
	}
	m.check(x, desc)
}

// unchanged checks that everything that was in before is still there.
func (m *wmodel) unchanged(x *X, before *gltf.Document, desc string) {
	doc := m.doc
	after := *doc
	if len(doc.Accessors) < len(before.Accessors) || len(doc.BufferViews) < len(before.BufferViews) || len(doc.Images) < len(before.Images) || len(doc.Buffers) < len(before.Buffers) {
		x.Fail("removed", "%s removed objects", desc)
	}
	after.Accessors = doc.Accessors[:len(before.Accessors)]
	after.BufferViews = doc.BufferViews[:len(before.BufferViews)]
	after.Images = doc.Images[:len(before.Images)]
	after.Buffers = doc.Buffers[:len(before.Buffers)]
	// buffers may only grow
	b2 := *before
	b2.Buffers = nil
	a2 := after
	a2.Buffers = nil
	if d := diffDoc(&a2, &b2); d != "" {
		x.Fail("modified", "%s changed the existing document: %s", desc, d)
	}
	for i, b := range before.Buffers {
		nb := after.Buffers[i]
		if len(nb.Data) < len(b.Data) || !bytes.Equal(nb.Data[:len(b.Data)], b.Data) {
			x.Fail("bytes", "%s changed existing bytes of buffer %d", desc, i)
		}
		if i < len(before.Buffers)-1 && len(nb.Data) != len(b.Data) {
			x.Fail("bytes", "%s wrote to buffer %d, which is not the last", desc, i)
		}
		if nb.URI != b.URI || nb.Name != b.Name {
			x.Fail("modified", "%s changed buffer %d", desc, i)
		}
	}
}

// check compares all content with the model.
func (m *wmodel) check(x *X, desc string) {
	doc := m.doc
	for i, b := range doc.Buffers {
		if b.ByteLength != len(b.Data) {
			x.Fail("bytelength", "after %s: buffer %d has byteLength %d and %d bytes", desc, i, b.ByteLength, len(b.Data))
		}
	}
	type span struct{ buf, lo, hi, view int }
	var spans []span
	for i, v := range doc.BufferViews {
		if v.Buffer < 0 || v.Buffer >= len(doc.Buffers) || v.ByteOffset < 0 || v.ByteLength < 0 || v.ByteOffset+v.ByteLength > len(doc.Buffers[v.Buffer].Data) {
			x.Fail("bounds", "after %s: view %d (%+v) is outside its buffer", desc, i, *v)
		}
		spans = append(spans, span{v.Buffer, v.ByteOffset, v.ByteOffset + v.ByteLength, i})
	}
	for i := m.views; i < len(spans); i++ {
		for j := range spans {
			a, b := spans[i], spans[j]
			if i != j && a.buf == b.buf && a.lo < b.hi && b.lo < a.hi {
				x.Fail("overlap", "after %s: views %d [%d,%d) and %d [%d,%d) overlap", desc, i, a.lo, a.hi, j, b.lo, b.hi)
			}
		}
	}
	// bounds are the accessor's own: changing some changes no others
	var held []*float64
	for i, a := range doc.Accessors {
		for _, b := range [][]float64{a.Min, a.Max} {
			for k := range b {
				for _, p := range held {
					if p == &b[k] {
						x.Fail("shared", "after %s: a bound of accessor %d is stored in the same memory as another one", desc, i)
					}
				}
				held = append(held, &b[k])
			}
		}
	}
	m.content(x, desc)
}

// content reads everything back.
func (m *wmodel) content(x *X, desc string) {
	doc := m.doc
	for _, w := range m.accs {
		if w.acc >= len(doc.Accessors) {
			x.Fail("lost", "after %s: accessor %d is gone", desc, w.acc)
		}
		a := doc.Accessors[w.acc]
		got, err := modeler.ReadAccessor(doc, a, nil)
		if err != nil {
			x.Fail("unreadable", "after %s: accessor %d: %v", desc, w.acc, err)
		}
		if a.ComponentType != w.c || a.Type != w.t || a.Count != w.n {
			x.Fail("format", "after %s: accessor %d is %v %v x%d, want %v %v x%d", desc, w.acc, a.ComponentType, a.Type, a.Count, w.c, w.t, w.n)
		}
		if d := compareRead("ReadAccessor", got, &refVal{w.c, w.t, w.n, w.m}); d != "" {
			x.Fail("content", "after %s: accessor %d: %s", desc, w.acc, d)
		}
		r, err := refRead(doc, a)
		if err != nil || !bytes.Equal(r.m, w.m) {
			x.Fail("content", "after %s: the bytes of accessor %d are not where it says (%v)", desc, w.acc, err)
		}
	}
	for _, w := range m.images {
		if w.img >= len(doc.Images) {
			x.Fail("lost", "after %s: image %d is gone", desc, w.img)
		}
		im := doc.Images[w.img]
		if im.BufferView == nil || *im.BufferView < 0 || *im.BufferView >= len(doc.BufferViews) || im.Name != w.name || im.MimeType != w.mime {
			x.Fail("image", "after %s: image %d is %+v", desc, w.img, *im)
		}
		b, err := modeler.ReadBufferView(doc, doc.BufferViews[*im.BufferView])
		if err != nil || !bytes.Equal(b, w.data) {
			x.Fail("content", "after %s: image %d reads back %d bytes, error %v", desc, w.img, len(b), err)
		}
	}
	for _, w := range m.raws {
		if w.view >= len(doc.BufferViews) {
			x.Fail("lost", "after %s: view %d is gone", desc, w.view)
		}
		b, err := modeler.ReadBufferView(doc, doc.BufferViews[w.view])
		if err != nil || !bytes.Equal(b, w.data) {
			x.Fail("content", "after %s: view %d reads back %d bytes, error %v", desc, w.view, len(b), err)
		}
	}
}

func runWrites(x *X, start, depth int, sel []int) {
	doc := startDoc(start)
	m := newModel(doc)
	ops := writeOps
	for i := 0; i < depth; i++ {
		n := len(ops)
		if sel != nil {
			n = len(sel)
		}
		k := x.All("op", n)
		if sel != nil {
			k = sel[k]
		}
		x.Log("%s", ops[k].name)
		m.apply(x, ops[k])
		x.State(fmt.Sprint(start, hashDoc(doc), len(doc.Images)))
	}
}

// writeFormats writes all 42 formats with WriteAccessor.
func writeFormats(x *X) {
	c, t := allComps[x.All("comp", 6)], allTypes[x.All("type", 7)]
	tg := []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[x.All("target", 3)]
	n := x.All("count", 3) + 1
	m := newModel(startDoc(x.All("start", numStarts)))
	op := simple("WriteAccessor", c, t, func() any { return mkSlice(c, t, n, 1) }, false, []gltf.Target{tg}, func(d *gltf.Document, v any) int { return modeler.WriteAccessor(d, tg, v) })
	x.Log("WriteAccessor %v %v x%d target %v", c, t, n, tg)
	m.apply(x, op)
	// followed by another write
	k := []int{0, 5, 19, 20}[x.All("then", 4)]
	m.apply(x, writeOps[k])
	x.State(fmt.Sprint(c, t, tg, n, hashDoc(m.doc)))
}

// makerOf chooses an operation: a typed writer, WriteAccessor, WriteBufferView or WriteImage,
// given data of n elements. Everything but the data is the same each time.
func makerOf(x *X) (string, func(n, seed int) any, func(d any) wop) {
	k := x.All("writer", len(makers)+3)
	if k < len(makers) {
		mk := makers[k]
		typ := reflect.TypeOf(mk.data())
		return mk.name, func(n, seed int) any { return fillSlice(reflect.MakeSlice(typ, n, n).Interface(), seed) },
			func(d any) wop { return mk.with(func() any { return d }) }
	}
	us, sc := gltf.ComponentUshort, gltf.AccessorScalar
	switch k - len(makers) {
	case 0:
		return "WriteAccessor", func(n, seed int) any { return mkSlice(us, sc, n, seed) }, func(d any) wop {
			return simple("WriteAccessor", us, sc, func() any { return d }, false, []gltf.Target{gltf.TargetNone}, func(doc *gltf.Document, v any) int { return modeler.WriteAccessor(doc, gltf.TargetNone, v) })
		}
	case 1:
		return "WriteBufferView", func(n, seed int) any { return mkSlice(us, sc, n, seed) }, func(d any) wop {
			return wop{"WriteBufferView", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
				m := append([]byte{}, mem(d)...)
				return nil, nil, []*wraw{{modeler.WriteBufferView(doc, gltf.TargetArrayBuffer, d), m}}
			}}
		}
	}
	return "WriteImage", func(n, seed int) any { return pattern(n, seed) }, func(d any) wop {
		return wop{"WriteImage", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
			m := append([]byte{}, d.([]byte)...)
			i, err := modeler.WriteImage(doc, "same", "image/png", bytes.NewReader(m))
			if err != nil {
				x.Fail("rejected", "WriteImage: %v", err)
			}
			return nil, []*wimage{{i, d.([]byte), "same", "image/png"}}, nil
		}}
	}
}

// writeTwins calls one writing function three times with data that differ in one place, in
// length or not at all.
func writeTwins(x *X) {
	name, mk, op := makerOf(x)
	n := []int{1, 2, 4, 9}[x.All("count", 4)]
	m := newModel(startDoc([]int{0, 3, 5}[x.All("start", 3)]))
	for i := 0; i < 3; i++ {
		d := mk(n, 60)
		if i > 0 {
			b := mem(d)
			switch x.All("differs", 5) {
			case 1:
				b[0] ^= byte(i)
			case 2:
				b[(len(b)-1)&^3] ^= byte(i)
			case 3:
				d = mk(n+i, 60)
			case 4:
				d = mk(n, 60+i)
			}
		}
		m.apply(x, op(d))
	}
	x.State(fmt.Sprint(name, n, hashDoc(m.doc)))
}

// writeCounts writes data of many sizes with every function.
func writeCounts(x *X) {
	name, mk, op := makerOf(x)
	ns := []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 127, 128, 129, 170, 255, 256, 257, 511, 512, 513, 1023, 1025, 4095, 4097, 21845, 21846, 65534, 65535, 65536, 65537, 70001}
	n := ns[x.All("count", len(ns))]
	m := newModel(startDoc([]int{0, 3}[x.All("start", 2)]))
	m.apply(x, op(mk(n, 61)))
	if n < 1000 {
		m.apply(x, op(mk(n, 62)))
	}
	m.apply(x, op(mk(1, 63)))
	x.State(fmt.Sprint(name, n, hashDoc(m.doc)))
}

// writeManyInterleaved interleaves many attributes, large and small.
func writeManyInterleaved(x *X) {
	fs := [][2]int{{5, 6}, {5, 2}, {1, 3}, {3, 1}, {5, 0}, {5, 5}}
	var sel [][2]int
	last := 0
	for i, k := 0, []int{3, 4, 5, 6, 8, 16, 17, 40}[x.All("len", 8)]; i < k; i++ {
		if i < 3 {
			last = x.All("format", len(fs))
		}
		sel = append(sel, fs[(last+i)%len(fs)])
		if i >= 2 && last == 0 { // only the largest
			sel[i] = fs[0]
		}
	}
	n := []int{1, 2, 3, 300}[x.All("count", 4)]
	if n > 3 && len(sel) > 6 {
		n = 9
	}
	m := newModel(startDoc([]int{0, 3}[x.All("start", 2)]))
	m.apply(x, interOp([]string{"accessors", "view"}[x.All("kind", 2)], n, sel...))
	m.apply(x, writeOps[5])
	x.State(fmt.Sprint(sel, n, hashDoc(m.doc)))
}

// writeAttributeSets writes every set of attributes.
func writeAttributeSets(x *X) {
	m := newModel(startDoc([]int{0, 3}[x.All("start", 2)]))
	m.apply(x, attributeSet(x))
	x.State(fmt.Sprint(x.choices()))
}

var attrNames = []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.COLOR_0, gltf.JOINTS_0, gltf.WEIGHTS_0, "_CUSTOM"}

func attributeSet(x *X) wop {
	set := x.All("set", 1<<len(attrNames))
	k := x.All("formats", 3)
	n := []int{1, 2, 5, 257}[x.All("count", 4)]
	var as []attrData
	for i, nm := range attrNames {
		if set>>i&1 == 0 {
			continue
		}
		f := attrFormats[nm]
		switch nm {
		case gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.COLOR_0:
			f[0] = []int{1, 3, 5}[k]
		case gltf.JOINTS_0:
			f[0] = []int{1, 3, 3}[k]
		}
		if nm == gltf.COLOR_0 && k == 2 {
			f[1] = 3
		}
		as = append(as, attrData{nm, mkSlice(allComps[f[0]], allTypes[f[1]], n, 50+i)})
	}
	if x.All("reverse", 2) == 1 {
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	}
	return wop{"WritePrimitiveAttributes", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		return writeAttrs(x, doc, as), nil, nil
	}}
}

// writeInterleave writes every pair of formats whose size is a multiple of 4.
func writeInterleave(x *X) {
	var fm [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if refElemSize(c, t)%4 == 0 {
				fm = append(fm, [2]int{ci, ti})
			}
		}
	}
	a, b := fm[x.All("a", len(fm))], fm[x.All("b", len(fm))]
	n := x.All("count", 3) + 1
	fs := [][2]int{a, b}
	if x.All("three", 2) == 1 {
		fs = append(fs, [2]int{5, 2})
	}
	m := newModel(startDoc([]int{0, 3}[x.All("start", 2)]))
	m.apply(x, interOp([]string{"accessors", "view"}[x.All("kind", 2)], n, fs...))
	x.State(fmt.Sprint(fs, n, hashDoc(m.doc)))
}

// writeAttributes writes sets of attributes, some of them empty.
func writeAttributes(x *X) {
	names := []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.COLOR_0, gltf.JOINTS_0, gltf.WEIGHTS_0, "_CUSTOM"}
	alts := map[string][][2]int{gltf.TEXCOORD_0: {{1, 1}, {3, 1}, {5, 1}}, gltf.TEXCOORD_1: {{1, 1}, {3, 1}, {5, 1}}, gltf.COLOR_0: {{1, 2}, {1, 3}, {3, 2}, {3, 3}, {5, 2}, {5, 3}},
		gltf.JOINTS_0: {{1, 3}, {3, 3}}, gltf.WEIGHTS_0: {{1, 3}, {3, 3}, {5, 3}}, "_CUSTOM": {{5, 0}, {2, 3}, {5, 6}}}
	n := x.All("count", 2) + 1
	k := x.All("len", 4)
	var as []attrData
	used := map[string]bool{}
	for i := 0; i < k; i++ {
		nm := names[x.All("name", len(names))]
		if used[nm] {
			return
		}
		used[nm] = true
		f := attrFormats[nm]
		if al := alts[nm]; al != nil {
			f = al[x.All("format", len(al))]
		}
		c, t := allComps[f[0]], allTypes[f[1]]
		var d any
		switch x.All("data", 4) {
		case 0:
			d = mkSlice(c, t, n, 50+i)
		case 1:
			d = mkSlice(c, t, 0, 0)
		case 2:
			d = reflect.Zero(reflect.TypeOf(mkSlice(c, t, 0, 0))).Interface()
		}
		as = append(as, attrData{nm, d})
	}
	m := newModel(startDoc([]int{0, 3}[x.All("start", 2)]))
	m.apply(x, wop{"WritePrimitiveAttributes", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		return writeAttrs(x, doc, as), nil, nil
	}})
	x.State(fmt.Sprint(n, len(as), used, hashDoc(m.doc)))
}

// writePositions checks min and max over all small arrangements of special values.
func writePositions(x *X) {
	vals := []float32{0, 1, -1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -2.5}
	var v [][3]float32
	kind := x.All("whole", 3)
	if kind == 2 {
		// many positions, the extremes at one place
		n := []int{5, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097}[x.All("many", 20)]
		v = make([][3]float32, n)
		for i := range v {
			v[i] = [3]float32{float32(i%7) + 1, -float32(i%5) - 1, float32(i % 3)}
		}
		at := []int{0, 1, 2, n / 2, n - 3, n - 2, n - 1}[x.All("at", 7)]
		if x.All("extreme", 2) == 1 {
			v[at] = [3]float32{100, 200, 300}
		} else {
			v[at] = [3]float32{-100, -200, -300}
		}
	} else if kind == 1 {
		// all sequences of whole positions, repeated ones included
		pts := [][3]float32{{0, 0, 0}, {1, -1, 2}, {-3, 5, 0}, {math.MaxFloat32, -math.MaxFloat32, 1}, {2, 2, -7}}
		for n := x.All("count", 4) + 1; n > 0; n-- {
			v = append(v, pts[x.All("point", len(pts))])
		}
	} else {
		v = make([][3]float32, x.All("count", 3)+1)
		for i := range v {
			for j := range v[i] {
				v[i][j] = vals[(i*3+j*2)%len(vals)]
			}
			// all arrangements of one component, the others fixed
			v[i][x.All("lane", 3)] = vals[x.All("value", len(vals))]
		}
	}
	m := newModel(startDoc(0))
	if x.All("attr", 2) == 1 {
		m.apply(x, wop{"WritePrimitiveAttributes", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
			return writeAttrs(x, doc, []attrData{{gltf.NORMAL, v}, {gltf.POSITION, v}}), nil, nil
		}})
	} else {
		m.apply(x, simple("WritePosition", gltf.ComponentFloat, gltf.AccessorVec3, func() any { return append([][3]float32{}, v...) }, false, arrayTarget,
			func(d *gltf.Document, a any) int { return modeler.WritePosition(d, a.([][3]float32)) }))
	}
	if kind != 2 {
		x.State(fmt.Sprint(v))
	} else {
		x.State(fmt.Sprint(len(v), hashDoc(m.doc)))
	}
}

// ---- C22 ----

// rejected runs call, which must be rejected; mayPanic allows a panic.
func rejected(x *X, m *wmodel, desc string, mayPanic bool, call func(doc *gltf.Document) error) {
	doc := m.doc
	before := cloneDoc(doc)
	hadData := map[int]bool{}
	for i, b := range before.Buffers {
		hadData[i] = b.ByteLength == len(b.Data)
	}
	form := -1
	if saveable(before) {
		form = 0
	}
	var err error
	panicked := func() (p any) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(violation); ok {
					panic(r)
				}
				p = r
			}
		}()
		err = call(doc)
		return nil
	}()
	x.Log("%s: error %v, panic %v", desc, err, panicked)
	if panicked != nil && !mayPanic {
		x.Fail("panic", "%s panicked: %v", desc, panicked)
	}
	if panicked == nil && err == nil {
		x.Fail("accepted", "%s was not rejected", desc)
	}
	if len(doc.Accessors) != len(before.Accessors) || len(doc.BufferViews) != len(before.BufferViews) || len(doc.Images) != len(before.Images) || len(doc.Buffers) != len(before.Buffers) {
		x.Fail("added", "rejected %s left %d accessors, %d views, %d images, %d buffers; before %d, %d, %d, %d", desc, len(doc.Accessors), len(doc.BufferViews), len(doc.Images), len(doc.Buffers),
			len(before.Accessors), len(before.BufferViews), len(before.Images), len(before.Buffers))
	}
	m.unchanged(x, before, "rejected "+desc)
	for i, b := range doc.Buffers {
		if hadData[i] && b.ByteLength != len(b.Data) {
			x.Fail("bytelength", "rejected %s left buffer %d with byteLength %d and %d bytes", desc, i, b.ByteLength, len(b.Data))
		}
	}
	m.content(x, "rejected "+desc)
	if form >= 0 {
		for f := 0; f < 3; f += 2 {
			fs := newMemFS()
			b, err := encodeForm(doc, f, fs)
			if err != nil {
				x.Fail("unsaveable", "after rejected %s the document cannot be encoded: %v", desc, err)
			}
			d2, err := decodeBytes(b, fs)
			if err != nil {
				x.Fail("unsaveable", "after rejected %s the encoded document cannot be decoded: %v", desc, err)
			}
			m2 := *m
			m2.doc = d2
			m2.content(x, "rejected "+desc+", save and load")
		}
	}
}

// saveable: the document can be written and read again.
func saveable(doc *gltf.Document) bool {
	d := cloneDoc(doc)
	for f := 0; f < 3; f += 2 {
		fs := newMemFS()
		b, err := encodeForm(d, f, fs)
		if err != nil {
			return false
		}
		if _, err := decodeBytes(b, fs); err != nil {
			return false
		}
	}
	return true
}

type badCall struct {
	name     string
	mayPanic bool
	call     func(*gltf.Document) error
}

func noErr(f func(d *gltf.Document)) func(*gltf.Document) error {
	return func(d *gltf.Document) error { f(d); return nil }
}

func badCalls() []badCall {
	var out []badCall
	odd := []any{nil, 1, "x", []int{1}, []string{"x"}, []float64{1}, [3]float32{1}, [][5]float32{{1}}, [][2][3]float32{{}}, []any{1}, struct{}{}, []bool{true}, [][]float32{{1}}, []uint64{1}, (*[]uint16)(nil), map[string]int{}, []gltf.Accessor{}}
	typed := []any{[]uint8{1}, []int16{1}, []float32{1}, [][2]int8{{1}}, [][3]uint32{{1}}, [][2][2]uint8{{}}, [][4][4]float32{{}}}
	for i, v := range odd {
		v := v
		nm := fmt.Sprintf("(%T)", v)
		out = append(out, badCall{"WriteAccessor" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteAccessor(d, gltf.TargetNone, v) })},
			badCall{"WriteBufferView" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteBufferView(d, gltf.TargetNone, v) })},
			badCall{"WriteAccessorsInterleaved" + nm, true, func(d *gltf.Document) error { _, err := modeler.WriteAccessorsInterleaved(d, v); return err }},
			badCall{"WriteAccessorsInterleaved pos," + nm, true, func(d *gltf.Document) error {
				_, err := modeler.WriteAccessorsInterleaved(d, [][3]float32{{1, 2, 3}}, v)
				return err
			}},
			badCall{"WriteBufferViewInterleaved pos," + nm, true, func(d *gltf.Document) error {
				_, err := modeler.WriteBufferViewInterleaved(d, [][3]float32{{1, 2, 3}}, v)
				return err
			}})
		if i > 0 && i != 14 && i != 16 { // those have no data
			for _, a := range []string{gltf.POSITION, gltf.COLOR_0, "_X"} {
				a := a
				out = append(out, badCall{"WritePrimitiveAttributes " + a + nm, true, func(d *gltf.Document) error {
					_, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: [][3]float32{{1, 2, 3}}}, modeler.PrimitiveAttribute{Name: a, Data: v})
					return err
				}})
			}
		}
	}
	for _, v := range append(odd, typed...) {
		v := v
		nm := fmt.Sprintf("(%T)", v)
		out = append(out, badCall{"WriteTextureCoord" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteTextureCoord(d, v) })},
			badCall{"WriteWeights" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteWeights(d, v) })},
			badCall{"WriteJoints" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteJoints(d, v) })},
			badCall{"WriteColor" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteColor(d, v) })},
			badCall{"WriteIndices" + nm, true, noErr(func(d *gltf.Document) { modeler.WriteIndices(d, v) })})
	}
	pos := func(n int) [][3]float32 { return mkSlice(gltf.ComponentFloat, gltf.AccessorVec3, n, 1).([][3]float32) }
	// attributes of the wrong type or length: an error, not a panic
	wrong := map[string][]any{
		gltf.POSITION:   {[][4]float32{{1}}, [][3]uint16{{1}}, []float32{1}},
		gltf.TEXCOORD_0: {[][3]float32{{1}}, [][2]int8{{1}}, [][2]uint32{{1}}},
		gltf.TEXCOORD_1: {[][3]float32{{1}}, []uint8{1}},
		gltf.WEIGHTS_0:  {[][3]float32{{1}}, [][4]int16{{1}}},
		gltf.JOINTS_0:   {[][4]float32{{1}}, [][4]uint32{{1}}, [][3]uint8{{1}}},
		gltf.COLOR_0:    {[][2]float32{{1}}, []uint8{1}, [][4]int8{{1}}},
	}
	for _, name := range sortedKeys(wrong) {
		for _, v := range wrong[name] {
			name, v := name, v
			for order := 0; order < 2; order++ {
				order := order
				out = append(out, badCall{fmt.Sprintf("WritePrimitiveAttributes %s(%T)/%d", name, v, order), false, func(d *gltf.Document) error {
					as := []modeler.PrimitiveAttribute{{Name: name, Data: v}, {Name: "_Y", Data: [][4]uint8{{1, 2, 3, 4}}}}
					if order == 1 {
						as[0], as[1] = as[1], as[0]
					}
					_, err := modeler.WritePrimitiveAttributes(d, as...)
					return err
				}})
			}
		}
	}
	out = append(out, badCall{"WritePrimitiveAttributes lengths", false, func(d *gltf.Document) error {
		_, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: pos(3)}, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: pos(2)})
		return err
	}}, badCall{"WritePrimitiveAttributes lengths after empty", false, func(d *gltf.Document) error {
		_, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.TANGENT}, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: pos(1)},
			modeler.PrimitiveAttribute{Name: gltf.COLOR_0, Data: [][4]uint8{{1}, {2}}})
		return err
	}})
	return out
}

var theBadCalls = badCalls()

// after a rejected call, a valid write must work as if it had not happened
func rejectedWrites(x *X) {
	m := newModel(startDoc(x.All("start", numStarts)))
	pre := []int{-1, 19, 0}
	if x.Thorough {
		pre = append(pre, 2, 5, 20, 25, 33)
	}
	if k := pre[x.All("before", len(pre))]; k >= 0 {
		m.apply(x, writeOps[k])
	}
	b := theBadCalls[x.All("call", len(theBadCalls))]
	rejected(x, m, b.name, b.mayPanic, b.call)
	x.State(fmt.Sprint(b.name, hashDoc(m.doc)))
	if k := []int{-1, 5, 32}[x.All("after", 3)]; k >= 0 {
		m.apply(x, writeOps[k])
	}
}

// rejectedLengths interleaves slices of all small length combinations.
func rejectedLengths(x *X) {
	k := x.All("slices", 3) + 2
	var data []any
	ref, differ := -1, false
	for i := 0; i < k; i++ {
		n := x.All("len", 4)
		if ref >= 0 && n != ref {
			differ = true
		}
		if ref < 0 {
			ref = n
		}
		data = append(data, mkSlice(gltf.ComponentFloat, []gltf.AccessorType{gltf.AccessorVec3, gltf.AccessorVec4}[i%2], n, i))
	}
	if !differ {
		return
	}
	m := newModel(startDoc(x.All("start", numStarts)))
	which := x.All("fn", 3)
	rejected(x, m, fmt.Sprintf("interleaving %d slices with function %d", k, which), false, func(d *gltf.Document) error {
		var err error
		switch which {
		case 0:
			_, err = modeler.WriteAccessorsInterleaved(d, data...)
		case 1:
			_, err = modeler.WriteBufferViewInterleaved(d, data...)
		case 2:
			// empty attributes are left out, so they only count when they have data
			var as []modeler.PrimitiveAttribute
			lens := map[int]bool{}
			for i, v := range data {
				n := reflect.ValueOf(v).Len()
				if n > 0 {
					lens[n] = true
				}
				as = append(as, modeler.PrimitiveAttribute{Name: fmt.Sprintf("_A%d", i), Data: v})
			}
			if len(lens) < 2 {
				return errors.New("not a rejected call")
			}
			_, err = modeler.WritePrimitiveAttributes(d, as...)
		}
		return err
	})
	x.State(fmt.Sprint(k, which, hashDoc(m.doc)))
	m.apply(x, writeOps[5])
}

type failReader struct {
	b    []byte
	step int
	with bool // last data together with the error
	err  error
}

func (f *failReader) Read(p []byte) (int, error) {
	n := min(f.step, len(f.b), len(p))
	copy(p, f.b[:n])
	f.b = f.b[n:]
	if n == 0 || (f.with && len(f.b) == 0) {
		return n, f.err
	}
	return n, nil
}

func rejectedReaders(x *X) {
	m := newModel(startDoc(x.All("start", numStarts)))
	if x.All("before", 2) == 1 {
		m.apply(x, writeOps[20])
	}
	n := []int{0, 1, 3, 4, 511, 512, 513, 600}[x.All("bytes", 8)]
	step := []int{1, 3, 1000}[x.All("step", 3)]
	with := x.All("with", 2) == 1
	kind := x.All("error", faultErrorsRead)
	rejected(x, m, fmt.Sprintf("WriteImage failing after %d bytes", n), false, func(d *gltf.Document) error {
		_, err := modeler.WriteImage(d, "n", "image/png", &failReader{b: bufData(n, 1), step: step, with: with, err: faultErrors[kind]})
		return err
	})
	x.State(fmt.Sprint(n, step, with, kind, hashDoc(m.doc)))
	m.apply(x, writeOps[[]int{5, 19}[x.All("after", 2)]])
}

// ---- C24 ----

// store keeps the files of a history.
type store struct {
	mem *memFS
	dir string
}

func (s *store) read(name string) ([]byte, bool) {
	if s.mem != nil {
		b, ok := s.mem.files[name]
		return b, ok
	}
	b, err := os.ReadFile(filepath.Join(s.dir, name))
	return b, err == nil
}

func (s *store) save(doc *gltf.Document, name string, bin bool) error {
	if s.mem == nil {
		if bin {
			return gltf.SaveBinary(doc, filepath.Join(s.dir, name))
		}
		return gltf.Save(doc, filepath.Join(s.dir, name))
	}
	var b bytes.Buffer
	e := gltf.NewEncoderFS(&b, s.mem)
	e.AsBinary = bin
	err := e.Encode(doc)
	s.mem.files[name] = b.Bytes()
	return err
}

func (s *store) load(name string) (*gltf.Document, error) {
	if s.mem == nil {
		return gltf.Open(filepath.Join(s.dir, name))
	}
	b, ok := s.mem.files[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	doc := new(gltf.Document)
	err := gltf.NewDecoderFS(bytes.NewReader(b), s.mem).Decode(doc)
	return doc, err
}

func (s *store) sum() string {
	var names []string
	if s.mem != nil {
		names = sortedKeys(s.mem.files)
	} else {
		es, _ := os.ReadDir(s.dir)
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
	}
	h := ""
	for _, n := range names {
		b, _ := s.read(n)
		h += fmt.Sprint(n, hashBytes(b), " ")
	}
	return h
}

// placements of the buffers of a document about to be saved
var placements = []string{"", "inline", "a.bin", "b%20c.bin"}

func place(doc *gltf.Document, p int) {
	for i, b := range doc.Buffers {
		switch {
		case placements[p] == "":
			b.URI = ""
		case placements[p] == "inline":
			b.EmbeddedResource()
		default:
			b.URI = fmt.Sprintf("%d%s", i, placements[p])
		}
	}
}

// checkSaved checks the files written for doc.
func checkSaved(x *X, s *store, doc *gltf.Document, name string, bin bool, p int) {
	raw, ok := s.read(name)
	if !ok {
		x.Fail("missing", "saving did not create %s", name)
	}
	js := raw
	binChunk := false
	if bin {
		g, err := parseGLB(raw)
		if err != nil {
			x.Fail("file", "saved %s is not a GLB of exactly its length: %v", name, err)
		}
		js = g.json
		binChunk = g.hasBin
	}
	var tree struct {
		Buffers []struct {
			URI        string
			ByteLength int
		}
	}
	if err := json.Unmarshal(js, &tree); err != nil {
		x.Fail("file", "saved %s is not one JSON text: %v", name, err)
	}
	if len(tree.Buffers) != len(doc.Buffers) {
		x.Fail("file", "%s has %d buffers, the document %d", name, len(tree.Buffers), len(doc.Buffers))
	}
	for i, b := range doc.Buffers {
		if len(b.Data) == 0 {
			continue
		}
		if bin && i == 0 && b.URI == "" {
			if !binChunk {
				x.Fail("file", "%s has no BIN chunk", name)
			}
			continue
		}
		if placements[p] != "" && placements[p] != "inline" {
			fn := fmt.Sprintf("%d%s", i, placements[p])
			fn = string(bytes.ReplaceAll([]byte(fn), []byte("%20"), []byte(" ")))
			d, ok := s.read(fn)
			if !ok || !bytes.Equal(d, b.Data) {
				x.Fail("file", "external buffer file %q has %d bytes (exists: %v), buffer has %d", fn, len(d), ok, len(b.Data))
			}
		}
	}
}

type cycleOp struct {
	kind string
	a, b int
}

func cycleOps(thorough bool) []cycleOp {
	ops := []cycleOp{{"write", 0, 0}, {"write", 19, 0}, {"write", 32, 0}, {"modify", 0, 0}, {"fresh", 0, 0}, {"load", 0, 0}}
	for form := 0; form < 2; form++ {
		for p := range placements {
			ops = append(ops, cycleOp{"save", form, p})
		}
	}
	if thorough {
		ops = append(ops, cycleOp{"newbuffer", 0, 0}, cycleOp{"write", 8, 0}, cycleOp{"keep", 0, 0}, cycleOp{"keep", 1, 0})
	} else {
		ops = append(ops, cycleOp{"newbuffer", 0, 0}, cycleOp{"keep", 0, 0}, cycleOp{"keep", 1, 0})
	}
	return ops
}

// runCycle explores histories of writing, saving and loading.
func runCycle(x *X, files bool) {
	s := &store{mem: newMemFS()}
	depth := 4
	if files {
		dir := scratch(x)
		defer os.RemoveAll(dir)
		s = &store{dir: dir}
	}
	if x.Thorough {
		depth++
	}
	m := newModel(gltf.NewDocument())
	m.apply(x, writeOps[5]) // a position accessor to begin with
	if files {
		m.apply(x, writeOps[0]) // larger than a fresh document
	}
	ops := cycleOps(x.Thorough)
	// what the files hold: a copy of the model at the last save of each name
	saved := map[string]*wmodel{}
	last := ""
	extFiles := map[string]string{} // external file -> document that wrote it last
	for step := 0; step < depth; step++ {
		op := ops[x.All("op", len(ops))]
		x.Log("%+v", op)
		switch op.kind {
		case "write":
			m.apply(x, writeOps[op.a])
		case "modify":
			// the caller changes bytes of the buffer in place
			w := m.accs[0]
			v := m.doc.BufferViews[*m.doc.Accessors[w.acc].BufferView]
			if v.ByteStride == 0 || v.ByteStride == refElemSize(w.c, w.t) {
				m.doc.Buffers[v.Buffer].Data[v.ByteOffset+m.doc.Accessors[w.acc].ByteOffset] ^= 0x15
				w2 := *w
				w2.m = append([]byte{}, w.m...)
				w2.m[0] ^= 0x15
				m.accs[0] = &w2
				if w2.t != gltf.AccessorVec3 {
					panic(divergence{"modify expects the first accessor to be the position"})
				}
			}
		case "newbuffer":
			m.doc.Buffers = append(m.doc.Buffers, &gltf.Buffer{})
			m.apply(x, writeOps[2])
		case "fresh":
			// a smaller document
			m = newModel(gltf.NewDocument())
			m.apply(x, writeOps[5])
		case "save", "keep":
			bin := op.a == 1
			name := []string{"m.gltf", "m.glb"}[op.a]
			p := op.b
			if op.kind == "save" {
				place(m.doc, p)
			} else {
				// as loaded, whatever the URIs are
				p = -1
			}
			before := cloneDoc(m.doc)
			if err := s.save(m.doc, name, bin); err != nil {
				x.Fail("save", "saving %s (%+v): %v", name, op, err)
			}
			if d := diffDoc(m.doc, before); d != "" {
				x.Fail("modified", "saving changed the document: %s", d)
			}
			if p >= 0 {
				checkSaved(x, s, m.doc, name, bin, p)
			}
			c := *m
			c.accs = append([]*written{}, m.accs...)
			c.images = append([]*wimage{}, m.images...)
			saved[name] = &c
			last = name
			// files of other documents that were overwritten
			for i, b := range m.doc.Buffers {
				if b.URI != "" && !b.IsEmbeddedResource() {
					extFiles[fmt.Sprint(i, b.URI)] = name
				}
			}
			for n, o := range saved {
				if n == name {
					continue
				}
				for i, b := range o.doc.Buffers {
					if b.URI != "" && !b.IsEmbeddedResource() && extFiles[fmt.Sprint(i, b.URI)] == name {
						delete(saved, n)
						break
					}
				}
			}
			reload(x, s, saved[name], name)
		case "load":
			if last == "" || saved[last] == nil {
				return
			}
			m = reload(x, s, saved[last], last)
		}
		x.State(fmt.Sprint(hashDoc(m.doc), len(m.accs), len(m.images), s.sum()))
	}
}

// reload opens a saved document and compares it with the model at the time of saving.
func reload(x *X, s *store, at *wmodel, name string) *wmodel {
	doc, err := s.load(name)
	if err != nil {
		x.Fail("load", "loading %s: %v", name, err)
	}
	m := *at
	m.doc = doc
	m.accs = append([]*written{}, at.accs...)
	m.images = append([]*wimage{}, at.images...)
	m.content(x, "loading "+name)
	if len(doc.Accessors) != len(at.accs) || len(doc.Images) != len(at.images) {
		x.Fail("stale", "%s has %d accessors and %d images, saved were %d and %d", name, len(doc.Accessors), len(doc.Images), len(at.accs), len(at.images))
	}
	for i, b := range doc.Buffers {
		if b.ByteLength != len(b.Data) {
			x.Fail("bytelength", "loaded buffer %d of %s has byteLength %d and %d bytes", i, name, b.ByteLength, len(b.Data))
		}
	}
	return &m
}

// formChains converts a document through every chain of container forms and placements.
func formChains(x *X) {
	s := &store{mem: newMemFS()}
	m := newModel(gltf.NewDocument())
	nb := x.All("buffers", 3) + 1
	for i := 0; i < nb; i++ {
		if i > 0 {
			m.doc.Buffers = append(m.doc.Buffers, &gltf.Buffer{})
		}
		m.apply(x, writeOps[5])
		m.apply(x, writeOps[19+i])
	}
	n := 3
	if x.Thorough {
		n = 4
	}
	for i := 0; i < n; i++ {
		bin := x.All("glb", 2)
		p := x.All("place", len(placements)+2)
		switch {
		case p < len(placements):
			place(m.doc, p)
		case p == len(placements):
			// mixed: first inline, others external
			for j, b := range m.doc.Buffers {
				b.EmbeddedResource()
				if j > 0 {
					b.URI = fmt.Sprintf("x%d.bin", j)
				}
			}
		default:
			for j, b := range m.doc.Buffers {
				b.URI = ""
				if j%2 == 1 {
					b.URI = fmt.Sprintf("sub-%d.bin", j)
				}
			}
		}
		name := fmt.Sprint("m", bin)
		if err := s.save(m.doc, name, bin == 1); err != nil {
			x.Fail("save", "saving: %v", err)
		}
		m = reload(x, s, m, name)
		m.apply(x, writeOps[[]int{0, 20}[x.All("write", 2)]])
		x.State(fmt.Sprint(hashDoc(m.doc), s.sum()))
	}
}
