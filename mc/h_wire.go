package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"path"
	"reflect"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// C30: files are understood by, and understood from, other glTF software. This
// file has a reader and a writer of glTF files of its own, which use neither the
// library's types nor its rules.

func init() {
	register(&Property{
		ID: "C30", Level: "model_checking",
		Rule:        "an execution is a history of modeler writes followed by a save, whose files are then read by an independent glTF reader (or: files written by an independent glTF writer, which are then opened and read by the library); a state is the set of files",
		Assumptions: []string{"data slices are not empty", "elements whose size is not a multiple of 4 are written as vertex attributes or alone in their view", "buffers have byteLength equal to their data"},
		Harnesses: []Harness{
			{Name: "single", Run: func(x *X) { wireWrites(x, x.All("start", numStarts), 1, nil) }},
			{Name: "history", Run: func(x *X) {
				d := 3
				if x.Thorough {
					d = 4
				}
				wireWrites(x, []int{0, 1, 4}[x.All("start", 3)], d, []int{0, 1, 4, 5, 7, 8, 11, 12, 13, 15, 19, 20, 24, 28, 29, 31, 32, 33})
			}},
			{Name: "formats", Run: wireFormats},
			{Name: "attributes", Run: wireAttributes},
			{Name: "attribute-sets", Run: wireAttributeSets},
			{Name: "twins", Run: wireTwins},
			{Name: "resaved", Run: wireResaved},
			{Name: "reads", Run: wireReads},
			{Name: "read-typed", Run: wireReadTyped},
			{Name: "read-images", Run: wireReadImages},
		},
	})
}

// ---- the independent reader ----

type wire struct {
	root map[string]any
	bufs [][]byte
}

type wireErr struct{ msg string }

func wireFail(f string, a ...any) { panic(wireErr{fmt.Sprintf(f, a...)}) }

func readWire(s *store, name string, bin bool) (w *wire, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(wireErr); ok {
				err = fmt.Errorf("%s: %s", name, e.msg)
				return
			}
			panic(r)
		}
	}()
	raw, ok := s.read(name)
	if !ok {
		wireFail("does not exist")
	}
	var chunk []byte
	hasBin := false
	js := raw
	if bin {
		g, err := parseGLB(raw)
		if err != nil {
			wireFail("%v", err)
		}
		js, chunk, hasBin = g.json, g.bin, g.hasBin
	}
	w = &wire{}
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	if err := d.Decode(&w.root); err != nil {
		wireFail("%v", err)
	}
	if as, ok := w.root["asset"].(map[string]any); !ok || as["version"] != "2.0" {
		wireFail("asset is %v", w.root["asset"])
	}
	for i, b := range w.list("buffers") {
		n := wireInt(b, "byteLength", -1)
		if n < 1 && i < 0 {
			wireFail("buffer %d has byteLength %d", i, n)
		}
		uri, has := b["uri"].(string)
		var data []byte
		switch {
		case !has && i == 0 && bin && hasBin:
			data = chunk
			if len(data) > n+3 {
				wireFail("BIN chunk of %d bytes for a buffer of %d", len(data), n)
			}
		case !has:
			if n > 0 {
				wireFail("buffer %d of %d bytes has neither uri nor BIN chunk", i, n)
			}
		case strings.HasPrefix(uri, "data:"):
			k := strings.Index(uri, ",")
			if k < 0 || !strings.HasSuffix(uri[:k], ";base64") {
				wireFail("buffer %d has data URI %.30q", i, uri)
			}
			if mt := uri[5 : k-7]; mt != "application/octet-stream" && mt != "application/gltf-buffer" {
				wireFail("buffer %d has media type %q", i, mt)
			}
			data, err = base64.StdEncoding.DecodeString(uri[k+1:])
			if err != nil {
				wireFail("buffer %d: %v", i, err)
			}
		default:
			f, err := url.PathUnescape(uri)
			if err != nil {
				wireFail("buffer %d: %v", i, err)
			}
			data, ok = s.read(path.Clean(f))
			if !ok {
				wireFail("buffer %d: there is no file %q", i, f)
			}
		}
		if len(data) < n {
			wireFail("buffer %d has %d bytes, byteLength is %d", i, len(data), n)
		}
		w.bufs = append(w.bufs, data[:max(n, 0)])
	}
	return w, nil
}

func (w *wire) list(key string) []map[string]any {
	v, ok := w.root[key]
	if !ok {
		return nil
	}
	l, ok := v.([]any)
	if !ok || len(l) == 0 {
		wireFail("%s is %T, empty lists must be left out", key, v)
	}
	var out []map[string]any
	for i, e := range l {
		m, ok := e.(map[string]any)
		if !ok {
			wireFail("%s[%d] is %v", key, i, e)
		}
		out = append(out, m)
	}
	return out
}

func wireInt(m map[string]any, key string, def int) int {
	v, ok := m[key]
	if !ok {
		return def
	}
	n, ok := v.(json.Number)
	if !ok {
		wireFail("%s is %v", key, v)
	}
	i, err := strconv.Atoi(string(n))
	if err != nil {
		wireFail("%s is not an integer: %v", key, n)
	}
	return i
}

func wireFloats(m map[string]any, key string) []float64 {
	v, ok := m[key].([]any)
	if !ok {
		return nil
	}
	var out []float64
	for _, e := range v {
		n, ok := e.(json.Number)
		if !ok {
			wireFail("%s contains %v", key, e)
		}
		f, err := n.Float64()
		if err != nil {
			wireFail("%s contains %v", key, e)
		}
		out = append(out, f)
	}
	return out
}

var wireComps = map[int]struct {
	c    gltf.ComponentType
	size int
}{5120: {gltf.ComponentByte, 1}, 5121: {gltf.ComponentUbyte, 1}, 5122: {gltf.ComponentShort, 2}, 5123: {gltf.ComponentUshort, 2}, 5125: {gltf.ComponentUint, 4}, 5126: {gltf.ComponentFloat, 4}}

var wireTypes = map[string]struct {
	t          gltf.AccessorType
	rows, cols int
}{"SCALAR": {gltf.AccessorScalar, 1, 1}, "VEC2": {gltf.AccessorVec2, 2, 1}, "VEC3": {gltf.AccessorVec3, 3, 1}, "VEC4": {gltf.AccessorVec4, 4, 1},
	"MAT2": {gltf.AccessorMat2, 2, 2}, "MAT3": {gltf.AccessorMat3, 3, 3}, "MAT4": {gltf.AccessorMat4, 4, 4}}

// wireElem returns the distance of columns and the size of elements.
func wireElem(rows, cols, cs int) (col, size int) {
	col = rows * cs
	if cols > 1 {
		col = ceil4(col)
	}
	return col, col * cols
}

func (w *wire) view(i int) (m map[string]any, data []byte) {
	vs := w.list("bufferViews")
	if i < 0 || i >= len(vs) {
		wireFail("buffer view %d of %d", i, len(vs))
	}
	v := vs[i]
	b := wireInt(v, "buffer", -1)
	if b < 0 || b >= len(w.bufs) {
		wireFail("view %d is in buffer %d of %d", i, b, len(w.bufs))
	}
	off, n := wireInt(v, "byteOffset", 0), wireInt(v, "byteLength", -1)
	if off < 0 || n < 1 || off+n > len(w.bufs[b]) {
		wireFail("view %d is at %d+%d of %d bytes", i, off, n, len(w.bufs[b]))
	}
	if st, ok := v["byteStride"]; ok {
		if k := wireInt(v, "byteStride", 0); k < 4 || k > 252 || k%4 != 0 {
			wireFail("view %d has byteStride %v", i, st)
		}
		if wireInt(v, "target", 34962) != 34962 {
			wireFail("view %d has byteStride and target %v", i, v["target"])
		}
	}
	if t := wireInt(v, "target", 34962); t != 34962 && t != 34963 {
		wireFail("view %d has target %d", i, t)
	}
	return v, w.bufs[b][off : off+n]
}

// accessor reads an accessor. attr: it must be usable as vertex attribute.
func (w *wire) accessor(i int, strict bool) (a map[string]any, v *refVal, vi int) {
	as := w.list("accessors")
	if i < 0 || i >= len(as) {
		wireFail("accessor %d of %d", i, len(as))
	}
	a = as[i]
	co, ok := wireComps[wireInt(a, "componentType", -1)]
	if !ok {
		wireFail("accessor %d has componentType %v", i, a["componentType"])
	}
	ts, _ := a["type"].(string)
	ty, ok := wireTypes[ts]
	if !ok {
		wireFail("accessor %d has type %v", i, a["type"])
	}
	n := wireInt(a, "count", -1)
	if n < 1 {
		wireFail("accessor %d has count %v", i, a["count"])
	}
	vi = wireInt(a, "bufferView", -1)
	off := wireInt(a, "byteOffset", 0)
	view, data := w.view(vi)
	col, size := wireElem(ty.rows, ty.cols, co.size)
	stride := wireInt(view, "byteStride", size)
	if off+stride*(n-1)+size > len(data) {
		wireFail("accessor %d needs %d+%d*%d+%d bytes of a view of %d", i, off, stride, n-1, size, len(data))
	}
	start := wireInt(view, "byteOffset", 0) + off
	if off%co.size != 0 || start%co.size != 0 {
		wireFail("accessor %d starts at %d in its view and %d in its buffer", i, off, start)
	}
	if strict {
		switch wireInt(view, "target", 0) {
		case 34962:
			if off%4 != 0 || start%4 != 0 || stride%4 != 0 && n > 1 {
				wireFail("vertex attribute accessor %d starts at %d in its view and %d in its buffer with stride %d", i, off, start, stride)
			}
		case 34963:
			if ts != "SCALAR" || co.c != gltf.ComponentUbyte && co.c != gltf.ComponentUshort && co.c != gltf.ComponentUint {
				wireFail("index accessor %d holds %v %v", i, ts, co.c)
			}
		}
		if norm, _ := a["normalized"].(bool); norm && (co.size == 4) {
			wireFail("accessor %d of component type %v is normalized", i, co.c)
		}
		shared := 0
		for _, o := range as {
			if wireInt(o, "bufferView", -1) == vi {
				shared++
			}
		}
		if _, ok := view["byteStride"]; shared > 1 && !ok {
			wireFail("view %d is used by %d accessors and has no byteStride", vi, shared)
		}
		for _, k := range []string{"min", "max"} {
			if f, ok := a[k].([]any); ok && len(f) != ty.rows*ty.cols {
				wireFail("accessor %d has %d entries in %s", i, len(f), k)
			}
		}
	}
	v = &refVal{c: co.c, t: ty.t, n: n}
	for e := 0; e < n; e++ {
		el := data[off+e*stride:]
		for r := 0; r < ty.rows; r++ {
			for c := 0; c < ty.cols; c++ {
				v.m = append(v.m, el[c*col+r*co.size:c*col+(r+1)*co.size]...)
			}
		}
	}
	return
}

// wireCheck reads everything the model says was written out of the saved files.
func wireCheck(x *X, s *store, m *wmodel, name string, bin bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(wireErr); ok {
				x.Fail("invalid", "%s: %s", name, e.msg)
			}
			panic(r)
		}
	}()
	w, err := readWire(s, name, bin)
	if err != nil {
		x.Fail("unreadable", "%v", err)
	}
	for i := range w.list("bufferViews") {
		w.view(i)
	}
	for i, wr := range m.accs {
		a, v, _ := w.accessor(wr.acc, true)
		if v.c != wr.c || v.t != wr.t || v.n != wr.n {
			x.Fail("format", "accessor %d is stored as %v %v x%d, written were %v %v x%d", wr.acc, v.c, v.t, v.n, wr.c, wr.t, wr.n)
		}
		if !bytes.Equal(v.m, wr.m) {
			if wr.padded {
				if r, err := refRead(m.doc, m.doc.Accessors[wr.acc]); err == nil && bytes.Equal(r.m, wr.m) {
					x.Fail("padded-without-stride", "accessor %d is % x in the file, written were % x", wr.acc, v.m, wr.m)
				}
			}
			x.Fail("content", "accessor %d (write %d) is % x in the file, written were % x", wr.acc, i, v.m, wr.m)
		}
		if norm, _ := a["normalized"].(bool); !wr.anyN && norm != wr.norm {
			x.Fail("normalized", "accessor %d: normalized is %v", wr.acc, a["normalized"])
		}
		if wr.min != nil {
			if lo, hi := wireFloats(a, "min"), wireFloats(a, "max"); !reflect.DeepEqual(lo, wr.min) || !reflect.DeepEqual(hi, wr.max) {
				x.Fail("minmax", "positions %d have min %v and max %v, want %v and %v", wr.acc, a["min"], a["max"], wr.min, wr.max)
			}
		}
	}
	ims := w.list("images")
	for _, wi := range m.images {
		if wi.img >= len(ims) {
			x.Fail("image", "image %d of %d", wi.img, len(ims))
		}
		im := ims[wi.img]
		if _, ok := im["uri"]; ok || im["mimeType"] != wi.mime || im["name"] != wi.name {
			x.Fail("image", "image %d is %v", wi.img, im)
		}
		v, d := w.view(wireInt(im, "bufferView", -1))
		if _, ok := v["byteStride"]; ok || v["target"] != nil {
			x.Fail("image", "the view of image %d has a stride or target", wi.img)
		}
		if !bytes.Equal(d, wi.data) {
			x.Fail("content", "image %d is % x in the file, written were % x", wi.img, d, wi.data)
		}
	}
	for _, r := range m.raws {
		if _, d := w.view(r.view); !bytes.Equal(d, r.data) {
			x.Fail("content", "view %d is % x in the file, written were % x", r.view, d, r.data)
		}
	}
}

var wireForms = []struct {
	bin   bool
	place int
}{{false, 1}, {false, 0}, {false, 2}, {false, 3}, {true, 0}, {true, 1}, {true, 2}}

func wireSave(x *X, m *wmodel) *store {
	s := &store{mem: newMemFS()}
	f := wireForms[x.All("form", len(wireForms))]
	wireSaveAs(x, s, m, "doc", f.bin, f.place)
	return s
}

func wireSaveAs(x *X, s *store, m *wmodel, name string, bin bool, p int) {
	for _, b := range m.doc.Buffers {
		if len(b.Data) == 0 {
			return // buffers without content are not valid glTF
		}
	}
	place(m.doc, p)
	if err := s.save(m.doc, name, bin); err != nil {
		x.Fail("save", "saving: %v", err)
	}
	wireCheck(x, s, m, name, bin)
	x.State(s.sum())
}

// wireModel forgets what the start document held: it is not the modeler's work.
func wireModel(k int) *wmodel {
	m := newModel(startDoc(k))
	m.accs = nil
	return m
}

// wireApply runs an operation. Raw views with content the operation does not
// promise to be usable are not accessors, so nothing else is to be done for them.
func wireApply(x *X, m *wmodel, op wop) {
	x.Log("%s", op.name)
	accs, imgs, raws := op.run(x, m.doc)
	m.accs, m.images, m.raws = append(m.accs, accs...), append(m.images, imgs...), append(m.raws, raws...)
}

func wireWrites(x *X, start, depth int, sel []int) {
	m := wireModel(start)
	for i := 0; i < depth; i++ {
		n := len(writeOps)
		if sel != nil {
			n = len(sel)
		}
		k := x.All("op", n)
		if sel != nil {
			k = sel[k]
		}
		wireApply(x, m, writeOps[k])
	}
	wireSave(x, m)
}

// wireFormats writes every format that may stand in a view of each target.
func wireFormats(x *X) {
	c, t := allComps[x.All("comp", 6)], allTypes[x.All("type", 7)]
	tg := []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[x.All("target", 3)]
	n := x.All("count", 4) + 1
	padded := false
	r, nc := dims(t)
	_, size := wireElem(r, nc, compSize(c))
	switch tg {
	case gltf.TargetNone:
		padded = size != refElemSize(c, t) && n > 1
	case gltf.TargetElementArrayBuffer:
		if t != gltf.AccessorScalar || c != gltf.ComponentUbyte && c != gltf.ComponentUshort && c != gltf.ComponentUint {
			return
		}
	default:
		if size%4 != 0 && t == gltf.AccessorScalar {
			return
		}
	}
	m := wireModel([]int{0, 1, 3, 5}[x.All("start", 4)])
	wireApply(x, m, simple("WriteAccessor", c, t, func() any { return mkSlice(c, t, n, 1) }, false, []gltf.Target{tg}, func(d *gltf.Document, v any) int { return modeler.WriteAccessor(d, tg, v) }))
	if padded {
		// known: the elements are padded although the view says nothing of it
		m.accs[0].padded = true
	}
	wireApply(x, m, writeOps[[]int{0, 5, 19}[x.All("then", 3)]])
	wireSave(x, m)
}

// wireAttributes writes vertex attributes of a primitive together.
func wireAttributes(x *X) {
	names := []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.COLOR_0, gltf.JOINTS_0, gltf.WEIGHTS_0, "_CUSTOM"}
	alts := map[string][][2]int{gltf.TEXCOORD_0: {{1, 1}, {3, 1}, {5, 1}}, gltf.COLOR_0: {{1, 2}, {1, 3}, {3, 2}, {3, 3}, {5, 2}, {5, 3}},
		gltf.JOINTS_0: {{1, 3}, {3, 3}}, gltf.WEIGHTS_0: {{1, 3}, {3, 3}, {5, 3}}, "_CUSTOM": {{5, 0}, {0, 1}, {2, 2}, {2, 3}}}
	n := []int{1, 2, 5}[x.All("count", 3)]
	var as []attrData
	last := -1
	for i, k := 0, x.All("len", 4)+1; i < k; i++ {
		if last+1 >= len(names) {
			return
		}
		last += 1 + x.All("name", len(names)-last-1)
		nm := names[last]
		f := attrFormats[nm]
		if al := alts[nm]; al != nil {
			f = al[x.All("format", len(al))]
		}
		as = append(as, attrData{nm, mkSlice(allComps[f[0]], allTypes[f[1]], n, 50+i)})
	}
	if x.All("reverse", 2) == 1 {
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	}
	m := wireModel([]int{1, 3}[x.All("start", 2)])
	wireApply(x, m, wop{"WritePrimitiveAttributes", func(x *X, doc *gltf.Document) ([]*written, []*wimage, []*wraw) {
		return writeAttrs(x, doc, as), nil, nil
	}})
	s := &store{mem: newMemFS()}
	wireSaveAs(x, s, m, "doc", x.All("binary", 2) == 1, 0)
}

// wireAttributeSets writes every set of attributes.
func wireAttributeSets(x *X) {
	m := wireModel(1)
	wireApply(x, m, attributeSet(x))
	s := &store{mem: newMemFS()}
	wireSaveAs(x, s, m, "doc", x.All("binary", 2) == 1, 0)
}

// wireTwins calls one writing function with similar data of many sizes.
func wireTwins(x *X) {
	_, mk, op := makerOf(x)
	n := []int{1, 4, 9, 257}[x.All("count", 4)]
	m := wireModel([]int{1, 3}[x.All("start", 2)])
	for i := 0; i < 3; i++ {
		d := mk(n, 60)
		if i > 0 {
			b := mem(d)
			switch x.All("differs", 4) {
			case 1:
				b[0] ^= byte(i)
			case 2:
				b[(len(b)-1)&^3] ^= byte(i)
			case 3:
				d = mk(n+i, 60)
			}
		}
		wireApply(x, m, op(d))
	}
	f := wireForms[x.All("form", len(wireForms))]
	wireSaveAs(x, &store{mem: newMemFS()}, m, "doc", f.bin, f.place)
}

// wireResaved loads what was saved, writes more and saves again.
func wireResaved(x *X) {
	ops := []int{0, 1, 5, 8, 13, 19, 20, 32, 33}
	s := &store{mem: newMemFS()}
	m := wireModel([]int{0, 3}[x.All("start", 2)])
	n := 2
	if x.Thorough {
		n = 3
	}
	for i := 0; i < n; i++ {
		wireApply(x, m, writeOps[ops[x.All("op", len(ops))]])
		f := wireForms[x.All("form", len(wireForms))]
		name := fmt.Sprint("doc", x.All("name", i+1))
		wireSaveAs(x, s, m, name, f.bin, f.place)
		doc, err := s.load(name)
		if err != nil {
			x.Fail("load", "loading %s: %v", name, err)
		}
		m.doc = doc
	}
}

// ---- the independent writer ----

// wout builds the text of a document.
type wout struct {
	buf   [][]byte
	views []string
	accs  []string
	imgs  []string
	files map[string][]byte
}

func (o *wout) addView(b int, lead int, data []byte, stride, target int) int {
	for len(o.buf) <= b {
		o.buf = append(o.buf, bufData(5, 9+len(o.buf)))
	}
	for len(o.buf[b])%4 != 0 || lead > 0 {
		o.buf[b] = append(o.buf[b], 0xee)
		if len(o.buf[b])%4 == 0 {
			lead -= 4
		}
	}
	off := len(o.buf[b])
	o.buf[b] = append(o.buf[b], data...)
	s := fmt.Sprintf(`{"byteLength":%d,"byteOffset":%d,"buffer":%d`, len(data), off, b)
	if stride > 0 {
		s += fmt.Sprintf(`,"byteStride":%d`, stride)
	}
	if target > 0 {
		s += fmt.Sprintf(`,"target":%d`, target)
	}
	o.views = append(o.views, s+"}")
	return len(o.views) - 1
}

var wireCodes = map[gltf.ComponentType]int{gltf.ComponentByte: 5120, gltf.ComponentUbyte: 5121, gltf.ComponentShort: 5122, gltf.ComponentUshort: 5123, gltf.ComponentUint: 5125, gltf.ComponentFloat: 5126}
var wireNames = map[gltf.AccessorType]string{gltf.AccessorScalar: "SCALAR", gltf.AccessorVec2: "VEC2", gltf.AccessorVec3: "VEC3", gltf.AccessorVec4: "VEC4", gltf.AccessorMat2: "MAT2", gltf.AccessorMat3: "MAT3", gltf.AccessorMat4: "MAT4"}

// wirePack lays out elements given in Go layout.
func wirePack(m []byte, c gltf.ComponentType, t gltf.AccessorType, off, stride, tail int) []byte {
	r, nc := dims(t)
	cs := compSize(c)
	col, size := wireElem(r, nc, cs)
	if stride == 0 {
		stride = size
	}
	ms := r * nc * cs
	n := len(m) / ms
	out := bytes.Repeat([]byte{0xdd}, off+(n-1)*stride+size+tail)
	for e := 0; e < n; e++ {
		for i := 0; i < r; i++ {
			for j := 0; j < nc; j++ {
				copy(out[off+e*stride+j*col+i*cs:][:cs], m[e*ms+(i*nc+j)*cs:])
			}
		}
	}
	return out
}

// finish puts the text together in the given form and stores it as name.
func (o *wout) finish(s *store, name string, form int, extra string) {
	var bufs []string
	var bin []byte
	for i, b := range o.buf {
		js := fmt.Sprintf(`{"byteLength":%d`, len(b))
		switch {
		case form == 0:
			js += `,"uri":"data:application/octet-stream;base64,` + base64.StdEncoding.EncodeToString(b) + `"`
		case form == 1 || i > 0:
			f := fmt.Sprintf("dir/%d b.bin", i)
			s.mem.files[f] = append(append([]byte{}, b...), "rest"[:i%2*4]...)
			js += fmt.Sprintf(`,"uri":"dir/%d%%20b.bin"`, i)
		default:
			bin = append([]byte{}, b...)
			for len(bin)%4 != 0 {
				bin = append(bin, 0)
			}
		}
		bufs = append(bufs, js+"}")
	}
	js := `{`
	add := func(key string, l []string) {
		if len(l) > 0 {
			js += fmt.Sprintf("%q :\r\n\t[%s] ,", key, strings.Join(l, " , "))
		}
	}
	add("accessors", o.accs)
	add("images", o.imgs)
	add("bufferViews", o.views)
	add("buffers", bufs)
	js += extra + `"asset":{"version":"2.0","generator":"other"}}`
	b := []byte(js)
	if form == 2 {
		b = makeGLB(b, bin, len(o.buf) > 0)
	}
	s.mem.files[name] = b
}

func (o *wout) accessor(view, off int, c gltf.ComponentType, t gltf.AccessorType, n int, norm bool, more string) int {
	a := fmt.Sprintf(`{"type":%q,"count":%d`, wireNames[t], n)
	if view >= 0 {
		a += fmt.Sprintf(`,"bufferView":%d`, view)
	}
	if off > 0 {
		a += fmt.Sprintf(`,"byteOffset":%d`, off)
	}
	if norm {
		a += `,"normalized":true`
	}
	o.accs = append(o.accs, a+fmt.Sprintf(`,"componentType":%d%s}`, wireCodes[c], more))
	return len(o.accs) - 1
}

func wireLoad(x *X, s *store, name string) *gltf.Document {
	doc, err := s.load(name)
	if err != nil {
		x.Fail("load", "a valid file cannot be loaded: %v", err)
	}
	return doc
}

// wireReads opens files with every accessor format and layout.
func wireReads(x *X) {
	c, t := allComps[x.All("comp", 6)], allTypes[x.All("type", 7)]
	r, nc := dims(t)
	cs := compSize(c)
	_, size := wireElem(r, nc, cs)
	n := x.All("count", 3) + 1
	form := x.All("form", 3)
	stride := []int{0, ceil4(size), ceil4(size) + 8}[x.All("stride", 3)]
	off := []int{0, 4, 12}[x.All("offset", 3)]
	o := &wout{}
	b := x.All("buffer", 2)
	m := mem(mkSlice(c, t, n, 1))
	view := o.addView(b, 4*x.All("lead", 2), wirePack(m, c, t, off, stride, 3*x.All("tail", 2)), stride, 0)
	want := &refVal{c, t, n, append([]byte{}, m...)}
	more, subst := "", 0
	if sp := x.All("sparse", 7); sp > 0 {
		// indices of each width; with and without a view below
		ic := []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}[(sp-1)%3]
		k := x.All("substituted", n) + 1
		subst = k
		var idx []byte
		for i := n - k; i < n; i++ {
			idx = append(idx, byte(i))
			idx = append(idx, make([]byte, compSize(ic)-1)...)
		}
		vals := mem(mkSlice(c, t, k, 7))
		if sp > 3 {
			view = -1
			off = 0
			want.m = make([]byte, len(want.m))
		}
		copy(want.m[(n-k)*r*nc*cs:], vals)
		iv := o.addView(0, 0, append(make([]byte, 4), idx...), 0, 0)
		vv := o.addView(1, 0, wirePack(vals, c, t, 8, 0, 0), 0, 0)
		more = fmt.Sprintf(`,"sparse":{"count":%d,"indices":{"componentType":%d,"bufferView":%d,"byteOffset":4},"values":{"byteOffset":8,"bufferView":%d}}`, k, wireCodes[ic], iv, vv)
	}
	i := o.accessor(view, off, c, t, n, false, more)
	s := &store{mem: newMemFS()}
	o.finish(s, "in", form, "")
	doc := wireLoad(x, s, "in")
	x.State(s.sum())
	if len(doc.Accessors) != 1 {
		x.Fail("lost", "%d accessors", len(doc.Accessors))
	}
	got, err := modeler.ReadAccessor(doc, doc.Accessors[i], nil)
	ke, kc := "unreadable", "content"
	if size != refElemSize(c, t) && (stride == 0 && view >= 0 && n > 1 || subst > 1) {
		// known: the library takes such elements to be padded, and says so consistently
		if padded, perr := refRead(doc, doc.Accessors[i]); (perr != nil) == (err != nil) && (err != nil || compareRead("ReadAccessor", got, padded) == "") {
			ke, kc = "padded-without-stride", "padded-without-stride"
		}
	}
	if err != nil {
		x.Fail(ke, "%v %v x%d: %v", c, t, n, err)
	}
	if d := compareRead("ReadAccessor", got, want); d != "" {
		x.Fail(kc, "%v %v x%d: %s", c, t, n, d)
	}
}

// wireReadTyped opens primitives with interleaved attributes in every allowed format.
func wireReadTyped(x *X) {
	F, UB, US, UI := gltf.ComponentFloat, gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint
	type fmtOf struct {
		c gltf.ComponentType
		t gltf.AccessorType
	}
	kinds := []struct {
		fn, sem string
		f       []fmtOf
	}{
		{"ReadPosition", "POSITION", []fmtOf{{F, gltf.AccessorVec3}}},
		{"ReadNormal", "NORMAL", []fmtOf{{F, gltf.AccessorVec3}}},
		{"ReadTangent", "TANGENT", []fmtOf{{F, gltf.AccessorVec4}}},
		{"ReadTextureCoord", "TEXCOORD_0", []fmtOf{{UB, gltf.AccessorVec2}, {US, gltf.AccessorVec2}, {F, gltf.AccessorVec2}}},
		{"ReadWeights", "WEIGHTS_0", []fmtOf{{UB, gltf.AccessorVec4}, {US, gltf.AccessorVec4}, {F, gltf.AccessorVec4}}},
		{"ReadJoints", "JOINTS_0", []fmtOf{{UB, gltf.AccessorVec4}, {US, gltf.AccessorVec4}}},
		{"ReadColor", "COLOR_0", []fmtOf{{UB, gltf.AccessorVec3}, {UB, gltf.AccessorVec4}}},
		{"ReadColor64", "COLOR_0", []fmtOf{{US, gltf.AccessorVec3}, {US, gltf.AccessorVec4}}},
		{"ReadIndices", "", []fmtOf{{UB, gltf.AccessorScalar}, {US, gltf.AccessorScalar}, {UI, gltf.AccessorScalar}}},
		{"ReadInverseBindMatrices", "", []fmtOf{{F, gltf.AccessorMat4}}},
	}
	n := x.All("count", 3) + 1
	form := x.All("form", 3)
	type part struct {
		fn   string
		f    fmtOf
		want *refVal
		acc  int
	}
	var parts []*part
	for i, k := 0, x.All("parts", 3)+1; i < k; i++ {
		kd := kinds[x.All("kind", len(kinds))]
		f := kd.f[x.All("format", len(kd.f))]
		if i > 0 && kd.sem == "" {
			return
		}
		m := append([]byte{}, mem(mkSlice(f.c, f.t, n, 60+i))...)
		parts = append(parts, &part{kd.fn, f, &refVal{f.c, f.t, n, m}, 0})
		if kd.sem == "" && k > 1 {
			return
		}
	}
	o := &wout{}
	if parts[0].fn == "ReadIndices" || parts[0].fn == "ReadInverseBindMatrices" {
		p := parts[0]
		v := o.addView(0, 0, wirePack(p.want.m, p.f.c, p.f.t, 0, 0, 0), 0, 34963*(len(parts[0].fn)&1))
		p.acc = o.accessor(v, 0, p.f.c, p.f.t, n, false, "")
	} else {
		stride, off := 0, 0
		for _, p := range parts {
			stride += refElemSize(p.f.c, p.f.t)
		}
		all := make([]byte, stride*n)
		v := len(o.views)
		for _, p := range parts {
			ms := len(p.want.m) / n
			for e := 0; e < n; e++ {
				copy(all[e*stride+off:], p.want.m[e*ms:(e+1)*ms])
			}
			norm := p.f.c != F && p.fn != "ReadJoints"
			p.acc = o.accessor(v, off, p.f.c, p.f.t, n, norm, "")
			off += refElemSize(p.f.c, p.f.t)
		}
		o.addView(0, 4, all, stride, 34962)
	}
	s := &store{mem: newMemFS()}
	o.finish(s, "in", form, "")
	doc := wireLoad(x, s, "in")
	x.State(s.sum())
	for _, p := range parts {
		var got any
		var err error
		a := doc.Accessors[p.acc]
		switch p.fn {
		case "ReadPosition":
			got, err = modeler.ReadPosition(doc, a, nil)
		case "ReadNormal":
			got, err = modeler.ReadNormal(doc, a, nil)
		case "ReadTangent":
			got, err = modeler.ReadTangent(doc, a, nil)
		case "ReadTextureCoord":
			got, err = modeler.ReadTextureCoord(doc, a, nil)
		case "ReadWeights":
			got, err = modeler.ReadWeights(doc, a, nil)
		case "ReadJoints":
			got, err = modeler.ReadJoints(doc, a, nil)
		case "ReadColor":
			got, err = modeler.ReadColor(doc, a, nil)
		case "ReadColor64":
			got, err = modeler.ReadColor64(doc, a, nil)
		case "ReadIndices":
			got, err = modeler.ReadIndices(doc, a, nil)
		case "ReadInverseBindMatrices":
			got, err = modeler.ReadInverseBindMatrices(doc, a, nil)
		}
		if err != nil {
			x.Fail("unreadable", "%s of %v %v: %v", p.fn, p.f.c, p.f.t, err)
		}
		if d := compareRead(p.fn, got, p.want); d != "" {
			x.Fail("content", "%s of %v %v: %s", p.fn, p.f.c, p.f.t, d)
		}
	}
}

// wireReadImages opens files whose images are stored in each way.
func wireReadImages(x *X) {
	n := x.All("size", 9) + 1
	data := pattern(n, 3)
	mime := []string{"image/png", "image/jpeg"}[x.All("mime", 2)]
	form := x.All("form", 3)
	o := &wout{}
	view := -1
	if x.All("way", 2) == 0 {
		view = o.addView(x.All("buffer", 2), 0, data, 0, 0)
		o.imgs = append(o.imgs, fmt.Sprintf(`{"mimeType":%q,"bufferView":%d,"name":"i"}`, mime, view))
	} else {
		o.addView(0, 0, []byte{1}, 0, 0)
		o.imgs = append(o.imgs, fmt.Sprintf(`{"name":"i","uri":"data:%s;base64,%s"}`, mime, base64.StdEncoding.EncodeToString(data)))
	}
	s := &store{mem: newMemFS()}
	o.finish(s, "in", form, fmt.Sprintf(`"textures":[{"source":0}],"extras":%s,`, strconv.FormatFloat(math.Pi, 'g', -1, 64)))
	doc := wireLoad(x, s, "in")
	x.State(s.sum())
	im := doc.Images[0]
	if im.Name != "i" {
		x.Fail("name", "image is %+v", *im)
	}
	if view < 0 {
		if !im.IsEmbeddedResource() {
			x.Fail("embedded", "image with uri %.40q is not embedded", im.URI)
		}
		b, err := im.MarshalData()
		if err != nil || !bytes.Equal(b, data) {
			x.Fail("content", "image is % x (error %v), want % x", b, err, data)
		}
		return
	}
	if im.BufferView == nil || *im.BufferView != view || im.MimeType != mime || im.IsEmbeddedResource() {
		x.Fail("image", "image is %+v", *im)
	}
	b, err := modeler.ReadBufferView(doc, doc.BufferViews[view])
	if err != nil || !bytes.Equal(b, data) {
		x.Fail("content", "image is % x (error %v), want % x", b, err, data)
	}
}
