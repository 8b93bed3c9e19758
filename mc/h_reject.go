package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// C31: what a file cannot express is never silently saved as something else.

func init() {
	register(&Property{
		ID: "C31", Level: "model_checking",
		Rule: "a case is one place of a document (every numeric field, optional or not, every extras and extensions field, every camera, reached by walking full and sparse documents and the bundled extensions), one value JSON cannot express put there, one container form and one entry point; the save must fail, and must succeed with the full content again once the value is taken out; a state is the case",
		Harnesses: []Harness{
			{Name: "places", Run: rejectPlaces},
			{Name: "two-places", Run: rejectTwo},
			{Name: "extensions", Run: rejectExtensions},
			{Name: "entry-points", Run: rejectEntries},
			{Name: "too-large", Run: rejectHuge, Serial: true},
		},
	})
}

// spot is a part of a document to which values can be given.
type spot struct {
	path string
	kind string // float, any, ext, camera
	set  func(v any)
}

var (
	anyType   = reflect.TypeOf((*any)(nil)).Elem()
	floatType = reflect.TypeOf(float64(0))
	camType   = reflect.TypeOf(gltf.Camera{})
	extType   = reflect.TypeOf(gltf.Extensions{})
)

// places lists the places below v, which is addressable.
func places(v reflect.Value, path string, out *[]spot) {
	t := v.Type()
	switch {
	case t == floatType:
		*out = append(*out, spot{path, "float", func(n any) { v.SetFloat(n.(float64)) }})
		return
	case t == extType:
		*out = append(*out, spot{path, "ext", func(n any) {
			m := gltf.Extensions{"MC_bad": n}
			for _, k := range v.MapKeys() {
				m[k.String()] = v.MapIndex(k).Interface()
			}
			v.Set(reflect.ValueOf(m))
		}})
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k).Elem(); e.Kind() == reflect.Pointer && !e.IsNil() && e.Elem().Kind() == reflect.Struct {
				places(e.Elem(), path+"."+k.String(), out)
			} else if e.Kind() == reflect.Slice {
				places(e, path+"."+k.String(), out)
			}
		}
		return
	case t == anyType:
		*out = append(*out, spot{path, "any", func(n any) { v.Set(reflect.ValueOf(&n).Elem()) }})
		return
	case t == camType:
		*out = append(*out, spot{path, "camera", func(any) {
			v.FieldByName("Perspective").SetZero()
			v.FieldByName("Orthographic").SetZero()
		}})
	}
	switch t.Kind() {
	case reflect.Pointer:
		if t.Elem() == floatType && v.IsNil() {
			*out = append(*out, spot{path, "float", func(n any) { f := n.(float64); v.Set(reflect.ValueOf(&f)) }})
		} else if !v.IsNil() {
			places(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				places(v.Field(i), path+"."+t.Field(i).Name, out)
			}
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return
		}
		if t.Elem() == floatType && v.Len() == 0 {
			*out = append(*out, spot{path, "float", func(n any) { v.Set(reflect.ValueOf([]float64{0, n.(float64)})) }})
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			places(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

type failJSON struct{}

func (failJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("mc: no JSON") }

type cutJSON struct{}

func (*cutJSON) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

type failText struct{}

func (failText) MarshalText() ([]byte, error) { return nil, errors.New("mc: no text") }

// unfit are values no JSON text stands for.
func unfit(k int) any {
	switch k {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return make(chan int)
	case 4:
		return func() {}
	case 5:
		return failJSON{}
	case 6:
		return &cutJSON{}
	case 7:
		return failText{}
	case 8:
		m := map[string]any{"a": 1.0}
		m["self"] = m
		return m
	case 9:
		return complex(1, 2)
	case 10:
		return map[string]any{"deep": []any{"x", map[string]any{"er": make(chan int)}}}
	case 11:
		return struct {
			A string
			F func()
		}{"a", func() {}}
	case 12:
		return json.RawMessage(`{"cut":`)
	case 13:
		return json.Number("1x")
	case 14:
		return []any{1.0, math.NaN()}
	case 15:
		return map[failText]int{{}: 1}
	}
	return float32(math.Inf(1))
}

const numUnfit = 17

// rejectDocs are the documents walked: one of each kind and of all, and one with the
// bundled extensions.
func rejectDoc(x *X, k int, full, bin bool) *gltf.Document {
	if k < numKinds {
		return kindDoc(x, k, full, bin).In
	}
	if k == numKinds {
		return wholeDoc(x, full, bin).In
	}
	doc := gltf.NewDocument()
	num := func(v float64) *float64 {
		if !full {
			return nil
		}
		return &v
	}
	tt := func() gltf.Extensions {
		return gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Offset: [2]float64{1, 2}, Rotation: 0.5, Scale: [2]float64{2, 3}}}
	}
	info := func() *gltf.TextureInfo { return &gltf.TextureInfo{Extensions: tt()} }
	sg := &specular.PBRSpecularGlossiness{GlossinessFactor: num(0.5), DiffuseTexture: info(), SpecularGlossinessTexture: info()}
	if full {
		sg.DiffuseFactor = &[4]float64{0.5, 0.25, 0, 1}
		sg.SpecularFactor = &[3]float64{0.5, 0.25, 0}
	}
	doc.Materials = []*gltf.Material{
		{Extensions: gltf.Extensions{specular.ExtensionName: sg}, EmissiveTexture: info()},
		{Extensions: gltf.Extensions{unlit.ExtensionName: unlit.Unlit{}}, PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorTexture: info()}},
	}
	ls := lightspunctual.Lights{}
	for _, tp := range []string{lightspunctual.TypeDirectional, lightspunctual.TypePoint, lightspunctual.TypeSpot} {
		l := &lightspunctual.Light{Type: tp, Intensity: num(2), Range: num(3)}
		if full {
			l.Color = &[3]float64{1, 0.5, 0}
		}
		if tp == lightspunctual.TypeSpot {
			l.Spot = &lightspunctual.Spot{InnerConeAngle: 0.25, OuterConeAngle: num(0.5)}
		}
		ls = append(ls, l)
	}
	doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: ls}
	doc.Nodes = []*gltf.Node{{Extensions: gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.LightIndex(1)}}}
	return doc
}

// rejected saves doc, which must not succeed.
func mustReject(x *X, what string, doc *gltf.Document, form int) {
	fsys := newMemFS()
	b, err := encodeForm(doc, form, fsys)
	if err == nil {
		x.Fail("accepted", "Encode (%s) returned nil although %s; it wrote %d bytes: %.200q", formNames[form], what, len(b), b)
	}
	if fsys.open != 0 {
		x.Fail("unclosed", "files are left open")
	}
	if len(b) > 0 {
		if got, err := decodeBytes(b, fsys); err == nil {
			x.Fail("complete", "Encode (%s) failed because %s but wrote a complete document with %d nodes", formNames[form], what, len(got.Nodes))
		}
	}
}

// rejectPlaces: every place, every value.
func rejectPlaces(x *X) {
	k := x.All("kind", numKinds+2)
	full := x.All("profile", 2) == 1
	form := x.All("form", numForms)
	doc := rejectDoc(x, k, full, form == formGLB)
	var ps []spot
	places(reflect.ValueOf(doc).Elem(), "doc", &ps)
	if len(ps) == 0 {
		return
	}
	p := ps[x.All("place", len(ps))]
	n := numUnfit
	if p.kind == "float" {
		n = 3
	} else if p.kind == "camera" {
		n = 1
	}
	v := x.All("value", n)
	if v == 1 && strings.HasSuffix(p.path, ".Range") {
		return // an infinite range is the default and is left out
	}
	x.State(fmt.Sprint(k, full, form, p.path, v))
	x.Log("%s := value %d (%s)", p.path, v, formNames[form])
	mustEncode(x, doc, form, newMemFS())
	p.set(unfit(v))
	mustReject(x, fmt.Sprintf("%s holds value %d, which JSON cannot express", p.path, v), doc, form)
}

// rejectTwo: two obstacles in places of every two kinds of one document.
func rejectTwo(x *X) {
	form := x.All("form", numForms)
	doc := rejectDoc(x, numKinds, true, form == formGLB)
	var ps []spot
	places(reflect.ValueOf(doc).Elem(), "doc", &ps)
	byKind := map[string][]spot{}
	for _, p := range ps {
		byKind[p.kind] = append(byKind[p.kind], p)
	}
	kinds := sortedKeys(byKind)
	var what []string
	for i := 0; i < 2; i++ {
		l := byKind[kinds[x.All("kind", len(kinds))]]
		at := []int{0, len(l) / 3, 2 * len(l) / 3, len(l) - 1}[x.All("at", 4)]
		v := x.All("value", 3)
		if l[at].kind != "float" {
			v += 2
		}
		l[at].set(unfit(v))
		what = append(what, fmt.Sprintf("%s holds value %d", l[at].path, v))
	}
	x.State(fmt.Sprint(form, what))
	mustReject(x, strings.Join(what, " and "), doc, form)
}

// mcFail is a registered extension that cannot be written.
type mcFail struct{ V float64 }

func (f *mcFail) MarshalJSON() ([]byte, error) {
	if f.V == 1 {
		return nil, errors.New("mc: cannot be written")
	}
	return json.Marshal(struct{ V float64 }{f.V})
}

// rejectExtensions: extension values that cannot be written, among ones that can, in maps of
// several entries, under registered and unregistered names.
func rejectExtensions(x *X) {
	form := x.All("form", numForms)
	n := x.All("entries", 4)
	key := []string{"MC_bad", "KHR_materials_unlit", "AAA", "zzz", ""}[x.All("key", 5)]
	v := x.All("value", numUnfit+2)
	var bad any
	switch v {
	case numUnfit:
		bad = &mcFail{1}
	case numUnfit + 1:
		bad = &mcFail{math.NaN()}
	default:
		bad = unfit(v)
	}
	ext := gltf.Extensions{}
	for i := 0; i < n; i++ {
		ext[fmt.Sprint("M", i)] = []any{json.RawMessage(`{"a":1}`), map[string]any{"b": 2.0}, &mcFail{2}}[i%3]
	}
	ext[key] = bad
	doc := gltf.NewDocument()
	doc.Nodes = []*gltf.Node{{Name: "first"}, {Name: "second"}, {Name: "third"}}
	doc.Buffers = []*gltf.Buffer{{ByteLength: 3, Data: bufData(3, 1)}, {ByteLength: 3, Data: bufData(3, 2), URI: "ext.bin"}, {ByteLength: 3, Data: bufData(3, 3)}}
	doc.Buffers[2].EmbeddedResource()
	where := ""
	switch x.All("where", 6) {
	case 0:
		doc.Nodes[1].Extensions, where = ext, "node"
	case 1:
		doc.Extensions, where = ext, "document"
	case 2:
		doc.Buffers[0].Extensions, where = ext, "buffer 0"
	case 3:
		doc.Buffers[1].Extensions, where = ext, "buffer 1"
	case 4:
		doc.Buffers[2].Extensions, where = ext, "buffer 2"
	case 5:
		doc.Asset.Extensions, where = ext, "asset"
	}
	x.State(fmt.Sprint(x.choices()))
	mustReject(x, fmt.Sprintf("extension %q of the %s holds value %d", key, where, v), doc, form)
}

// rejectEntries: Save, SaveBinary, and encoders used before and after.
func rejectEntries(x *X) {
	full := x.All("profile", 2) == 1
	k := x.All("kind", numKinds+2)
	op := x.All("op", 3)
	form := []int{formJSON, formGLB, formGLB}[op]
	if op == 2 {
		form = x.All("form", numForms)
	}
	mk := func(v int) *gltf.Document {
		doc := rejectDoc(x, k, full, form == formGLB)
		var ps []spot
		places(reflect.ValueOf(doc).Elem(), "doc", &ps)
		seen := map[string]bool{}
		for i, p := range ps {
			if v >= 0 && !seen[p.kind] && i%2 == v%2 {
				seen[p.kind] = true
				p.set(unfit(v))
				break
			}
		}
		return doc
	}
	v := x.All("value", 3)
	good, bad := mk(-1), mk(v)
	x.State(fmt.Sprint(x.choices()))
	if op == 2 {
		// one encoder: good, bad, good
		var buf bytes.Buffer
		fsys := newMemFS()
		e := gltf.NewEncoderFS(&buf, fsys)
		e.AsBinary = form == formGLB
		if form == formIndent {
			e.SetJSONIndent("", "\t")
		}
		want := mustEncode(x, good, form, newMemFS())
		for i := 0; i < 3; i++ {
			buf.Reset()
			if i == 1 {
				if err := e.Encode(bad); err == nil {
					x.Fail("accepted", "an encoder used before returned nil for a document holding value %d (kind %d)", v, k)
				}
				continue
			}
			if err := e.Encode(good); err != nil || !bytes.Equal(buf.Bytes(), want) {
				x.Fail("after", "call %d of an encoder: error %v, %d bytes, want %d", i, err, buf.Len(), len(want))
			}
		}
		return
	}
	dir := scratch(x)
	defer os.RemoveAll(dir)
	save := []func(*gltf.Document, string) error{gltf.Save, gltf.SaveBinary}[op]
	name := filepath.Join(dir, "m.out")
	if x.All("existing", 2) == 1 {
		os.WriteFile(name, bytes.Repeat([]byte("z"), 5000), 0o644)
	}
	if err := save(bad, name); err == nil {
		x.Fail("accepted", "saving a document holding value %d (kind %d) returned nil", v, k)
	}
	for _, b := range good.Buffers {
		if d := filepath.Dir(b.URI); d != "." && !b.IsEmbeddedResource() {
			os.MkdirAll(filepath.Join(dir, d), 0o777)
		}
	}
	if err := save(good, name); err != nil {
		x.Fail("after", "saving a good document after a failure: %v", err)
	}
	got, err := os.ReadFile(name)
	if want := mustEncode(x, good, form, newMemFS()); err != nil || !bytes.Equal(got, want) {
		x.Fail("after", "after a failed and a good save the file holds %d bytes, want %d", len(got), len(want))
	}
}
