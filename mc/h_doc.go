package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
)

// container forms
const (
	formJSON = iota
	formIndent
	formGLB
	numForms
)

var formNames = []string{"json", "indent", "glb"}

func encodeForm(doc *gltf.Document, form int, fs gltf.CreateFS) ([]byte, error) {
	var buf bytes.Buffer
	e := gltf.NewEncoderFS(&buf, fs)
	e.AsBinary = form == formGLB
	if form == formIndent {
		e.SetJSONIndent("", "\t")
	}
	err := e.Encode(doc)
	return buf.Bytes(), err
}

func decodeBytes(b []byte, fs *memFS) (*gltf.Document, error) {
	doc := new(gltf.Document)
	var dec *gltf.Decoder
	if fs != nil {
		dec = gltf.NewDecoderFS(bytes.NewReader(b), fs)
	} else {
		dec = gltf.NewDecoder(bytes.NewReader(b))
	}
	err := dec.Decode(doc)
	return doc, err
}

func mustEncode(x *X, doc *gltf.Document, form int, fs gltf.CreateFS) []byte {
	b, err := encodeForm(doc, form, fs)
	if err != nil {
		x.Fail("encode-error", "encoding (%s) failed: %v", formNames[form], err)
	}
	return b
}

func roundTrip(x *X, t *Twin, form int) {
	fs := newMemFS()
	b := mustEncode(x, t.In, form, fs)
	x.StateB(b)
	got, err := decodeBytes(b, fs)
	if err != nil {
		x.Fail("decode-error", "decoding the encoder's own output (%s) failed: %v\n%.400q", formNames[form], err, b)
	}
	if d := diffDoc(got, t.Want); d != "" {
		x.Fail("differs", "after encode (%s) and decode: %s", formNames[form], d)
	}
}

func init() {
	register(&Property{
		ID: "C01", Level: "model_checking",
		Rule: "a case is a document built field by field from decisions (sparse or full profile, every field's alternatives as deviations), encoded and decoded by the real library and compared with the expected document; a state is the distinct encoded form",
		Harnesses: []Harness{
			{Name: "per-kind", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				form := x.All("form", numForms)
				k := x.All("kind", numKinds)
				full := x.All("profile", 2) == 1
				t := kindDoc(x, k, full, form == formGLB)
				x.Log("%s %s", formNames[form], kindNames[k])
				roundTrip(x, t, form)
			}},
			{Name: "absolute-uris", Run: absoluteURIs},
			{Name: "whole", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				form := x.All("form", numForms)
				full := x.All("profile", 2) == 1
				t := wholeDoc(x, full, form == formGLB)
				roundTrip(x, t, form)
			}},
			{Name: "zeros", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				form := x.All("form", numForms)
				roundTrip(x, zeroDoc(x, x.All("kind", numKinds), form == formGLB), form)
			}},
			{Name: "same-buffer", Run: func(x *X) {
				// one buffer in several places of the list
				form := x.All("form", numForms)
				n := 1 + x.All("n", 5)
				t := newTwin()
				t.In.Asset.Version, t.Want.Asset.Version = "2.0", "2.0"
				b := &gltf.Buffer{ByteLength: n, Data: bufData(n, 1), Name: "b"}
				if x.All("embedded", 2) == 1 {
					b.EmbeddedResource()
				}
				o := &gltf.Buffer{ByteLength: 3, Data: bufData(3, 2)}
				for i, k := 0, 2+x.All("len", 2); i < k; i++ {
					in := b
					if x.All("other", 2) == 1 {
						in = o
					}
					want := *in
					if in.URI == "" && !(i == 0 && form == formGLB) {
						want.EmbeddedResource()
					}
					t.In.Buffers, t.Want.Buffers = append(t.In.Buffers, in), append(t.Want.Buffers, &want)
				}
				roundTrip(x, t, form)
			}},
			{Name: "shared", Run: sharedObjects},
			{Name: "not-loaded", Run: notLoaded},
			{Name: "buffer-product", Run: func(x *X) {
				form := x.All("form", numForms)
				n := 1 + x.All("buffers", 3)
				lens := []int{1, 2, 3, 4}
				t := newTwin()
				t.In.Asset.Version, t.Want.Asset.Version = "2.0", "2.0"
				for i := 0; i < n; i++ {
					ln := lens[x.All("len", len(lens))]
					in := &gltf.Buffer{ByteLength: ln, Data: bufData(ln, i)}
					want := &gltf.Buffer{ByteLength: ln, Data: bufData(ln, i)}
					switch x.All("uri", 3) {
					case 0:
						if !(i == 0 && form == formGLB) {
							want.EmbeddedResource()
						}
					case 1:
						in.EmbeddedResource()
						want.URI = in.URI
					case 2:
						in.URI = fmt.Sprintf("b%d.bin", i)
						want.URI = in.URI
					}
					t.In.Buffers, t.Want.Buffers = append(t.In.Buffers, in), append(t.Want.Buffers, want)
				}
				roundTrip(x, t, form)
			}},
			{Name: "histories", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				// a chain of forms: each decode's result is encoded again
				full := x.All("profile", 2) == 1
				forms := []int{x.All("form1", numForms), x.All("form2", numForms), x.All("form3", numForms)}
				t := kindDoc(x, x.All("kind", numKinds), full, forms[0] == formGLB)
				fs := newMemFS()
				doc := t.In
				for i, f := range forms {
					b := mustEncode(x, doc, f, fs)
					x.StateB(b)
					got, err := decodeBytes(b, fs)
					if err != nil {
						x.Fail("decode-error", "decode %d (%s) failed: %v", i, formNames[f], err)
					}
					w := cloneDoc(t.Want)
					if f == formGLB && len(w.Buffers) > 0 && got.Buffers[0].URI == "" && w.Buffers[0].URI != "" && i == 0 {
						x.Fail("differs", "buffer 0 lost its URI")
					}
					// only the first buffer's placement depends on the form
					if len(w.Buffers) > 0 && t.In.Buffers[0].URI == "" {
						stayed := true
						for _, pf := range forms[:i+1] {
							stayed = stayed && pf == formGLB
						}
						if stayed {
							w.Buffers[0].URI = ""
						} else {
							w.Buffers[0].EmbeddedResource()
						}
					}
					if d := diffDoc(got, w); d != "" {
						x.Fail("differs", "after step %d (%s): %s", i, formNames[f], d)
					}
					doc = got
				}
			}},
		},
	})

	register(&Property{
		ID: "C02", Level: "model_checking",
		Rule: "a case is a document and the JSON tree the glTF schema prescribes for it, built side by side from the same decisions; encoding must give that tree and decoding an independently written text of it (property order, whitespace, escapes, explicit defaults enumerated) must give the document; a state is the distinct JSON text",
		Harnesses: []Harness{
			{Name: "encode-per-kind", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				k := x.All("kind", numKinds)
				full := x.All("profile", 2) == 1
				checkWire(x, kindDoc(x, k, full, false), x.All("form", 2))
			}},
			{Name: "encode-whole", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				full := x.All("profile", 2) == 1
				form := x.All("form", numForms)
				checkWire(x, wholeDoc(x, full, form == formGLB), form)
			}},
			{Name: "decode-per-kind", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				k := x.All("kind", numKinds)
				full := x.All("profile", 2) == 1
				t := kindDoc(x, k, full, false)
				st := jstyle{order: x.All("order", 3), defaults: x.All("defaults", 2) == 1}
				st.space, st.escape = st.order == 1, st.order != 0
				checkDecodeText(x, t, st)
			}},
			{Name: "zeros", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				t := zeroDoc(x, x.All("kind", numKinds), false)
				if k := x.All("form", 4); k < 2 {
					checkWire(x, t, k)
				} else {
					checkDecodeText(x, t, jstyle{order: 1, defaults: k == 3})
				}
			}},
			{Name: "decode-whole", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				full := x.All("profile", 2) == 1
				t := wholeDoc(x, full, false)
				checkDecodeText(x, t, jstyle{order: x.All("order", 3), defaults: x.All("defaults", 2) == 1, space: x.All("space", 2) == 1, escape: x.All("escape", 2) == 1})
			}},
			{Name: "unset-vs-default", Run: wireDefaults},
		},
	})
}

// checkWire compares the encoder's JSON with the prescribed tree.
func checkWire(x *X, t *Twin, form int) {
	fs := newMemFS()
	b := mustEncode(x, t.In, form, fs)
	x.StateB(b)
	js := b
	if form == formGLB {
		g, err := parseGLB(b)
		if err != nil {
			x.Fail("glb", "malformed GLB: %v", err)
		}
		js = g.json
	}
	var tree any
	dec := json.NewDecoder(bytes.NewReader(js))
	if err := dec.Decode(&tree); err != nil {
		x.Fail("not-json", "encoder wrote invalid JSON: %v", err)
	}
	if dec.More() {
		x.Fail("not-json", "encoder wrote more than one JSON value")
	}
	if d := duplicateKey(js); d != "" {
		x.Fail("duplicate-key", "encoder wrote property %q twice in one object", d)
	}
	if d := diffTree("$", tree, norm(t.JSON)); d != "" {
		x.Fail("wire", "encoded JSON (%s) differs from the glTF form: %s", formNames[form], d)
	}
	for name, data := range t.Ext {
		if got, ok := fs.files[name]; !ok || !bytes.Equal(got, data) {
			x.Fail("external", "external buffer %s: wrote %d bytes, want %d", name, len(got), len(data))
		}
	}
	if len(fs.files) != len(t.Ext) {
		x.Fail("external", "encoder created files %v, want %v", sortedKeys(fs.files), sortedKeys(t.Ext))
	}
}

// duplicateKey scans JSON tokens for an object with a repeated name.
func duplicateKey(js []byte) string {
	dec := json.NewDecoder(bytes.NewReader(js))
	type frame struct {
		keys map[string]bool
		key  bool
	}
	var st []*frame
	for {
		tok, err := dec.Token()
		if err != nil {
			return ""
		}
		top := func() *frame {
			if len(st) == 0 {
				return nil
			}
			return st[len(st)-1]
		}
		switch v := tok.(type) {
		case json.Delim:
			switch v {
			case '{':
				if f := top(); f != nil && f.keys != nil {
					f.key = true
				}
				st = append(st, &frame{keys: map[string]bool{}, key: true})
			case '[':
				if f := top(); f != nil && f.keys != nil {
					f.key = true
				}
				st = append(st, &frame{})
			default:
				st = st[:len(st)-1]
			}
		default:
			f := top()
			if f == nil || f.keys == nil {
				continue
			}
			if f.key {
				k := tok.(string)
				if f.keys[k] {
					return k
				}
				f.keys[k] = true
				f.key = false
			} else {
				f.key = true
			}
		}
	}
}

func checkDecodeText(x *X, t *Twin, st jstyle) {
	text := st.String(t.JSON)
	x.State(text)
	fs := newMemFS()
	for n, d := range t.Ext {
		fs.files[n] = d
	}
	got, err := decodeBytes([]byte(text), fs)
	if err != nil {
		x.Fail("decode-error", "conforming JSON rejected: %v\n%.600s", err, text)
	}
	if d := diffDoc(got, t.Want); d != "" {
		x.Fail("differs", "decoding conforming JSON: %s\n%.600s", d, text)
	}
}

// wireDefaults: for every object kind, an object left at Go's zero value (plus
// what the schema requires) must not acquire optional properties, and one
// holding the glTF defaults must encode to the same JSON.
func wireDefaults(x *X) {
	form := x.All("form", 2)
	k := x.All("kind", 10)
	var d1, d2 gltf.Document
	d1.Asset.Version, d2.Asset.Version = "2.0", "2.0"
	var want string
	switch k {
	case 0:
		d1.Nodes = []*gltf.Node{{}}
		d2.Nodes = []*gltf.Node{{Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Translation: gltf.DefaultTranslation}}
		want = `"nodes":[{}]`
	case 1:
		d1.Materials = []*gltf.Material{{}}
		d2.Materials = []*gltf.Material{{AlphaCutoff: gltf.Float(0.5), AlphaMode: gltf.AlphaOpaque}}
		want = `"materials":[{}]`
	case 2:
		d1.Materials = []*gltf.Material{{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}}}
		d2.Materials = []*gltf.Material{{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float64{1, 1, 1, 1}, MetallicFactor: gltf.Float(1), RoughnessFactor: gltf.Float(1)}}}
		want = `"materials":[{"pbrMetallicRoughness":{}}]`
	case 3:
		d1.Materials = []*gltf.Material{{NormalTexture: &gltf.NormalTexture{Index: gltf.Index(0)}}}
		d2.Materials = []*gltf.Material{{NormalTexture: &gltf.NormalTexture{Index: gltf.Index(0), Scale: gltf.Float(1)}}}
		want = `"materials":[{"normalTexture":{"index":0}}]`
	case 4:
		d1.Materials = []*gltf.Material{{OcclusionTexture: &gltf.OcclusionTexture{Index: gltf.Index(0)}}}
		d2.Materials = []*gltf.Material{{OcclusionTexture: &gltf.OcclusionTexture{Index: gltf.Index(0), Strength: gltf.Float(1)}}}
		want = `"materials":[{"occlusionTexture":{"index":0}}]`
	case 5:
		d1.Samplers = []*gltf.Sampler{{}}
		d2.Samplers = []*gltf.Sampler{{WrapS: gltf.WrapRepeat, WrapT: gltf.WrapRepeat}}
		want = `"samplers":[{}]`
	case 6:
		d1.Meshes = []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: map[string]int{}}}}}
		d2.Meshes = []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: map[string]int{}, Mode: gltf.PrimitiveTriangles}}}}
		want = `"meshes":[{"primitives":[{"attributes":{}}]}]`
	case 7:
		d1.Textures, d2.Textures = []*gltf.Texture{{}}, []*gltf.Texture{{}}
		want = `"textures":[{}]`
	case 8:
		d1.Scenes, d2.Scenes = []*gltf.Scene{{}}, []*gltf.Scene{{Nodes: []int{}}}
		want = `"scenes":[{}]`
	case 9:
		d1.Accessors, d2.Accessors = []*gltf.Accessor{{}}, []*gltf.Accessor{{Min: []float64{}, Max: []float64{}}}
		want = `"accessors":[{"componentType":5126,"count":0,"type":"SCALAR"}]`
	}
	var wt any
	if err := json.Unmarshal([]byte(`{"asset":{"version":"2.0"},`+want+`}`), &wt); err != nil {
		panic(err)
	}
	for i, d := range []*gltf.Document{&d1, &d2} {
		b := mustEncode(x, d, form, nil)
		x.StateB(b)
		var tree any
		if err := json.Unmarshal(b, &tree); err != nil {
			x.Fail("not-json", "%v", err)
		}
		if df := diffTree("$", tree, wt); df != "" {
			x.Fail("wire", "document %d: %s", i, df)
		}
	}
}

var _ = reflect.DeepEqual

// absoluteURIs: references to resources elsewhere, in every slot, come back as
// they were. The URIs are in normal form: lower case scheme, valid escapes, no empty fragment.
func absoluteURIs(x *X) {
	list := []string{
		"http://h/a.png", "https://u:p@h:80/a%20b%2F.png?q=%41&x=+#f%20", "http://h", "http://h?q", "http://h/#a", "https://h/a//b/c/../d",
		"http://[::1]:8080/x", "ftp://h/%C3%A9", "file:///a/b.png", "file://h/C:/a", "urn:uuid:1-2", "mailto:a@b", "blob:http://h/1-2", "x:y%2Fz?q#f",
		"data:image/gif;base64,AAAA", "data:,x%20y", "data:image/svg+xml,a/././b\\c", "data:image/png,%89PNG/./%2e#a?b", "data:./x", "data:image/png,%41?b", "data:text/plain;charset=utf-8,a+b", "http://h/a;b=1,c'(d)!*~$@:&=", "http://user@h/a",
		"http://:pw@h/a", "s3://bucket/key%252e", "a-b.c+d://x", "http://h/" + strings.Repeat("%20a/", 50),
	}
	doc := gltf.NewDocument()
	n := 1 + x.All("images", 2)
	for i := 0; i < n; i++ {
		doc.Images = append(doc.Images, &gltf.Image{URI: list[x.All("uri", len(list))]})
	}
	form := x.All("form", numForms)
	if x.All("buffer", 2) == 1 {
		doc.Buffers = []*gltf.Buffer{{ByteLength: 4, Data: []byte{1, 2, 3, 4}}, {ByteLength: 9, URI: "http://u:p@h/a%20.bin?x=%41#y"}}
	}
	b := mustEncode(x, doc, form, nil)
	x.StateB(b)
	got, err := decodeBytes(b, nil)
	if err != nil {
		x.Fail("decode-error", "%v", err)
	}
	for i, im := range doc.Images {
		if u := got.Images[i].URI; u != im.URI {
			x.Fail("uri", "image %q comes back as %q (%s)", im.URI, u, formNames[form])
		}
	}
	if len(doc.Buffers) > 0 && got.Buffers[1].URI != doc.Buffers[1].URI {
		x.Fail("uri", "buffer %q comes back as %q (%s)", doc.Buffers[1].URI, got.Buffers[1].URI, formNames[form])
	}
}

// slots collects every non-nil pointer, slice and map that is reachable and can be replaced.
func slots(v reflect.Value, path string, out *[]slot) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		if v.IsNil() {
			return
		}
		if v.CanSet() {
			*out = append(*out, slot{path, v})
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			slots(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				slots(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			slots(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			slots(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out)
		}
	}
}

type slot struct {
	path string
	v    reflect.Value
}

// sharedObjects encodes documents in which one object is used in two places of the same
// type: the result must be the one of a document where both places have their own copy.
func sharedObjects(x *X) {
	form := x.All("form", numForms)
	doc := wholeDoc(x, true, form == formGLB).In
	tex := func(i int) *gltf.TextureInfo { return &gltf.TextureInfo{Index: i, TexCoord: i} }
	c := [3]float64{0.5, 0.25, 1}
	doc.Materials = append(doc.Materials, &gltf.Material{Extensions: gltf.Extensions{
		specular.ExtensionName: &specular.PBRSpecularGlossiness{
			DiffuseFactor: &[4]float64{0.5, 1, 1, 1}, SpecularFactor: &c, GlossinessFactor: gltf.Float(0.5),
			DiffuseTexture: tex(1), SpecularGlossinessTexture: tex(2),
		},
	}}, &gltf.Material{Name: "other", PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorTexture: tex(3), MetallicRoughnessTexture: tex(4)}, EmissiveTexture: tex(5)})
	light := func(r float64) *lightspunctual.Light {
		return &lightspunctual.Light{Type: lightspunctual.TypeSpot, Color: &[3]float64{r, 1, 1}, Intensity: gltf.Float(r), Range: gltf.Float(r + 1), Spot: &lightspunctual.Spot{OuterConeAngle: gltf.Float(r)}}
	}
	if doc.Extensions == nil {
		doc.Extensions = gltf.Extensions{}
	}
	doc.Extensions[lightspunctual.ExtensionName] = lightspunctual.Lights{light(0.5), light(0.75)}
	var all []slot
	slots(reflect.ValueOf(doc).Elem(), "doc", &all)
	i := x.All("from", len(all))
	same := 0
	for _, s := range all {
		if s.v.Type() == all[i].v.Type() {
			same++
		}
	}
	if same == 1 {
		return
	}
	j, k := 0, x.All("to", same)
	for ; ; j++ {
		if all[j].v.Type() == all[i].v.Type() {
			if k == 0 {
				break
			}
			k--
		}
	}
	if i == j {
		return
	}
	if strings.HasPrefix(all[i].path, all[j].path+".") || strings.HasPrefix(all[i].path, all[j].path+"[") || strings.HasPrefix(all[j].path, all[i].path+".") || strings.HasPrefix(all[j].path, all[i].path+"[") {
		return // an object cannot be part of itself
	}
	x.Log("%s: %s = %s", formNames[form], all[j].path, all[i].path)
	all[j].v.Set(all[i].v)
	copied := cloneDoc(doc)
	fs1, fs2 := newMemFS(), newMemFS()
	got, err1 := encodeForm(doc, form, fs1)
	want, err2 := encodeForm(copied, form, fs2)
	if (err1 == nil) != (err2 == nil) {
		x.Fail("shared-error", "with %s the same object as %s: error %v; with a copy: %v", all[j].path, all[i].path, err1, err2)
	}
	if !bytes.Equal(got, want) {
		x.Fail("shared", "encoding (%s) with %s the same object as %s differs from a copy:\n%.600q\n%.600q", formNames[form], all[j].path, all[i].path, got, want)
	}
	x.StateB(got)
}

// notLoaded encodes buffers whose data is not in memory: what their URI refers to must be kept.
func notLoaded(x *X) {
	form := x.All("form", numForms)
	t := newTwin()
	t.In.Asset.Version, t.Want.Asset.Version = "2.0", "2.0"
	fs := newMemFS()
	for i, n := 0, 1+x.All("buffers", 3); i < n; i++ {
		ln := []int{1, 2, 3, 4, 600}[x.All("len", 5)]
		full := &gltf.Buffer{ByteLength: ln, Data: bufData(ln, i), Name: "n", Extras: "e"}
		in := *full
		switch x.All("kind", 4) {
		case 0:
			in.EmbeddedResource()
			full.URI = in.URI
			in.Data = nil
		case 1:
			in.EmbeddedResource()
			full.URI = in.URI
			in.Data = []byte{}
		case 2:
			in.URI = fmt.Sprintf("d/b%d.bin", i)
			full.URI = in.URI
			fs.files[in.URI] = in.Data
			in.Data = nil
		case 3: // loaded
			in.URI = fmt.Sprintf("l%d.bin", i)
			full.URI = in.URI
		}
		t.In.Buffers, t.Want.Buffers = append(t.In.Buffers, &in), append(t.Want.Buffers, full)
	}
	b := mustEncode(x, t.In, form, fs)
	x.StateB(b)
	got, err := decodeBytes(b, fs)
	if err != nil {
		x.Fail("decode-error", "decoding the encoder's own output (%s) failed: %v\n%.400q", formNames[form], err, b)
	}
	if d := diffDoc(got, t.Want); d != "" {
		x.Fail("differs", "after encode (%s) and decode: %s", formNames[form], d)
	}
}
