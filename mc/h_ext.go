package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Property{
		ID: "C17", Level: "model_checking",
		Rule: "a case is a document with extension objects and extras attached at one or at all of the 29 places that may carry them, every subset of unregistered, registered, failing and nil-returning extensions, with every JSON shape, through every container form; a state is the document text",
		Assumptions: []string{
			"values are compared as JSON values (numbers by their text), extras as generic Go values",
		},
		Harnesses: []Harness{
			{Name: "one-place", Run: extOnePlace},
			{Name: "all-places", Run: extAllPlaces},
			{Name: "two-places", Run: extTwoPlaces},
			{Name: "names", Run: extNearNames},
			{Name: "lists", Run: extLists},
			{Name: "registration", Serial: true, Run: extRegistration},
		},
	})
	register(&Property{
		ID: "C18", Level: "model_checking",
		Rule: "a case is an object with every combination of absent, zero, default and other values of its optional properties, or a document one object of which is overwritten in memory after decoding; fields are compared with the specification's defaults; a state is the JSON text",
		Assumptions: []string{
			"the OrDefault methods of node transforms treat the all-zero value as unset, as documented",
		},
		Harnesses: []Harness{
			{Name: "products", Run: defProducts},
			{Name: "decode", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				k := x.All("kind", numKinds)
				t := kindDoc(x, k, x.All("profile", 2) == 1, false)
				checkDecodeText(x, t, jstyle{defaults: x.All("defaults", 2) == 1})
			}},
			{Name: "independent", Bound: 1, BoundDeep: 2, Run: defIndependent},
			{Name: "created", Run: defCreated},
			{Name: "or-default", Run: defOrDefault},
		},
	})
	register(&Property{
		ID: "C19", Level: "model_checking",
		Rule: "a case is a document encoded by every sequence of forms, successful or made to fail at every point; the document and the spare capacity of its slices are compared with a deep copy taken before, outputs with each other and with those of the decoded copy; a state is the distinct output",
		Harnesses: []Harness{
			{Name: "per-kind", Bound: 1, BoundDeep: 2, Run: pureKinds},
			{Name: "whole", Bound: 1, BoundDeep: 1, Run: pureWhole},
			{Name: "buffers", Run: pureBuffers},
			{Name: "odd", Bound: 2, BoundDeep: 3, Run: pureOdd},
			{Name: "failing", Bound: 0, BoundDeep: 1, Run: pureFailing},
			{Name: "files", Run: pureFiles},
		},
	})
	register(&Property{
		ID: "C26", Level: "model_checking",
		Rule: "a case is a bundled extension with every combination of absent, default, zero and unusual values of its properties at each place it may appear, decoded from text, encoded in every form and decoded again; values are compared with an independent model of the KHR specification; a state is the extension's JSON text",
		Assumptions: []string{
			"extras and extensions inside extension objects other than texture infos are not represented by the library's types",
			"the all-zero texture transform scale stands for unset, as its OrDefault method documents",
		},
		Harnesses: []Harness{
			{Name: "lights", Bound: 3, BoundDeep: 5, Run: khrLights},
			{Name: "light-index", Run: khrLightIndex},
			{Name: "specular", Bound: 3, BoundDeep: 6, Run: khrSpecular},
			{Name: "transform", Run: khrTransform},
			{Name: "unlit", Run: khrUnlit},
			{Name: "together", Bound: 2, BoundDeep: 3, Run: khrTogether},
			{Name: "broken", Run: khrBroken},
		},
	})
}

// ---- C17 ----

// Extensions registered for the whole run. Calls are counted per text, which
// contains an identifier unique to the execution.
const (
	extReg  = "EXT_mc_registered"
	extReg2 = "EXT_mc_registered_2"
	extFail = "EXT_mc_failing"
	extNil  = "EXT_mc_nil"
)

var (
	extCalls sync.Map // call key -> *atomic.Int64
	extSeq   atomic.Int64
)

type regVal struct {
	kind string
	text []byte
}

func (r *regVal) MarshalJSON() ([]byte, error) { return r.text, nil }

func countCall(kind string, b []byte) {
	v, _ := extCalls.LoadOrStore(kind+":"+canonJSON(b), new(atomic.Int64))
	v.(*atomic.Int64).Add(1)
}

func init() {
	for _, k := range []string{extReg, extReg2} {
		k := k
		gltf.RegisterExtension(k, func(b []byte) (any, error) {
			countCall(k, b)
			return &regVal{k, append([]byte{}, b...)}, nil
		})
	}
	gltf.RegisterExtension(extFail, func(b []byte) (any, error) {
		countCall(extFail, b)
		return &regVal{"partial", []byte(`"partial"`)}, errors.New("factory failed")
	})
	gltf.RegisterExtension(extNil, func(b []byte) (any, error) {
		countCall(extNil, b)
		return nil, nil
	})
}

// canonJSON is the JSON value with sorted keys and untouched number texts.
func canonJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "invalid: " + string(b)
	}
	out, _ := json.Marshal(v)
	return string(out)
}

var extJSON = []string{
	`{"u":UID}`, `{"u":UID,"deep":{"a":[1,[2,{"b":null}],true]},"s":"x,,y{,}"}`, `[UID,1,2]`, `UID`, `"s UID"`,
	` { "u" : UID , "sp" : [ 1 , 2 ] } `, `{"u":UID,"n":[12345678901234567890123,1e400,-0,1.10,1E+2]}`, `{"u":UID,"html":"<a href='&'>\u2028\u00e9\ud83d\ude00\n"}`,
	`{"u":UID,"":{"":""}}`, `{"extensions":{"EXT_mc_registered":{"inner":UID}},"extras":{"u":UID}}`, `null`, `true`, `{}`, `{"u":UID,"big":"BIG"}`,
}

func extText(i int, uid int64) string {
	s := strings.ReplaceAll(extJSON[i], "UID", fmt.Sprint(uid))
	return strings.ReplaceAll(s, "BIG", strings.Repeat("z", 9000))
}

var extrasJSON = []string{``, `{"k":[1,{"z":null}],"a":"x,,y"}`, `1.5`, `"text"`, `[]`, `false`, `{}`, `{"extensions":{"EXT_mc_registered":1}}`, `0`}

// places lists every object that may carry extensions and extras: its path in
// the JSON template and how to reach the Go fields.
type extPlace struct {
	path string
	get  func(d *gltf.Document) (gltf.Extensions, any)
}

var extPlaces = []extPlace{
	{"", func(d *gltf.Document) (gltf.Extensions, any) { return d.Extensions, d.Extras }},
	{"asset", func(d *gltf.Document) (gltf.Extensions, any) { return d.Asset.Extensions, d.Asset.Extras }},
	{"accessors.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Accessors[0].Extensions, d.Accessors[0].Extras }},
	{"accessors.0.sparse", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Accessors[0].Sparse.Extensions, d.Accessors[0].Sparse.Extras
	}},
	{"accessors.0.sparse.indices", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Accessors[0].Sparse.Indices.Extensions, d.Accessors[0].Sparse.Indices.Extras
	}},
	{"accessors.0.sparse.values", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Accessors[0].Sparse.Values.Extensions, d.Accessors[0].Sparse.Values.Extras
	}},
	{"animations.0", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Animations[0].Extensions, d.Animations[0].Extras
	}},
	{"animations.0.channels.0", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Animations[0].Channels[0].Extensions, d.Animations[0].Channels[0].Extras
	}},
	{"animations.0.channels.0.target", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Animations[0].Channels[0].Target.Extensions, d.Animations[0].Channels[0].Target.Extras
	}},
	{"animations.0.samplers.0", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Animations[0].Samplers[0].Extensions, d.Animations[0].Samplers[0].Extras
	}},
	{"buffers.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Buffers[0].Extensions, d.Buffers[0].Extras }},
	{"buffers.1", func(d *gltf.Document) (gltf.Extensions, any) { return d.Buffers[1].Extensions, d.Buffers[1].Extras }},
	{"bufferViews.0", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.BufferViews[0].Extensions, d.BufferViews[0].Extras
	}},
	{"cameras.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Cameras[0].Extensions, d.Cameras[0].Extras }},
	{"cameras.0.perspective", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Cameras[0].Perspective.Extensions, d.Cameras[0].Perspective.Extras
	}},
	{"cameras.1.orthographic", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Cameras[1].Orthographic.Extensions, d.Cameras[1].Orthographic.Extras
	}},
	{"cameras.1", func(d *gltf.Document) (gltf.Extensions, any) { return d.Cameras[1].Extensions, d.Cameras[1].Extras }},
	{"images.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Images[0].Extensions, d.Images[0].Extras }},
	{"materials.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Materials[0].Extensions, d.Materials[0].Extras }},
	{"materials.0.pbrMetallicRoughness", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].PBRMetallicRoughness.Extensions, d.Materials[0].PBRMetallicRoughness.Extras
	}},
	{"materials.0.pbrMetallicRoughness.baseColorTexture", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].PBRMetallicRoughness.BaseColorTexture.Extensions, d.Materials[0].PBRMetallicRoughness.BaseColorTexture.Extras
	}},
	{"materials.0.pbrMetallicRoughness.metallicRoughnessTexture", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].PBRMetallicRoughness.MetallicRoughnessTexture.Extensions, d.Materials[0].PBRMetallicRoughness.MetallicRoughnessTexture.Extras
	}},
	{"materials.0.normalTexture", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].NormalTexture.Extensions, d.Materials[0].NormalTexture.Extras
	}},
	{"materials.0.occlusionTexture", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].OcclusionTexture.Extensions, d.Materials[0].OcclusionTexture.Extras
	}},
	{"materials.0.emissiveTexture", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Materials[0].EmissiveTexture.Extensions, d.Materials[0].EmissiveTexture.Extras
	}},
	{"meshes.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Meshes[0].Extensions, d.Meshes[0].Extras }},
	{"meshes.0.primitives.0", func(d *gltf.Document) (gltf.Extensions, any) {
		return d.Meshes[0].Primitives[0].Extensions, d.Meshes[0].Primitives[0].Extras
	}},
	{"nodes.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Nodes[0].Extensions, d.Nodes[0].Extras }},
	{"samplers.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Samplers[0].Extensions, d.Samplers[0].Extras }},
	{"scenes.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Scenes[0].Extensions, d.Scenes[0].Extras }},
	{"skins.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Skins[0].Extensions, d.Skins[0].Extras }},
	{"textures.0", func(d *gltf.Document) (gltf.Extensions, any) { return d.Textures[0].Extensions, d.Textures[0].Extras }},
	{"nodes.1", func(d *gltf.Document) (gltf.Extensions, any) { return d.Nodes[1].Extensions, d.Nodes[1].Extras }},
}

// The template: minimal and full parents; defaults are chosen so that both the
// custom marshallers' branches (values at their defaults, values elsewhere) are taken.
var extTemplates = []string{
	`{"asset":{"version":"2.0"},
"accessors":[{"componentType":5126,"count":1,"type":"SCALAR","sparse":{"count":1,"indices":{"bufferView":0,"componentType":5121},"values":{"bufferView":0}}}],
"animations":[{"channels":[{"sampler":0,"target":{"path":"scale"}}],"samplers":[{"input":0,"output":0}]}],
"buffers":[{"byteLength":1,"uri":"data:application/octet-stream;base64,AQ=="},{"byteLength":2,"uri":"data:application/octet-stream;base64,AQI="}],
"bufferViews":[{"buffer":0,"byteLength":1}],
"cameras":[{"type":"perspective","perspective":{"yfov":1,"znear":1}},{"type":"orthographic","orthographic":{"xmag":1,"ymag":1,"zfar":2,"znear":1}}],
"images":[{"uri":"a.png"}],
"materials":[{"pbrMetallicRoughness":{"baseColorTexture":{"index":0},"metallicRoughnessTexture":{"index":0}},"normalTexture":{"index":0},"occlusionTexture":{"index":0},"emissiveTexture":{"index":0}}],
"meshes":[{"primitives":[{"attributes":{"POSITION":0}}]}],
"nodes":[{},{}],"samplers":[{}],"scenes":[{}],"skins":[{"joints":[0]}],"textures":[{}]}`,
	`{"asset":{"version":"2.0","generator":"g","copyright":"c","minVersion":"2.0"},"scene":0,
"accessors":[{"componentType":5123,"count":1,"type":"VEC2","normalized":true,"bufferView":0,"byteOffset":4,"max":[1,1],"min":[0,0],"name":"n","sparse":{"count":1,"indices":{"bufferView":0,"byteOffset":4,"componentType":5121},"values":{"bufferView":0,"byteOffset":4}}}],
"animations":[{"name":"n","channels":[{"sampler":0,"target":{"node":0,"path":"scale"}}],"samplers":[{"input":0,"output":0,"interpolation":"STEP"}]}],
"buffers":[{"name":"n","byteLength":1,"uri":"data:application/octet-stream;base64,AQ=="},{"byteLength":2,"uri":"data:application/octet-stream;base64,AQI="}],
"bufferViews":[{"name":"n","buffer":0,"byteLength":1,"byteOffset":1,"byteStride":4,"target":34962}],
"cameras":[{"name":"n","type":"perspective","perspective":{"yfov":1,"znear":1,"zfar":3,"aspectRatio":2}},{"name":"n","type":"orthographic","orthographic":{"xmag":1,"ymag":1,"zfar":2,"znear":1}}],
"images":[{"name":"n","bufferView":0,"mimeType":"image/png"}],
"materials":[{"name":"n","alphaMode":"MASK","alphaCutoff":0.25,"doubleSided":true,"emissiveFactor":[1,0.5,0],"pbrMetallicRoughness":{"baseColorFactor":[0,1,1,1],"metallicFactor":0.5,"roughnessFactor":0,"baseColorTexture":{"index":0,"texCoord":1},"metallicRoughnessTexture":{"index":0,"texCoord":1}},"normalTexture":{"index":0,"scale":2,"texCoord":1},"occlusionTexture":{"index":0,"strength":0.5,"texCoord":1},"emissiveTexture":{"index":0,"texCoord":1}}],
"meshes":[{"name":"n","weights":[1],"primitives":[{"attributes":{"POSITION":0},"indices":0,"material":0,"mode":1,"targets":[{"POSITION":0}]}]}],
"nodes":[{"name":"n","children":[1],"camera":0,"mesh":0,"skin":0,"weights":[1],"matrix":[2,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]},{"rotation":[1,0,0,0],"scale":[2,1,1],"translation":[1,2,3]}],
"samplers":[{"name":"n","magFilter":9728,"minFilter":9984,"wrapS":33071,"wrapT":33648}],"scenes":[{"name":"n","nodes":[0]}],"skins":[{"name":"n","joints":[0],"skeleton":0,"inverseBindMatrices":0}],"textures":[{"name":"n","sampler":0,"source":0}]}`,
}

// at finds the object at a path of a generic JSON tree.
func at(tree any, path string) map[string]any {
	if path != "" {
		for _, p := range strings.Split(path, ".") {
			switch t := tree.(type) {
			case map[string]any:
				tree = t[p]
			case []any:
				i := int(p[0] - '0')
				if i >= len(t) {
					return nil
				}
				tree = t[i]
			}
		}
	}
	m, _ := tree.(map[string]any)
	return m
}

func numTree(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

// attached is what one place of the document carries.
type attached struct {
	place  int
	exts   map[string]string // name -> JSON text
	extras string
}

// extCheck decodes and encodes a document with these attachments.
func extCheck(x *X, tmpl int, atts []attached, form int) {
	tr, err := numTree([]byte(extTemplates[tmpl]))
	if err != nil {
		panic(err)
	}
	want := map[string]int64{}
	for _, a := range atts {
		o := at(tr, extPlaces[a.place].path)
		if len(a.exts) > 0 {
			m := map[string]any{}
			for k, v := range a.exts {
				m[k] = json.RawMessage(v)
				want[k+":"+canonJSON([]byte(v))]++
			}
			o["extensions"] = m
		}
		if a.extras != "" {
			o["extras"] = json.RawMessage(a.extras)
		}
	}
	// written without escaping or compaction of the raw texts
	text := writeRaw(tr)
	if form == formGLB {
		text = makeGLB(text, nil, false)
	}
	for k := range want {
		extCalls.Delete(k)
	}
	x.StateB(text)
	doc, err := decodeBytes(text, nil)
	if err != nil {
		x.Fail("decode-error", "decoding failed: %v\n%.800s", err, text)
	}
	for k, n := range want {
		name := k[:strings.IndexByte(k, ':')]
		if name != extReg && name != extReg2 && name != extFail && name != extNil {
			continue
		}
		c, ok := extCalls.LoadAndDelete(k)
		if !strings.Contains(k[len(name):], "9") && !ok {
			// texts without the execution's identifier may be removed by another execution
			continue
		}
		if !strings.ContainsAny(k[len(name):], "9") {
			continue
		}
		if !ok || c.(*atomic.Int64).Load() != n {
			got := int64(0)
			if ok {
				got = c.(*atomic.Int64).Load()
			}
			x.Fail("calls", "factory of %s called %d times with %.200s, want %d", name, got, k[len(name)+1:], n)
		}
	}
	extPresent(x, doc, atts, "decoding")
	out := mustEncode(x, doc, form, nil)
	js := out
	if form == formGLB {
		g, err := parseGLB(out)
		if err != nil {
			x.Fail("glb", "%v", err)
		}
		js = g.json
	}
	tr2, err := numTree(js)
	if err != nil {
		x.Fail("not-json", "%v", err)
	}
	for p := range extPlaces {
		var a *attached
		for i := range atts {
			if atts[i].place == p {
				a = &atts[i]
			}
		}
		o := at(tr2, extPlaces[p].path)
		if o == nil {
			x.Fail("lost", "object %q is missing after saving", extPlaces[p].path)
		}
		var we map[string]any
		if a != nil && len(a.exts) > 0 {
			we = map[string]any{}
			for k, v := range a.exts {
				if k == extNil {
					v = "null"
				}
				we[k], _ = numTree([]byte(v))
			}
		}
		ge, _ := o["extensions"].(map[string]any)
		if !reflect.DeepEqual(ge, we) && (len(ge) > 0 || len(we) > 0) {
			x.Fail("saved-extensions", "%q saved with extensions %.300v, want %.300v", extPlaces[p].path, ge, we)
		}
		gx, has := o["extras"]
		if a == nil || a.extras == "" {
			if has {
				x.Fail("saved-extras", "%q saved with extras %v", extPlaces[p].path, gx)
			}
			continue
		}
		wx, _ := numTree([]byte(a.extras))
		if !reflect.DeepEqual(gx, wx) {
			x.Fail("saved-extras", "%q saved with extras %v, want %v", extPlaces[p].path, gx, wx)
		}
	}
	doc, err = decodeBytes(out, nil)
	if err != nil {
		x.Fail("decode-error", "decoding what was saved: %v", err)
	}
	for i := range atts {
		if _, ok := atts[i].exts[extNil]; ok {
			// saved as null
			c := map[string]string{}
			for k, v := range atts[i].exts {
				c[k] = v
			}
			atts[i].exts = c
		}
	}
	extPresent(x, doc, atts, "saving and decoding")
	for k := range want {
		extCalls.Delete(k)
	}
}

// writeRaw writes a tree keeping raw texts byte by byte.
func writeRaw(v any) []byte {
	var b bytes.Buffer
	var w func(v any)
	w = func(v any) {
		switch v := v.(type) {
		case map[string]any:
			b.WriteByte('{')
			for i, k := range sortedKeys(v) {
				if i > 0 {
					b.WriteByte(',')
				}
				kb, _ := json.Marshal(k)
				b.Write(kb)
				b.WriteByte(':')
				w(v[k])
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i := range v {
				if i > 0 {
					b.WriteByte(',')
				}
				w(v[i])
			}
			b.WriteByte(']')
		case json.RawMessage:
			b.Write(v)
		default:
			o, _ := json.Marshal(v)
			b.Write(o)
		}
	}
	w(v)
	return b.Bytes()
}

// extPresent checks the decoded extensions and extras of every place.
func extPresent(x *X, doc *gltf.Document, atts []attached, when string) {
	for p := range extPlaces {
		var a *attached
		for i := range atts {
			if atts[i].place == p {
				a = &atts[i]
			}
		}
		e, ex := extPlaces[p].get(doc)
		path := extPlaces[p].path
		n := 0
		if a != nil {
			n = len(a.exts)
			for k, v := range a.exts {
				g, ok := e[k]
				if !ok {
					x.Fail("lost", "%s: extension %s of %q is missing", when, k, path)
				}
				switch k {
				case extReg, extReg2:
					r, ok := g.(*regVal)
					if !ok || r.kind != k || canonJSON(r.text) != canonJSON([]byte(v)) {
						x.Fail("value", "%s: extension %s of %q is %T %s, want the factory's value for %s", when, k, path, g, short(g), v)
					}
				case extNil:
					if g != nil {
						x.Fail("value", "%s: extension %s of %q is %s, want nil", when, k, path, short(g))
					}
				default:
					r, ok := g.(json.RawMessage)
					if !ok || canonJSON(r) != canonJSON([]byte(v)) {
						x.Fail("value", "%s: extension %s of %q is %T %s, want the raw JSON %s", when, k, path, g, short(g), v)
					}
				}
			}
		}
		if len(e) != n {
			x.Fail("stray", "%s: %q has extensions %v", when, path, sortedKeys(e))
		}
		var wx any
		if a != nil && a.extras != "" {
			json.Unmarshal([]byte(a.extras), &wx)
		}
		if !reflect.DeepEqual(ex, wx) {
			x.Fail("extras", "%s: %q has extras %s, want %s", when, path, short(ex), short(wx))
		}
	}
}

var extNames5 = []string{"EXT_mc_raw", extReg, extFail, extNil, extReg2}

// newUID contains a 9 so that it can be told from other digits in the texts.
func newUID() int64 { return extSeq.Add(1)*1000 + 990_000_000_000_000_000 }

func extOnePlace(x *X) {
	p := x.All("place", len(extPlaces))
	tmpl := x.All("template", 2)
	form := x.All("form", numForms)
	set := x.All("subset", 1<<len(extNames5))
	val := x.All("value", len(extJSON))
	xt := 0
	if set == 0 || val == 0 {
		xt = x.All("extras", len(extrasJSON))
	}
	if set == 0 && val != 0 {
		return
	}
	if !x.Thorough && form == formIndent && val > 1 {
		return
	}
	uid := newUID()
	a := attached{place: p, exts: map[string]string{}, extras: extrasJSON[xt]}
	for i, k := range extNames5 {
		if set&(1<<i) != 0 {
			a.exts[k] = extText((val+i)%len(extJSON), uid+int64(i))
		}
	}
	extCheck(x, tmpl, []attached{a}, form)
}

func extAllPlaces(x *X) {
	tmpl, form := x.All("template", 2), x.All("form", numForms)
	set := x.All("subset", 1<<len(extNames5))
	val := x.All("value", len(extJSON))
	xt := x.All("extras", len(extrasJSON))
	if !x.Thorough && xt > 2 && val > 2 {
		return
	}
	uid := newUID()
	var atts []attached
	for p := range extPlaces {
		a := attached{place: p, exts: map[string]string{}, extras: extrasJSON[(xt+p)%len(extrasJSON)]}
		for i, k := range extNames5 {
			if (set>>((i+p)%len(extNames5)))&1 != 0 {
				a.exts[k] = extText((val+i+p)%len(extJSON), uid+int64(p*8+i))
			}
		}
		atts = append(atts, a)
	}
	extCheck(x, tmpl, atts, form)
}

// extTwoPlaces: two objects with the same extension and different values.
func extTwoPlaces(x *X) {
	p, q := x.All("place1", len(extPlaces)), x.All("place2", len(extPlaces))
	if p >= q {
		return
	}
	form := x.All("form", 2) * 2
	k := extNames5[x.All("ext", len(extNames5))]
	uid := newUID()
	extCheck(x, x.All("template", 2), []attached{
		{place: p, exts: map[string]string{k: extText(0, uid)}, extras: extrasJSON[1]},
		{place: q, exts: map[string]string{k: extText(1, uid+1), "EXT_mc_other": extText(2, uid+2)}, extras: extrasJSON[2]},
	}, form)
}

// extNearNames: names that resemble registered ones and names of unusual shape,
// beside a registered one.
func extNearNames(x *X) {
	names := []string{"ext_mc_registered", "EXT_MC_REGISTERED", " EXT_mc_registered", "EXT_mc_registered ", "EXT_mc_registere", "EXT_mc_registered_", "EXT_mc_registered_20", "mc_registered", "EXT-mc-registered",
		"EXT_mc_registered\x00", "", " ", "a/b", "a.b", "a~0b", "\u00e9\U0001F600", "<&>", "\"q\\", "extensions", "extras", "name", "Name", "null", "0", strings.Repeat("n", 300),
		"khr_lights_punctual", "KHR_materials_Unlit", "KHR_texture_transform2", "KHR_materials_pbrSpecularGlossines"}
	p := x.All("place", len(extPlaces))
	form := x.All("form", 2) * 2
	uid := newUID()
	e := map[string]string{}
	k := x.All("name", len(names))
	e[names[k]] = extText(k%2, uid)
	switch x.All("beside", 4) {
	case 1:
		e[extReg] = extText(0, uid+1)
	case 2:
		n := 1
		if x.Thorough {
			n = x.All("name2", len(names))
		}
		e[names[(k+n)%len(names)]] = extText(1, uid+1)
	case 3:
		for i, n := range names {
			e[n] = extText(i%2, uid+int64(i))
		}
	}
	extCheck(x, x.All("template", 2), []attached{{place: p, exts: e, extras: extrasJSON[1]}}, form)
}

// extLists: extensionsUsed and extensionsRequired.
func extLists(x *X) {
	vals := []string{"KHR_a", "EXT_mc_registered", "", "z<&>é\"", "KHR_a"}
	mk := func(label string) []string {
		var l []string
		for i, n := 0, x.All(label, 5); i < n; i++ {
			l = append(l, vals[x.All(label+"[]", len(vals))])
		}
		return l
	}
	u, r := mk("used"), []string(nil)
	if len(u) < 3 {
		r = mk("required")
	} else {
		r = u[1:]
	}
	form := x.All("form", numForms)
	doc := &gltf.Document{ExtensionsUsed: u, ExtensionsRequired: r}
	b := mustEncode(x, doc, form, nil)
	x.StateB(b)
	got, err := decodeBytes(b, nil)
	if err != nil {
		x.Fail("decode-error", "%v", err)
	}
	if fmt.Sprintf("%q", got.ExtensionsUsed) != fmt.Sprintf("%q", u) || fmt.Sprintf("%q", got.ExtensionsRequired) != fmt.Sprintf("%q", r) {
		x.Fail("lists", "used %q required %q came back as %q and %q", u, r, got.ExtensionsUsed, got.ExtensionsRequired)
	}
}

var regSerial atomic.Int64

// extRegistration: histories of registering and decoding.
func extRegistration(x *X) {
	id := regSerial.Add(1)
	names := []string{fmt.Sprintf("EXT_mc_h%d_a", id), fmt.Sprintf("EXT_mc_h%d_b", id)}
	reg := map[string]int{}
	docs := []*gltf.Document{}
	type exp struct{ ver [2]int }
	var exps []exp
	depth := 4
	if x.Thorough {
		depth = 6
	}
	uid := int64(0)
	for s := 0; s < depth; s++ {
		op := x.All("op", 6)
		switch op {
		case 0, 1, 2, 3:
			k, v := names[op/2], op%2+1
			reg[k] = v
			gltf.RegisterExtension(k, func(b []byte) (any, error) {
				return &regVal{fmt.Sprint(k, v), append([]byte{}, b...)}, nil
			})
		case 4:
			uid++
			text := fmt.Sprintf(`{"asset":{"version":"2.0"},"extensions":{"%s":{"u":%d},"%s":[%d]}}`, names[0], uid, names[1], uid)
			d, err := decodeBytes([]byte(text), nil)
			if err != nil {
				x.Fail("decode-error", "%v", err)
			}
			docs = append(docs, d)
			exps = append(exps, exp{[2]int{reg[names[0]], reg[names[1]]}})
		case 5:
			if len(docs) == 0 {
				return
			}
			b := mustEncode(x, docs[0], formJSON, nil)
			var tr struct{ Extensions map[string]json.RawMessage }
			if json.Unmarshal(b, &tr) != nil || canonJSON(tr.Extensions[names[0]]) != `{"u":1}` || canonJSON(tr.Extensions[names[1]]) != `[1]` {
				x.Fail("saved-extensions", "saved as %s", b)
			}
		}
		x.State(fmt.Sprint(s, op, reg[names[0]], reg[names[1]], len(docs), exps))
	}
	for i, d := range docs {
		for j, k := range names {
			want := exps[i].ver[j]
			r, ok := d.Extensions[k].(*regVal)
			if want == 0 {
				if _, raw := d.Extensions[k].(json.RawMessage); !raw {
					x.Fail("value", "extension %s decoded before its registration is %T", k, d.Extensions[k])
				}
			} else if !ok || r.kind != fmt.Sprint(k, want) {
				x.Fail("value", "extension %s decoded with factory %d is %s", k, want, short(d.Extensions[k]))
			}
		}
	}
}

// ---- C18 ----

type defProp struct {
	key  string
	def  any   // decoded value when absent
	vals []any // values written explicitly: JSON text and what it decodes to, in pairs
	get  func(d *gltf.Document) any
}

type defObj struct {
	name   string
	wrap   string // %s receives the properties
	filler string // other properties of a full parent
	props  []defProp
}

func ptr[T any](p *T) any {
	if p == nil {
		return nil
	}
	return *p
}

var id16 = [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

var defObjs = []defObj{
	{"node", `"nodes":[{%s},{}]`, `"name":"n","children":[1],"mesh":0,"weights":[0,1],"extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"matrix", id16, []any{`[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]`, [16]float64{}, `[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]`, id16, `[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16]`, [16]float64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}},
			func(d *gltf.Document) any { return d.Nodes[0].Matrix }},
		{"rotation", [4]float64{0, 0, 0, 1}, []any{`[0,0,0,0]`, [4]float64{}, `[0,0,0,1]`, [4]float64{0, 0, 0, 1}, `[1,0,0,0]`, [4]float64{1}}, func(d *gltf.Document) any { return d.Nodes[0].Rotation }},
		{"scale", [3]float64{1, 1, 1}, []any{`[0,0,0]`, [3]float64{}, `[1,1,1]`, [3]float64{1, 1, 1}, `[1,0,1]`, [3]float64{1, 0, 1}}, func(d *gltf.Document) any { return d.Nodes[0].Scale }},
		{"translation", [3]float64{}, []any{`[0,0,0]`, [3]float64{}, `[1,0,-1]`, [3]float64{1, 0, -1}}, func(d *gltf.Document) any { return d.Nodes[0].Translation }},
		{"camera", nil, []any{`0`, 0, `3`, 3}, func(d *gltf.Document) any { return ptr(d.Nodes[0].Camera) }},
		{"skin", nil, []any{`0`, 0, `3`, 3}, func(d *gltf.Document) any { return ptr(d.Nodes[0].Skin) }},
	}},
	{"material", `"materials":[{%s},{}]`, `"name":"n","pbrMetallicRoughness":{},"normalTexture":{"index":1},"emissiveTexture":{"index":0},"extras":{},"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"alphaCutoff", 0.5, []any{`0`, 0.0, `0.5`, 0.5, `1`, 1.0}, func(d *gltf.Document) any { return ptr(d.Materials[0].AlphaCutoff) }},
		{"alphaMode", gltf.AlphaOpaque, []any{`"OPAQUE"`, gltf.AlphaOpaque, `"MASK"`, gltf.AlphaMask, `"BLEND"`, gltf.AlphaBlend}, func(d *gltf.Document) any { return d.Materials[0].AlphaMode }},
		{"doubleSided", false, []any{`false`, false, `true`, true}, func(d *gltf.Document) any { return d.Materials[0].DoubleSided }},
		{"emissiveFactor", [3]float64{}, []any{`[0,0,0]`, [3]float64{}, `[1,1,1]`, [3]float64{1, 1, 1}, `[0,0.5,0]`, [3]float64{0, 0.5, 0}}, func(d *gltf.Document) any { return d.Materials[0].EmissiveFactor }},
		{"occlusionTexture", nil, []any{`{"index":0}`, 1.0, `{"index":0,"strength":0}`, 0.0, `{"index":0,"strength":1}`, 1.0}, func(d *gltf.Document) any {
			if o := d.Materials[0].OcclusionTexture; o != nil {
				return *o.Strength
			}
			return nil
		}},
	}},
	{"pbr", `"materials":[{"pbrMetallicRoughness":{%s}},{"pbrMetallicRoughness":{}}]`, `"baseColorTexture":{"index":0},"extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"baseColorFactor", [4]float64{1, 1, 1, 1}, []any{`[0,0,0,0]`, [4]float64{}, `[1,1,1,1]`, [4]float64{1, 1, 1, 1}, `[1,1,1,0]`, [4]float64{1, 1, 1, 0}}, func(d *gltf.Document) any { return ptr(d.Materials[0].PBRMetallicRoughness.BaseColorFactor) }},
		{"metallicFactor", 1.0, []any{`0`, 0.0, `1`, 1.0, `0.5`, 0.5}, func(d *gltf.Document) any { return ptr(d.Materials[0].PBRMetallicRoughness.MetallicFactor) }},
		{"roughnessFactor", 1.0, []any{`0`, 0.0, `1`, 1.0, `0.5`, 0.5}, func(d *gltf.Document) any { return ptr(d.Materials[0].PBRMetallicRoughness.RoughnessFactor) }},
		{"metallicRoughnessTexture", nil, []any{`{"index":0}`, 0, `{"index":0,"texCoord":2}`, 2}, func(d *gltf.Document) any {
			if t := d.Materials[0].PBRMetallicRoughness.MetallicRoughnessTexture; t != nil {
				return t.TexCoord
			}
			return nil
		}},
	}},
	{"normalTexture", `"materials":[{"normalTexture":{%s}},{"normalTexture":{"index":1}}]`, `"extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"index", nil, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return ptr(d.Materials[0].NormalTexture.Index) }},
		{"scale", 1.0, []any{`0`, 0.0, `1`, 1.0, `2`, 2.0}, func(d *gltf.Document) any { return ptr(d.Materials[0].NormalTexture.Scale) }},
		{"texCoord", 0, []any{`0`, 0, `1`, 1}, func(d *gltf.Document) any { return d.Materials[0].NormalTexture.TexCoord }},
	}},
	{"occlusionTexture", `"materials":[{"occlusionTexture":{%s}},{"occlusionTexture":{"index":1}}]`, `"extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"index", nil, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return ptr(d.Materials[0].OcclusionTexture.Index) }},
		{"strength", 1.0, []any{`0`, 0.0, `1`, 1.0, `0.25`, 0.25}, func(d *gltf.Document) any { return ptr(d.Materials[0].OcclusionTexture.Strength) }},
		{"texCoord", 0, []any{`0`, 0, `1`, 1}, func(d *gltf.Document) any { return d.Materials[0].OcclusionTexture.TexCoord }},
	}},
	{"sampler", `"samplers":[{%s},{}]`, `"name":"n","extras":[],"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"magFilter", gltf.MagUndefined, []any{`9728`, gltf.MagNearest, `9729`, gltf.MagLinear}, func(d *gltf.Document) any { return d.Samplers[0].MagFilter }},
		{"minFilter", gltf.MinUndefined, []any{`9728`, gltf.MinNearest, `9729`, gltf.MinLinear, `9984`, gltf.MinNearestMipMapNearest, `9985`, gltf.MinLinearMipMapNearest, `9986`, gltf.MinNearestMipMapLinear, `9987`, gltf.MinLinearMipMapLinear}, func(d *gltf.Document) any { return d.Samplers[0].MinFilter }},
		{"wrapS", gltf.WrapRepeat, []any{`10497`, gltf.WrapRepeat, `33071`, gltf.WrapClampToEdge, `33648`, gltf.WrapMirroredRepeat}, func(d *gltf.Document) any { return d.Samplers[0].WrapS }},
		{"wrapT", gltf.WrapRepeat, []any{`10497`, gltf.WrapRepeat, `33071`, gltf.WrapClampToEdge, `33648`, gltf.WrapMirroredRepeat}, func(d *gltf.Document) any { return d.Samplers[0].WrapT }},
	}},
	{"primitive", `"meshes":[{"primitives":[{"attributes":{"POSITION":0},%s"targets":[]},{"attributes":{}}]}]`, `"extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"mode", gltf.PrimitiveTriangles, []any{`0`, gltf.PrimitivePoints, `1`, gltf.PrimitiveLines, `2`, gltf.PrimitiveLineLoop, `3`, gltf.PrimitiveLineStrip, `4`, gltf.PrimitiveTriangles, `5`, gltf.PrimitiveTriangleStrip, `6`, gltf.PrimitiveTriangleFan}, func(d *gltf.Document) any { return d.Meshes[0].Primitives[0].Mode }},
		{"indices", nil, []any{`0`, 0, `5`, 5}, func(d *gltf.Document) any { return ptr(d.Meshes[0].Primitives[0].Indices) }},
		{"material", nil, []any{`0`, 0, `5`, 5}, func(d *gltf.Document) any { return ptr(d.Meshes[0].Primitives[0].Material) }},
	}},
	{"accessor", `"accessors":[{"count":1,"type":"SCALAR","componentType":5126,%s"min":[0]},{"count":1,"type":"SCALAR","componentType":5126}]`, `"name":"n","extras":1,`, []defProp{
		{"bufferView", nil, []any{`0`, 0, `1`, 1}, func(d *gltf.Document) any { return ptr(d.Accessors[0].BufferView) }},
		{"byteOffset", 0, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return d.Accessors[0].ByteOffset }},
		{"normalized", false, []any{`false`, false, `true`, true}, func(d *gltf.Document) any { return d.Accessors[0].Normalized }},
	}},
	{"sparse", `"accessors":[{"count":9,"type":"SCALAR","componentType":5126,"sparse":{"count":2,"indices":{"bufferView":1,%s"componentType":5123},"values":{"bufferView":2}}}]`, `"extras":1,`, []defProp{
		{"byteOffset", 0, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return d.Accessors[0].Sparse.Indices.ByteOffset }},
	}},
	{"sparse-values", `"accessors":[{"count":9,"type":"SCALAR","componentType":5126,"sparse":{"count":2,"indices":{"byteOffset":8,"bufferView":1,"componentType":5123},"values":{%s"bufferView":2}}}]`, `"extras":1,`, []defProp{
		{"byteOffset", 0, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return d.Accessors[0].Sparse.Values.ByteOffset }},
	}},
	{"bufferView", `"bufferViews":[{"buffer":0,"byteLength":1,%s"name":"x"},{"buffer":0,"byteLength":1}]`, `"extras":1,`, []defProp{
		{"byteOffset", 0, []any{`0`, 0, `4`, 4}, func(d *gltf.Document) any { return d.BufferViews[0].ByteOffset }},
		{"byteStride", 0, []any{`4`, 4, `252`, 252}, func(d *gltf.Document) any { return d.BufferViews[0].ByteStride }},
		{"target", gltf.TargetNone, []any{`34962`, gltf.TargetArrayBuffer, `34963`, gltf.TargetElementArrayBuffer}, func(d *gltf.Document) any { return d.BufferViews[0].Target }},
	}},
	{"camera", `"cameras":[{"type":"perspective","perspective":{"yfov":1,"znear":0.5,%s"extras":1}},{"type":"perspective","perspective":{"yfov":1,"znear":1}}]`, ``, []defProp{
		{"aspectRatio", nil, []any{`0`, 0.0, `1.5`, 1.5}, func(d *gltf.Document) any { return ptr(d.Cameras[0].Perspective.AspectRatio) }},
		{"zfar", nil, []any{`0`, 0.0, `10`, 10.0}, func(d *gltf.Document) any { return ptr(d.Cameras[0].Perspective.Zfar) }},
	}},
	{"animation", `"animations":[{"channels":[{"sampler":0,"target":{"path":"scale"}}],"samplers":[{"input":0,%s"output":1},{"input":0,"output":0}]}]`, `"extras":1,`, []defProp{
		{"interpolation", gltf.InterpolationLinear, []any{`"LINEAR"`, gltf.InterpolationLinear, `"STEP"`, gltf.InterpolationStep, `"CUBICSPLINE"`, gltf.InterpolationCubicSpline}, func(d *gltf.Document) any { return d.Animations[0].Samplers[0].Interpolation }},
	}},
	{"target", `"animations":[{"channels":[{"sampler":0,"target":{%s"path":"weights"}}],"samplers":[]}]`, `"extras":1,`, []defProp{
		{"node", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Animations[0].Channels[0].Target.Node) }},
	}},
	{"skin", `"skins":[{"joints":[0],%s"name":"s"},{"joints":[1]}]`, `"extras":1,`, []defProp{
		{"skeleton", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Skins[0].Skeleton) }},
		{"inverseBindMatrices", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Skins[0].InverseBindMatrices) }},
	}},
	{"texture", `"textures":[{%s},{}]`, `"name":"t","extras":1,`, []defProp{
		{"sampler", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Textures[0].Sampler) }},
		{"source", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Textures[0].Source) }},
	}},
	{"emissive", `"materials":[{"emissiveTexture":{"index":2,%s"extras":1}},{}]`, ``, []defProp{
		{"texCoord", 0, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return d.Materials[0].EmissiveTexture.TexCoord }},
	}},
	{"baseColorTexture", `"materials":[{"pbrMetallicRoughness":{"baseColorTexture":{"index":2,%s"extras":1}}},{}]`, ``, []defProp{
		{"texCoord", 0, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any {
			return d.Materials[0].PBRMetallicRoughness.BaseColorTexture.TexCoord
		}},
	}},
	{"root", `%s"scenes":[{}]`, `"extras":1,`, []defProp{
		{"scene", nil, []any{`0`, 0, `2`, 2}, func(d *gltf.Document) any { return ptr(d.Scene) }},
	}},
	{"version", `"asset":{%s},"scenes":[{}]`, `"minVersion":"1.0","generator":"g","copyright":"c","extras":1,"extensions":{"EXT_mc_q":{}},`, []defProp{
		{"version", "2.0", []any{`"2.0"`, "2.0", `"2.1"`, "2.1", `"1.0"`, "1.0"}, func(d *gltf.Document) any { return d.Asset.Version }},
	}},
	{"min-version", `"asset":{%s},"scenes":[{}]`, `"version":"2.0","generator":"g","copyright":"c",`, []defProp{
		{"minVersion", "", []any{`"2.0"`, "2.0", `"1.0"`, "1.0"}, func(d *gltf.Document) any { return d.Asset.MinVersion }},
	}},
	{"asset", `%s"scenes":[{}]`, ``, []defProp{
		{"asset", "2.0", []any{`{"generator":"g"}`, "2.0", `{"version":"2.0"}`, "2.0", `{"version":"2.1"}`, "2.1"}, func(d *gltf.Document) any {
			if d.Asset.Version == "" {
				return "2.0" // no asset object at all
			}
			return d.Asset.Version
		}},
	}},
}

// fillers splits the properties of an object text.
func fillers(s string) []string {
	var out []string
	depth, from := 0, 0
	for i, c := range s {
		switch c {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[from:i])
				from = i + 1
			}
		}
	}
	return out
}

func defProducts(x *X) {
	o := defObjs[x.All("object", len(defObjs))]
	text := ""
	full := false
	for _, f := range fillers(o.filler) {
		if x.All("filler", 2) == 1 {
			text += f + ","
			full = true
		}
	}
	want := make([]any, len(o.props))
	rev := x.All("order", 2) == 1
	for k := range o.props {
		i := k
		if rev {
			i = len(o.props) - 1 - k
		}
		p := o.props[i]
		c := x.All(p.key, 1+len(p.vals)/2)
		want[i] = p.def
		if c > 0 {
			text += fmt.Sprintf("%q:%s,", p.key, p.vals[2*c-2])
			want[i] = p.vals[2*c-1]
		}
	}
	if strings.Contains(o.wrap, "{%s}") {
		text = strings.TrimSuffix(text, ",")
	}
	js := "{" + fmt.Sprintf(o.wrap, text) + "}"
	x.State(js)
	d, err := decodeBytes([]byte(js), nil)
	if err != nil {
		x.Fail("decode-error", "%s: %v", js, err)
	}
	for i, p := range o.props {
		if got := p.get(d); !reflect.DeepEqual(got, want[i]) {
			x.Fail("default", "%s.%s decoded as %v, want %v: %s", o.name, p.key, got, want[i], js)
		}
	}
	// into a document that is not empty: what the text gives must not depend on it
	if rev || !full {
		b := mustEncode(x, d, formJSON, nil)
		d2, err := decodeBytes(b, nil)
		if err != nil {
			x.Fail("decode-error", "%v", err)
		}
		for i, p := range o.props {
			w := want[i]
			if o.name == "node" && i < 3 && reflect.ValueOf(w).IsZero() {
				w = p.def // zero transforms stand for unset
			}
			if got := p.get(d2); !reflect.DeepEqual(got, w) {
				x.Fail("kept", "%s.%s is %v after saving, want %v: %s", o.name, p.key, got, w, b)
			}
		}
	}
}

// scramble overwrites everything reachable from v, including the spare capacity of slices.
func scramble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scramble(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice:
			scramble(e, seen)
		default:
			if v.CanSet() {
				v.Set(reflect.ValueOf(fmt.Sprint("scrambled", e)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := v.Slice(0, v.Cap())
		for i := 0; i < s.Len(); i++ {
			scramble(s.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scramble(e, seen)
			v.SetMapIndex(k, e)
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			// a new value each time, so that a value shared with another
			// run of the same case differs again
			if f := v.Float() + 777; f != v.Float() && !math.IsNaN(f) {
				v.SetFloat(f)
			} else {
				v.SetFloat(777)
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt((v.Int() + 77) % 100000)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 7)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled" + v.String())
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

type defaults struct {
	m [16]float64
	r [4]float64
	s [3]float64
	t [3]float64
	u [2]float64
}

func readDefaults() defaults {
	return defaults{gltf.DefaultMatrix, gltf.DefaultRotation, gltf.DefaultScale, gltf.DefaultTranslation, texturetransform.DefaultScale}
}

var specDefaults = defaults{id16, [4]float64{0, 0, 0, 1}, [3]float64{1, 1, 1}, [3]float64{}, [2]float64{1, 1}}

const khrEverything = `{"asset":{"version":"2.0"},
"extensions":{"KHR_lights_punctual":{"lights":[{"type":"point"},{"type":"spot","spot":{}},{"type":"spot","spot":{}}]}},
"nodes":[{"extensions":{"KHR_lights_punctual":{"light":0}}},{"extensions":{"KHR_lights_punctual":{"light":0}}}],
"materials":[{"extensions":{"KHR_materials_pbrSpecularGlossiness":{"diffuseTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}}},"KHR_materials_unlit":{}}},
{"extensions":{"KHR_materials_pbrSpecularGlossiness":{"diffuseTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}}},"KHR_materials_unlit":{}}},
{"pbrMetallicRoughness":{"baseColorTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}}},"normalTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}}}]}`

// defCreated: every history of up to four steps that create documents, directly
// or by decoding, and change one of them; the others stay as they were, and a
// new one is always the same.
func defCreated(x *X) {
	steps := 4
	if x.Thorough {
		steps = 5
	}
	var docs, snaps []*gltf.Document
	var first *gltf.Document
	var ptrs []any // pointers given out by Index and Float
	check := func(what string) {
		for i, d := range docs {
			if df := diffDoc(d, snaps[i]); df != "" {
				x.Fail("shared", "%s changed document %d: %s", what, i, df)
			}
		}
		for i, p := range ptrs {
			switch p := p.(type) {
			case *int:
				if *p != 0 {
					x.Fail("shared", "%s changed what Index(0) returned as number %d to %d", what, i, *p)
				}
			case *float64:
				if *p != 1 {
					x.Fail("shared", "%s changed what Float(1) returned as number %d to %v", what, i, *p)
				}
			}
		}
	}
	for i := 0; i < steps; i++ {
		k := x.All("step", 3+8*len(docs))
		what := ""
		switch {
		case k == 0:
			what = "NewDocument"
			d := gltf.NewDocument()
			if first == nil {
				first = cloneDoc(d)
			}
			if df := diffDoc(d, first); df != "" {
				x.Fail("new", "NewDocument returns something else than before: %s", df)
			}
			docs, snaps = append(docs, d), append(snaps, cloneDoc(d))
		case k == 1:
			what = "Decode"
			d, err := decodeBytes([]byte(`{"asset":{"version":"2.0"},"scene":0,"scenes":[{"name":"Root Scene","nodes":[0]}],"nodes":[{"mesh":0}]}`), nil)
			if err != nil {
				x.Fail("decode-error", "%v", err)
			}
			docs, snaps = append(docs, d), append(snaps, cloneDoc(d))
		case k == 2:
			what = "Index, Float"
			a, b := gltf.Index(0), gltf.Float(1)
			if *a != 0 || *b != 1 {
				x.Fail("new", "Index(0) points to %d, Float(1) to %v", *a, *b)
			}
			ptrs = append(ptrs, a, b)
			c, d := gltf.Index(0), gltf.Float(1)
			*c, *d = 7, 7
		default:
			n := (k - 3) / 8
			d := docs[n]
			what = fmt.Sprintf("change %d of document %d", (k-3)%8, n)
			switch (k - 3) % 8 {
			case 0:
				d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, 3)
			case 1:
				d.Scenes[0].Name = "changed"
			case 2:
				*d.Scene = 4
			case 3:
				d.Scenes = append(d.Scenes, &gltf.Scene{})
			case 4:
				d.Asset.Generator, d.Asset.Version = "changed", "3"
			case 5:
				modeler.WritePosition(d, [][3]float32{{1, 2, 3}})
			case 6:
				d.ExtensionsUsed, d.Extensions = append(d.ExtensionsUsed, "A"), gltf.Extensions{"A": 1.0}
			case 7:
				*d.Scenes[0] = gltf.Scene{Extras: 1.0}
			}
			snaps[n] = cloneDoc(d)
		}
		check(what)
		x.State(fmt.Sprint(x.choices()))
	}
}

func defIndependent(x *X) {
	var text string
	var ext map[string][]byte
	if x.All("source", 2) == 1 {
		text = khrEverything
	} else {
		k := x.All("kind", numKinds+1)
		full := x.All("profile", 2) == 1
		var t *Twin
		if k == numKinds {
			t = newTwin()
			g := &G{x: x, full: full}
			for i := 0; i < numKinds; i++ {
				g.kind(t, i, false, []int{2})
			}
		} else {
			t = newTwin()
			t.JSON["asset"] = J{"version": "2.0"}
			(&G{x: x, full: full}).kind(t, k, false, []int{2, 3, 1})
		}
		text = jstyle{defaults: x.All("defaults", 2) == 1}.String(t.JSON)
		ext = t.Ext
	}
	dec := func() *gltf.Document {
		fs := newMemFS()
		for n, d := range ext {
			fs.files[n] = d
		}
		d, err := decodeBytes([]byte(text), fs)
		if err != nil {
			x.Fail("decode-error", "%v\n%.300s", err, text)
		}
		return d
	}
	a, b := dec(), dec()
	ref := cloneDoc(b)
	if d := diffDoc(a, ref); d != "" {
		x.Fail("decode", "decoding the same text twice differs: %s", d)
	}
	// overwrite the objects of a one after the other, comparing those that were not
	type obj struct {
		name string
		v    reflect.Value
	}
	list := func(doc *gltf.Document) []obj {
		var out []obj
		dv := reflect.ValueOf(doc).Elem()
		for i := 0; i < dv.NumField(); i++ {
			f := dv.Field(i)
			n := dv.Type().Field(i).Name
			if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr {
				for j := 0; j < f.Len(); j++ {
					out = append(out, obj{fmt.Sprintf("%s[%d]", n, j), f.Index(j)})
				}
			} else {
				out = append(out, obj{n, f})
			}
		}
		return out
	}
	objs, refs := list(a), list(ref)
	backwards := x.All("order", 2) == 1
	at := func(i int) int {
		if backwards {
			return len(objs) - 1 - i
		}
		return i
	}
	for i := range objs {
		n := at(i)
		scramble(objs[n].v, map[uintptr]bool{})
		// those that are still to come
		for j := i + 1; j < len(objs); j++ {
			if d := diff(objs[at(j)].name, objs[at(j)].v, refs[at(j)].v); d != "" {
				x.Fail("shared", "modifying %s changed another object: %s", objs[n].name, d)
			}
		}
	}
	x.Step(len(objs))
	x.State(fmt.Sprint(text, backwards))
	if d := diffDoc(b, ref); d != "" {
		x.Fail("shared", "modifying one document changed another: %s", d)
	}
	if readDefaults() != specDefaults {
		bad := readDefaults()
		gltf.DefaultMatrix, gltf.DefaultRotation, gltf.DefaultScale, gltf.DefaultTranslation, texturetransform.DefaultScale = specDefaults.m, specDefaults.r, specDefaults.s, specDefaults.t, specDefaults.u
		x.Fail("constants", "modifying a document changed the package defaults: %v", bad)
	}
	if d := diffDoc(dec(), ref); d != "" {
		x.Fail("later", "modifying a document changed a later decode: %s", d)
	}
}

// defOrDefault: the OrDefault methods.
func defOrDefault(x *X) {
	vals := []*float64{nil, gltf.Float(0), gltf.Float(0.5), gltf.Float(1), gltf.Float(-2), gltf.Float(math.Inf(1)), gltf.Float(math.Copysign(0, -1)), gltf.Float(math.Pi / 4)}
	v := vals[x.All("value", len(vals))]
	or := func(d float64) float64 {
		if v == nil {
			return d
		}
		return *v
	}
	chk := func(name string, got, want any) {
		if !reflect.DeepEqual(got, want) {
			x.Fail("ordefault", "%s(%v) = %v, want %v", name, ptr(v), got, want)
		}
	}
	chk("AlphaCutoff", (&gltf.Material{AlphaCutoff: v}).AlphaCutoffOrDefault(), or(0.5))
	chk("NormalTexture.Scale", (&gltf.NormalTexture{Scale: v}).ScaleOrDefault(), or(1))
	chk("OcclusionTexture.Strength", (&gltf.OcclusionTexture{Strength: v}).StrengthOrDefault(), or(1))
	chk("Metallic", (&gltf.PBRMetallicRoughness{MetallicFactor: v}).MetallicFactorOrDefault(), or(1))
	chk("Roughness", (&gltf.PBRMetallicRoughness{RoughnessFactor: v}).RoughnessFactorOrDefault(), or(1))
	chk("Intensity", (&lightspunctual.Light{Intensity: v}).IntensityOrDefault(), or(1))
	chk("OuterCone", (&lightspunctual.Spot{OuterConeAngle: v}).OuterConeAngleOrDefault(), or(math.Pi/4))
	comp := []float64{0, 1, 0.5, -1}
	var a [4]float64
	for i := range a {
		a[i] = comp[x.All("c", 4)]
	}
	chk("BaseColor", (&gltf.PBRMetallicRoughness{BaseColorFactor: &a}).BaseColorFactorOrDefault(), a)
	chk("BaseColor nil", (&gltf.PBRMetallicRoughness{}).BaseColorFactorOrDefault(), [4]float64{1, 1, 1, 1})
	c3 := [3]float64{a[0], a[1], a[2]}
	chk("Color", (&lightspunctual.Light{Color: &c3}).ColorOrDefault(), c3)
	chk("Color nil", (&lightspunctual.Light{}).ColorOrDefault(), [3]float64{1, 1, 1})
	wr, ws, wu := a, c3, [2]float64{a[0], a[1]}
	if a == [4]float64{} {
		wr = [4]float64{0, 0, 0, 1}
	}
	if c3 == [3]float64{} {
		ws = [3]float64{1, 1, 1}
	}
	if wu == [2]float64{} {
		wu = [2]float64{1, 1}
	}
	n := &gltf.Node{Rotation: a, Scale: c3, Translation: c3}
	chk("Rotation", n.RotationOrDefault(), wr)
	chk("Scale", n.ScaleOrDefault(), ws)
	chk("Translation", n.TranslationOrDefault(), c3)
	chk("TextureTransform.Scale", (&texturetransform.TextureTranform{Scale: [2]float64{a[0], a[1]}}).ScaleOrDefault(), wu)
	var m [16]float64
	copy(m[4*x.All("col", 4):], a[:])
	wm := m
	if m == [16]float64{} {
		wm = id16
	}
	n.Matrix = m
	chk("Matrix", n.MatrixOrDefault(), wm)
	x.State(fmt.Sprint(ptr(v), a, m))
}

// ---- C19 ----

// guardSpare gives every buffer spare capacity with known content.
func guardSpare(doc *gltf.Document) {
	for i, b := range doc.Buffers {
		if b.Data == nil {
			continue
		}
		d := make([]byte, len(b.Data)+13+i)
		copy(d, b.Data)
		for j := len(b.Data); j < len(d); j++ {
			d[j] = 0xA5
		}
		b.Data = d[:len(b.Data)]
	}
}

func checkPure(x *X, doc, before *gltf.Document, when string) {
	if d := diffExact("doc", reflect.ValueOf(doc), reflect.ValueOf(before)); d != "" {
		x.Fail("modified", "%s changed the document: %s", when, d)
	}
	for i, b := range doc.Buffers {
		for j, v := range b.Data[len(b.Data):cap(b.Data)] {
			if v != 0xA5 {
				x.Fail("spare", "%s wrote byte %#x at %d past the end of buffer %d", when, v, j, i)
			}
		}
	}
}

// diffExact also tells nil from empty.
func diffExact(path string, a, b reflect.Value) string {
	if d := diff(path, a, b); d != "" {
		return d
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return path + ": not deeply equal"
	}
	return ""
}

func pureRun(x *X, doc *gltf.Document, forms []int) {
	guardSpare(doc)
	before := cloneDoc(doc)
	first := map[int][]byte{}
	files := map[int]map[string][]byte{}
	for i, f := range forms {
		fs := newMemFS()
		b := mustEncode(x, doc, f, fs)
		checkPure(x, doc, before, fmt.Sprintf("encoding %d (%s)", i, formNames[f]))
		if p, ok := first[f]; ok {
			if !bytes.Equal(p, b) {
				x.Fail("unstable", "encoding the same document again (%s) gave different bytes at %d", formNames[f], mismatch(p, b))
			}
			if !reflect.DeepEqual(files[f], fs.files) {
				x.Fail("unstable", "encoding the same document again (%s) wrote different files", formNames[f])
			}
			continue
		}
		first[f], files[f] = b, fs.files
		x.StateB(b)
		fs2 := newMemFS()
		for n, d := range fs.files {
			fs2.files[n] = d
		}
		cp, err := decodeBytes(b, fs2)
		if err != nil {
			x.Fail("decode-error", "%v", err)
		}
		fs3 := newMemFS()
		b2 := mustEncode(x, cp, f, fs3)
		if !bytes.Equal(b, b2) {
			k := mismatch(b, b2)
			x.Fail("unstable", "encoding the decoded copy (%s) gave different bytes at %d: %.60q, was %.60q", formNames[f], k, tailAt(b2, k), tailAt(b, k))
		}
		if !reflect.DeepEqual(fs3.files, fs.files) {
			x.Fail("unstable", "encoding the decoded copy (%s) wrote different files", formNames[f])
		}
	}
}

func tailAt(b []byte, i int) []byte { return b[max(0, min(i-10, len(b))):] }

func mismatch(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func pureKinds(x *X) {
	k := x.All("kind", numKinds)
	full := x.All("profile", 2) == 1
	forms := []int{x.All("form1", numForms), x.All("form2", numForms), x.All("form3", numForms)}
	pureRun(x, kindDoc(x, k, full, forms[0] == formGLB).In, forms)
}

func pureWhole(x *X) {
	full := x.All("profile", 2) == 1
	pureRun(x, wholeDoc(x, full, true).In, []int{formGLB, formJSON, formIndent, formGLB, formJSON})
}

// pureBuffers: every combination of kinds of buffers, embedded ones whose text
// is out of date included.
func pureBuffers(x *X) {
	n := x.All("buffers", 3) + 1
	doc := gltf.NewDocument()
	doc.Buffers = nil
	for i := 0; i < n; i++ {
		d := bufData([]int{1, 2, 4, 7}[x.All("length", 4)], i)
		b := &gltf.Buffer{ByteLength: len(d), Data: d}
		switch k := x.All("kind", 7); {
		case k == 0:
		case k == 1:
			b.Name, b.Extras = "n", map[string]any{"a": 1.5}
		case k == 2:
			b.URI = fmt.Sprintf("b%d.bin", i)
		case k == 3:
			b.EmbeddedResource()
		case k == 4:
			b.URI = dataURI(octet, bufData(9, i+7))
		case k == 5:
			b.URI = octet
		case k == 6:
			b.URI = octet + ",!"
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	if n == 3 { // longer sequences of forms for fewer buffers
		f := x.All("form1", numForms)
		pureRun(x, doc, []int{f, f})
		return
	}
	pureRun(x, doc, []int{x.All("form1", numForms), x.All("form2", numForms), x.All("form3", numForms)})
}

// pureOdd: documents which are not consistent are not repaired in passing.
func pureOdd(x *X) {
	lists := [][]string{nil, {"B", "A", "B"}, {}, {"", "A", ""}, {"A"}, {"C", "B", "A"}}
	list := func(name string) []string { return lists[x.Dev(name, len(lists))] }
	ints := func(name string) []int { return [][]int{nil, {1, 0, 1}, {}, {2, 1, 0}, {7, -1}}[x.Dev(name, 5)] }
	doc := &gltf.Document{ExtensionsUsed: list("used"), ExtensionsRequired: list("required")}
	doc.Asset.Version = []string{"2.0", "", "2", " 2.0"}[x.Dev("version", 4)]
	doc.Scene = []*int{nil, gltf.Index(0), gltf.Index(9), gltf.Index(-1)}[x.Dev("scene", 4)]
	doc.Scenes = []*gltf.Scene{{Nodes: ints("scene-nodes")}}
	doc.Nodes = []*gltf.Node{{Children: ints("children"), Weights: [][]float64{nil, {}, {0, 0}}[x.Dev("weights", 3)]}}
	doc.Skins = []*gltf.Skin{{Joints: ints("joints")}}
	if x.Dev("animation", 2) == 1 {
		doc.Animations = []*gltf.Animation{{}}
	}
	doc.Accessors = []*gltf.Accessor{{Count: []int{1, 0, 5}[x.Dev("count", 3)], Min: [][]float64{nil, {}, {2, 1}}[x.Dev("min", 3)], Max: [][]float64{nil, {}, {1, 0}}[x.Dev("max", 3)]}}
	doc.Meshes = []*gltf.Mesh{{Primitives: [][]*gltf.Primitive{nil, {}, {{}}, {{Attributes: gltf.PrimitiveAttributes{}}}}[x.Dev("primitives", 4)]}}
	doc.Images = []*gltf.Image{{URI: []string{"", "a b%20.png", "./x\\y.png", octet}[x.Dev("image", 4)]}}
	doc.BufferViews = []*gltf.BufferView{{Buffer: []int{0, 5}[x.Dev("view", 2)], ByteOffset: []int{0, 900}[x.Dev("offset", 2)]}}
	for i := 0; i < 3; i++ {
		n := []int{6, 300, 5001, 70001}[x.Dev("size", 4)]
		b := &gltf.Buffer{ByteLength: n, Data: bufData(n, i)}
		b.URI = []string{"", "b.bin", dataURI(octet, bufData(n, i)), dataURI(octet, bufData(9, 5)), "a b%20.bin", "./x\\y.bin", "d/%41/./b.bin"}[x.Dev("uri", 7)]
		b.ByteLength = n + []int{0, -1, 1, -n, 600}[x.Dev("byteLength", 5)]
		switch x.Dev("data", 4) {
		case 1:
			b.Data = nil
		case 2:
			b.Data = []byte{}
		case 3:
			b.Data = append(make([]byte, 0, 64), b.Data...)
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	if x.Dev("extension", 2) == 1 {
		doc.Extensions = gltf.Extensions{"A": map[string]any{}}
	}
	guardSpare(doc)
	before := cloneDoc(doc)
	form := x.All("form", numForms)
	var first []byte
	for i := 0; i < 3; i++ {
		m := newMemFS()
		b, err := encodeForm(doc, form, m)
		checkPure(x, doc, before, fmt.Sprintf("encoding %d (%s, error %v)", i, formNames[form], err))
		if i > 0 && !bytes.Equal(b, first) {
			x.Fail("unstable", "encoding the same document again (%s) gave different bytes at %d", formNames[form], mismatch(first, b))
		}
		first = b
	}
	x.StateB(first)
}

// failWriter fails at the n-th write.
type failWriter struct {
	n, count int
	short    bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.count++
	if w.count >= w.n {
		if w.short {
			return len(p) / 2, errFault
		}
		return 0, errFault
	}
	return len(p), nil
}

// pureFailing: encodes that fail somewhere must not have changed anything.
func pureFailing(x *X) {
	full := x.All("profile", 2) == 1
	form := x.All("form", numForms)
	t := wholeDoc(x, full, form == formGLB)
	doc := t.In
	for len(doc.Buffers) < 3 {
		n := len(doc.Buffers)
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 5, Data: bufData(5, n)})
	}
	doc.Buffers[1].URI, doc.Buffers[2].URI = "one.bin", "two.bin"
	broken := ""
	fs := newMemFS()
	w := &failWriter{n: 1 << 30}
	switch c := x.All("fault", 5); c {
	case 0:
		w.n, w.short = 1+x.All("write", 6), x.All("short", 2) == 1
	case 1:
		op := []string{"create", "write", "close"}[x.All("op", 3)]
		n := x.All("nth", 3)
		seen := 0
		fs.fault = func(o, _ string) faultKind {
			if o == op {
				seen++
				if seen == n+1 {
					return faultErr
				}
			}
			return faultNone
		}
	case 2:
		bad := []func(){
			func() { doc.Cameras = append(doc.Cameras, &gltf.Camera{Name: "no projection"}) },
			func() { doc.Extras = make(chan int) },
			func() { doc.Nodes = append(doc.Nodes, &gltf.Node{Extras: math.NaN()}) },
			func() { doc.Nodes = append(doc.Nodes, &gltf.Node{Scale: [3]float64{math.Inf(1), 0, 0}}) },
			func() { doc.Extensions = gltf.Extensions{"EXT_bad": json.RawMessage(`{"x":`)} },
			func() { doc.Materials = append(doc.Materials, &gltf.Material{AlphaCutoff: gltf.Float(math.NaN())}) },
			func() {
				doc.Meshes = append(doc.Meshes, &gltf.Mesh{Weights: []float64{math.NaN()}})
			},
		}
		bad[x.All("value", len(bad))]()
		broken = "value"
	case 3:
		doc.Buffers[1+x.All("buffer", 2)].URI = []string{"../up.bin", "/abs.bin", "%2e%2e/x.bin", "a/../../b.bin"}[x.All("uri", 4)]
		broken = "uri"
	case 4:
		fs = nil
	}
	guardSpare(doc)
	before := snapLoose(doc)
	var cfs gltf.CreateFS
	if fs != nil {
		cfs = fs
	}
	run := func() error {
		e := gltf.NewEncoderFS(w, cfs)
		e.AsBinary = form == formGLB
		if form == formIndent {
			e.SetJSONIndent("", " ")
		}
		return e.Encode(doc)
	}
	err := run()
	if d := looseDiff(doc, before); d != "" {
		x.Fail("modified", "a failing encode (%v) changed the document: %s", err, d)
	}
	for i, b := range doc.Buffers {
		for _, v := range b.Data[len(b.Data):cap(b.Data)] {
			if v != 0xA5 {
				x.Fail("spare", "a failing encode wrote past the end of buffer %d", i)
			}
		}
	}
	x.State(fmt.Sprint(full, form, broken, err != nil, w.count, x.choices()))
	if broken != "" {
		return
	}
	// and the next, undisturbed one gives what a fresh document gives
	fs4 := newMemFS()
	b1 := mustEncode(x, doc, form, fs4)
	fs5 := newMemFS()
	b2 := mustEncode(x, cloneDoc(doc), form, fs5)
	if !bytes.Equal(b1, b2) || !reflect.DeepEqual(fs4.files, fs5.files) {
		x.Fail("unstable", "after a failed encode the output differs at %d", mismatch(b1, b2))
	}
}

// snapLoose and looseDiff tolerate NaN and channels.
func snapLoose(d *gltf.Document) string { return dump(reflect.ValueOf(d)) }
func looseDiff(d *gltf.Document, before string) string {
	now := dump(reflect.ValueOf(d))
	if now != before {
		i := mismatch([]byte(before), []byte(now))
		return fmt.Sprintf("%.100q, was %.100q", tailAt([]byte(now), i), tailAt([]byte(before), i))
	}
	return ""
}

func dump(v reflect.Value) string {
	var b strings.Builder
	var w func(v reflect.Value)
	w = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Invalid:
			b.WriteString("invalid")
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteByte('&')
			w(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(v.Type().Field(i).Name + ":")
				w(v.Field(i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%d:%x", v.Len(), hashBytes(v.Bytes()))
				return
			}
			fallthrough
		case reflect.Array:
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				w(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			var ks []string
			m := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				ks = append(ks, fmt.Sprint(k))
				m[fmt.Sprint(k)] = v.MapIndex(k)
			}
			sort.Strings(ks)
			b.WriteString("map[")
			for _, k := range ks {
				b.WriteString(k + ":")
				w(m[k])
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Chan, reflect.Func:
			b.WriteString("ref")
		default:
			fmt.Fprint(&b, v)
		}
	}
	w(v)
	return b.String()
}

// pureFiles: Save and SaveBinary, alternating, over each other's files.
func pureFiles(x *X) {
	dir := scratch(x)
	defer os.RemoveAll(dir)
	full := x.All("profile", 2) == 1
	t := kindDoc(x, x.All("kind", numKinds), full, true)
	doc := t.In
	switch x.All("uri", 3) {
	case 1:
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: "a b.bin", ByteLength: 4, Data: bufData(4, 9)})
	case 2:
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: "no/such/dir.bin", ByteLength: 4, Data: bufData(4, 9)})
	}
	guardSpare(doc)
	before := cloneDoc(doc)
	n := 2
	if x.Thorough {
		n = 3
	}
	var prev [2]map[string]string
	for i := 0; i < n; i++ {
		bin := x.All("glb", 2)
		var err error
		if bin == 1 {
			err = gltf.SaveBinary(doc, dir+"/m")
		} else {
			err = gltf.Save(doc, dir+"/m")
		}
		checkPure(x, doc, before, fmt.Sprintf("saving (%v)", err))
		if err != nil {
			continue
		}
		now := tree(dir)
		if prev[bin] != nil && !reflect.DeepEqual(prev[bin], now) {
			x.Fail("unstable", "saving again gave different files")
		}
		prev[bin] = now
		x.State(fmt.Sprint(now))
	}
}

// ---- C26 ----

// khrDoc is a document text with extensions put in.
type khrCase struct {
	text string // the document
	path string // object carrying the extension
	name string
	want any // decoded value
	json J   // prescribed JSON
	get  func(d *gltf.Document) gltf.Extensions
	in   any // optional: a value to encode, not decoded
}

// diffJSON compares with a prescribed tree; properties equal to their default may be present.
func diffJSON(path string, got any, want any) string {
	w, ok := want.(J)
	if !ok {
		if m, ok := want.(map[string]any); ok {
			w = J(m)
		} else if a, ok := want.([]any); ok {
			g, ok := got.([]any)
			if !ok || len(g) != len(a) {
				return fmt.Sprintf("%s: got %s, want %d elements", path, short(got), len(a))
			}
			for i := range a {
				if d := diffJSON(fmt.Sprintf("%s[%d]", path, i), g[i], a[i]); d != "" {
					return d
				}
			}
			return ""
		} else {
			return diffTree(path, got, norm(want))
		}
	}
	g, ok := got.(map[string]any)
	if !ok {
		return fmt.Sprintf("%s: got %s, want an object", path, short(got))
	}
	for _, k := range sortedKeys(w) {
		if strings.HasPrefix(k, defKey) {
			continue
		}
		if _, ok := g[k]; !ok {
			return fmt.Sprintf("%s.%s: missing, want %s", path, k, short(w[k]))
		}
		if d := diffJSON(path+"."+k, g[k], w[k]); d != "" {
			return d
		}
	}
	for _, k := range sortedKeys(g) {
		if _, ok := w[k]; ok {
			continue
		}
		def, ok := w[defKey+k]
		if !ok {
			return fmt.Sprintf("%s.%s: unexpected %s", path, k, short(g[k]))
		}
		if d := diffTree(path+"."+k, g[k], norm(def)); d != "" {
			return "default " + d
		}
	}
	return ""
}

func khrRun(x *X, c *khrCase, nested ...*khrCase) {
	cases := append([]*khrCase{c}, nested...)
	x.State(c.text)
	doc, err := decodeBytes([]byte(c.text), nil)
	if err != nil {
		x.Fail("decode-error", "%v\n%s", err, c.text)
	}
	chk := func(doc *gltf.Document, when string) {
		for _, c := range cases {
			e := c.get(doc)
			v, ok := e[c.name]
			if !ok {
				x.Fail("lost", "%s: %s of %q is missing", when, c.name, c.path)
			}
			if d := diff(c.name, reflect.ValueOf(v), reflect.ValueOf(c.want)); d != "" {
				x.Fail("value", "%s: %s of %q: %s\n%.600s", when, c.name, c.path, d, c.text)
			}
		}
	}
	chk(doc, "decoding")
	before := dump(reflect.ValueOf(doc))
	for form := 0; form < numForms; form++ {
		b := mustEncode(x, doc, form, nil)
		js := b
		if form == formGLB {
			g, err := parseGLB(b)
			if err != nil {
				x.Fail("glb", "%v", err)
			}
			js = g.json
		}
		var tr any
		if err := json.Unmarshal(js, &tr); err != nil {
			x.Fail("not-json", "%v: %s", err, js)
		}
		for _, c := range cases {
			o := at(tr, c.path)
			ge, _ := o["extensions"].(map[string]any)
			if d := diffJSON(c.name, ge[c.name], c.json); d != "" {
				x.Fail("form", "saved (%s) %q: %s\n%.600s", formNames[form], c.path, d, c.text)
			}
		}
		doc2, err := decodeBytes(b, nil)
		if err != nil {
			x.Fail("decode-error", "decoding what was saved: %v", err)
		}
		chk(doc2, "saving ("+formNames[form]+") and decoding")
	}
	if dump(reflect.ValueOf(doc)) != before {
		x.Fail("modified", "saving changed the document")
	}
}

func (j J) clone() J {
	o := J{}
	for k, v := range j {
		o[k] = v
	}
	return o
}

// defVal chooses an optional property with a default: absent, default, zero or other.
func defVal[T any](x *X, label string, j J, key string, def T, vals []T) *T {
	c := x.Dev(label, len(vals)+2)
	switch {
	case c == 0:
		j[defKey+key] = def
		return &def
	case c == 1:
		j[defKey+key] = def
		// written explicitly by marking
		j[wrKey+key] = true
		return &def
	}
	v := vals[c-2]
	j[key] = v
	return &v
}

const wrKey = "\x00wr:"

// khrText writes a J: defaults only where marked.
func khrText(v any) any {
	switch v := v.(type) {
	case J:
		o := map[string]any{}
		for k, e := range v {
			switch {
			case strings.HasPrefix(k, wrKey):
			case strings.HasPrefix(k, defKey):
				if v[wrKey+strings.TrimPrefix(k, defKey)] == true {
					o[strings.TrimPrefix(k, defKey)] = khrText(e)
				}
			default:
				o[k] = khrText(e)
			}
		}
		return o
	case []any:
		o := make([]any, len(v))
		for i := range v {
			o[i] = khrText(v[i])
		}
		return o
	}
	return v
}

func text(v any) string {
	b, err := json.Marshal(khrText(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// clean removes the marks.
func clean(v any) any {
	switch v := v.(type) {
	case J:
		o := J{}
		for k, e := range v {
			if !strings.HasPrefix(k, wrKey) {
				o[k] = clean(e)
			}
		}
		return o
	case []any:
		o := make([]any, len(v))
		for i := range v {
			o[i] = clean(v[i])
		}
		return o
	case [2]float64:
		return []any{v[0], v[1]}
	case [3]float64:
		return []any{v[0], v[1], v[2]}
	case [4]float64:
		return []any{v[0], v[1], v[2], v[3]}
	}
	return v
}

func lightOf(x *X) (*lightspunctual.Light, J) {
	l, j := &lightspunctual.Light{}, J{}
	l.Type = []string{"directional", "point", "spot"}[x.Dev("type", 3)]
	j["type"] = l.Type
	if n := []string{"", "name", "<&>,,{}\"é"}[x.Dev("name", 3)]; n != "" {
		l.Name, j["name"] = n, n
	}
	l.Color = defVal(x, "color", j, "color", [3]float64{1, 1, 1}, [][3]float64{{}, {1, 1, 0}, {0.25, 1, 1}})
	l.Intensity = defVal(x, "intensity", j, "intensity", 1.0, []float64{0, 0.5, 1e9})
	switch c := x.Dev("range", 5); c {
	case 0:
		l.Range = gltf.Float(math.Inf(1))
	default:
		v := []float64{1, 0.001, 1e300, 0}[c-1]
		l.Range, j["range"] = &v, v
	}
	if l.Type == "spot" || x.Dev("spot", 2) == 1 {
		s, sj := &lightspunctual.Spot{}, J{}
		s.InnerConeAngle = *defVal(x, "inner", sj, "innerConeAngle", 0.0, []float64{0.5, 0.7})
		s.OuterConeAngle = defVal(x, "outer", sj, "outerConeAngle", math.Pi/4, []float64{0, 1, math.Pi / 2})
		l.Spot, j["spot"] = s, sj
	}
	return l, j
}

func khrLights(x *X) {
	n := []int{1, 2, 3, 40}[x.Dev("lights", 4)]
	ls := lightspunctual.Lights{}
	var arr []any
	for i := 0; i < n; i++ {
		if i >= 2 {
			ls, arr = append(ls, ls[i-2]), append(arr, arr[i-2])
			continue
		}
		l, j := lightOf(x)
		ls, arr = append(ls, l), append(arr, any(j))
	}
	lj := J{"lights": arr}
	x.Log("%s", text(lj))
	khrRun(x, &khrCase{
		text: `{"asset":{"version":"2.0"},"extensionsUsed":["KHR_lights_punctual"],"extensions":{"KHR_lights_punctual":` + text(lj) + `}}`,
		name: lightspunctual.ExtensionName, want: ls, json: clean(lj).(J),
		get: func(d *gltf.Document) gltf.Extensions { return d.Extensions },
	})
	// values built by a program: unset properties are defaults
	in := lightspunctual.Lights{}
	for i, l := range ls {
		c := *l
		if i%2 == 0 {
			if *c.Range == math.Inf(1) {
				c.Range = nil
			}
			if *c.Intensity == 1 {
				c.Intensity = nil
			}
			if *c.Color == [3]float64{1, 1, 1} {
				c.Color = nil
			}
			if c.Spot != nil && *c.Spot.OuterConeAngle == math.Pi/4 {
				c.Spot = &lightspunctual.Spot{InnerConeAngle: c.Spot.InnerConeAngle}
			}
		}
		in = append(in, &c)
	}
	khrProgram(x, &gltf.Document{Extensions: gltf.Extensions{lightspunctual.ExtensionName: in}}, lightspunctual.ExtensionName, ls,
		func(d *gltf.Document) gltf.Extensions { return d.Extensions })
}

func khrProgram(x *X, doc *gltf.Document, name string, want any, get func(d *gltf.Document) gltf.Extensions) {
	for form := 0; form < numForms; form += 2 {
		b := mustEncode(x, doc, form, nil)
		got, err := decodeBytes(b, nil)
		if err != nil {
			x.Fail("decode-error", "%v", err)
		}
		if d := diff(name, reflect.ValueOf(get(got)[name]), reflect.ValueOf(want)); d != "" {
			x.Fail("program", "value built by a program, saved and decoded: %s\n%.500s", d, b)
		}
	}
}

func khrLightIndex(x *X) {
	vals := []int{0, 1, 2, 41, 1 << 20}
	i, k := vals[x.All("index", len(vals))], vals[x.All("index2", len(vals))]
	mk := func(v int, n int) *khrCase {
		return &khrCase{path: fmt.Sprintf("nodes.%d", n), name: lightspunctual.ExtensionName, want: lightspunctual.LightIndex(v), json: J{"light": v},
			get: func(d *gltf.Document) gltf.Extensions { return d.Nodes[n].Extensions }}
	}
	a, b := mk(i, 0), mk(k, 1)
	a.text = fmt.Sprintf(`{"asset":{"version":"2.0"},"nodes":[{"extensions":{"KHR_lights_punctual":{"light":%d}}},{"name":"n","extensions":{"KHR_lights_punctual":{ "light" : %d }}}]}`, i, k)
	khrRun(x, a, b)
	khrProgram(x, &gltf.Document{Nodes: []*gltf.Node{{Extensions: gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.LightIndex(i)}}}}, lightspunctual.ExtensionName, lightspunctual.LightIndex(i),
		func(d *gltf.Document) gltf.Extensions { return d.Nodes[0].Extensions })
}

// ttOf is a texture transform.
func ttOf(x *X) (*texturetransform.TextureTranform, J) {
	t, j := &texturetransform.TextureTranform{}, J{}
	t.Offset = *defVal(x, "offset", j, "offset", [2]float64{0, 0}, [][2]float64{{0, 1}, {1, 0}, {-0.5, 2}, {1, 1}})
	t.Rotation = *defVal(x, "rotation", j, "rotation", 0.0, []float64{1.57, -1, 1})
	t.Scale = *defVal(x, "scale", j, "scale", [2]float64{1, 1}, [][2]float64{{0, 1}, {1, 0}, {-1, -1}, {2, 0.5}, {1, 1.5}})
	if c := x.Dev("texCoord", 4); c > 0 {
		v := []int{0, 1, 7}[c-1]
		t.TexCoord, j["texCoord"] = &v, v
	}
	return t, j
}

// ttAll enumerates the full product.
func khrTransform(x *X) {
	t, j := &texturetransform.TextureTranform{Scale: [2]float64{1, 1}}, J{}
	pick := func(label, key string, def any, vals ...any) any {
		c := x.All(label, len(vals)+2)
		if c < 2 {
			j[defKey+key] = def
			if c == 1 {
				j[wrKey+key] = true
			}
			return def
		}
		j[key] = vals[c-2]
		return vals[c-2]
	}
	t.Offset = pick("offset", "offset", [2]float64{}, [2]float64{0, 1}, [2]float64{1, 0}, [2]float64{1, 1}, [2]float64{-0.5, 2}).([2]float64)
	t.Rotation = pick("rotation", "rotation", 0.0, 1.57, -1.0, 1.0).(float64)
	t.Scale = pick("scale", "scale", [2]float64{1, 1}, [2]float64{0, 1}, [2]float64{1, 0}, [2]float64{2, 0.5}, [2]float64{1, 1.5}, [2]float64{11, 1}).([2]float64)
	if c := x.All("texCoord", 4); c > 0 {
		v := []int{0, 1, 7}[c-1]
		t.TexCoord, j["texCoord"] = &v, v
	}
	p := x.All("place", len(ttPlaces))
	c := ttCase(p, t, j)
	khrRun(x, c)
	in := *t
	if in.Scale == [2]float64{1, 1} {
		in.Scale = [2]float64{}
	}
	ti := &gltf.TextureInfo{Extensions: gltf.Extensions{texturetransform.ExtensionName: &in}}
	khrProgram(x, &gltf.Document{Materials: []*gltf.Material{{EmissiveTexture: ti}}}, texturetransform.ExtensionName, t,
		func(d *gltf.Document) gltf.Extensions { return d.Materials[0].EmissiveTexture.Extensions })
}

var ttPlaces = []struct {
	path, pre, post string
	get             func(m *gltf.Material) gltf.Extensions
}{
	{"pbrMetallicRoughness.baseColorTexture", `"pbrMetallicRoughness":{"baseColorTexture":`, `}`, func(m *gltf.Material) gltf.Extensions { return m.PBRMetallicRoughness.BaseColorTexture.Extensions }},
	{"pbrMetallicRoughness.metallicRoughnessTexture", `"pbrMetallicRoughness":{"metallicRoughnessTexture":`, `}`, func(m *gltf.Material) gltf.Extensions {
		return m.PBRMetallicRoughness.MetallicRoughnessTexture.Extensions
	}},
	{"normalTexture", `"normalTexture":`, ``, func(m *gltf.Material) gltf.Extensions { return m.NormalTexture.Extensions }},
	{"occlusionTexture", `"occlusionTexture":`, ``, func(m *gltf.Material) gltf.Extensions { return m.OcclusionTexture.Extensions }},
	{"emissiveTexture", `"emissiveTexture":`, ``, func(m *gltf.Material) gltf.Extensions { return m.EmissiveTexture.Extensions }},
	{"extensions.KHR_materials_pbrSpecularGlossiness.diffuseTexture", `"extensions":{"KHR_materials_pbrSpecularGlossiness":{"diffuseTexture":`, `}}`, func(m *gltf.Material) gltf.Extensions {
		return m.Extensions[specular.ExtensionName].(*specular.PBRSpecularGlossiness).DiffuseTexture.Extensions
	}},
	{"extensions.KHR_materials_pbrSpecularGlossiness.specularGlossinessTexture", `"extensions":{"KHR_materials_pbrSpecularGlossiness":{"specularGlossinessTexture":`, `}}`, func(m *gltf.Material) gltf.Extensions {
		return m.Extensions[specular.ExtensionName].(*specular.PBRSpecularGlossiness).SpecularGlossinessTexture.Extensions
	}},
}

func ttCase(p int, t *texturetransform.TextureTranform, j J) *khrCase {
	pl := ttPlaces[p]
	return &khrCase{
		text: `{"asset":{"version":"2.0"},"materials":[{},{` + pl.pre + `{"index":0,"extensions":{"KHR_texture_transform":` + text(j) + `}}` + pl.post + `}]}`,
		path: "materials.1." + pl.path, name: texturetransform.ExtensionName, want: t, json: clean(j).(J),
		get: func(d *gltf.Document) gltf.Extensions { return pl.get(d.Materials[1]) },
	}
}

func specOf(x *X, withTT bool) (*specular.PBRSpecularGlossiness, J, []*khrCase) {
	s, j := &specular.PBRSpecularGlossiness{}, J{}
	s.DiffuseFactor = defVal(x, "diffuse", j, "diffuseFactor", [4]float64{1, 1, 1, 1}, [][4]float64{{}, {1, 1, 1, 0}, {0.5, 1, 1, 1}})
	s.SpecularFactor = defVal(x, "specular", j, "specularFactor", [3]float64{1, 1, 1}, [][3]float64{{}, {1, 1, 0}, {0.5, 1, 1}})
	s.GlossinessFactor = defVal(x, "glossiness", j, "glossinessFactor", 1.0, []float64{0, 0.5, 2})
	var cases []*khrCase
	tex := func(label, key string, set func(t *gltf.TextureInfo)) {
		c := x.Dev(label, 5)
		if c == 0 {
			return
		}
		ti, tj := &gltf.TextureInfo{}, J{}
		ti.Index = []int{0, 3, 0, 1}[c-1]
		tj["index"] = ti.Index
		if c >= 3 {
			ti.TexCoord = 2
			tj["texCoord"] = 2
		} else {
			tj[defKey+"texCoord"] = 0
		}
		if e := x.Dev(label+".extras", 4); e > 0 {
			v := []any{map[string]any{"glossinessFactor": 1.0}, `"glossinessFactor":1,"diffuseFactor":[1,1,1,1],`, []any{1.0, 1.0, 1.0}}[e-1]
			ti.Extras, tj["extras"] = v, v
		}
		if c == 4 && withTT {
			t, ttj := ttOf(x)
			ti.Extensions = gltf.Extensions{texturetransform.ExtensionName: t}
			tj["extensions"] = J{texturetransform.ExtensionName: ttj}
		}
		set(ti)
		j[key] = tj
	}
	tex("diffuseTexture", "diffuseTexture", func(t *gltf.TextureInfo) { s.DiffuseTexture = t })
	tex("sgTexture", "specularGlossinessTexture", func(t *gltf.TextureInfo) { s.SpecularGlossinessTexture = t })
	return s, j, cases
}

func khrSpecular(x *X) {
	s, j, _ := specOf(x, true)
	x.Log("%s", text(j))
	khrRun(x, &khrCase{
		text: `{"asset":{"version":"2.0"},"materials":[{},{"extensions":{"KHR_materials_pbrSpecularGlossiness":` + text(j) + `}}]}`,
		path: "materials.1", name: specular.ExtensionName, want: s, json: clean(j).(J),
		get: func(d *gltf.Document) gltf.Extensions { return d.Materials[1].Extensions },
	})
	in := *s
	if *in.DiffuseFactor == [4]float64{1, 1, 1, 1} {
		in.DiffuseFactor = nil
	}
	if *in.SpecularFactor == [3]float64{1, 1, 1} {
		in.SpecularFactor = nil
	}
	if *in.GlossinessFactor == 1 {
		in.GlossinessFactor = nil
	}
	khrProgram(x, &gltf.Document{Materials: []*gltf.Material{{Extensions: gltf.Extensions{specular.ExtensionName: &in}}}}, specular.ExtensionName, s,
		func(d *gltf.Document) gltf.Extensions { return d.Materials[0].Extensions })
}

func khrUnlit(x *X) {
	vals := []string{`{}`, `{"a":1}`, `{"a":{"b":[1,2,"x,,y"]},"c":null}`, `{"extras":{"k":1},"extensions":{"X":{}}}`}
	v := vals[x.All("value", len(vals))]
	var raws map[string]json.RawMessage
	json.Unmarshal([]byte(v), &raws)
	want := unlit.Unlit{}
	for k, e := range raws {
		want[k] = e
	}
	var tr map[string]any
	json.Unmarshal([]byte(v), &tr)
	khrRun(x, &khrCase{
		text: `{"asset":{"version":"2.0"},"materials":[{"name":"m"},{"extensions":{"KHR_materials_unlit":` + v + `}}]}`,
		path: "materials.1", name: unlit.ExtensionName, want: &want, json: J(tr),
		get: func(d *gltf.Document) gltf.Extensions { return d.Materials[1].Extensions },
	})
	if x.All("program", 2) == 1 {
		khrProgram(x, &gltf.Document{Materials: []*gltf.Material{{Extensions: gltf.Extensions{unlit.ExtensionName: unlit.Unlit{}}}}}, unlit.ExtensionName, &unlit.Unlit{},
			func(d *gltf.Document) gltf.Extensions { return d.Materials[0].Extensions })
	}
}

// khrTogether: several bundled extensions in one document.
func khrTogether(x *X) {
	s, sj, _ := specOf(x, true)
	t, tj := ttOf(x)
	l, lj := lightOf(x)
	get := func(i int) func(d *gltf.Document) gltf.Extensions {
		return func(d *gltf.Document) gltf.Extensions { return d.Materials[i].Extensions }
	}
	u := &unlit.Unlit{}
	cs := []*khrCase{
		{path: "materials.0", name: specular.ExtensionName, want: s, json: clean(sj).(J), get: get(0)},
		{path: "materials.0", name: unlit.ExtensionName, want: u, json: J{}, get: get(0)},
		{path: "materials.1.normalTexture", name: texturetransform.ExtensionName, want: t, json: clean(tj).(J), get: func(d *gltf.Document) gltf.Extensions { return d.Materials[1].NormalTexture.Extensions }},
		{path: "", name: lightspunctual.ExtensionName, want: lightspunctual.Lights{l}, json: J{"lights": []any{clean(lj)}}, get: func(d *gltf.Document) gltf.Extensions { return d.Extensions }},
		{path: "nodes.0", name: lightspunctual.ExtensionName, want: lightspunctual.LightIndex(0), json: J{"light": 0}, get: func(d *gltf.Document) gltf.Extensions { return d.Nodes[0].Extensions }},
	}
	cs[0].text = `{"asset":{"version":"2.0"},"extensions":{"KHR_lights_punctual":{"lights":[` + text(lj) + `]}},"nodes":[{"extensions":{"KHR_lights_punctual":{"light":0}}}],
"materials":[{"extensions":{"KHR_materials_unlit":{},"KHR_materials_pbrSpecularGlossiness":` + text(sj) + `}},{"normalTexture":{"index":0,"extensions":{"KHR_texture_transform":` + text(tj) + `}}}]}`
	khrRun(x, cs[0], cs[1:]...)
}

// khrBroken: extension objects of the wrong shape decode to something that can be saved again.
func khrBroken(x *X) {
	names := []string{lightspunctual.ExtensionName, specular.ExtensionName, texturetransform.ExtensionName, unlit.ExtensionName}
	vals := []string{`null`, `{}`, `[]`, `5`, `"s"`, `true`, `{"lights":5}`, `{"lights":[]}`, `{"lights":[null]}`, `{"lights":null}`, `{"light":null}`, `{"light":"x"}`, `{"light":-1}`, `{"light":1.5}`,
		`{"lights":[{"type":"spot"}]}`, `{"lights":[{"type":"point","color":[1]}]}`, `{"lights":[{"type":"point","color":null,"intensity":null,"range":null,"spot":null}]}`, `{"lights":[{"range":1e400}]}`, `{"lights":[{}],"light":3}`,
		`{"diffuseFactor":null}`, `{"diffuseFactor":[1,1]}`, `{"glossinessFactor":"x"}`, `{"diffuseTexture":null}`, `{"diffuseTexture":{}}`, `{"scale":null,"offset":null}`, `{"scale":[1]}`, `{"scale":[1,1,1]}`, `{"texCoord":-1}`, `{"rotation":null}`,
		`{"lights":[{"type":"spot","spot":{"innerConeAngle":null,"outerConeAngle":null}}]}`, `{"specularFactor":{},"glossinessFactor":[]}`, `{"offset":[0,0],"scale":[-0.0,0]}`}
	n := names[x.All("name", len(names))]
	v := vals[x.All("value", len(vals))]
	p := x.All("place", 3)
	wrap := []string{`{"asset":{"version":"2.0"},"extensions":{%q:%s}}`, `{"asset":{"version":"2.0"},"materials":[{"extensions":{%q:%s}}]}`, `{"asset":{"version":"2.0"},"nodes":[{"extensions":{%q:%s}}]}`}[p]
	text := fmt.Sprintf(wrap, n, v)
	x.State(text)
	doc, err := decodeBytes([]byte(text), nil)
	if err != nil {
		return
	}
	get := func(d *gltf.Document) gltf.Extensions {
		switch p {
		case 0:
			return d.Extensions
		case 1:
			return d.Materials[0].Extensions
		}
		return d.Nodes[0].Extensions
	}
	e := get(doc)
	if _, ok := e[n]; !ok {
		x.Fail("lost", "%s is missing after decoding %s", n, text)
	}
	for form := 0; form < numForms; form++ {
		b, err := encodeForm(doc, form, nil)
		if err != nil {
			x.Fail("encode-error", "%s decodes but cannot be saved: %v", text, err)
		}
		d2, err := decodeBytes(b, nil)
		if err != nil {
			x.Fail("decode-error", "%s: what was saved cannot be decoded: %v", text, err)
		}
		if _, ok := get(d2)[n]; !ok {
			x.Fail("lost", "%s is missing after saving %s", n, text)
		}
		if raw, ok := e[n].(json.RawMessage); ok {
			r2, ok := get(d2)[n].(json.RawMessage)
			if !ok || canonJSON(r2) != canonJSON(raw) {
				x.Fail("value", "%s kept as raw JSON became %s", text, short(get(d2)[n]))
			}
		}
	}
}
