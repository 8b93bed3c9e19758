//go:build c21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/mcs"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	schedOps = makeSchedOps()
	p := &Property{
		ID: "C21", Level: "model_checking",
		Rule:        "an execution is one schedule of two or three goroutines running real library operations, one at a time, over a copy of the library in which every statement and every synchronisation operation is a scheduling point; schedules are enumerated up to the preemption bound (each statement counts a bounded number of times per goroutine); every schedule is monitored by the race detector, whose view excludes the scheduler's own ordering, and every result is compared with the one the operation gives alone; a state is the vector of goroutine positions at a scheduling point",
		Assumptions: []string{"context switches happen at statement starts, synchronisation operations and user callbacks of the library; the Go memory model's weaker behaviours are covered by the absence of data races", "the standard library is run unmodified between scheduling points"},
		Parallel:    true,
	}
	for i := range schedOps {
		i := i
		p.Harnesses = append(p.Harnesses, Harness{Name: "pair-" + schedOps[i].name, Serial: true, Bound: 1, BoundDeep: 1,
			Run: func(x *X) {
				per := 3
				if x.Thorough {
					per = 40
				}
				j := i + x.All("other", len(schedOps)-i)
				runSched(x, per, i, j)
			}})
	}
	for i := range schedOps {
		i := i
		p.Harnesses = append(p.Harnesses, Harness{Name: "sync-" + schedOps[i].name, Serial: true, Bound: 2, BoundDeep: 4,
			Run: func(x *X) {
				j := i + x.All("other", len(schedOps)-i)
				runSched(x, 0, i, j)
			}})
	}
	for i := range schedTriples {
		t := schedTriples[i]
		p.Harnesses = append(p.Harnesses, Harness{Name: fmt.Sprintf("triple-%d", i), Serial: true, Bound: 2, BoundDeep: 3,
			Run: func(x *X) { runSched(x, 0, opNamed(t[0]), opNamed(t[1]), opNamed(t[2])) }})
	}
	for i := range schedOps {
		i := i
		p.Harnesses = append(p.Harnesses, Harness{Name: "deep-" + schedOps[i].name, Serial: true, ThoroughOnly: true, Bound: 2, BoundDeep: 2,
			Run: func(x *X) {
				j := i + x.All("other", len(schedOps)-i)
				runSched(x, 1, i, j)
			}})
	}
	raceBuild = mcs.RaceEnabled
	register(p)
}

// ---- fixtures ----

const (
	schedKey  = "EXT_mc_sched"
	schedKey2 = "EXT_mc_other"
)

type extA struct{ S string }
type extB struct{ S string }

func factoryA(b []byte) (any, error) {
	mcs.Callback("factory A")
	return &extA{string(b)}, nil
}

func factoryB(b []byte) (any, error) {
	mcs.Callback("factory B")
	return &extB{string(b)}, nil
}

// nestFactory decodes the extensions inside the extension.
func nestFactory(b []byte) (any, error) {
	mcs.Callback("nested factory")
	var v struct {
		Extensions gltf.Extensions `json:"extensions"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	return v.Extensions, nil
}

type schedEnv struct {
	doc     *gltf.Document // shared
	text    []byte         // shared JSON text
	glb     []byte
	extText []byte
}

const schedJSON = `{"asset":{"version":"2.0"},"extensionsUsed":["KHR_lights_punctual","KHR_materials_unlit","KHR_texture_transform","KHR_materials_pbrSpecularGlossiness"],
"extensions":{"KHR_lights_punctual":{"lights":[{"type":"spot","spot":{"outerConeAngle":0.5}},{"type":"point","intensity":0}]}},
"accessors":[{"componentType":5126,"type":"SCALAR","count":1,"extras":{"a":[1,{"b":null}]}}],
"buffers":[{"byteLength":3,"uri":"data:application/octet-stream;base64,AQID"}],
"bufferViews":[{"buffer":0,"byteLength":3}],
"cameras":[{"type":"perspective","perspective":{"yfov":1,"znear":0.1}}],
"images":[{"uri":"data:image/png;base64,AQI="}],"samplers":[{}],
"textures":[{"sampler":0,"source":0}],
"materials":[{"pbrMetallicRoughness":{"baseColorTexture":{"index":0,"extensions":{"KHR_texture_transform":{"offset":[0.5,0]}}}},"normalTexture":{"index":0},"occlusionTexture":{"index":0},"extensions":{"KHR_materials_unlit":{}}},
{"extensions":{"KHR_materials_pbrSpecularGlossiness":{"diffuseTexture":{"index":0,"extensions":{"KHR_texture_transform":{"texCoord":1}}}}}}],
"meshes":[{"primitives":[{"attributes":{"POSITION":0},"targets":[{"NORMAL":0}]}],"weights":[1]}],
"nodes":[{"mesh":0,"extensions":{"KHR_lights_punctual":{"light":0}}},{"rotation":[0,1,0,0]},{"matrix":[2,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]}],
"animations":[{"channels":[{"sampler":0,"target":{"node":0,"path":"weights"}}],"samplers":[{"input":0,"output":0}]}],
"skins":[{"joints":[0]}],"scene":0,"scenes":[{"nodes":[0,1]}]}`

const schedExtJSON = `{"asset":{"version":"2.0","extensions":{"` + schedKey + `":{"n":0}}},"scenes":[{"extensions":{"` + schedKey + `":{"n":1}}}],
"nodes":[{"extensions":{"EXT_mc_nest":{"extensions":{"` + schedKey + `":{"n":2}}}}}],"extensions":{"` + schedKey + `":{"n":3}}}`

func newSchedEnv() *schedEnv {
	e := &schedEnv{text: []byte(schedJSON), extText: []byte(schedExtJSON)}
	d := gltf.NewDocument()
	data := make([]byte, 256)
	for i := range data {
		data[i] = byte(i * 7)
	}
	// indices used by the sparse accessor
	copy(data[200:], []byte{1, 3})
	for i := 0; i < 12; i++ {
		data[2+i*4], data[3+i*4] = byte(i), 0x3f
	}
	d.Buffers = []*gltf.Buffer{{ByteLength: 256, Data: data}, {ByteLength: 4, Data: []byte{9, 8, 7, 6}}, {ByteLength: 5, Data: []byte{1, 2, 3, 4, 5}, URI: "x%20y.bin"}}
	d.Buffers[1].EmbeddedResource()
	view := func(off, n, stride int) int {
		d.BufferViews = append(d.BufferViews, &gltf.BufferView{ByteOffset: off, ByteLength: n, ByteStride: stride})
		return len(d.BufferViews) - 1
	}
	acr := func(c gltf.ComponentType, t gltf.AccessorType, n, v int, norm bool) {
		a := &gltf.Accessor{ComponentType: c, Type: t, Count: n, Normalized: norm}
		if v >= 0 {
			a.BufferView = gltf.Index(v)
		}
		d.Accessors = append(d.Accessors, a)
	}
	acr(gltf.ComponentFloat, gltf.AccessorVec3, 4, view(0, 64, 16), false) // 0 positions
	acr(gltf.ComponentUshort, gltf.AccessorScalar, 5, view(64, 10, 0), false)
	acr(gltf.ComponentUbyte, gltf.AccessorVec4, 3, view(80, 12, 0), true)
	acr(gltf.ComponentUshort, gltf.AccessorVec2, 3, view(92, 12, 0), true)
	acr(gltf.ComponentFloat, gltf.AccessorMat4, 1, view(0, 64, 0), false)
	acr(gltf.ComponentFloat, gltf.AccessorVec3, 4, -1, false) // 5 sparse
	d.Accessors[5].Sparse = &gltf.Sparse{Count: 2, Indices: gltf.SparseIndices{BufferView: view(200, 2, 0), ComponentType: gltf.ComponentUbyte},
		Values: gltf.SparseValues{BufferView: view(0, 24, 0)}}
	acr(gltf.ComponentFloat, gltf.AccessorVec4, 2, view(0, 32, 0), false)
	acr(gltf.ComponentUbyte, gltf.AccessorVec3, 3, view(80, 12, 0), false)
	d.Images = []*gltf.Image{{MimeType: "image/png", URI: "data:image/png;base64,AQI="}, {Name: "v", MimeType: "image/png", BufferView: gltf.Index(0)}}
	d.Samplers = []*gltf.Sampler{{}}
	d.Textures = []*gltf.Texture{{Sampler: gltf.Index(0), Source: gltf.Index(0)}}
	d.Materials = []*gltf.Material{
		{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorTexture: &gltf.TextureInfo{Extensions: gltf.Extensions{"KHR_texture_transform": &texturetransform.TextureTranform{Offset: [2]float64{1, 2}}}}, MetallicFactor: gltf.Float(1)},
			NormalTexture: &gltf.NormalTexture{Index: gltf.Index(0), Scale: gltf.Float(1)}, OcclusionTexture: &gltf.OcclusionTexture{Index: gltf.Index(0)}, Extensions: gltf.Extensions{"KHR_materials_unlit": &unlit.Unlit{}}},
		{Extensions: gltf.Extensions{"KHR_materials_pbrSpecularGlossiness": &specular.PBRSpecularGlossiness{GlossinessFactor: gltf.Float(0.5)}}, AlphaCutoff: gltf.Float(0.5)},
	}
	d.Extensions = gltf.Extensions{"KHR_lights_punctual": lightspunctual.Lights{{Type: "point", Intensity: gltf.Float(2)}, {Type: "spot", Spot: &lightspunctual.Spot{}}}}
	d.Cameras = []*gltf.Camera{{Perspective: &gltf.Perspective{Yfov: 1, Znear: 0.1}}}
	d.Meshes = []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: gltf.PrimitiveAttributes{"POSITION": 0}, Indices: gltf.Index(1), Material: gltf.Index(0)}}, Extras: map[string]any{"k": 1.5}}}
	d.Nodes = []*gltf.Node{{Mesh: gltf.Index(0), Extensions: gltf.Extensions{"KHR_lights_punctual": lightspunctual.LightIndex(1)}}, {Translation: [3]float64{1, 2, 3}, Extensions: gltf.Extensions{"EXT_raw": json.RawMessage(`{"z": [1]}`)}}}
	d.Animations = []*gltf.Animation{{Channels: []*gltf.AnimationChannel{{Target: gltf.AnimationChannelTarget{Node: gltf.Index(0), Path: gltf.TRSRotation}}}, Samplers: []*gltf.AnimationSampler{{}}}}
	d.Scene = gltf.Index(0)
	d.Scenes[0].Nodes = []int{0, 1}
	d.Asset.Version = "" // the encoder supplies it
	e.doc = d
	e.glb = makeGLB([]byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":6},{"byteLength":3,"uri":"e.bin"}]}`), []byte{1, 2, 3, 4, 5, 6, 0, 0}, true)
	return e
}

// yieldFS is a private file system whose calls are scheduling points.
type yieldFS struct{ m map[string]*bytes.Buffer }

type yieldFile struct {
	*bytes.Buffer
	r *bytes.Reader
}

func (f *yieldFile) Write(b []byte) (int, error) {
	mcs.Callback("file write")
	return f.Buffer.Write(b)
}
func (f *yieldFile) Read(b []byte) (int, error) { mcs.Callback("file read"); return f.r.Read(b) }
func (f *yieldFile) Close() error               { mcs.Callback("file close"); return nil }
func (f *yieldFile) Stat() (fs.FileInfo, error) { return nil, fs.ErrInvalid }

func (y *yieldFS) Create(name string) (io.WriteCloser, error) {
	mcs.Callback("create")
	b := &bytes.Buffer{}
	y.m[name] = b
	return &yieldFile{Buffer: b}, nil
}

func (y *yieldFS) Open(name string) (fs.File, error) {
	mcs.Callback("open")
	b, ok := y.m[name]
	if !ok {
		return nil, fs.ErrNotExist
	}
	return &yieldFile{Buffer: b, r: bytes.NewReader(b.Bytes())}, nil
}

type yieldReader struct{ r *bytes.Reader }

func (y *yieldReader) Read(b []byte) (int, error) {
	mcs.Callback("read")
	if len(b) > 64 {
		b = b[:64+len(b)/4]
	}
	return y.r.Read(b)
}

// ---- operations ----

type schedOp struct {
	name string
	run  func(e *schedEnv) []any
	// check decides results that depend on other operations
	check func(x *X, all []schedRes, me int)
}

type schedRes struct {
	op         int
	start, end int
	out        []any
	err        string
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func decodeText(b []byte) *gltf.Document {
	d := new(gltf.Document)
	must(gltf.NewDecoder(&yieldReader{bytes.NewReader(b)}).Decode(d))
	return d
}

func reg(key string, f func([]byte) (any, error)) func(e *schedEnv) []any {
	return func(e *schedEnv) []any { gltf.RegisterExtension(key, f); return nil }
}

func readOp(i int) func(e *schedEnv) []any {
	return func(e *schedEnv) []any {
		v, err := modeler.ReadAccessor(e.doc, e.doc.Accessors[i], nil)
		return []any{v, errText(err)}
	}
}

var schedOps []schedOp

func makeSchedOps() []schedOp {
	return []schedOp{
		{name: "register-a", run: reg(schedKey, factoryA)},
		{name: "register-b", run: reg(schedKey, factoryB)},
		{name: "register-other", run: reg(schedKey2, factoryA)},
		{name: "decode-ext", run: func(e *schedEnv) []any { return extsOf(decodeText(e.extText)) }, check: checkExts},
		{name: "register-decode", run: func(e *schedEnv) []any {
			gltf.RegisterExtension(schedKey, factoryA)
			return extsOf(decodeText(e.extText))
		}, check: checkExts},
		{name: "decode", run: func(e *schedEnv) []any { return []any{decodeText(e.text)} }},
		{name: "decode-change", run: func(e *schedEnv) []any {
			d := decodeText(e.text)
			scribble(reflect.ValueOf(d), 0)
			d2 := decodeText(e.text)
			return []any{d2}
		}},
		{name: "decode-glb", run: func(e *schedEnv) []any {
			d := new(gltf.Document)
			y := &yieldFS{m: map[string]*bytes.Buffer{"e.bin": bytes.NewBuffer([]byte{7, 8, 9})}}
			must(gltf.NewDecoderFS(bytes.NewReader(e.glb), y).Decode(d))
			return []any{d}
		}},
		{name: "encode-json", run: func(e *schedEnv) []any { return encodeTo(e.doc, false, false) }},
		{name: "encode-glb", run: func(e *schedEnv) []any { return encodeTo(e.doc, true, false) }},
		{name: "encode-indent", run: func(e *schedEnv) []any { return encodeTo(e.doc, false, true) }},
		{name: "read-strided", run: readOp(0)},
		{name: "read-sparse", run: readOp(5)},
		{name: "read-positions", run: func(e *schedEnv) []any {
			a, err := modeler.ReadPosition(e.doc, e.doc.Accessors[0], nil)
			b, err2 := modeler.ReadPosition(e.doc, e.doc.Accessors[5], make([][3]float32, 2))
			return []any{a, b, errText(err), errText(err2)}
		}},
		{name: "read-converted", run: func(e *schedEnv) []any {
			a, err := modeler.ReadIndices(e.doc, e.doc.Accessors[1], nil)
			b, err2 := modeler.ReadTextureCoord(e.doc, e.doc.Accessors[3], nil)
			return []any{a, b, errText(err), errText(err2)}
		}},
		{name: "read-colors", run: func(e *schedEnv) []any {
			a, err := modeler.ReadColor(e.doc, e.doc.Accessors[2], nil)
			b, err2 := modeler.ReadColor64(e.doc, e.doc.Accessors[2], nil)
			return []any{a, b, errText(err), errText(err2)}
		}},
		{name: "read-skin", run: func(e *schedEnv) []any {
			a, err := modeler.ReadJoints(e.doc, e.doc.Accessors[2], nil)
			b, err2 := modeler.ReadWeights(e.doc, e.doc.Accessors[6], nil)
			c, err3 := modeler.ReadInverseBindMatrices(e.doc, e.doc.Accessors[4], nil)
			return []any{a, b, c, errText(err), errText(err2), errText(err3)}
		}},
		{name: "read-vectors", run: func(e *schedEnv) []any {
			a, err := modeler.ReadNormal(e.doc, e.doc.Accessors[0], nil)
			b, err2 := modeler.ReadTangent(e.doc, e.doc.Accessors[6], nil)
			c, err3 := modeler.ReadBufferView(e.doc, e.doc.BufferViews[1])
			_, err4 := modeler.ReadIndices(e.doc, &gltf.Accessor{ComponentType: gltf.ComponentUint, Count: 3, BufferView: gltf.Index(99)}, nil)
			return []any{a, b, append([]byte{}, c...), errText(err), errText(err2), errText(err3), err4 != nil}
		}},
		{name: "read-image", run: func(e *schedEnv) []any {
			a, err := e.doc.Images[0].MarshalData()
			return []any{a, errText(err), e.doc.Images[0].IsEmbeddedResource(), e.doc.Buffers[1].IsEmbeddedResource()}
		}},
		{name: "defaults", run: func(e *schedEnv) []any {
			m := e.doc.Materials
			n := e.doc.Nodes[0]
			return []any{m[0].PBRMetallicRoughness.MetallicFactorOrDefault(), m[0].PBRMetallicRoughness.BaseColorFactorOrDefault(), m[0].NormalTexture.ScaleOrDefault(), m[0].OcclusionTexture.StrengthOrDefault(),
				m[1].AlphaCutoffOrDefault(), n.MatrixOrDefault(), n.RotationOrDefault(), n.ScaleOrDefault(), gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec3), gltf.ComponentUshort.String(), gltf.AccessorMat4.String()}
		}},
		{name: "write", run: func(e *schedEnv) []any {
			d := gltf.NewDocument()
			i := modeler.WriteIndices(d, []uint16{1, 2, 3})
			p := modeler.WritePosition(d, [][3]float32{{1, 2, 3}, {-1, 0, 5}})
			c := modeler.WriteColor(d, [][4]uint8{{1, 2, 3, 4}})
			at, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: "POSITION", Data: [][3]float32{{1, 1, 1}}}, modeler.PrimitiveAttribute{Name: "COLOR_0", Data: [][4]uint8{{9, 9, 9, 9}}})
			img, err2 := modeler.WriteImage(d, "i", "image/png", &yieldReader{bytes.NewReader([]byte{1, 2, 3})})
			return []any{d, i, p, c, at, img, errText(err), errText(err2)}
		}},
		{name: "round-trip", run: func(e *schedEnv) []any {
			d := gltf.NewDocument()
			d.Buffers = []*gltf.Buffer{{ByteLength: 5, Data: []byte{1, 2, 3, 4, 5}, URI: "own.bin"}}
			y := &yieldFS{m: map[string]*bytes.Buffer{}}
			var out bytes.Buffer
			must(gltf.NewEncoderFS(&out, y).Encode(d))
			d2 := new(gltf.Document)
			must(gltf.NewDecoderFS(&out, y).Decode(d2))
			return []any{d2}
		}},
	}
}

var schedTriples = [][3]string{
	{"register-a", "register-b", "decode-ext"},
	{"register-a", "decode-ext", "decode-ext"},
	{"register-decode", "register-b", "decode"},
	{"read-sparse", "read-sparse", "read-positions"},
	{"read-positions", "read-converted", "read-colors"},
	{"read-skin", "read-vectors", "read-positions"},
	{"encode-json", "encode-glb", "read-sparse"},
	{"decode", "register-a", "encode-json"},
	{"decode-change", "decode", "defaults"},
	{"write", "read-positions", "round-trip"},
	{"register-a", "register-b", "register-decode"},
	{"register-a", "register-other", "decode-ext"},
	{"register-other", "register-other", "register-decode"},
	{"read-sparse", "read-converted", "register-a"},
}

func opNamed(n string) int {
	for i := range schedOps {
		if schedOps[i].name == n {
			return i
		}
	}
	panic(n)
}

func encodeTo(d *gltf.Document, bin, indent bool) []any {
	y := &yieldFS{m: map[string]*bytes.Buffer{}}
	f := &yieldFile{Buffer: &bytes.Buffer{}}
	e := gltf.NewEncoderFS(f, y)
	e.AsBinary = bin
	if indent {
		e.SetJSONIndent("", " ")
	}
	err := e.Encode(d)
	files := map[string][]byte{}
	for n, b := range y.m {
		files[n] = b.Bytes()
	}
	return []any{f.Buffer.Bytes(), files, errText(err)}
}

// scribble changes everything that can be reached from a decoded document.
func scribble(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), depth+1)
		}
	case reflect.Float64, reflect.Float32:
		if v.CanSet() {
			v.SetFloat(77)
		}
	case reflect.Int, reflect.Uint8, reflect.Uint16:
		if v.CanSet() {
			if v.CanInt() {
				v.SetInt(55)
			} else {
				v.SetUint(55)
			}
		}
	}
}

// extsOf lists the extension values of the text of schedExtJSON.
func extsOf(d *gltf.Document) []any {
	nest, _ := d.Nodes[0].Extensions["EXT_mc_nest"].(gltf.Extensions)
	return []any{d.Asset.Extensions[schedKey], d.Scenes[0].Extensions[schedKey], nest[schedKey], d.Extensions[schedKey]}
}

// checkExts: each extension object of a decode is what some registration in
// force between its start and its end gives.
func checkExts(x *X, all []schedRes, me int) {
	allowed := map[string]bool{}
	type ev struct {
		kind       string
		start, end int
	}
	var evs []ev
	start := all[me].start
	if schedOps[all[me].op].name == "register-decode" {
		// its own registration comes first
		evs = append(evs, ev{"A", all[me].start, all[me].start})
		start++
	}
	for i, r := range all {
		if i == me {
			continue
		}
		switch schedOps[r.op].name {
		case "register-a":
			evs = append(evs, ev{"A", r.start, r.end})
		case "register-b":
			evs = append(evs, ev{"B", r.start, r.end})
		case "register-decode":
			evs = append(evs, ev{"A", r.start, r.end})
		}
	}
	allowed["raw"] = true
	for _, e := range evs {
		if e.end < start {
			allowed["raw"] = false
		}
	}
	for _, e := range evs {
		if e.start > all[me].end {
			continue
		}
		gone := false
		for _, f := range evs {
			if f.start > e.end && f.end < start && f.kind != e.kind {
				gone = true
			}
		}
		if !gone {
			allowed[e.kind] = true
		}
	}
	for n, v := range all[me].out {
		kind, text := "", ""
		switch v := v.(type) {
		case json.RawMessage:
			kind, text = "raw", string(v)
		case *extA:
			kind, text = "A", v.S
		case *extB:
			kind, text = "B", v.S
		default:
			x.Fail("result", "extension %d decoded to %T", n, v)
		}
		if text != fmt.Sprintf(`{"n":%d}`, n) {
			x.Fail("result", "extension %d was given %q", n, text)
		}
		if !allowed[kind] {
			x.Fail("order", "extension %d decoded as %s, allowed %v", n, kind, allowed)
		}
	}
}

// ---- running ----

// chooser connects the scheduler to the explorer.
type chooser struct {
	x     *X
	bound int
}

func (c *chooser) Full() bool { return c.x.cost >= c.bound }

func (c *chooser) Ahead() int {
	n := 0
	for i := len(c.x.pts); i < len(c.x.prefix); i++ {
		if c.x.prefix[i] != 0 {
			return n
		}
		n++
	}
	return 1 << 40
}

func (c *chooser) Point(label string, n int, dev bool) int {
	if dev {
		return c.x.Dev(label, n)
	}
	return c.x.All(label, n)
}

func (c *chooser) At(h uint64) { c.x.h.addState(h) }

var (
	schedOnce   sync.Once
	schedExpect [][]any
)

func prepareSched() {
	gltf.RegisterExtension("EXT_mc_nest", nestFactory)
	mcs.Checkpoint()
	for i := range schedOps {
		mcs.Restore()
		schedExpect = append(schedExpect, nil)
		for k := 0; k < 2; k++ { // the second time with the caches of the standard library warm
			mcs.Restore()
			schedExpect[i] = schedOps[i].run(newSchedEnv())
		}
	}
	mcs.Restore()
}

func runSched(x *X, perSite int, ops ...int) {
	schedOnce.Do(prepareSched)
	mcs.Restore()
	env := newSchedEnv()
	results := make([]*schedRes, len(ops))
	fns := make([]func(), len(ops))
	for i, o := range ops {
		i, o := i, o
		r := &schedRes{op: o}
		results[i] = r
		fns[i] = func() {
			r.start = mcs.Now()
			r.out = schedOps[o].run(env)
			r.end = mcs.Now()
		}
	}
	races := mcs.Races()
	names := make([]string, len(ops))
	for i, o := range ops {
		names[i] = schedOps[o].name
	}
	if mcs.Uncontrolled != "" {
		runFree(fns)
	} else {
		res := mcs.Run(&chooser{x, x.h.bound}, perSite, fns)
		switch {
		case res.Deadlock != "":
			x.Fail("deadlock", "deadlock of %v: %s", names, res.Deadlock)
		case res.Panic != "":
			x.Fail("panic", "%v: %s", names, res.Panic)
		case res.Livelock:
			panic(divergence{"more steps than explored"})
		}
	}
	if n := mcs.Races(); n != races {
		x.Fail("race", "data race between %v\n%s", names, raceReport())
	}
	all := make([]schedRes, len(ops))
	for i := range results {
		all[i] = *results[i]
	}
	for i, o := range ops {
		if schedOps[o].check != nil {
			schedOps[o].check(x, all, i)
			continue
		}
		if !reflect.DeepEqual(all[i].out, schedExpect[o]) {
			x.Fail("result", "%s run with %v returned %s, alone %s", schedOps[o].name, names, brief(all[i].out), brief(schedExpect[o]))
		}
	}
	if mcs.Uncontrolled != "" {
		return
	}
	// afterwards: every registration is in force, and each operation still
	// gives its result
	after := schedRes{op: opNamed("decode-ext"), start: mcs.Now() + 1<<30, end: mcs.Now() + 1<<30}
	after.out = extsOf(decodeText(env.extText))
	other := json.RawMessage(nil)
	d := decodeText([]byte(`{"asset":{"version":"2.0"},"extensions":{"` + schedKey2 + `":{"o":1}}}`))
	if v, ok := d.Extensions[schedKey2].(json.RawMessage); ok {
		other = v
	}
	for i, o := range ops {
		if schedOps[o].name == "register-other" && other != nil {
			x.Fail("lost", "registration of %s is not in force after %v", schedKey2, names)
		}
		heavy := strings.HasPrefix(schedOps[o].name, "decode") || strings.HasPrefix(schedOps[o].name, "encode")
		if schedOps[o].check == nil && (i == 0 || ops[i-1] != o) && (!heavy || x.Thorough) {
			if out := schedOps[o].run(env); !reflect.DeepEqual(out, schedExpect[o]) {
				x.Fail("later", "%s run after %v returned %s, alone %s", schedOps[o].name, names, brief(out), brief(schedExpect[o]))
			}
		}
	}
	checkExts(x, append(all, after), len(all))
}

// runFree runs the operations on plain goroutines.
func runFree(fns []func()) {
	for k := 0; k < 50; k++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		wg.Wait()
	}
}

func brief(v []any) string {
	s := ""
	for _, e := range v {
		if d, ok := e.(*gltf.Document); ok {
			b, _ := json.Marshal(d)
			e = string(b)
		}
		s += fmt.Sprintf("%v ", e)
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// raceReport returns the last report of the race detector.
func raceReport() string {
	p := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			p = strings.TrimPrefix(f, "log_path=")
		}
	}
	b, err := os.ReadFile(p + "." + fmt.Sprint(os.Getpid()))
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	_ = filepath.Base(p)
	return s
}
