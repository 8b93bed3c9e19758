package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
)

// J is a JSON object as the glTF 2.0 schema prescribes it. It is written by
// hand next to the Go value it corresponds to, and shares no code with the
// library: together they are the two halves of the reference model.
type J map[string]any

// defKey marks a property that equals its glTF default: an encoder must omit
// it, a decoder must accept it written out.
const defKey = "\x00def:"

// G builds a document and its JSON twin, asking the explorer for every field.
type G struct {
	x    *X
	full bool // default answers: every property present
	zero bool // default answers of numbers: zero
}

func (g *G) dev(label string, n int) int { return g.x.Dev(label, n) }

// rot maps a decision so that 0 is the profile's default: absent (sparse) or
// the first real value (full).
func (g *G) rot(label string, n int) int {
	c := g.dev(label, n)
	if g.full {
		switch c {
		case 0:
			return 1
		case 1:
			return 0
		}
	}
	return c
}

// num is rot for numbers, zi being the answer that stands for a present zero.
func (g *G) num(label string, n, zi int) int {
	if !g.zero {
		return g.rot(label, n)
	}
	switch c := g.dev(label, n); c {
	case 0:
		return zi
	case zi:
		return 0
	default:
		return c
	}
}

var longStr = strings.Repeat("long-näme ", 40)

var strVals = []string{"", "n", "a\"b\\c/\n\t\x01[]{}{,,}: null,\"scale\":[1,1] [ ]", "<>&\u2028é漢😀", longStr, "null", strings.Repeat("x", 4090), " x ./y%20z ", "0"}

func (g *G) str(label string, j J, key string) string {
	c := g.rot(label, len(strVals))
	s := strVals[c]
	if c == 1 {
		s = "v" + label
	}
	if s != "" {
		j[key] = s
	}
	return s
}

var intVals = []int{0, 3, 1, -1, 255, 256, 65536, 1 << 31, 1<<53 + 1}

// idx is an optional index (pointer): absent, or any value including 0.
func (g *G) idx(label string, j J, key string) *int {
	c := g.num(label, len(intVals)+1, len(intVals))
	if c == 0 {
		return nil
	}
	v := intVals[len(intVals)-c] // 1 -> a large one ... last -> 0
	if c == 1 {
		v = 2
	}
	j[key] = v
	return gltf.Index(v)
}

// int0 is an optional integer whose default is 0.
func (g *G) int0(label string, j J, key string) int {
	v := intVals[g.rot(label, len(intVals))]
	if v != 0 {
		j[key] = v
	} else {
		j[defKey+key] = 0
	}
	return v
}

// reqInt is a required integer.
func (g *G) reqInt(label string, j J, key string) int {
	v := intVals[g.dev(label, len(intVals))]
	j[key] = v
	return v
}

// floatVals includes values next to the defaults and values that float32 cannot represent.
var floatVals = []float64{0.25, 0, 1, 0.5, -1.5, -1, 2, 1 + 1e-9, 1 - 1e-15, 0.5 - 1e-9, 1e21, 1e-7, -1e-12, 123456.789, 16777217, math.MaxFloat64, 5e-324}

// nearDefault is every array that differs from def in one component, slightly or clearly,
// and the arrays that look like def in some aggregate (same sum, all negated, swapped, ...).
func nearDefault(def []float64) (out [][]float64) {
	mk := func(f func(v []float64)) {
		v := append([]float64(nil), def...)
		f(v)
		for _, o := range append(out, def) {
			if fmt.Sprint(o) == fmt.Sprint(v) {
				return
			}
		}
		for _, x := range v {
			if x != 0 {
				out = append(out, v)
				return
			}
		}
	}
	for i := range def {
		mk(func(v []float64) { v[i] += 1e-9 })
		mk(func(v []float64) { v[i]++ })
		mk(func(v []float64) { v[i]-- })
	}
	for i := range def { // all zero but one
		mk(func(v []float64) {
			for k := range v {
				v[k] = 0
			}
			v[i] = 1
		})
	}
	mk(func(v []float64) {
		for k := range v {
			v[k] = -v[k]
		}
	})
	mk(func(v []float64) { v[0], v[len(v)-1] = v[0]+1, v[len(v)-1]-1 })
	mk(func(v []float64) { v[0], v[len(v)-1] = v[0]-0.5, v[len(v)-1]+0.5 })
	mk(func(v []float64) {
		for k := range v {
			v[k] = 2
		}
	})
	mk(func(v []float64) {
		for k := range v {
			v[k] = -1
		}
	})
	if vals := []float64{-1, 0, 1, 2}[:7-min(len(def), 4)]; len(def) <= 4 {
		all := 1
		for range def {
			all *= len(vals)
		}
		for i := 0; i < all; i++ { // every array of small whole numbers
			mk(func(v []float64) {
				for k, r := 0, i; k < len(v); k, r = k+1, r/len(vals) {
					v[k] = vals[r%len(vals)]
				}
			})
		}
	}
	return
}

var nearMatrix, nearRotation, nearScale, nearTranslation, nearColor = nearDefault(identity[:]), nearDefault([]float64{0, 0, 0, 1}),
	nearDefault([]float64{1, 1, 1}), nearDefault([]float64{0, 0, 0}), nearDefault([]float64{1, 1, 1, 1})

func (g *G) reqFloat(label string, j J, key string) float64 {
	c := g.dev(label, len(floatVals))
	if g.zero && c < 2 {
		c = 1 - c
	}
	v := floatVals[c]
	j[key] = v
	return v
}

// optFloat has no default: absent or a value.
func (g *G) optFloat(label string, j J, key string) *float64 {
	c := g.num(label, len(floatVals)+1, 2)
	if c == 0 {
		return nil
	}
	v := floatVals[c-1]
	j[key] = v
	return &v
}

// defFloat is optional with default d; want is what a decoder returns.
func (g *G) defFloat(label string, j J, key string, d float64) (in, want *float64) {
	c := g.num(label, len(floatVals)+1, 2)
	if c == 0 {
		j[defKey+key] = d
		return nil, gltf.Float(d)
	}
	v := floatVals[c-1]
	if v == d {
		j[defKey+key] = d
	} else {
		j[key] = v
	}
	return gltf.Float(v), gltf.Float(v)
}

func anyFloats(v []float64) []any {
	out := make([]any, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

func anyInts(v []int) []any {
	out := make([]any, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

var listLens = []int{0, 2, 1, 5, 17, 130}

func (g *G) floats(label string, j J, key string) []float64 {
	n := listLens[g.rot(label, len(listLens))]
	if n == 0 {
		return nil
	}
	v := make([]float64, n)
	for i := range v {
		v[i] = floatVals[(i+len(label))%len(floatVals)] + float64(i)
	}
	j[key] = anyFloats(v)
	return v
}

func (g *G) ints(label string, j J, key string, required bool) []int {
	var n int
	if required {
		n = []int{1, 2, 5, 17, 130}[g.dev(label, 5)]
	} else {
		n = listLens[g.rot(label, len(listLens))]
	}
	if n == 0 {
		return nil
	}
	v := make([]int, n)
	for i := range v {
		v[i] = (n - i) * 7 % 11 // unsorted, with repetitions and zeros
		if i%5 == 4 {
			v[i] += 300
		}
	}
	j[key] = anyInts(v)
	return v
}

func (g *G) strs(label string, j J, key string) []string {
	n := []int{0, 2, 1, 9}[g.rot(label, 4)]
	if n == 0 {
		return nil
	}
	v := make([]string, n)
	a := make([]any, n)
	for i := range v {
		v[i] = fmt.Sprintf("EXT_%s_%d", label, n-i)
		a[i] = v[i]
	}
	j[key] = a
	return v
}

func (g *G) boolean(label string, j J, key string) bool {
	v := g.rot(label, 2) == 1
	if v {
		j[key] = true
	} else {
		j[defKey+key] = false
	}
	return v
}

type typedExtra struct {
	A int      `json:"a"`
	B []string `json:"b"`
}

func (g *G) extras(label string, j J) (in, want any) {
	switch g.rot(label+".extras", 13) {
	case 0:
		return nil, nil
	case 1:
		in, want = map[string]any{"k": "v", "n": 1.5}, map[string]any{"k": "v", "n": 1.5}
	case 2:
		in, want = 1.5, 1.5
	case 3:
		in, want = "s,,\"<>{,}", "s,,\"<>{,}"
	case 4:
		in, want = []any{1.0, nil, map[string]any{}}, []any{1.0, nil, map[string]any{}}
	case 5:
		in, want = false, false
	case 6:
		in, want = typedExtra{7, []string{"x"}}, map[string]any{"a": 7.0, "b": []any{"x"}}
	case 7:
		in, want = json.RawMessage(` {"r" : [ 1 ]}`), map[string]any{"r": []any{1.0}}
	case 8:
		in, want = "", ""
	case 9:
		in, want = map[string]any{}, map[string]any{}
	case 10:
		in, want = []any{}, []any{}
	case 11:
		in, want = 0, 0.0
	case 12:
		m := func() any {
			return map[string]any{"extensions": map[string]any{"a": nil}, "extras": []any{true, -0.5, "é<&>\n"}, "name": "", "": 1e300, "uri": "./a%20b"}
		}
		in, want = m(), m()
	}
	j["extras"] = want
	return
}

func raw(s string) json.RawMessage { return json.RawMessage(s) }

func (g *G) exts(label string, j J) (in, want gltf.Extensions) {
	switch g.rot(label+".extensions", 7) {
	case 0:
		return nil, nil
	case 1:
		j["extensions"] = J{"EXT_mc_one": map[string]any{"a": []any{1.0, 2.0}}}
		return gltf.Extensions{"EXT_mc_one": raw(`{"a":[1,2]}`)}, gltf.Extensions{"EXT_mc_one": raw(`{"a":[1,2]}`)}
	case 2:
		j["extensions"] = J{"EXT_mc_one": map[string]any{}, "EXT_mc_two": []any{"x,,y", "<&>"}}
		return gltf.Extensions{"EXT_mc_one": raw(`{}`), "EXT_mc_two": raw(`["x,,y","<&>"]`)},
			gltf.Extensions{"EXT_mc_one": raw(`{}`), "EXT_mc_two": raw(`["x,,y","<&>"]`)}
	case 3:
		j["extensions"] = J{"EXT_mc_three": map[string]any{"z": 1.0}}
		return gltf.Extensions{"EXT_mc_three": map[string]any{"z": 1}}, gltf.Extensions{"EXT_mc_three": raw(`{"z":1}`)}
	case 4:
		j["extensions"] = J{"EXT_mc_num": 5.0}
		return gltf.Extensions{"EXT_mc_num": raw(`5`)}, gltf.Extensions{"EXT_mc_num": raw(`5`)}
	case 5:
		j["extensions"] = J{"EXT_mc_t": map[string]any{"a": 7.0, "b": []any{"x"}}}
		return gltf.Extensions{"EXT_mc_t": &typedExtra{7, []string{"x"}}}, gltf.Extensions{"EXT_mc_t": raw(`{"a":7,"b":["x"]}`)}
	case 6:
		in, want = gltf.Extensions{}, gltf.Extensions{}
		ej := J{}
		for i := 0; i < 20; i++ {
			k := fmt.Sprintf("EXT_mc_many_%d", i)
			in[k], want[k] = raw(fmt.Sprintf(`{"i":%d}`, i)), raw(fmt.Sprintf(`{"i":%d}`, i))
			ej[k] = map[string]any{"i": float64(i)}
		}
		j["extensions"] = ej
		return
	}
	return
}

// ---- objects ----

func (g *G) asset() (in, want gltf.Asset, j J) {
	j = J{}
	in.Extensions, want.Extensions = g.exts("asset", j)
	in.Extras, want.Extras = g.extras("asset", j)
	in.Copyright = g.str("asset.copyright", j, "copyright")
	in.Generator = g.str("asset.generator", j, "generator")
	in.MinVersion = g.str("asset.minVersion", j, "minVersion")
	in.Version = []string{"2.0", "", "2.1"}[g.dev("asset.version", 3)]
	want.Copyright, want.Generator, want.MinVersion, want.Version = in.Copyright, in.Generator, in.MinVersion, in.Version
	if in.Version == "" {
		want.Version = "2.0"
	}
	j["version"] = want.Version
	return
}

var compCodes = []struct {
	c    gltf.ComponentType
	code int
	size int
}{{gltf.ComponentByte, 5120, 1}, {gltf.ComponentUbyte, 5121, 1}, {gltf.ComponentShort, 5122, 2},
	{gltf.ComponentUshort, 5123, 2}, {gltf.ComponentUint, 5125, 4}, {gltf.ComponentFloat, 5126, 4}}

var accTypes = []struct {
	t     gltf.AccessorType
	name  string
	comps int
}{{gltf.AccessorScalar, "SCALAR", 1}, {gltf.AccessorVec2, "VEC2", 2}, {gltf.AccessorVec3, "VEC3", 3}, {gltf.AccessorVec4, "VEC4", 4},
	{gltf.AccessorMat2, "MAT2", 4}, {gltf.AccessorMat3, "MAT3", 9}, {gltf.AccessorMat4, "MAT4", 16}}

func (g *G) accessor() (in, want *gltf.Accessor, j J) {
	in, j = &gltf.Accessor{}, J{}
	w := &gltf.Accessor{}
	in.Extensions, w.Extensions = g.exts("accessor", j)
	in.Extras, w.Extras = g.extras("accessor", j)
	in.Name = g.str("accessor.name", j, "name")
	in.BufferView = g.idx("accessor.bufferView", j, "bufferView")
	in.ByteOffset = g.int0("accessor.byteOffset", j, "byteOffset")
	c := compCodes[g.dev("accessor.componentType", 6)]
	in.ComponentType, j["componentType"] = c.c, c.code
	in.Normalized = g.boolean("accessor.normalized", j, "normalized")
	in.Count = g.reqInt("accessor.count", j, "count")
	t := accTypes[g.dev("accessor.type", 7)]
	in.Type, j["type"] = t.t, t.name
	in.Max = g.floats("accessor.max", j, "max")
	in.Min = g.floats("accessor.min", j, "min")
	if g.rot("accessor.sparse", 2) == 1 {
		sj, ij, vj := J{}, J{}, J{}
		s, ws := &gltf.Sparse{}, &gltf.Sparse{}
		s.Extensions, ws.Extensions = g.exts("sparse", sj)
		s.Extras, ws.Extras = g.extras("sparse", sj)
		s.Count = g.reqInt("sparse.count", sj, "count")
		s.Indices.Extensions, ws.Indices.Extensions = g.exts("sparse.indices", ij)
		s.Indices.Extras, ws.Indices.Extras = g.extras("sparse.indices", ij)
		s.Indices.BufferView = g.reqInt("sparse.indices.bufferView", ij, "bufferView")
		s.Indices.ByteOffset = g.int0("sparse.indices.byteOffset", ij, "byteOffset")
		ic := compCodes[[]int{1, 3, 4}[g.dev("sparse.indices.componentType", 3)]]
		s.Indices.ComponentType, ij["componentType"] = ic.c, ic.code
		s.Values.Extensions, ws.Values.Extensions = g.exts("sparse.values", vj)
		s.Values.Extras, ws.Values.Extras = g.extras("sparse.values", vj)
		s.Values.BufferView = g.reqInt("sparse.values.bufferView", vj, "bufferView")
		s.Values.ByteOffset = g.int0("sparse.values.byteOffset", vj, "byteOffset")
		ws.Count = s.Count
		ws.Indices.BufferView, ws.Indices.ByteOffset, ws.Indices.ComponentType = s.Indices.BufferView, s.Indices.ByteOffset, s.Indices.ComponentType
		ws.Values.BufferView, ws.Values.ByteOffset = s.Values.BufferView, s.Values.ByteOffset
		sj["indices"], sj["values"] = ij, vj
		j["sparse"] = sj
		in.Sparse, w.Sparse = s, ws
	}
	w.Name, w.BufferView, w.ByteOffset, w.ComponentType, w.Normalized = in.Name, in.BufferView, in.ByteOffset, in.ComponentType, in.Normalized
	w.Count, w.Type, w.Max, w.Min = in.Count, in.Type, in.Max, in.Min
	return in, w, j
}

func (g *G) bufferView() (in, want *gltf.BufferView, j J) {
	in, want, j = &gltf.BufferView{}, &gltf.BufferView{}, J{}
	in.Extensions, want.Extensions = g.exts("bufferView", j)
	in.Extras, want.Extras = g.extras("bufferView", j)
	in.Buffer = g.reqInt("bufferView.buffer", j, "buffer")
	in.ByteOffset = g.int0("bufferView.byteOffset", j, "byteOffset")
	in.ByteLength = g.reqInt("bufferView.byteLength", j, "byteLength")
	if v := []int{0, 4, 12, 252}[g.rot("bufferView.byteStride", 4)]; v != 0 {
		in.ByteStride, j["byteStride"] = v, v
	}
	if t := []gltf.Target{0, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}[g.rot("bufferView.target", 3)]; t != 0 {
		in.Target, j["target"] = t, map[gltf.Target]int{gltf.TargetArrayBuffer: 34962, gltf.TargetElementArrayBuffer: 34963}[t]
	}
	in.Name = g.str("bufferView.name", j, "name")
	want.Buffer, want.ByteOffset, want.ByteLength, want.ByteStride, want.Target, want.Name = in.Buffer, in.ByteOffset, in.ByteLength, in.ByteStride, in.Target, in.Name
	return
}

func (g *G) scene() (in, want *gltf.Scene, j J) {
	in, want, j = &gltf.Scene{}, &gltf.Scene{}, J{}
	in.Extensions, want.Extensions = g.exts("scene", j)
	in.Extras, want.Extras = g.extras("scene", j)
	in.Name = g.str("scene.name", j, "name")
	in.Nodes = g.ints("scene.nodes", j, "nodes", false)
	want.Name, want.Nodes = in.Name, in.Nodes
	return
}

var identity = [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

func (g *G) node() (in, want *gltf.Node, j J) {
	in, want, j = &gltf.Node{}, &gltf.Node{}, J{}
	in.Extensions, want.Extensions = g.exts("node", j)
	in.Extras, want.Extras = g.extras("node", j)
	in.Name = g.str("node.name", j, "name")
	in.Camera = g.idx("node.camera", j, "camera")
	in.Children = g.ints("node.children", j, "children", false)
	in.Skin = g.idx("node.skin", j, "skin")
	in.Mesh = g.idx("node.mesh", j, "mesh")
	in.Weights = g.floats("node.weights", j, "weights")
	want.Name, want.Camera, want.Children, want.Skin, want.Mesh, want.Weights = in.Name, in.Camera, in.Children, in.Skin, in.Mesh, in.Weights
	want.Matrix, want.Rotation, want.Scale = identity, [4]float64{0, 0, 0, 1}, [3]float64{1, 1, 1}
	switch c := g.rot("node.matrix", 6+len(nearMatrix)); c {
	case 0: // unset (zero value)
		j[defKey+"matrix"] = anyFloats(identity[:])
	case 2: // explicit default
		in.Matrix = identity
		j[defKey+"matrix"] = anyFloats(identity[:])
	default:
		m := identity
		switch c {
		case 1:
			for i := range m {
				m[i] = float64(i) + 0.5
			}
		case 3:
			m[15] = 2
		case 4:
			m = [16]float64{0: 1}
		case 5:
			m[12] = -3
		default:
			m = [16]float64(nearMatrix[c-6])
		}
		in.Matrix, want.Matrix, j["matrix"] = m, m, anyFloats(m[:])
	}
	switch c := g.rot("node.rotation", 6+len(nearRotation)); c {
	case 0:
		j[defKey+"rotation"] = []any{0, 0, 0, 1}
	case 2:
		in.Rotation = [4]float64{0, 0, 0, 1}
		j[defKey+"rotation"] = []any{0, 0, 0, 1}
	default:
		var r [4]float64
		if c < 6 {
			r = [][4]float64{1: {0.5, -0.5, 0.5, 0.5}, 3: {1, 0, 0, 0}, 4: {0, 0, 0, -1}, 5: {0, 0, 0, 0.5}}[c]
		} else {
			r = [4]float64(nearRotation[c-6])
		}
		in.Rotation, want.Rotation, j["rotation"] = r, r, anyFloats(r[:])
	}
	switch c := g.rot("node.scale", 6+len(nearScale)); c {
	case 0:
		j[defKey+"scale"] = []any{1, 1, 1}
	case 2:
		in.Scale = [3]float64{1, 1, 1}
		j[defKey+"scale"] = []any{1, 1, 1}
	default:
		var r [3]float64
		if c < 6 {
			r = [][3]float64{1: {2, 0.5, -1}, 3: {0, 0, 1}, 4: {1, 1, 2}, 5: {1, 0, 0}}[c]
		} else {
			r = [3]float64(nearScale[c-6])
		}
		in.Scale, want.Scale, j["scale"] = r, r, anyFloats(r[:])
	}
	switch c := g.rot("node.translation", 5+len(nearTranslation)); c {
	case 0:
		j[defKey+"translation"] = []any{0, 0, 0}
	default:
		var r [3]float64
		if c < 5 {
			r = [][3]float64{1: {1, 2, 3}, 2: {0, 0, 1e-9}, 3: {-5, 0, 0}, 4: {0, 1, 0}}[c]
		} else {
			r = [3]float64(nearTranslation[c-5])
		}
		in.Translation, want.Translation, j["translation"] = r, r, anyFloats(r[:])
	}
	return
}

func (g *G) skin() (in, want *gltf.Skin, j J) {
	in, want, j = &gltf.Skin{}, &gltf.Skin{}, J{}
	in.Extensions, want.Extensions = g.exts("skin", j)
	in.Extras, want.Extras = g.extras("skin", j)
	in.Name = g.str("skin.name", j, "name")
	in.InverseBindMatrices = g.idx("skin.inverseBindMatrices", j, "inverseBindMatrices")
	in.Skeleton = g.idx("skin.skeleton", j, "skeleton")
	in.Joints = g.ints("skin.joints", j, "joints", true)
	want.Name, want.InverseBindMatrices, want.Skeleton, want.Joints = in.Name, in.InverseBindMatrices, in.Skeleton, in.Joints
	return
}

func (g *G) camera() (in, want *gltf.Camera, j J) {
	in, want, j = &gltf.Camera{}, &gltf.Camera{}, J{}
	in.Extensions, want.Extensions = g.exts("camera", j)
	in.Extras, want.Extras = g.extras("camera", j)
	in.Name = g.str("camera.name", j, "name")
	want.Name = in.Name
	pj := J{}
	if g.dev("camera.kind", 2) == 0 {
		p, w := &gltf.Perspective{}, &gltf.Perspective{}
		p.Extensions, w.Extensions = g.exts("perspective", pj)
		p.Extras, w.Extras = g.extras("perspective", pj)
		p.AspectRatio = g.optFloat("perspective.aspectRatio", pj, "aspectRatio")
		p.Yfov = g.reqFloat("perspective.yfov", pj, "yfov")
		p.Zfar = g.optFloat("perspective.zfar", pj, "zfar")
		p.Znear = g.reqFloat("perspective.znear", pj, "znear")
		w.AspectRatio, w.Yfov, w.Zfar, w.Znear = p.AspectRatio, p.Yfov, p.Zfar, p.Znear
		in.Perspective, want.Perspective = p, w
		j["type"], j["perspective"] = "perspective", pj
	} else {
		p, w := &gltf.Orthographic{}, &gltf.Orthographic{}
		p.Extensions, w.Extensions = g.exts("orthographic", pj)
		p.Extras, w.Extras = g.extras("orthographic", pj)
		p.Xmag = g.reqFloat("orthographic.xmag", pj, "xmag")
		p.Ymag = g.reqFloat("orthographic.ymag", pj, "ymag")
		p.Zfar = g.reqFloat("orthographic.zfar", pj, "zfar")
		p.Znear = g.reqFloat("orthographic.znear", pj, "znear")
		w.Xmag, w.Ymag, w.Zfar, w.Znear = p.Xmag, p.Ymag, p.Zfar, p.Znear
		in.Orthographic, want.Orthographic = p, w
		j["type"], j["orthographic"] = "orthographic", pj
	}
	return
}

func (g *G) attrs(label string) (map[string]int, J) {
	c := g.dev(label, 5)
	names := [][]string{{"POSITION"}, {"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_1", "WEIGHTS_0", "JOINTS_0", "COLOR_0"}, {"_CUSTOM <&>"}, {}, {"POSITION", "TEXCOORD_11"}}[c]
	m, j := map[string]int{}, J{}
	for i, n := range names {
		m[n], j[n] = i*300, i*300
	}
	return m, j
}

func (g *G) mesh() (in, want *gltf.Mesh, j J) {
	in, want, j = &gltf.Mesh{}, &gltf.Mesh{}, J{}
	in.Extensions, want.Extensions = g.exts("mesh", j)
	in.Extras, want.Extras = g.extras("mesh", j)
	in.Name = g.str("mesh.name", j, "name")
	in.Weights = g.floats("mesh.weights", j, "weights")
	want.Name, want.Weights = in.Name, in.Weights
	n := []int{1, 2, 0, 20}[g.dev("mesh.primitives", 4)]
	in.Primitives, want.Primitives = []*gltf.Primitive{}, []*gltf.Primitive{}
	pa := []any{}
	for i := 0; i < n; i++ {
		if i > 1 {
			p := &gltf.Primitive{Attributes: map[string]int{"POSITION": i}}
			in.Primitives, want.Primitives = append(in.Primitives, p), append(want.Primitives, p)
			pa = append(pa, J{"attributes": J{"POSITION": i}})
			continue
		}
		p, w, pj := g.primitive()
		in.Primitives, want.Primitives, pa = append(in.Primitives, p), append(want.Primitives, w), append(pa, pj)
	}
	j["primitives"] = pa
	return
}

// specification codes of the primitive modes
var modeCodes = []struct {
	m    gltf.PrimitiveMode
	code int
}{{gltf.PrimitiveTriangles, 4}, {gltf.PrimitivePoints, 0}, {gltf.PrimitiveLines, 1}, {gltf.PrimitiveLineLoop, 2}, {gltf.PrimitiveLineStrip, 3}, {gltf.PrimitiveTriangleStrip, 5}, {gltf.PrimitiveTriangleFan, 6}}

func (g *G) primitive() (in, want *gltf.Primitive, j J) {
	in, want, j = &gltf.Primitive{}, &gltf.Primitive{}, J{}
	in.Extensions, want.Extensions = g.exts("primitive", j)
	in.Extras, want.Extras = g.extras("primitive", j)
	a, aj := g.attrs("primitive.attributes")
	in.Attributes, j["attributes"] = a, aj
	in.Indices = g.idx("primitive.indices", j, "indices")
	in.Material = g.idx("primitive.material", j, "material")
	m := modeCodes[g.rot("primitive.mode", 7)]
	in.Mode = m.m
	if m.code != 4 {
		j["mode"] = m.code
	} else {
		j[defKey+"mode"] = 4
	}
	if n := []int{0, 1, 2, 9}[g.rot("primitive.targets", 4)]; n > 0 {
		ta := []any{}
		for i := 0; i < n; i++ {
			in.Targets = append(in.Targets, map[string]int{"POSITION": i, "NORMAL": 7})
			ta = append(ta, J{"POSITION": i, "NORMAL": 7})
		}
		j["targets"] = ta
	}
	want.Attributes, want.Indices, want.Material, want.Mode, want.Targets = in.Attributes, in.Indices, in.Material, in.Mode, in.Targets
	return
}

func (g *G) texInfo(label string) (in, want *gltf.TextureInfo, j J) {
	in, want, j = &gltf.TextureInfo{}, &gltf.TextureInfo{}, J{}
	in.Extensions, want.Extensions = g.exts(label, j)
	in.Extras, want.Extras = g.extras(label, j)
	in.Index = g.reqInt(label+".index", j, "index")
	in.TexCoord = g.int0(label+".texCoord", j, "texCoord")
	want.Index, want.TexCoord = in.Index, in.TexCoord
	return
}

func (g *G) material() (in, want *gltf.Material, j J) {
	in, want, j = &gltf.Material{}, &gltf.Material{}, J{}
	in.Extensions, want.Extensions = g.exts("material", j)
	in.Extras, want.Extras = g.extras("material", j)
	in.Name = g.str("material.name", j, "name")
	want.Name = in.Name
	if g.rot("material.pbr", 2) == 1 {
		p, w, pj := &gltf.PBRMetallicRoughness{}, &gltf.PBRMetallicRoughness{}, J{}
		p.Extensions, w.Extensions = g.exts("pbr", pj)
		p.Extras, w.Extras = g.extras("pbr", pj)
		switch c := g.rot("pbr.baseColorFactor", 6+len(nearColor)); c {
		case 0:
			w.BaseColorFactor = &[4]float64{1, 1, 1, 1}
			pj[defKey+"baseColorFactor"] = []any{1, 1, 1, 1}
		case 2:
			p.BaseColorFactor, w.BaseColorFactor = &[4]float64{1, 1, 1, 1}, &[4]float64{1, 1, 1, 1}
			pj[defKey+"baseColorFactor"] = []any{1, 1, 1, 1}
		default:
			var v [4]float64
			if c < 6 {
				v = [][4]float64{1: {0.1, 0.2, 0.3, 0.4}, 3: {0, 0, 0, 0}, 4: {1, 1, 1, 0.5}, 5: {0, 1, 1, 1}}[c]
			} else {
				v = [4]float64(nearColor[c-6])
			}
			v2 := v
			p.BaseColorFactor, w.BaseColorFactor, pj["baseColorFactor"] = &v, &v2, anyFloats(v[:])
		}
		if g.rot("pbr.baseColorTexture", 2) == 1 {
			t, tw, tj := g.texInfo("baseColorTexture")
			p.BaseColorTexture, w.BaseColorTexture, pj["baseColorTexture"] = t, tw, tj
		}
		p.MetallicFactor, w.MetallicFactor = g.defFloat("pbr.metallicFactor", pj, "metallicFactor", 1)
		p.RoughnessFactor, w.RoughnessFactor = g.defFloat("pbr.roughnessFactor", pj, "roughnessFactor", 1)
		if g.rot("pbr.metallicRoughnessTexture", 2) == 1 {
			t, tw, tj := g.texInfo("metallicRoughnessTexture")
			p.MetallicRoughnessTexture, w.MetallicRoughnessTexture, pj["metallicRoughnessTexture"] = t, tw, tj
		}
		in.PBRMetallicRoughness, want.PBRMetallicRoughness, j["pbrMetallicRoughness"] = p, w, pj
	}
	if g.rot("material.normalTexture", 2) == 1 {
		t, w, tj := &gltf.NormalTexture{}, &gltf.NormalTexture{}, J{}
		t.Extensions, w.Extensions = g.exts("normalTexture", tj)
		t.Extras, w.Extras = g.extras("normalTexture", tj)
		t.Index = g.idx("normalTexture.index", tj, "index")
		t.TexCoord = g.int0("normalTexture.texCoord", tj, "texCoord")
		t.Scale, w.Scale = g.defFloat("normalTexture.scale", tj, "scale", 1)
		w.Index, w.TexCoord = t.Index, t.TexCoord
		in.NormalTexture, want.NormalTexture, j["normalTexture"] = t, w, tj
	}
	if g.rot("material.occlusionTexture", 2) == 1 {
		t, w, tj := &gltf.OcclusionTexture{}, &gltf.OcclusionTexture{}, J{}
		t.Extensions, w.Extensions = g.exts("occlusionTexture", tj)
		t.Extras, w.Extras = g.extras("occlusionTexture", tj)
		t.Index = g.idx("occlusionTexture.index", tj, "index")
		t.TexCoord = g.int0("occlusionTexture.texCoord", tj, "texCoord")
		t.Strength, w.Strength = g.defFloat("occlusionTexture.strength", tj, "strength", 1)
		w.Index, w.TexCoord = t.Index, t.TexCoord
		in.OcclusionTexture, want.OcclusionTexture, j["occlusionTexture"] = t, w, tj
	}
	if g.rot("material.emissiveTexture", 2) == 1 {
		t, tw, tj := g.texInfo("emissiveTexture")
		in.EmissiveTexture, want.EmissiveTexture, j["emissiveTexture"] = t, tw, tj
	}
	switch c := g.rot("material.emissiveFactor", 4+len(nearTranslation)); c {
	case 0:
		j[defKey+"emissiveFactor"] = []any{0, 0, 0}
	default:
		var v [3]float64
		if c < 4 {
			v = [][3]float64{1: {0.1, 0.2, 0.3}, 2: {0, 0, 1}, 3: {1, 0, 0}}[c]
		} else {
			v = [3]float64(nearTranslation[c-4])
		}
		in.EmissiveFactor, want.EmissiveFactor, j["emissiveFactor"] = v, v, anyFloats(v[:])
	}
	switch g.rot("material.alphaMode", 3) {
	case 0:
		j[defKey+"alphaMode"] = "OPAQUE"
	case 1:
		in.AlphaMode, j["alphaMode"] = gltf.AlphaMask, "MASK"
	case 2:
		in.AlphaMode, j["alphaMode"] = gltf.AlphaBlend, "BLEND"
	}
	in.AlphaCutoff, want.AlphaCutoff = g.defFloat("material.alphaCutoff", j, "alphaCutoff", 0.5)
	in.DoubleSided = g.boolean("material.doubleSided", j, "doubleSided")
	want.AlphaMode, want.DoubleSided = in.AlphaMode, in.DoubleSided
	return
}

func (g *G) texture() (in, want *gltf.Texture, j J) {
	in, want, j = &gltf.Texture{}, &gltf.Texture{}, J{}
	in.Extensions, want.Extensions = g.exts("texture", j)
	in.Extras, want.Extras = g.extras("texture", j)
	in.Name = g.str("texture.name", j, "name")
	in.Sampler = g.idx("texture.sampler", j, "sampler")
	in.Source = g.idx("texture.source", j, "source")
	want.Name, want.Sampler, want.Source = in.Name, in.Sampler, in.Source
	return
}

func (g *G) sampler() (in, want *gltf.Sampler, j J) {
	in, want, j = &gltf.Sampler{}, &gltf.Sampler{}, J{}
	in.Extensions, want.Extensions = g.exts("sampler", j)
	in.Extras, want.Extras = g.extras("sampler", j)
	in.Name = g.str("sampler.name", j, "name")
	if c := g.rot("sampler.magFilter", 3); c > 0 {
		in.MagFilter = []gltf.MagFilter{gltf.MagNearest, gltf.MagLinear}[c-1]
		j["magFilter"] = []int{9728, 9729}[c-1]
	}
	if c := g.rot("sampler.minFilter", 7); c > 0 {
		in.MinFilter = []gltf.MinFilter{gltf.MinNearest, gltf.MinLinear, gltf.MinNearestMipMapNearest, gltf.MinLinearMipMapNearest, gltf.MinNearestMipMapLinear, gltf.MinLinearMipMapLinear}[c-1]
		j["minFilter"] = []int{9728, 9729, 9984, 9985, 9986, 9987}[c-1]
	}
	wrap := func(key string) gltf.WrappingMode {
		switch g.rot("sampler."+key, 3) {
		case 1:
			j[key] = 33071
			return gltf.WrapClampToEdge
		case 2:
			j[key] = 33648
			return gltf.WrapMirroredRepeat
		}
		j[defKey+key] = 10497
		return gltf.WrapRepeat
	}
	in.WrapS = wrap("wrapS")
	in.WrapT = wrap("wrapT")
	want.Name, want.MagFilter, want.MinFilter, want.WrapS, want.WrapT = in.Name, in.MagFilter, in.MinFilter, in.WrapS, in.WrapT
	return
}

func (g *G) image() (in, want *gltf.Image, j J) {
	in, want, j = &gltf.Image{}, &gltf.Image{}, J{}
	in.Extensions, want.Extensions = g.exts("image", j)
	in.Extras, want.Extras = g.extras("image", j)
	in.Name = g.str("image.name", j, "name")
	if c := g.rot("image.uri", 6); c > 0 {
		in.URI = []string{"", "tex.png", "data:image/png;base64,iVBORw0KGgo=", "data:image/jpeg;base64,/9j/4A==", "dir/sub/t.jpg", "data:image/webp;base64,AAAA"}[c]
		j["uri"] = in.URI
	}
	if c := g.rot("image.mimeType", 3); c > 0 {
		in.MimeType = []string{"", "image/png", "image/jpeg"}[c]
		j["mimeType"] = in.MimeType
	}
	in.BufferView = g.idx("image.bufferView", j, "bufferView")
	want.Name, want.URI, want.MimeType, want.BufferView = in.Name, in.URI, in.MimeType, in.BufferView
	return
}

func (g *G) animation() (in, want *gltf.Animation, j J) {
	in, want, j = &gltf.Animation{}, &gltf.Animation{}, J{}
	in.Extensions, want.Extensions = g.exts("animation", j)
	in.Extras, want.Extras = g.extras("animation", j)
	in.Name = g.str("animation.name", j, "name")
	want.Name = in.Name
	ca, sa := []any{}, []any{}
	in.Channels, want.Channels, in.Samplers, want.Samplers = []*gltf.AnimationChannel{}, []*gltf.AnimationChannel{}, []*gltf.AnimationSampler{}, []*gltf.AnimationSampler{}
	for i, n := 0, []int{1, 2, 0}[g.dev("animation.channels", 3)]; i < n; i++ {
		c, w, cj, tj := &gltf.AnimationChannel{}, &gltf.AnimationChannel{}, J{}, J{}
		c.Extensions, w.Extensions = g.exts("channel", cj)
		c.Extras, w.Extras = g.extras("channel", cj)
		c.Sampler = g.reqInt("channel.sampler", cj, "sampler")
		c.Target.Extensions, w.Target.Extensions = g.exts("channel.target", tj)
		c.Target.Extras, w.Target.Extras = g.extras("channel.target", tj)
		c.Target.Node = g.idx("channel.target.node", tj, "node")
		k := g.dev("channel.target.path", 4)
		c.Target.Path = []gltf.TRSProperty{gltf.TRSTranslation, gltf.TRSRotation, gltf.TRSScale, gltf.TRSWeights}[k]
		tj["path"] = []string{"translation", "rotation", "scale", "weights"}[k]
		w.Sampler, w.Target.Node, w.Target.Path = c.Sampler, c.Target.Node, c.Target.Path
		cj["target"] = tj
		in.Channels, want.Channels, ca = append(in.Channels, c), append(want.Channels, w), append(ca, cj)
	}
	for i, n := 0, []int{1, 2, 0}[g.dev("animation.samplers", 3)]; i < n; i++ {
		s, w, sj := &gltf.AnimationSampler{}, &gltf.AnimationSampler{}, J{}
		s.Extensions, w.Extensions = g.exts("animsampler", sj)
		s.Extras, w.Extras = g.extras("animsampler", sj)
		s.Input = g.reqInt("animsampler.input", sj, "input")
		s.Output = g.reqInt("animsampler.output", sj, "output")
		k := g.rot("animsampler.interpolation", 3)
		s.Interpolation = []gltf.Interpolation{gltf.InterpolationLinear, gltf.InterpolationStep, gltf.InterpolationCubicSpline}[k]
		if k > 0 {
			sj["interpolation"] = []string{"LINEAR", "STEP", "CUBICSPLINE"}[k]
		} else {
			sj[defKey+"interpolation"] = "LINEAR"
		}
		w.Input, w.Output, w.Interpolation = s.Input, s.Output, s.Interpolation
		in.Samplers, want.Samplers, sa = append(in.Samplers, s), append(want.Samplers, w), append(sa, sj)
	}
	j["channels"], j["samplers"] = ca, sa
	return
}

// bufData is deterministic content of n bytes, different for every seed.
func bufData(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31 + seed*67 + i>>8 + 1)
	}
	return b
}

const octet = "data:application/octet-stream;base64,"

// BufSpec says how a buffer is stored.
type BufSpec struct {
	in, want *gltf.Buffer
	ext      string // external name, "" if none
}

var bufLens = []int{4, 1, 2, 3, 5, 6, 7, 8, 12, 100, 4095, 4096, 4097, 70000}

// buffer builds buffer number i for the container form (bin: stored in GLB).
func (g *G) buffer(i int, bin bool) (s BufSpec, j J) {
	j = J{}
	in, want := &gltf.Buffer{}, &gltf.Buffer{}
	in.Extensions, want.Extensions = g.exts("buffer", j)
	in.Extras, want.Extras = g.extras("buffer", j)
	in.Name = g.str("buffer.name", j, "name")
	n := bufLens[g.dev("buffer.len", len(bufLens))]
	in.Data, want.Data = bufData(n, i), bufData(n, i)
	in.ByteLength, want.ByteLength, j["byteLength"] = n, n, n
	want.Name = in.Name
	switch g.dev("buffer.uri", 3) {
	case 0:
		if !(i == 0 && bin) {
			want.URI = octet + base64.StdEncoding.EncodeToString(in.Data)
			j["uri"] = want.URI
		}
	case 1:
		in.EmbeddedResource()
		want.URI = octet + base64.StdEncoding.EncodeToString(in.Data)
		j["uri"] = want.URI
	case 2:
		in.URI = fmt.Sprintf("ext%d.bin", i)
		want.URI, j["uri"] = in.URI, in.URI
		s.ext = in.URI
	}
	s.in, s.want = in, want
	return
}

// Twin is a document with its expected decoded form and JSON tree.
type Twin struct {
	In, Want *gltf.Document
	JSON     J
	Ext      map[string][]byte // external files that must be written
	Desc     string
}

func newTwin() *Twin {
	return &Twin{In: &gltf.Document{}, Want: &gltf.Document{}, JSON: J{}, Ext: map[string][]byte{}}
}

const numKinds = 16

var kindNames = []string{"asset", "accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures", "root", "scene"}

func addTo[T any](g *G, t *Twin, key string, in, want *[]*T, f func(*G) (*T, *T, J), lens []int) {
	n := lens[g.dev(key+".len", len(lens))]
	if n == 0 {
		return
	}
	var arr []any
	for i := 0; i < n; i++ {
		if i > 1 {
			// further elements repeat the first two
			*in, *want, arr = append(*in, (*in)[i%2]), append(*want, (*want)[i%2]), append(arr, arr[i%2])
			continue
		}
		gg := *g
		if i == 1 {
			gg.full = !g.full
			g = &gg
		}
		a, b, j := f(g)
		*in, *want, arr = append(*in, a), append(*want, b), append(arr, j)
	}
	t.JSON[key] = arr
}

// kind adds objects of one kind to the twin.
func (g *G) kind(t *Twin, k int, bin bool, lens []int) {
	in, want := t.In, t.Want
	switch kindNames[k] {
	case "accessors":
		addTo(g, t, "accessors", &in.Accessors, &want.Accessors, (*G).accessor, lens)
	case "animations":
		addTo(g, t, "animations", &in.Animations, &want.Animations, (*G).animation, lens)
	case "bufferViews":
		addTo(g, t, "bufferViews", &in.BufferViews, &want.BufferViews, (*G).bufferView, lens)
	case "cameras":
		addTo(g, t, "cameras", &in.Cameras, &want.Cameras, (*G).camera, lens)
	case "images":
		addTo(g, t, "images", &in.Images, &want.Images, (*G).image, lens)
	case "materials":
		addTo(g, t, "materials", &in.Materials, &want.Materials, (*G).material, lens)
	case "meshes":
		addTo(g, t, "meshes", &in.Meshes, &want.Meshes, (*G).mesh, lens)
	case "nodes":
		addTo(g, t, "nodes", &in.Nodes, &want.Nodes, (*G).node, lens)
	case "samplers":
		addTo(g, t, "samplers", &in.Samplers, &want.Samplers, (*G).sampler, lens)
	case "scenes":
		addTo(g, t, "scenes", &in.Scenes, &want.Scenes, (*G).scene, lens)
	case "skins":
		addTo(g, t, "skins", &in.Skins, &want.Skins, (*G).skin, lens)
	case "textures":
		addTo(g, t, "textures", &in.Textures, &want.Textures, (*G).texture, lens)
	case "buffers":
		n := lens[g.dev("buffers.len", len(lens))]
		if n > 3 {
			n = 3
		}
		var arr []any
		for i := 0; i < n; i++ {
			s, j := g.buffer(i, bin)
			in.Buffers, want.Buffers, arr = append(in.Buffers, s.in), append(want.Buffers, s.want), append(arr, j)
			if s.ext != "" {
				t.Ext[s.ext] = s.in.Data
			}
		}
		if n > 0 {
			t.JSON["buffers"] = arr
		}
	case "root":
		in.Extensions, want.Extensions = g.exts("root", t.JSON)
		in.Extras, want.Extras = g.extras("root", t.JSON)
		in.ExtensionsUsed = g.strs("used", t.JSON, "extensionsUsed")
		in.ExtensionsRequired = g.strs("required", t.JSON, "extensionsRequired")
		want.ExtensionsUsed, want.ExtensionsRequired = in.ExtensionsUsed, in.ExtensionsRequired
	case "scene":
		in.Scene = g.idx("scene", t.JSON, "scene")
		want.Scene = in.Scene
	case "asset":
		a, w, j := g.asset()
		in.Asset, want.Asset = a, w
		t.JSON["asset"] = j
	}
}

var lensOne = []int{1, 2, 0, 3, 40}
var lensSparse = []int{0, 1, 2}

// wholeDoc has every kind of object.
func wholeDoc(x *X, full, bin bool) *Twin {
	g := &G{x: x, full: full}
	t := newTwin()
	for k := 0; k < numKinds; k++ {
		g.kind(t, k, bin, lensOne)
	}
	return t
}

// kindDoc has objects of a single kind (plus a minimal asset).
func kindDoc(x *X, k int, full, bin bool) *Twin {
	g := &G{x: x, full: full}
	t := newTwin()
	t.In.Asset.Version, t.Want.Asset.Version = "2.0", "2.0"
	t.JSON["asset"] = J{"version": "2.0"}
	g.kind(t, k, bin, lensOne)
	return t
}

// zeroDoc has objects of a single kind with all numbers present and zero.
func zeroDoc(x *X, k int, bin bool) *Twin {
	g := &G{x: x, full: true, zero: true}
	t := newTwin()
	t.In.Asset.Version, t.Want.Asset.Version = "2.0", "2.0"
	t.JSON["asset"] = J{"version": "2.0"}
	g.kind(t, k, bin, lensOne)
	return t
}

// ---- an independent JSON writer ----

type jstyle struct {
	order    int  // 0 sorted, 1 reversed, 2 defaults first
	defaults bool // write properties that equal their default
	space    bool
	escape   bool // \u-escape every non-ASCII character
}

func (s jstyle) write(b *strings.Builder, v any) {
	sp := ""
	if s.space {
		sp = " \n\t"
	}
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case int:
		b.WriteString(strconv.Itoa(v))
	case float64:
		b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case string:
		b.WriteByte('"')
		for _, r := range v {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r < 0x20 || (s.escape && r > 0x7e && r < 0x10000):
				fmt.Fprintf(b, "\\u%04X", r)
			case s.escape && r >= 0x10000:
				r -= 0x10000
				fmt.Fprintf(b, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	case []any:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(sp)
			s.write(b, e)
		}
		b.WriteString(sp)
		b.WriteByte(']')
	case map[string]any:
		s.object(b, v, sp)
	case J:
		s.object(b, v, sp)
	default:
		panic(fmt.Sprintf("jstyle: %T", v))
	}
}

func (s jstyle) object(b *strings.Builder, v map[string]any, sp string) {
	keys := make([]string, 0, len(v))
	for k := range v {
		if strings.HasPrefix(k, defKey) && !s.defaults {
			continue
		}
		keys = append(keys, k)
	}
	trim := func(k string) string { return strings.TrimPrefix(k, defKey) }
	sort.Slice(keys, func(i, j int) bool {
		if s.order == 2 {
			return keys[i] < keys[j]
		}
		if s.order == 1 {
			return trim(keys[i]) > trim(keys[j])
		}
		return trim(keys[i]) < trim(keys[j])
	})
	b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(sp)
		s.write(b, trim(k))
		b.WriteString(sp)
		b.WriteByte(':')
		s.write(b, v[k])
	}
	b.WriteString(sp)
	b.WriteByte('}')
}

func (s jstyle) String(v any) string {
	var b strings.Builder
	s.write(&b, v)
	return b.String()
}

// norm turns a J tree into what encoding/json decodes generically.
func norm(v any) any {
	switch v := v.(type) {
	case int:
		return float64(v)
	case J:
		return norm(map[string]any(v))
	case map[string]any:
		m := map[string]any{}
		for k, e := range v {
			if !strings.HasPrefix(k, defKey) {
				m[k] = norm(e)
			}
		}
		return m
	case []any:
		a := make([]any, len(v))
		for i := range v {
			a[i] = norm(v[i])
		}
		return a
	}
	return v
}

// diffTree returns the first difference of two generic JSON trees.
func diffTree(path string, got, want any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: got %s, want object", path, short(got))
		}
		for _, k := range sortedKeys(w) {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("%s.%s: missing, want %s", path, k, short(w[k]))
			}
			if d := diffTree(path+"."+k, g[k], w[k]); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s.%s: unexpected %s", path, k, short(g[k]))
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: got %s, want %s", path, short(got), short(want))
		}
		for i := range w {
			if d := diffTree(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s: got %s, want %s", path, short(got), short(want))
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func short(v any) string {
	s := fmt.Sprintf("%#v", v)
	if b, ok := v.(json.RawMessage); ok {
		s = "raw " + string(b)
	}
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// ---- document comparison ----

var rawType = reflect.TypeOf(json.RawMessage{})

// diff compares decoded values: nil and empty lists are equal, raw JSON is
// compared as JSON values, floats by ==.
func diff(path string, got, want reflect.Value) string {
	if got.IsValid() != want.IsValid() {
		return fmt.Sprintf("%s: got %v, want %v", path, got, want)
	}
	if !got.IsValid() {
		return ""
	}
	if got.Type() != want.Type() {
		return fmt.Sprintf("%s: got type %v, want %v", path, got.Type(), want.Type())
	}
	if got.Type() == rawType {
		var a, b any
		e1, e2 := json.Unmarshal(got.Bytes(), &a), json.Unmarshal(want.Bytes(), &b)
		if e1 != nil || e2 != nil || !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("%s: got %s, want %s", path, short(got.Interface()), short(want.Interface()))
		}
		return ""
	}
	switch got.Kind() {
	case reflect.Ptr, reflect.Interface:
		if got.IsNil() != want.IsNil() {
			return fmt.Sprintf("%s: got %s, want %s", path, short(got.Interface()), short(want.Interface()))
		}
		if got.IsNil() {
			return ""
		}
		return diff(path, got.Elem(), want.Elem())
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			if d := diff(path+"."+got.Type().Field(i).Name, got.Field(i), want.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if got.Len() != want.Len() {
			return fmt.Sprintf("%s: got %d elements, want %d", path, got.Len(), want.Len())
		}
		if got.Type().Elem().Kind() == reflect.Uint8 {
			a, b := got.Bytes(), want.Bytes()
			for i := range a {
				if a[i] != b[i] {
					return fmt.Sprintf("%s[%d]: got byte %#x, want %#x", path, i, a[i], b[i])
				}
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < got.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), got.Index(i), want.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		for _, k := range want.MapKeys() {
			if !got.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s[%v]: missing", path, k)
			}
			if d := diff(fmt.Sprintf("%s[%v]", path, k), got.MapIndex(k), want.MapIndex(k)); d != "" {
				return d
			}
		}
		if got.Len() != want.Len() {
			return fmt.Sprintf("%s: got %d entries, want %d", path, got.Len(), want.Len())
		}
		return ""
	case reflect.Func, reflect.Chan:
		return ""
	}
	if !reflect.DeepEqual(got.Interface(), want.Interface()) {
		return fmt.Sprintf("%s: got %s, want %s", path, short(got.Interface()), short(want.Interface()))
	}
	return ""
}

func diffDoc(got, want *gltf.Document) string {
	return diff("doc", reflect.ValueOf(got), reflect.ValueOf(want))
}

// snap deep-copies a value so that later modifications can be detected.
func snap(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(snap(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(snap(v.Elem()))
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(snap(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(snap(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(snap(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMapWithSize(v.Type(), v.Len()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, snap(v.MapIndex(k)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func cloneDoc(d *gltf.Document) *gltf.Document {
	return snap(reflect.ValueOf(d)).Interface().(*gltf.Document)
}
