package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func init() {
	register(&Property{
		ID: "C07", Level: "model_checking",
		Rule:        "a case is one malformed input: a valid document with one (quick) or two (thorough) JSON nodes replaced, removed or duplicated at every path, or a byte stream over a small alphabet; decoding must return, and a decoded document must hold at most byteLength bytes per buffer; a state is the distinct input",
		Assumptions: []string{"GLB chunk lengths above 64 MiB are only combined with streams that do not deliver that much"},
		Harnesses: []Harness{
			{Name: "json-node", Run: func(x *X) {
				tree := malBase(x, x.All("base", 3))
				paths := jsonPaths(tree)
				p := paths[x.All("path", len(paths))]
				v := x.All("value", len(badJSON)+3)
				malDecode(x, mutateJSON(tree, p, v), x.All("container", 4))
			}},
			{Name: "json-pairs", Run: func(x *X) {
				// two mutations in the parts that control buffer loading
				tree := malBase(x, 3)
				paths := jsonPaths(tree)
				n := len(paths)
				p := x.All("path1", n)
				s := mutateJSON(tree, paths[p], x.All("value1", len(badJSON)+3))
				var t2 any
				if json.Unmarshal([]byte(s), &t2) != nil {
					return
				}
				paths = jsonPaths(t2)
				q := x.All("path2", len(paths))
				malDecode(x, mutateJSON(t2, paths[q], x.All("value2", len(badJSON)+3)), x.All("container", 4))
			}},
			{Name: "leaves", Run: func(x *X) {
				// every number, string and list takes every value of a long list
				tree := malBase(x, x.All("base", 3))
				paths := jsonPaths(tree)
				p := paths[x.All("path", len(paths))]
				var raws []string
				switch v := jsonAt(tree, p).(type) {
				case float64:
					raws = leafNumbers()
				case string:
					raws = leafStrings(v)
				case []any:
					raws = leafLists()
				default:
					return
				}
				malDecode(x, replaceJSON(tree, p, 0, raws[x.All("value", len(raws))]), 2*x.All("container", 2))
			}},
			{Name: "wrong-kind", Run: wrongKind},
			{Name: "byte-mutations", Run: func(x *X) {
				data := byteBase(x.All("base", 5))
				op := x.All("op", 3+len(hotBytes))
				pos := x.All("pos", len(data)+1)
				data = mutateBytes(data, op, pos)
				if x.Thorough {
					op := x.All("op2", 3+len(hotBytes))
					pos := x.All("pos2", len(data)+1)
					data = mutateBytes(data, op, pos)
				}
				malBytes(x, data, newMalFS(0))
			}},
			{Name: "short-texts", Run: func(x *X) {
				n := 6
				if x.Thorough {
					n = 7
				}
				toks := []string{"", "{", "}", "[", "]", ",", ":", `"buffers"`, `"uri"`, "null", "-1", `"byteLength"`, `"a"`}
				s := ""
				for i := 0; i < n; i++ {
					k := x.All("tok", len(toks))
					if k == 0 {
						break
					}
					s += toks[k]
				}
				malBytes(x, []byte(s), newMalFS(0))
			}},
			{Name: "headers", Run: func(x *X) {
				// a GLB magic followed by every small set of header words and bodies
				vals := []uint32{0, 1, 2, 8, 20, 24, 1 << 20, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 19, math.MaxUint32}
				v := func(l string) *uint32 { return u32(vals[x.All(l, len(vals))]) }
				js := []string{"", "{}", `{"buffers":[{"byteLength":4}]}`, `{"buffers":[{"byteLength":4294967295}]}`, `{"buffers":[{"byteLength":9223372036854775807}]}`, `{"buffers":[{"byteLength":-4}]}`}
				g := glbSpec{json: []byte(js[x.All("json", len(js))]), bin: bufData(4, 1), hasBin: x.All("bin", 2) == 0}
				g.length = v("length")
				if x.All("set-jsonlen", 2) == 1 {
					g.jsonLen = v("jsonlen")
				}
				if x.All("set-binlen", 2) == 1 {
					g.binLen = v("binlen")
				}
				malBytes(x, g.bytes(), nil)
			}},
			{Name: "declared-length", Run: func(x *X) {
				// loaded data never exceeds byteLength
				lens := []string{"0", "1", "2", "3", "4", "5", "6", "7", "1e2", "4294967296", "4294967299", "9223372036854775807", "-1", "-9223372036854775808", "9223372036854775808", "1.5", "\"3\"", "null"}
				l := lens[x.All("byteLength", len(lens))]
				n := x.All("actual", 9)
				kind := x.All("kind", 4)
				fs := newMemFS()
				d := bufData(n, 1)
				js := ""
				switch kind {
				case 0:
					fs.files["a.bin"] = d
					js = `"uri":"a.bin",`
				case 1:
					js = fmt.Sprintf(`"uri":%q,`, dataURI(octet, d))
				}
				js = `{"asset":{"version":"2.0"},"buffers":[{` + js + `"byteLength":` + l + `}]}`
				b := []byte(js)
				if kind >= 2 {
					g := glbSpec{json: b, bin: d, hasBin: kind == 2}
					b = g.bytes()
				}
				malBytes(x, b, fs)
			}},
			{Name: "deep-nesting", Run: func(x *X) {
				n := []int{100, 9990, 10001, 100000, 1000000}[x.All("depth", 5)]
				key := []string{"extras", "nodes", "extensions", "buffers", "asset"}[x.All("key", 5)]
				open := []string{"[", `{"a":`}[x.All("open", 2)]
				s := `{"asset":{"version":"2.0"},"` + key + `":` + strings.Repeat(open, n)
				if x.All("closed", 2) == 1 {
					s += "1" + strings.Repeat(map[string]string{"[": "]", `{"a":`: "}"}[open], n) + "}"
				}
				x.State(fmt.Sprint(n, key, open, len(s)))
				d, err := decodeBytes([]byte(s), nil)
				_, _ = d, err
			}},
			{Name: "open-files", Run: func(x *X) {
				dir := scratch(x)
				defer os.RemoveAll(dir)
				uris := []string{"", ".", "..", "/", "./", "a", "sub", "a.bin/x", "\\", "%", "%00", "x:", ":", "data:", octet, octet + ",", octet + "X", octet + ",!", octet + ",QQ", octet + ",QQ==", "data:image/png;base64,", "a\x00b", strings.Repeat("a", 300), strings.Repeat("a/", 3000)}
				u := uris[x.All("uri", len(uris))]
				bl := []int{1, 2, 1 << 40}[x.All("byteLength", 3)]
				os.Mkdir(filepath.Join(dir, "sub"), 0o755)
				os.WriteFile(filepath.Join(dir, "a"), []byte("xyz"), 0o644)
				js, _ := json.Marshal(u)
				s := fmt.Sprintf(`{"asset":{"version":"2.0"},"images":[{"uri":%s}],"buffers":[{"uri":%s,"byteLength":%d}]}`, js, js, bl)
				b := []byte(s)
				if x.All("glb", 2) == 1 {
					b = glbSpec{json: b, bin: []byte("abc"), hasBin: true}.bytes()
				}
				name := filepath.Join(dir, "m")
				if err := os.WriteFile(name, b, 0o644); err != nil {
					panic(divergence{err.Error()})
				}
				x.StateB(b)
				doc, err := gltf.Open(name)
				if err == nil {
					checkBufLens(x, doc)
				} else if doc != nil {
					x.Fail("doc-and-error", "Open returned a document and error %v", err)
				}
			}},
		},
	})
	register(&Property{
		ID: "C08", Level: "model_checking",
		Rule:        "a case is a document and accessor with up to the bounded number of fields moved off their well-formed default to boundary values, read with one reading function; the answer is compared with a reference reader over unbounded integers: data it cannot back must give an error, and returned data must be the referenced bytes; a state is the distinct document and function",
		Assumptions: []string{"the accessor pointer itself is not nil", "accessors without buffer view have a count that fits in memory or overflows (their data is all zeros, so no file backs it)"},
		Harnesses: []Harness{
			{Name: "fields", Bound: 2, BoundDeep: 3, Run: func(x *X) { badAccessor(x, false) }},
			{Name: "indices", Run: badIndices},
			{Name: "sparse", Bound: 2, BoundDeep: 3, Run: func(x *X) { badAccessor(x, true) }},
			{Name: "views", Run: badViews},
			{Name: "ranges", Run: badRanges},
			{Name: "decoded", Run: badDecoded},
		},
	})
}

func dataURI(prefix string, d []byte) string {
	b := &gltf.Buffer{Data: d}
	b.EmbeddedResource()
	return prefix + strings.TrimPrefix(b.URI, octet)
}

var badJSON = []string{"null", "true", "-1", "0", "1", "1.5", "4294967296", "9223372036854775807", "-9223372036854775808", "1e400", `""`, `"x"`, `"../x"`, `"a.bin"`,
	`"data:application/octet-stream;base64"`, `"data:application/octet-stream;base64,AAA"`, `"data:application/octet-stream;base64,AAAAAAAA"`, "[]", "{}", "[null]", "[{}]", "[[1]]", `{"a":null}`, `[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]`}

type jpath []any // string keys and int indices

func jsonPaths(v any) []jpath {
	var out []jpath
	var walk func(p jpath, v any)
	walk = func(p jpath, v any) {
		out = append(out, append(jpath{}, p...))
		switch v := v.(type) {
		case map[string]any:
			for _, k := range sortedKeys(v) {
				walk(append(p, k), v[k])
			}
		case []any:
			for i, e := range v {
				if i < 3 {
					walk(append(p, i), e)
				}
			}
		}
	}
	walk(nil, v)
	return out
}

func jsonAt(v any, p jpath) any {
	for _, k := range p {
		switch k := k.(type) {
		case string:
			v = v.(map[string]any)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

var leafNumbers = sync.OnceValue(func() []string {
	var out []string
	seen := map[int]bool{}
	add := func(lo, hi int) {
		for i := lo; i <= hi; i++ {
			if !seen[i] {
				seen[i] = true
				out = append(out, fmt.Sprint(i))
			}
		}
	}
	add(-3, 40)
	for k := 6; k <= 17; k++ {
		add(1<<k-1, 1<<k+1)
	}
	add(5119, 5131)
	add(9726, 9731)
	add(9983, 9989)
	add(10495, 10499)
	add(33068, 33073)
	add(33646, 33650)
	add(34961, 34965)
	for _, k := range []int{31, 32, 53, 62} {
		add(1<<k-1, 1<<k+1)
	}
	return append(out, "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1e3", "1E-7", "-0", "0.0", "255.0", "1e19", "1e39", "-1e39", "1e308", "1e309", "123456789012345678901234567890")
})

func leafStrings(s string) []string {
	vs := []string{"", " ", s + " ", s + "\x00", strings.ToLower(s), strings.ToUpper(s), strings.Repeat(s+"/", 50), "\ufffd", "OPAQUE", "MASK", "BLEND", "mask", "SCALAR", "VEC2", "VEC5", "MAT1", "MAT", "V", "LINEAR", "STEP", "CUBICSPLINE", "perspective", "orthographic",
		"translation", "rotation", "scale", "weights", "pointer", "directional", "point", "spot", "0", "2.0", "2", "image/png", "image/jpeg", octet, octet + ",", octet + ",A", octet + ",AA==", "data:image/png;base64,A", "data:,", "a.bin", "/a.bin", "%", "%2", "%zz", "%00", "http://a/b"}
	for i := 1; i < len(s); i++ {
		vs = append(vs, s[:i])
	}
	out := []string{`"\ud800"`, `"\udc00\ud800"`, "\"\xff\"", "\"\x01\"", `"\x"`}
	for _, v := range vs {
		b, _ := json.Marshal(v)
		out = append(out, string(b))
	}
	return out
}

var leafLists = sync.OnceValue(func() []string {
	var out []string
	for _, e := range []string{"0", "1", "-1", "0.5", "null", "true", `""`, "{}", "[]", "1e400", "4294967296"} {
		for n := 0; n <= 20; n++ {
			out = append(out, "["+strings.TrimSuffix(strings.Repeat(e+",", n), ",")+"]")
		}
	}
	return out
})

// mutateJSON renders tree with the node at p changed.
func mutateJSON(tree any, p jpath, op int) string {
	if op < len(badJSON) {
		return replaceJSON(tree, p, op, badJSON[op])
	}
	return replaceJSON(tree, p, op, "")
}

func replaceJSON(tree any, p jpath, op int, raw string) string {
	var b bytes.Buffer
	var w func(v any, rest jpath, on bool)
	w = func(v any, rest jpath, on bool) {
		if on && len(rest) == 0 {
			if op < len(badJSON) {
				b.WriteString(raw)
				return
			}
			on = false
		}
		switch v := v.(type) {
		case map[string]any:
			b.WriteByte('{')
			first := true
			put := func(k string, e any, rest jpath, hit bool) {
				if !first {
					b.WriteByte(',')
				}
				first = false
				ks, _ := json.Marshal(k)
				b.Write(ks)
				b.WriteByte(':')
				w(e, rest, hit)
			}
			for _, k := range sortedKeys(v) {
				hit := on && rest[0] == k
				var r jpath
				if hit {
					r = rest[1:]
					if len(r) == 0 && op == len(badJSON) {
						continue // removed
					}
				}
				put(k, v[k], r, hit)
				if hit && len(r) == 0 && op == len(badJSON)+1 {
					put(k, nil, nil, false) // duplicated key
				}
				if hit && len(r) == 0 && op == len(badJSON)+2 {
					put(k, v[k], nil, false)
				}
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			first := true
			put := func(e any, rest jpath, hit bool) {
				if !first {
					b.WriteByte(',')
				}
				first = false
				w(e, rest, hit)
			}
			for i, e := range v {
				hit := on && rest[0] == i
				var r jpath
				if hit {
					r = rest[1:]
					if len(r) == 0 && op == len(badJSON) {
						continue
					}
				}
				put(e, r, hit)
				if hit && len(r) == 0 && op == len(badJSON)+1 {
					put(nil, nil, false)
				}
				if hit && len(r) == 0 && op == len(badJSON)+2 {
					put(e, nil, false)
				}
			}
			b.WriteByte(']')
		default:
			j, err := json.Marshal(v)
			if err != nil {
				panic(divergence{err.Error()})
			}
			b.Write(j)
		}
	}
	w(tree, p, true)
	return b.String()
}

const malSmall = `{"asset":{"version":"2.0"},"buffers":[{"uri":"a.bin","byteLength":6},{"uri":"data:application/octet-stream;base64,AAAAAAAA","byteLength":6}],"images":[{"uri":"a.png"}]}`

const malTiny = `{"buffers":[{"byteLength":3,"uri":"a.bin"}],"images":[{"uri":"b"}]}`

var malBases sync.Map // base number -> parsed tree, never modified

func malBase(x *X, k int) any {
	var t any
	if v, ok := malBases.Load(k); ok {
		return v
	}
	var js string
	switch k {
	case 0, 1:
		// every kind of object, all properties set; fixed choices
		sub := &X{h: x.h, lenient: true}
		tw := wholeDoc(sub, k == 0, false)
		js = jstyle{defaults: true}.String(tw.JSON)
	case 2:
		js = malSmall
	case 3:
		js = malTiny
	}
	if err := json.Unmarshal([]byte(js), &t); err != nil {
		panic(divergence{"base: " + err.Error()})
	}
	malBases.Store(k, t)
	return t
}

func newMalFS(n int) *memFS {
	fs := newMemFS()
	fs.files["a.bin"] = bufData(6+n, 1)
	fs.files["x"] = bufData(600, 2)
	return fs
}

func malDecode(x *X, s string, container int) {
	switch container {
	case 0:
		malBytes(x, []byte(s), newMalFS(0))
	case 1:
		malBytes(x, []byte(s), nil)
	case 2:
		malBytes(x, glbSpec{json: []byte(s), bin: bufData(8, 3), hasBin: true}.bytes(), newMalFS(3))
	case 3:
		malBytes(x, glbSpec{json: []byte(s)}.bytes(), nil)
	}
}

func malBytes(x *X, b []byte, fs *memFS) {
	x.StateB(b)
	x.Log("input %.300q", b)
	doc, err := decodeBytes(b, fs)
	if err != nil {
		return
	}
	checkBufLens(x, doc)
	// what was accepted starts with a complete JSON value
	text := b
	if bytes.HasPrefix(b, []byte("glTF")) && len(b) >= 20 {
		text = b[20:min(uint64(len(b)), 20+leUint(b[12:], 4))]
	}
	if err := json.NewDecoder(bytes.NewReader(text)).Decode(new(json.RawMessage)); err != nil {
		x.Fail("syntax", "broken JSON text was accepted (%v): %.200q", err, text)
	}
}

// wrongKind: a value of another JSON type than the schema prescribes is an error.
func wrongKind(x *X) {
	tree := malBase(x, x.All("base", 3))
	paths := jsonPaths(tree)
	p := paths[x.All("path", len(paths))]
	free := false
	for i, k := range p {
		// (the type of a camera is not kept, its projection is)
		free = free || k == "extras" || len(p) == 3 && p[0] == "cameras" && k == "type" || k == "extensions" && i < len(p)-1
	}
	if free {
		return // arbitrary values
	}
	vals := []string{`"x"`, "1", "true", "[]", "{}", `[1]`, `{"a":1}`, `""`, "0", "false"}
	raw := vals[x.All("value", len(vals))]
	var is bool
	switch jsonAt(tree, p).(type) {
	case map[string]any:
		is = raw[0] == '{'
	case []any:
		is = raw[0] == '['
	case string:
		is = raw[0] == '"'
	case float64:
		is = raw[0] == '1' || raw[0] == '0'
	case bool:
		is = raw[0] == 't' || raw[0] == 'f'
	}
	if is {
		return
	}
	s := replaceJSON(tree, p, 0, raw)
	b, fs := []byte(s), newMalFS(0)
	if x.All("glb", 2) == 1 {
		b, fs = glbSpec{json: b, bin: bufData(8, 3), hasBin: true}.bytes(), newMalFS(3)
	}
	x.StateB(b)
	x.Log("input %.300q", b)
	if _, err := decodeBytes(b, fs); err == nil {
		x.Fail("kind", "%s at %v was accepted", raw, p)
	}
}

func checkBufLens(x *X, doc *gltf.Document) {
	for i, b := range doc.Buffers {
		if b == nil {
			continue
		}
		if len(b.Data) > 0 && len(b.Data) > b.ByteLength {
			x.Fail("too-long", "buffer %d declares byteLength %d but %d bytes were loaded", i, b.ByteLength, len(b.Data))
		}
	}
}

var hotBytes = []byte("\x00\xff {}[]\",:-0nte\\/")

func mutateBytes(b []byte, op, pos int) []byte {
	out := append([]byte{}, b...)
	if pos > len(out) {
		pos = len(out)
	}
	switch op {
	case 0:
		return out[:pos]
	case 1:
		if pos < len(out) {
			return append(out[:pos], out[pos+1:]...)
		}
	case 2:
		if pos < len(out) {
			out = append(out[:pos+1], out[pos:]...)
		}
	default:
		c := hotBytes[op-3]
		if pos < len(out) {
			out[pos] = c
		} else {
			out = append(out, c)
		}
	}
	return out
}

func byteBase(k int) []byte {
	switch k {
	case 0:
		return []byte(malTiny)
	case 1:
		return glbSpec{json: []byte(`{"buffers":[{"byteLength":3}]}`), bin: bufData(3, 1), hasBin: true}.bytes()
	case 2:
		return []byte(`{"buffers":[{"uri":"data:application/octet-stream;base64,AQID","byteLength":3}]}`)
	case 3:
		return []byte(`{"accessors":[{"componentType":5126,"type":"VEC3","count":1}]}`)
	}
	return []byte(`{"materials":[{"extensions":{"X":{"a":[1]}},"alphaMode":"MASK"}]}`)
}

// ---- C08 ----

// readFn is one reading function of the modeler package.
type readFn struct {
	name string
	call func(doc *gltf.Document, a *gltf.Accessor) (any, error)
	ok   func(c gltf.ComponentType, t gltf.AccessorType) bool
}

func isFloat(c gltf.ComponentType) bool { return c == gltf.ComponentFloat }
func isNorm(c gltf.ComponentType) bool {
	return c == gltf.ComponentFloat || c == gltf.ComponentUbyte || c == gltf.ComponentUshort
}

var readFns = []readFn{
	{"ReadAccessor", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadAccessor(d, a, nil) },
		func(gltf.ComponentType, gltf.AccessorType) bool { return true }},
	{"ReadIndices", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadIndices(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool {
			return t == gltf.AccessorScalar && (c == gltf.ComponentUbyte || c == gltf.ComponentUshort || c == gltf.ComponentUint)
		}},
	{"ReadNormal", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadNormal(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorVec3 && isFloat(c) }},
	{"ReadTangent", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadTangent(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorVec4 && isFloat(c) }},
	{"ReadTextureCoord", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadTextureCoord(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorVec2 && isNorm(c) }},
	{"ReadWeights", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadWeights(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorVec4 && isNorm(c) }},
	{"ReadJoints", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadJoints(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool {
			return t == gltf.AccessorVec4 && (c == gltf.ComponentUbyte || c == gltf.ComponentUshort)
		}},
	{"ReadPosition", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadPosition(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorVec3 && isFloat(c) }},
	{"ReadColor", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadColor(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool {
			return (t == gltf.AccessorVec4 || t == gltf.AccessorVec3) && isNorm(c)
		}},
	{"ReadColor64", func(d *gltf.Document, a *gltf.Accessor) (any, error) { return modeler.ReadColor64(d, a, nil) },
		func(c gltf.ComponentType, t gltf.AccessorType) bool {
			return (t == gltf.AccessorVec4 || t == gltf.AccessorVec3) && isNorm(c)
		}},
	{"ReadInverseBindMatrices", func(d *gltf.Document, a *gltf.Accessor) (any, error) {
		return modeler.ReadInverseBindMatrices(d, a, nil)
	},
		func(c gltf.ComponentType, t gltf.AccessorType) bool { return t == gltf.AccessorMat4 && isFloat(c) }},
}

var allComps = []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
var allTypes = []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}

// badAccessor starts from a well-formed accessor and moves fields to boundary values.
func badAccessor(x *X, sparse bool) {
	fn := readFns[x.All("fn", len(readFns))]
	// the first acceptable format, in a fixed order, plus one alternative
	var fmts [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fmts = append(fmts, [2]int{ci, ti})
			}
		}
	}
	f := fmts[x.All("format", min(len(fmts), 2))*(len(fmts)-1)]
	c, t := allComps[f[0]], allTypes[f[1]]
	esz := refElemSize(c, t)
	const n = 3
	data := bufData(esz*n+12, 7)
	doc := &gltf.Document{}
	doc.Buffers = []*gltf.Buffer{{ByteLength: len(data), Data: data}, {ByteLength: 64, Data: bufData(64, 9)}}
	ints := func(label string, def int, extra ...int) int {
		vals := append([]int{def}, extra...)
		vals = append(vals, -1, 1<<40, math.MaxInt, math.MinInt, math.MaxInt-3, 1<<62, 1<<61+1, math.MinInt+1, math.MaxUint32, math.MaxInt32, math.MinInt32, 0x5555555555555556)
		return vals[x.Dev(label, len(vals))]
	}
	bv := &gltf.BufferView{ByteLength: esz*n + 4}
	bv.Buffer = ints("bv.buffer", 0, 1, 2, 3)
	bv.ByteOffset = ints("bv.byteOffset", 4, 0, 1, 8, 9, len(data), len(data)+1)
	bv.ByteLength = ints("bv.byteLength", bv.ByteLength, 0, 1, esz*n-1, esz*n+8, esz*n+9, len(data), len(data)+1)
	bv.ByteStride = ints("bv.byteStride", 0, esz, 1, 2, 4, esz+1, 252, 255, 256)
	// indices and values of a sparse accessor live in a view of their own
	sv := &gltf.BufferView{Buffer: 1, ByteLength: 64}
	doc.BufferViews = []*gltf.BufferView{bv, sv}
	acr := &gltf.Accessor{ComponentType: c, Type: t, Count: n, BufferView: gltf.Index(0)}
	acr.Count = ints("count", n, 0, 1, n+1, n-1)
	acr.ByteOffset = ints("byteOffset", 4, 0, 1, 3, 5, esz*n, esz*n+4, esz*n+5)
	switch x.Dev("bufferView", 12) {
	case 1:
		acr.BufferView = nil
	case 2:
		acr.BufferView = gltf.Index(1)
	case 3:
		acr.BufferView = gltf.Index(2)
	case 4:
		acr.BufferView = gltf.Index(-1)
	case 5:
		acr.BufferView = gltf.Index(math.MaxInt)
	case 6:
		acr.BufferView = gltf.Index(math.MinInt)
	case 7:
		doc.BufferViews[0] = nil
	case 8:
		doc.Buffers[0] = nil
	case 9:
		doc.Buffers[0].Data = nil
	case 10:
		doc.Buffers = nil
	case 11:
		doc.BufferViews = nil
	}
	switch x.Dev("format", 6) {
	case 1:
		acr.ComponentType = 6
	case 2:
		acr.ComponentType = math.MaxUint16
	case 3:
		acr.Type = 7
	case 4:
		acr.Type = 255
	case 5:
		acr.ComponentType, acr.Type = 99, 99
	}
	if sparse {
		sp := &gltf.Sparse{Count: 2}
		sp.Indices.BufferView, sp.Values.BufferView = 1, 0
		ic := []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}[x.All("sparse.type", 3)]
		sp.Indices.ComponentType = ic
		if d := x.Dev("sparse.indices.componentType", 4); d > 0 {
			sp.Indices.ComponentType = []gltf.ComponentType{gltf.ComponentFloat, gltf.ComponentByte, 77}[d-1]
		}
		var sd []byte
		if len(doc.Buffers) > 1 {
			sd = doc.Buffers[1].Data
		}
		idx := []uint32{0, uint32(n - 1)}
		k := x.Dev("sparse.index", 8)
		if k > 0 {
			idx[k%2] = []uint32{n, n - 1, n + 1, 255, 65535, math.MaxUint32, 1 << 31, 0}[k]
		}
		if sd != nil {
			is := compSize(ic)
			for i, v := range idx {
				for b := 0; b < is; b++ {
					sd[i*is+b] = byte(v >> (8 * b))
				}
			}
		}
		sp.Count = ints("sparse.count", 2, 0, 1, n, n+1)
		sp.Indices.BufferView = ints("sparse.indices.bufferView", 1, 0, 2)
		sp.Indices.ByteOffset = ints("sparse.indices.byteOffset", 0, 1, 60, 63, 64, 65)
		sp.Values.BufferView = ints("sparse.values.bufferView", 0, 1, 2)
		sp.Values.ByteOffset = ints("sparse.values.byteOffset", 0, 4, esz, 2*esz, 3*esz, 3*esz+4, 3*esz+5)
		acr.Sparse = sp
	}
	checkBad(x, fn, doc, acr)
}

// badIndices enumerates all sequences of sparse indices, in and out of range.
func badIndices(x *X) {
	fn := readFns[x.All("fn", len(readFns))]
	var fmts [][2]int
	for ci, c := range allComps {
		for ti, t := range allTypes {
			if fn.ok(c, t) {
				fmts = append(fmts, [2]int{ci, ti})
			}
		}
	}
	f := fmts[x.All("format", min(len(fmts), 2))*(len(fmts)-1)]
	c, t := allComps[f[0]], allTypes[f[1]]
	ic := []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}[x.All("sparse.type", 3)]
	n := []int{1, 3, 5, 4}[x.All("count", 3)]
	doc := &gltf.Document{}
	acr := &gltf.Accessor{ComponentType: c, Type: t, Count: n}
	if x.All("base", 2) == 1 {
		acr.BufferView = gltf.Index(addView(doc, 0, 0, layout(pattern(n*refMemSize(c, t), 1), c, t, 0, 0, 0), 0))
	}
	k := min(x.All("indices", 4)+1, n)
	top := 1<<(8*compSize(ic)) - 1
	vals := []int{0, n - 1, n / 2, n, n + 1, top}
	var idx []int
	for i := 0; i < k; i++ {
		idx = append(idx, vals[x.All("index", len(vals))])
	}
	good, sorted := true, true
	for i, v := range idx {
		good = good && v < n
		sorted = sorted && (i == 0 || idx[i-1] < v)
	}
	addSparse(doc, acr, idx, ic, pattern(k*refMemSize(c, t), 2), 0, 0, 0)
	if good && !sorted { // not valid either; the result is not specified
		x.State(fmt.Sprint(fn.name, descAccessor(doc, acr)))
		fn.call(doc, acr)
		return
	}
	checkBad(x, fn, doc, acr)
}

func checkBad(x *X, fn readFn, doc *gltf.Document, acr *gltf.Accessor) {
	x.State(fmt.Sprint(fn.name, descAccessor(doc, acr)))
	x.Log("%s %s", fn.name, descAccessor(doc, acr))
	if ms := refMemSize(acr.ComponentType, acr.Type); acr.BufferView == nil && acr.Count > 1_000_000 && ms > 0 && acr.Count <= math.MaxInt/ms {
		// No data backs the elements. Only counts that cannot possibly be
		// allocated are tried: the others would exhaust this machine.
		if acr.Count < 1<<52 || !fn.ok(acr.ComponentType, acr.Type) {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.Fail("unbacked-count", "%s of an accessor without buffer view panics: %v\n%s", fn.name, r, descAccessor(doc, acr))
				}
			}()
			fn.call(doc, acr)
		}()
		return
	}
	got, err := fn.call(doc, acr)
	want, rerr := refRead(doc, acr)
	if !fn.ok(acr.ComponentType, acr.Type) {
		if err == nil {
			x.Fail("accepted", "%s accepted component type %v, type %v", fn.name, acr.ComponentType, acr.Type)
		}
		return
	}
	x.Outcome(fmt.Sprint(fn.name, err, rerr))
	if rerr != nil {
		if err == nil && acr.Count != 0 {
			x.Fail("accepted", "%s returned %s although %v\n%s", fn.name, short(got), rerr, descAccessor(doc, acr))
		}
		return
	}
	if err == nil {
		if d := compareRead(fn.name, got, want); d != "" {
			x.Fail("differs", "%s: %s\n%s", fn.name, d, descAccessor(doc, acr))
		}
	}
}

func descAccessor(doc *gltf.Document, a *gltf.Accessor) string {
	s := fmt.Sprintf("accessor{ct:%d type:%d count:%d off:%d", a.ComponentType, a.Type, a.Count, a.ByteOffset)
	if a.BufferView != nil {
		s += fmt.Sprintf(" view:%d", *a.BufferView)
	}
	if sp := a.Sparse; sp != nil {
		s += fmt.Sprintf(" sparse{count:%d indices{view:%d off:%d ct:%d} values{view:%d off:%d}}", sp.Count, sp.Indices.BufferView, sp.Indices.ByteOffset, sp.Indices.ComponentType, sp.Values.BufferView, sp.Values.ByteOffset)
	}
	s += "} views["
	for _, v := range doc.BufferViews {
		if v == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("{b:%d off:%d len:%d stride:%d} ", v.Buffer, v.ByteOffset, v.ByteLength, v.ByteStride)
	}
	s += "] buffers["
	for _, b := range doc.Buffers {
		if b == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("%d/%d/%x ", len(b.Data), b.ByteLength, hashBytes(b.Data)&0xffff)
	}
	return s + "]"
}

// badViews checks ReadBufferView on all boundary combinations.
func badViews(x *X) {
	data := bufData(16, 3)
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 16, Data: data}, {ByteLength: 16}, nil}}
	vals := []int{0, 1, 4, 15, 16, 17, -1, -4, math.MaxInt, math.MinInt, math.MaxInt - 8, math.MinInt + 8, 1 << 32, -1 << 32, 1<<62 + 8}
	bufs := []int{0, 1, 2, 3, -1, math.MaxInt, math.MinInt}
	bv := &gltf.BufferView{Buffer: bufs[x.All("buffer", len(bufs))], ByteOffset: vals[x.All("off", len(vals))], ByteLength: vals[x.All("len", len(vals))],
		ByteStride: []int{0, 4, -1, math.MaxInt}[x.All("stride", 4)]}
	if x.All("nobuffers", 2) == 1 {
		doc.Buffers = nil
	}
	x.State(fmt.Sprint(*bv, len(doc.Buffers)))
	got, err := modeler.ReadBufferView(doc, bv)
	want, rerr := refView(doc, bv)
	if rerr != nil {
		if err == nil {
			x.Fail("accepted", "view %+v: %d bytes although %v", *bv, len(got), rerr)
		}
		return
	}
	if err != nil {
		if len(want) > 0 {
			x.Fail("rejected", "valid view %+v: %v", *bv, err)
		}
		return
	}
	if !bytes.Equal(got, want) {
		x.Fail("differs", "view %+v returned other bytes", *bv)
	}
}

// badRanges sweeps small values of all range fields as a full product.
func badRanges(x *X) {
	fns := []int{0, 1, 8, 10}
	fn := readFns[fns[x.All("fn", len(fns))]]
	var c gltf.ComponentType
	var t gltf.AccessorType
	switch fn.name {
	case "ReadAccessor":
		f := [][2]int{{0, 0}, {1, 2}, {3, 3}, {1, 4}, {3, 5}, {5, 1}}[x.All("format", 6)]
		c, t = allComps[f[0]], allTypes[f[1]]
	case "ReadIndices":
		c, t = allComps[[]int{1, 3, 4}[x.All("format", 3)]], gltf.AccessorScalar
	case "ReadColor":
		c, t = allComps[[]int{1, 3, 5}[x.All("format", 3)]], gltf.AccessorVec4
	default:
		c, t = gltf.ComponentFloat, gltf.AccessorMat4
	}
	esz := refElemSize(c, t)
	blen := []int{0, 1, esz - 1, esz, 2*esz + 1, 3*esz + 8}[x.All("data", 6)]
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: blen, Data: bufData(blen, 5)}}}
	offs := []int{-1, 0, 1, 4, esz, blen, blen + 1}
	doc.BufferViews = []*gltf.BufferView{{ByteOffset: offs[x.All("bvoff", len(offs))], ByteLength: []int{-1, 0, 1, esz, 2 * esz, blen, blen + 1}[x.All("bvlen", 7)],
		ByteStride: []int{0, 1, esz, esz + 4, -1, -esz}[x.All("stride", 6)]}}
	acr := &gltf.Accessor{ComponentType: c, Type: t, BufferView: gltf.Index(0), ByteOffset: offs[x.All("off", len(offs))], Count: x.All("count", 6) - 1}
	checkBad(x, fn, doc, acr)
}

// badDecoded reads every accessor of documents that went through the decoder
// with a malformed accessor, view or buffer declaration.
func badDecoded(x *X) {
	js := `{"asset":{"version":"2.0"},"buffers":[{"byteLength":24,"uri":"` + dataURI(octet, bufData(24, 4)) + `"}],"bufferViews":[{"buffer":0,"byteOffset":0,"byteLength":24,"byteStride":0}],"accessors":[{"bufferView":0,"byteOffset":0,"componentType":5121,"count":3,"type":"SCALAR","sparse":{"count":1,"indices":{"bufferView":0,"byteOffset":4,"componentType":5121},"values":{"bufferView":0,"byteOffset":0}}}]}`
	var tree any
	if err := json.Unmarshal([]byte(js), &tree); err != nil {
		panic(divergence{err.Error()})
	}
	var paths []jpath
	for _, p := range jsonPaths(tree) {
		if len(p) > 0 && p[0] != "asset" {
			paths = append(paths, p)
		}
	}
	s := mutateJSON(tree, paths[x.All("path", len(paths))], x.All("value", len(badJSON)+3))
	doc, err := decodeBytes([]byte(s), nil)
	x.State(s)
	if err != nil {
		return
	}
	for _, a := range doc.Accessors {
		if a == nil || (a.BufferView == nil && a.Count > 1_000_000) {
			continue
		}
		for _, fn := range readFns {
			checkBad(x, fn, doc, a)
		}
	}
	for _, v := range doc.BufferViews {
		if v != nil {
			got, err := modeler.ReadBufferView(doc, v)
			want, rerr := refView(doc, v)
			if err == nil && (rerr != nil || !bytes.Equal(got, want)) {
				x.Fail("accepted", "ReadBufferView returned %d bytes, reference says %v", len(got), rerr)
			}
		}
	}
}
