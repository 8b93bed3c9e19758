package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/qmuntal/gltf"
)

// glbSpec is an independent GLB writer.
type glbSpec struct {
	json    []byte
	pad     int // extra spaces after the mandatory alignment
	bin     []byte
	hasBin  bool
	length  *uint32
	jsonLen *uint32
	jsonTyp *uint32
	binLen  *uint32
	binTyp  *uint32
	magic   *uint32
}

func or32(p *uint32, v uint32) uint32 {
	if p != nil {
		return *p
	}
	return v
}

const (
	magicGLTF = 0x46546c67
	typeJSON  = 0x4e4f534a
	typeBIN   = 0x004e4942
)

func (g glbSpec) bytes() []byte {
	js := append([]byte{}, g.json...)
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	for i := 0; i < g.pad; i++ {
		js = append(js, ' ')
	}
	bin := append([]byte{}, g.bin...)
	for len(bin)%4 != 0 {
		bin = append(bin, 0)
	}
	total := 20 + len(js)
	if g.hasBin {
		total += 8 + len(bin)
	}
	var b bytes.Buffer
	w := func(v uint32) { binary.Write(&b, binary.LittleEndian, v) }
	w(or32(g.magic, magicGLTF))
	w(2)
	w(or32(g.length, uint32(total)))
	w(or32(g.jsonLen, uint32(len(js))))
	w(or32(g.jsonTyp, typeJSON))
	b.Write(js)
	if g.hasBin {
		w(or32(g.binLen, uint32(len(bin))))
		w(or32(g.binTyp, typeBIN))
		b.Write(bin)
	}
	return b.Bytes()
}

func docText(n int, binLen int) string {
	gen := strings.Repeat("p", n)
	s := `{"asset":{"version":"2.0","generator":"` + gen + `"}`
	if binLen > 0 {
		s += fmt.Sprintf(`,"buffers":[{"byteLength":%d}]`, binLen)
	}
	return s + `,"nodes":[{"name":"end"}]}`
}

func docWant(n int, binLen int, seed int) *gltf.Document {
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: strings.Repeat("p", n)},
		Nodes: []*gltf.Node{{Name: "end", Matrix: identity, Rotation: [4]float64{0, 0, 0, 1}, Scale: [3]float64{1, 1, 1}}}}
	if binLen > 0 {
		d.Buffers = []*gltf.Buffer{{ByteLength: binLen, Data: bufData(binLen, seed)}}
	}
	return d
}

// fragReader delivers data in explorer-chosen fragments.
type fragReader struct {
	x       *X
	data    []byte
	pos     int
	uniform int  // >0: fixed fragment size
	eofWith bool // deliver EOF together with the last bytes
	devs    bool
	zeros   int
	endErr  error // instead of io.EOF
	reads   int
}

func (r *fragReader) Read(p []byte) (int, error) {
	end := r.endErr
	if end == nil {
		end = io.EOF
	}
	r.reads++
	if r.reads > 1_000_000 {
		r.x.Fail("hang", "more than a million reads for %d bytes", len(r.data))
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, end
	}
	n := min(len(p), len(r.data)-r.pos)
	if r.uniform > 0 {
		n = min(n, r.uniform)
	}
	if r.devs {
		switch r.x.Dev("read", 6) {
		case 1:
			n = 1
		case 2:
			n = (n + 1) / 2
		case 3:
			n = max(1, n-1)
		case 4:
			if r.zeros < 3 {
				r.zeros++
				return 0, nil
			}
		case 5:
			n = min(n, 20)
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.data) && r.eofWith {
		return n, end
	}
	return n, nil
}

// brokenReader fails once when it has delivered a number of bytes.
type brokenReader struct {
	fragReader
	at   int
	err  error // nil once it has been returned
	with bool  // together with data
}

func (r *brokenReader) Read(p []byte) (int, error) {
	if r.err == nil || r.pos+len(p) < r.at || len(p) == 0 {
		return r.fragReader.Read(p)
	}
	n := 0
	if r.at > r.pos {
		q := p[:min(len(p), r.at-r.pos)]
		if n, _ = r.fragReader.Read(q); r.pos < r.at || !r.with {
			return n, nil
		}
	}
	err := r.err
	r.err = nil
	return n, err
}

func u32(v uint32) *uint32 { return &v }

func init() {
	register(&Property{
		ID: "C03", Level: "model_checking",
		Rule:        "a case is a document with one JSON length residue, buffer length, buffer placement and extra buffers; the GLB written by the library is parsed by an independent parser; a state is the distinct output",
		Assumptions: []string{"every buffer's byteLength equals the length of its data"},
		Harnesses: []Harness{
			{Name: "lengths", Run: func(x *X) {
				pad := x.All("jsonpad", 9)
				lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 100, 255, 256, 1023, 4093, 4094, 4095, 4096, 4097, 65535, 65537, 131073}
				n := lens[x.All("binlen", len(lens))]
				mode := x.All("first", 5)
				extra := x.All("extra", 4)
				ind := x.All("indent", 4)
				checkGLB(x, pad, n, mode, extra, ind)
			}},
			{Name: "docs", Bound: 1, BoundDeep: 2, Run: func(x *X) {
				full := x.All("profile", 2) == 1
				t := kindDoc(x, x.All("kind", numKinds), full, true)
				checkWire(x, t, formGLB)
				b := mustEncode(x, t.In, formGLB, newMemFS())
				g, err := parseGLB(b)
				if err != nil {
					x.Fail("glb", "%v", err)
				}
				checkBin(x, t.In, g)
			}},
			{Name: "four-gigabytes", Run: rejectHuge, Serial: true},
			{Name: "every-length", Run: func(x *X) {
				// all residues of both chunks over a contiguous range
				checkGLB(x, x.All("jsonpad", 4), x.All("binlen", 1200), 0, 0, 0)
			}},
		},
	})

	register(&Property{
		ID: "C04", Level: "model_checking",
		Rule:        "a case is a byte stream and a fragmentation of it into reads; the decoded document must be the one the bytes denote; a state is the pair of stream and fragmentation",
		Assumptions: []string{"readers follow the io.Reader contract and return (0, nil) at most three times in a row"},
		Harnesses: []Harness{
			{Name: "deviations", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				data, want := streamCase(x, x.All("stream", 10))
				r := &fragReader{x: x, data: data, devs: true, eofWith: x.All("eof", 2) == 1, uniform: []int{0, max(20, len(data)/40), max(64, len(data)/10)}[x.All("uniform", 3)]}
				checkStream(x, r, want)
			}},
			{Name: "uniform", Run: func(x *X) {
				data, want := streamCase(x, x.All("stream", 10))
				u := 1 + x.All("uniform", 70)
				r := &fragReader{x: x, data: data, uniform: u, eofWith: x.All("eof", 2) == 1}
				checkStream(x, r, want)
			}},
			{Name: "one-split", Run: func(x *X) {
				// the stream arrives in two pieces, split at every position
				data, want := streamCase(x, x.All("stream", 6))
				at := x.All("split", len(data)+1)
				r := io.MultiReader(bytes.NewReader(data[:at]), bytes.NewReader(data[at:]))
				checkStream(x, r, want)
			}},
			{Name: "chunk-boundary", Run: func(x *X) {
				// the end of the JSON chunk sweeps over the internal buffer size
				base := []int{4096 - 200, 8192 - 200, 512 - 150, 1024 - 150}[x.All("base", 4)]
				off := x.All("offset", 240)
				pads := []int{0, 4, 8, 40, 4096}
				pad := pads[x.All("pad", len(pads))]
				bl := []int{1, 5, 5000}[x.All("bin", 3)]
				n := base + off
				data := glbSpec{json: []byte(docText(n, bl)), pad: pad, bin: bufData(bl, 3), hasBin: true}.bytes()
				for _, u := range []int{0, 1, 20, 512, 4096} {
					r := &fragReader{x: x, data: data, uniform: u}
					checkStream(x, r, docWant(n, bl, 3))
				}
			}},
			{Name: "readers", Run: readerKinds},
			{Name: "errors-too", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				// whether a broken stream is rejected does not depend on fragmentation
				data, _ := streamCase(x, []int{0, 1, 2, 4}[x.All("stream", 4)])
				cut := x.All("cut", 40)
				data = data[:len(data)*cut/40]
				d0, e0 := decodeBytes(data, nil)
				r := &fragReader{x: x, data: data, devs: true, eofWith: x.All("eof", 2) == 1}
				d1 := new(gltf.Document)
				e1 := gltf.NewDecoder(r).Decode(d1)
				x.State(fmt.Sprint(cut, r.reads, len(data), x.choices()))
				if (e0 == nil) != (e1 == nil) {
					x.Fail("differs", "contiguous: error %v, fragmented: error %v", e0, e1)
				}
				if e0 == nil {
					if d := diffDoc(d1, d0); d != "" {
						x.Fail("differs", "%s", d)
					}
				}
			}},
		},
	})

	register(&Property{
		ID: "C05", Level: "fault_enumeration",
		Rule: "a case is a stream cut or failing at one position in one way, or a failing external operation; distinct cases are counted by stream, position and mode; all are non-trivial except the uncut ones used as controls",
		Harnesses: []Harness{
			{Name: "cuts", Run: func(x *X) {
				s := x.All("stream", 15)
				data, want := streamCase(x, s)
				step := 1
				if len(data) > 3000 && !x.Thorough {
					step = 7
				}
				cut := min(x.All("cut", len(data)/step+2)*step, len(data))
				need, full := contentEnd(data)
				modes := []error{io.EOF, errFault, io.ErrUnexpectedEOF}
				if s < 5 {
					modes = append([]error{io.EOF}, faultErrors[:faultErrorsRead]...)
				}
				mode := x.All("mode", len(modes))
				uni := []int{0, 1}[x.All("uniform", 2)]
				r := &fragReader{x: x, data: data[:cut], uniform: uni, eofWith: x.All("with-data", 2) == 1, endErr: modes[mode]}
				x.State(fmt.Sprint(s, cut, mode, uni, r.eofWith))
				doc := new(gltf.Document)
				err := gltf.NewDecoder(r).Decode(doc)
				x.Outcome(fmt.Sprint(err))
				if cut < need && err == nil {
					x.Fail("silent", "stream of %d bytes cut after %d (content ends at %d) was accepted", len(data), cut, need)
				}
				if cut == full && mode == 0 && err != nil {
					x.Fail("rejected", "complete stream rejected: %v", err)
				}
				if err == nil {
					if d := diffDoc(doc, want); d != "" {
						x.Fail("differs", "%s", d)
					}
				}
			}},
			{Name: "interrupted", Run: func(x *X) {
				// one failing read, after which the stream goes on
				s := []int{0, 1, 3, 4, 8, 9, 10, 14}[x.All("stream", 8)]
				data, want := streamCase(x, s)
				step := 1
				if len(data) > 3000 && !x.Thorough {
					step = 7
				}
				cut := min(x.All("at", len(data)/step+2)*step, len(data))
				need, _ := contentEnd(data)
				e := x.All("error", faultErrorsRead)
				r := &brokenReader{fragReader{x: x, data: data, uniform: []int{0, 1}[x.All("uniform", 2)]}, cut, faultErrors[e], x.All("with-data", 2) == 1}
				x.State(fmt.Sprint("interrupted", x.choices()))
				doc := new(gltf.Document)
				err := gltf.NewDecoder(r).Decode(doc)
				x.Outcome(fmt.Sprint(err))
				if cut < need && err == nil {
					x.Fail("silent", "stream of %d bytes failed after %d (content ends at %d) and was accepted", len(data), cut, need)
				}
				if err == nil {
					if d := diffDoc(doc, want); d != "" {
						x.Fail("differs", "%s", d)
					}
				}
			}},
			{Name: "open-cut-files", Run: func(x *X) {
				s := []int{0, 1, 2, 4}[x.All("stream", 4)]
				data, want := streamCase(x, s)
				cut := x.All("cut", len(data)+1)
				need, full := contentEnd(data)
				x.State(fmt.Sprint("open", s, cut))
				dir := scratch(x)
				defer os.RemoveAll(dir)
				name := filepath.Join(dir, "m.glb")
				if err := os.WriteFile(name, data[:cut], 0o644); err != nil {
					panic(err)
				}
				doc, err := gltf.Open(name)
				checkOpen(x, doc, err, cut < need, cut == full, want)
			}},
			{Name: "open-failures", Run: openFailures},
			{Name: "external", Bound: 2, BoundDeep: 3, Run: func(x *X) {
				// external buffers: every failing open, stat and read
				n := 1 + x.All("buffers", 3)
				size := []int{3, 600, 70000}[x.All("size", 3)]
				fs := newMemFS()
				failed := ""
				want := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
				var arr []string
				for i := 0; i < n; i++ {
					nm := fmt.Sprintf("b%d.bin", i)
					fs.files[nm] = bufData(size, i)
					arr = append(arr, fmt.Sprintf(`{"uri":%q,"byteLength":%d}`, nm, size))
					want.Buffers = append(want.Buffers, &gltf.Buffer{URI: nm, ByteLength: size, Data: bufData(size, i)})
				}
				missing := x.All("missing", n+1)
				if missing < n {
					delete(fs.files, fmt.Sprintf("b%d.bin", missing))
					failed = "missing file"
				}
				fs.fault = func(op, name string) faultKind {
					switch op {
					case "open", "stat":
						if x.Dev(op, 2) == 1 {
							if op == "open" {
								failed = "open " + name
							}
							fs.err = faultErrors[x.Dev("error", len(faultErrors))]
							return faultErr
						}
					case "read":
						switch k := x.Dev("read", 5); k {
						case 1, 2, 4:
							failed = "read " + name
							fs.err = faultErrors[x.Dev("error", faultErrorsRead)]
							return faultKind(k)
						case 3:
							return faultShortOK
						}
					}
					return faultNone
				}
				doc := new(gltf.Document)
				err := gltf.NewDecoderFS(strings.NewReader(`{"asset":{"version":"2.0"},"buffers":[`+strings.Join(arr, ",")+`]}`), fs).Decode(doc)
				x.State(fmt.Sprint(x.choices(), fs.opened, failed))
				if failed != "" && err == nil {
					x.Fail("silent", "decoding succeeded although %s failed", failed)
				}
				if failed == "" && err != nil {
					x.Fail("rejected", "decoding failed without a fault: %v", err)
				}
				if err == nil {
					if d := diffDoc(doc, want); d != "" {
						x.Fail("differs", "%s", d)
					}
				}
			}},
		},
	})

	register(&Property{
		ID: "C06", Level: "fault_enumeration",
		Rule:        "a case is one encode with up to the bounded number of failing sink operations (each write, create and close is a fault point; it can fail before, half-way or after taking the data); distinct cases are counted by document, form and fault positions; fault-free runs are the controls",
		Assumptions: []string{"sinks follow the io.Writer contract: a short write returns an error"},
		Harnesses: []Harness{
			{Name: "faults", Bound: 2, BoundDeep: 3, Run: sinkFaults},
			{Name: "faults-large", Bound: 2, BoundDeep: 3, Run: func(x *X) { sinkFaultsOf(x, true) }},
			{Name: "faults-nth", Run: func(x *X) { sinkFaultNth(x) }},
			{Name: "real-files", Run: realSaveFaults},
		},
	})

	register(&Property{
		ID: "C25", Level: "model_checking",
		Rule: "a case is one combination of header field values, declared byteLength and delivered bytes; the library must reject what the reference acceptor rejects, accept the consistent ones and only ever load bytes of the BIN chunk; a state is the distinct container",
		Harnesses: []Harness{
			{Name: "fields", Bound: 2, BoundDeep: 4, Run: glbFields},
			{Name: "product", Run: glbProduct},
			{Name: "chunks", Run: glbChunks},
		},
	})
}

func checkGLB(x *X, pad, n, mode, extra, indent int) {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: strings.Repeat("g", pad)}}
	var wantBin []byte
	hasBin := false
	fs := newMemFS()
	inline := map[int]string{}
	ext := map[string][]byte{}
	add := func(kind int, n int) {
		i := len(doc.Buffers)
		b := &gltf.Buffer{ByteLength: n, Data: bufData(n, i)}
		switch kind {
		case 0: // no URI
			if i == 0 {
				hasBin, wantBin = true, b.Data
			} else if n > 0 {
				inline[i] = octet + base64.StdEncoding.EncodeToString(b.Data)
			}
		case 1:
			b.EmbeddedResource()
			inline[i] = octet + base64.StdEncoding.EncodeToString(b.Data)
		case 2:
			b.URI = fmt.Sprintf("f%d.bin", i)
			if n > 0 {
				ext[b.URI] = b.Data
			}
			inline[i] = b.URI
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	switch mode {
	case 0:
		add(0, n)
	case 1:
		add(1, n)
	case 2:
		add(2, n)
	case 3: // no buffers at all
		extra = 0
	case 4: // data with spare capacity beyond its length
		add(0, n)
		doc.Buffers[0].Data = append(bufData(n, 0), 0xEE, 0xEE, 0xEE, 0xEE, 0xEE)[:n]
	}
	for i := 0; i < extra; i++ {
		add((i+extra)%3, n+i)
	}
	var buf bytes.Buffer
	e := gltf.NewEncoderFS(&buf, fs)
	e.AsBinary = true
	switch indent {
	case 1:
		e.SetJSONIndent(" ", "  ")
	case 2:
		e.SetJSONIndent("", "\t")
	case 3:
		e.SetJSONIndent("\t", "\n")
	}
	if err := e.Encode(doc); err != nil {
		x.Fail("encode-error", "%v", err)
	}
	b := buf.Bytes()
	x.StateB(b)
	g, err := parseGLB(b)
	if err != nil {
		x.Fail("glb", "malformed GLB (json pad %d, buffer %d bytes): %v", pad, n, err)
	}
	if g.hasBin != hasBin {
		x.Fail("bin", "BIN chunk present: %v, want %v", g.hasBin, hasBin)
	}
	if hasBin {
		checkBinBytes(x, g, wantBin)
	}
	var tree struct {
		Buffers []struct {
			URI        *string `json:"uri"`
			ByteLength int     `json:"byteLength"`
		} `json:"buffers"`
	}
	if err := json.Unmarshal(g.json, &tree); err != nil {
		x.Fail("json", "JSON chunk: %v", err)
	}
	if len(tree.Buffers) != len(doc.Buffers) {
		x.Fail("json", "%d buffers in JSON, want %d", len(tree.Buffers), len(doc.Buffers))
	}
	for i, tb := range tree.Buffers {
		uri, has := inline[i]
		if has != (tb.URI != nil) || (has && *tb.URI != uri) {
			x.Fail("uri", "buffer %d: wrong uri in JSON (present %v, want %v)", i, tb.URI != nil, has)
		}
		if tb.ByteLength != doc.Buffers[i].ByteLength {
			x.Fail("byteLength", "buffer %d: byteLength %d, want %d", i, tb.ByteLength, doc.Buffers[i].ByteLength)
		}
	}
	for nm, d := range ext {
		if !bytes.Equal(fs.files[nm], d) {
			x.Fail("external", "external %s not stored", nm)
		}
	}
	if len(fs.files) != len(ext) {
		x.Fail("external", "created %v", sortedKeys(fs.files))
	}
}

func checkBin(x *X, doc *gltf.Document, g *glbFile) {
	want := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
	if g.hasBin != want {
		x.Fail("bin", "BIN chunk present: %v, want %v", g.hasBin, want)
	}
	if want {
		checkBinBytes(x, g, doc.Buffers[0].Data)
	}
}

func checkBinBytes(x *X, g *glbFile, want []byte) {
	if len(g.bin) != (len(want)+3)/4*4 {
		x.Fail("bin", "BIN chunk of %d bytes for a buffer of %d", len(g.bin), len(want))
	}
	if !bytes.Equal(g.bin[:len(want)], want) {
		x.Fail("bin", "BIN chunk content differs from the buffer")
	}
	for _, c := range g.bin[len(want):] {
		if c != 0 {
			x.Fail("bin", "BIN padding byte %#x", c)
		}
	}
}

// streamCase returns a byte stream and the document it denotes.
func streamCase(x *X, i int) ([]byte, *gltf.Document) {
	glb := func(n, pad, bl int) ([]byte, *gltf.Document) {
		return glbSpec{json: []byte(docText(n, bl)), pad: pad, bin: bufData(bl, 3), hasBin: bl > 0}.bytes(), docWant(n, bl, 3)
	}
	switch i {
	case 0:
		return []byte(docText(5, 0)), docWant(5, 0, 0)
	case 1:
		return glb(3, 0, 6)
	case 2:
		return glb(1, 8, 0)
	case 3:
		return glb(0, 12, 300)
	case 4:
		d := bufData(9, 1)
		w := docWant(2, 0, 0)
		uri := octet + base64.StdEncoding.EncodeToString(d)
		w.Buffers = []*gltf.Buffer{{ByteLength: 9, URI: uri, Data: d}}
		return []byte(strings.Replace(docText(2, 9), `"byteLength"`, `"uri":"`+uri+`","byteLength"`, 1) + "\n  "), w
	case 5:
		return []byte(`{}`), &gltf.Document{}
	case 6:
		return glb(4500, 0, 4200)
	case 7:
		return []byte(docText(9000, 0)), docWant(9000, 0, 0)
	case 8:
		return glb(2, 4100, 5)
	case 9:
		// JSON of a GLB with leading and inner white space, second buffer embedded
		d := bufData(5, 7)
		uri := octet + base64.StdEncoding.EncodeToString(d)
		js := "  {\n \"asset\" : {\"version\":\"2.0\"} ,\r\n\t\"buffers\":[ {\"byteLength\":10}, {\"byteLength\":5,\"uri\":\"" + uri + "\"}]\n}\n"
		return glbSpec{json: []byte(js), pad: 4, bin: bufData(10, 2), hasBin: true}.bytes(),
			&gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 10, Data: bufData(10, 2)}, {ByteLength: 5, URI: uri, Data: d}}}
	case 10, 11, 12, 13, 14: // small binary chunks
		return glb(i, 0, i-9)
	}
	panic("stream")
}

// contentEnd returns after how many bytes the content of a stream is complete,
// and its full length.
func contentEnd(data []byte) (need, full int) {
	full = len(data)
	if !bytes.HasPrefix(data, []byte("glTF")) {
		return bytes.LastIndexByte(data, '}') + 1, full
	}
	jl := int(binary.LittleEndian.Uint32(data[12:]))
	if 20+jl == len(data) {
		return bytes.LastIndexByte(data, '}') + 1, full
	}
	var d struct{ Buffers []struct{ ByteLength int } }
	if err := json.Unmarshal(data[20:20+jl], &d); err != nil {
		panic(err)
	}
	return 28 + jl + d.Buffers[0].ByteLength, full
}

func checkStream(x *X, r io.Reader, want *gltf.Document) {
	doc := new(gltf.Document)
	err := gltf.NewDecoder(r).Decode(doc)
	x.State(fmt.Sprint(x.choices()))
	if err != nil {
		x.Fail("rejected", "decoding failed: %v", err)
	}
	if d := diffDoc(doc, want); d != "" {
		x.Fail("differs", "%s", d)
	}
}

func scratch(x *X) string {
	dir, err := os.MkdirTemp("", "w")
	if err != nil {
		panic(divergence{"scratch: " + err.Error()})
	}
	return dir
}

func checkOpen(x *X, doc *gltf.Document, err error, mustFail, mustPass bool, want *gltf.Document) {
	if (doc == nil) != (err != nil) {
		x.Fail("open-result", "Open returned document %v together with error %v", doc != nil, err)
	}
	if mustFail && err == nil {
		x.Fail("silent", "Open succeeded on an incomplete or unreadable input")
	}
	if mustPass && err != nil {
		x.Fail("rejected", "Open failed: %v", err)
	}
	if err == nil && want != nil {
		if d := diffDoc(doc, want); d != "" {
			x.Fail("differs", "%s", d)
		}
	}
}

func openFailures(x *X) {
	dir := scratch(x)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m.gltf")
	k := x.All("case", 9)
	bad := x.All("bad-buffer", 3)
	x.State(fmt.Sprint("openfail", k, bad))
	mustFail := true
	var want *gltf.Document
	write := func(n string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			panic(err)
		}
	}
	bufs := func() {
		var arr []string
		want = &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		for i := 0; i < 3; i++ {
			nm := fmt.Sprintf("b%d.bin", i)
			arr = append(arr, fmt.Sprintf(`{"uri":%q,"byteLength":5}`, nm))
			write(nm, bufData(5, i))
			want.Buffers = append(want.Buffers, &gltf.Buffer{URI: nm, ByteLength: 5, Data: bufData(5, i)})
		}
		write("m.gltf", []byte(`{"asset":{"version":"2.0"},"buffers":[`+strings.Join(arr, ",")+`]}`))
	}
	badName := filepath.Join(dir, fmt.Sprintf("b%d.bin", bad))
	switch k {
	case 0:
		bufs()
		mustFail = false
	case 1: // no such file
	case 2: // a directory
		os.Mkdir(name, 0o755)
	case 3: // empty file
		write("m.gltf", nil)
	case 4: // external buffer missing
		bufs()
		os.Remove(badName)
	case 5: // external buffer is a directory
		bufs()
		os.Remove(badName)
		os.Mkdir(badName, 0o755)
	case 6: // external buffer is a dangling symlink
		bufs()
		os.Remove(badName)
		os.Symlink(filepath.Join(dir, "nowhere"), badName)
	case 7: // external buffer is a symlink loop
		bufs()
		os.Remove(badName)
		os.Symlink(badName, badName)
	case 8: // buffer without URI in a .gltf
		write("m.gltf", []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":5}]}`))
	}
	doc, err := gltf.Open(name)
	checkOpen(x, doc, err, mustFail, !mustFail, want)
}

// ---- C06 ----

type faultWriter struct {
	buf   bytes.Buffer
	err   error
	fault func(op string) faultKind
	n     int
}

func (w *faultWriter) Write(b []byte) (int, error) {
	w.n++
	k := w.fault("main")
	err := w.err
	if err == nil {
		err = errFault
	}
	switch k {
	case faultErr:
		return 0, err
	case faultShort:
		w.buf.Write(b[:len(b)/2])
		return len(b) / 2, err
	case faultPost:
		w.buf.Write(b)
		return len(b), err
	}
	return w.buf.Write(b)
}

func sinkDoc(x *X, large bool) (*gltf.Document, int) {
	doc := gltf.NewDocument()
	form := x.All("form", numForms)
	n := 4
	if large {
		n = 3
	}
	n = x.All("buffers", n)
	first := x.All("first", 3)
	lens := []int{1, 4, 6, 3}
	if large {
		lens = []int{70000, 33000, 66001}
	}
	for i := 0; i < n; i++ {
		b := &gltf.Buffer{ByteLength: lens[i], Data: bufData(lens[i], i)}
		switch (i + first) % 3 {
		case 1:
			b.URI = fmt.Sprintf("f%d.bin", i)
		case 2:
			b.EmbeddedResource()
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	if !large {
		doc.Asset.Generator = strings.Repeat("g", x.All("pad", 4))
	}
	return doc, form
}

func runSink(x *X, doc *gltf.Document, form int, w *faultWriter, fs *memFS, injected *string) {
	e := gltf.NewEncoderFS(w, fs)
	e.AsBinary = form == formGLB
	if form == formIndent {
		e.SetJSONIndent("", " ")
	}
	err := e.Encode(doc)
	x.State(fmt.Sprint(x.choices(), *injected, w.buf.Len(), fs.created))
	x.Outcome(fmt.Sprint(err))
	if *injected != "" && err == nil {
		x.Fail("silent", "Encode returned nil although %s failed", *injected)
	}
	if *injected == "" && err != nil {
		x.Fail("spurious", "Encode failed without a fault: %v", err)
	}
	if fs.open != 0 {
		x.Fail("unclosed", "%d created files not closed", fs.open)
	}
	if fs.dbl {
		x.Fail("double-close", "a created file was closed twice")
	}
	if err == nil {
		ref := newMemFS()
		var rb bytes.Buffer
		re := gltf.NewEncoderFS(&rb, ref)
		re.AsBinary = form == formGLB
		if form == formIndent {
			re.SetJSONIndent("", " ")
		}
		if err := re.Encode(doc); err != nil {
			x.Fail("spurious", "second Encode failed: %v", err)
		}
		if !bytes.Equal(rb.Bytes(), w.buf.Bytes()) {
			x.Fail("content", "Encode returned nil but the sink holds %d bytes, want %d", w.buf.Len(), rb.Len())
		}
		for _, b := range doc.Buffers {
			if b.URI != "" && !b.IsEmbeddedResource() && !bytes.Equal(fs.files[b.URI], b.Data) {
				x.Fail("content", "Encode returned nil but %s holds %d bytes, want %d", b.URI, len(fs.files[b.URI]), len(b.Data))
			}
		}
	}
}

func sinkFaults(x *X) { sinkFaultsOf(x, false) }

func sinkFaultsOf(x *X, large bool) {
	doc, form := sinkDoc(x, large)
	injected := ""
	fs := newMemFS()
	for i, have := 0, x.All("existing", 3); have > 0 && i < len(doc.Buffers); i++ { // from an earlier save
		if u := doc.Buffers[i].URI; u != "" && !doc.Buffers[i].IsEmbeddedResource() {
			fs.files[u] = bufData([]int{0, doc.Buffers[i].ByteLength, 200000}[have], 9)
			if have == 1 {
				copy(fs.files[u], doc.Buffers[i].Data)
			}
		}
	}
	w := &faultWriter{}
	ask := func(op string, n int) faultKind {
		k := [...]faultKind{faultNone, faultErr, faultShort, faultPost}[x.Dev(op, n)]
		if k != faultNone {
			injected += op + " "
			fs.err = faultErrors[x.Dev("error", len(faultErrors))]
			w.err = fs.err
		}
		return k
	}
	fs.fault = func(op, name string) faultKind {
		switch op {
		case "create", "close":
			return ask(op+" "+name, 2)
		case "write":
			return ask(op+" "+name, 4)
		}
		return faultNone
	}
	w.fault = func(string) faultKind { return ask("main write", 4) }
	runSink(x, doc, form, w, fs, &injected)
}

// sinkFaultNth fails the main stream once a byte budget is used up (a full
// device), at every budget.
func sinkFaultNth(x *X) {
	doc, form := sinkDoc(x, false)
	if x.All("large", 2) == 1 && len(doc.Buffers) > 0 {
		doc.Buffers[0].Data, doc.Buffers[0].ByteLength = bufData(9000, 1), 9000
		if doc.Buffers[0].IsEmbeddedResource() {
			doc.Buffers[0].EmbeddedResource()
		}
	}
	b := mustEncode(x, doc, form, newMemFS())
	k := len(b) + 1
	step := 1
	if k > 4000 {
		step = 97
	}
	lim := x.All("budget", k/step+1) * step
	sticky := x.All("sticky", 2) == 1
	injected := ""
	left := lim
	w := &budgetWriter{left: &left, sticky: sticky, injected: &injected}
	fs := newMemFS()
	e := gltf.NewEncoderFS(w, fs)
	e.AsBinary = form == formGLB
	if form == formIndent {
		e.SetJSONIndent("", "\t")
	}
	err := e.Encode(doc)
	x.State(fmt.Sprint(x.choices()))
	if injected != "" && err == nil {
		x.Fail("silent", "Encode returned nil although the stream took only %d of %d bytes", lim, len(b))
	}
	if injected == "" && err != nil {
		x.Fail("spurious", "%v", err)
	}
	if err == nil && !bytes.Equal(w.buf.Bytes(), b) {
		x.Fail("content", "Encode returned nil but wrote %d of %d bytes", w.buf.Len(), len(b))
	}
}

// budgetWriter fails the write that exceeds the budget; if not sticky, later
// writes succeed again.
type budgetWriter struct {
	buf      bytes.Buffer
	left     *int
	sticky   bool
	injected *string
}

func (w *budgetWriter) Write(b []byte) (int, error) {
	if w.sticky && *w.injected != "" {
		return 0, errFault
	}
	if *w.injected == "" && len(b) > *w.left {
		n := *w.left
		w.buf.Write(b[:n])
		*w.left = 0
		*w.injected = "device full"
		return n, errFault
	}
	*w.left -= len(b)
	return w.buf.Write(b)
}

// realSaveFaults saves into a scratch directory where some targets cannot be
// written: /dev/full behind a symlink, a directory in the way, a missing
// directory.
func realSaveFaults(x *X) {
	binary := x.All("binary", 2) == 1
	target := x.All("target", 3) // 0: document, 1..2: external buffers
	kind := x.All("fault", 5)
	size := []int{3, 70000}[x.All("size", 2)]
	x.State(fmt.Sprint("real", binary, target, kind, size))
	dir := scratch(x)
	defer os.RemoveAll(dir)
	doc := gltf.NewDocument()
	doc.Buffers = []*gltf.Buffer{
		{ByteLength: size, Data: bufData(size, 1)},
		{ByteLength: size, Data: bufData(size, 2), URI: "one.bin"},
		{ByteLength: size, Data: bufData(size, 3), URI: "two.bin"},
	}
	files := []string{"doc.out", "one.bin", "two.bin"}
	name := filepath.Join(dir, "doc.out")
	bad := filepath.Join(dir, files[target])
	mustFail := true
	switch kind {
	case 0:
		mustFail = false
	case 1:
		if _, err := os.Stat("/dev/full"); err != nil {
			return
		}
		if err := os.Symlink("/dev/full", bad); err != nil {
			panic(err)
		}
	case 2:
		os.Mkdir(bad, 0o755)
	case 3: // missing directory
		if target == 0 {
			name = filepath.Join(dir, "no", "such", "doc.out")
		} else {
			doc.Buffers[target].URI = "no/such/" + files[target]
		}
	case 4: // a file where a directory is needed
		os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644)
		if target == 0 {
			name = filepath.Join(dir, "plain", "doc.out")
		} else {
			doc.Buffers[target].URI = "plain/" + files[target]
		}
	}
	var err error
	if binary {
		err = gltf.SaveBinary(doc, name)
	} else {
		err = gltf.Save(doc, name)
	}
	if mustFail && err == nil {
		x.Fail("silent", "saving succeeded although %s cannot be written (fault %d)", files[target], kind)
	}
	if !mustFail {
		if err != nil {
			x.Fail("spurious", "%v", err)
		}
		for i, f := range files[1:] {
			b, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil || !bytes.Equal(b, doc.Buffers[i+1].Data) {
				x.Fail("content", "%s: %v, %d bytes", f, err, len(b))
			}
		}
		got, err := gltf.Open(name)
		if err != nil || !bytes.Equal(got.Buffers[0].Data, doc.Buffers[0].Data) {
			x.Fail("content", "reopening: %v", err)
		}
	}
}

// ---- C25 ----

type glbCase struct {
	magic, length, jsonLen, jsonTyp, binLen, binTyp uint32
	version                                         uint32 // xor 2
	byteLength                                      int64
	uri                                             string
	json                                            []byte // as stored in the chunk area, with padding
	bin                                             []byte
	tail                                            bool // BIN header present
}

func (c *glbCase) bytes() []byte {
	var b bytes.Buffer
	w := func(v uint32) { binary.Write(&b, binary.LittleEndian, v) }
	w(c.magic)
	w(2 ^ c.version)
	w(c.length)
	w(c.jsonLen)
	w(c.jsonTyp)
	b.Write(c.json)
	if c.tail {
		w(c.binLen)
		w(c.binTyp)
		b.Write(c.bin)
	}
	return b.Bytes()
}

// acceptable is the reference acceptor: whether the container may be accepted,
// and then the bytes the first buffer must hold.
func acceptable(b []byte, byteLength int64, noURI bool) (bool, []byte) {
	le := binary.LittleEndian
	if len(b) < 20 || le.Uint32(b) != magicGLTF {
		return false, nil
	}
	length, jl := int64(le.Uint32(b[8:])), int64(le.Uint32(b[12:]))
	if le.Uint32(b[16:]) != typeJSON || 20+jl > length {
		return false, nil
	}
	// the JSON text must be complete inside the chunk
	end := min(20+jl, int64(len(b)))
	if err := json.NewDecoder(bytes.NewReader(b[20:end])).Decode(new(any)); err != nil {
		return false, nil
	}
	if !noURI {
		return true, nil
	}
	if byteLength <= 0 || int64(len(b)) < 28+jl {
		return false, nil
	}
	if le.Uint32(b[24+jl:]) != typeBIN || int64(le.Uint32(b[20+jl:])) < byteLength || int64(len(b)) < 28+jl+byteLength {
		return false, nil
	}
	return true, b[28+jl : 28+jl+byteLength]
}

func checkAcceptor(x *X, b []byte, byteLength int64, noURI, consistent bool) {
	x.StateB(b)
	ok, data := acceptable(b, byteLength, noURI)
	doc, err := decodeBytes(b, nil)
	x.Outcome(fmt.Sprint(err))
	if err == nil && !ok {
		x.Fail("accepted", "inconsistent container accepted: %s", describeGLB(b))
	}
	if consistent && err != nil {
		x.Fail("rejected", "consistent container rejected: %v: %s", err, describeGLB(b))
	}
	if err == nil && noURI {
		if len(doc.Buffers) == 0 || !bytes.Equal(doc.Buffers[0].Data, data) {
			x.Fail("data", "buffer holds bytes that are not the BIN chunk's: %s", describeGLB(b))
		}
	}
}

func describeGLB(b []byte) string {
	if len(b) > 400 {
		b = b[:400]
	}
	return fmt.Sprintf("%q", b)
}

func glbJSON(byteLength int64, uri string, pad int) []byte {
	s := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}]}`, byteLength)
	if uri != "" {
		s = fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"uri":%q,"byteLength":%d}]}`, uri, byteLength)
	}
	for len(s)%4 != 0 {
		s += " "
	}
	return []byte(s + strings.Repeat(" ", pad))
}

func glbFields(x *X) {
	n := []int{1, 4, 7, 8, 301, 65541}[x.All("data", 6)]
	pad := []int{0, 4, 8}[x.All("pad", 3)]
	embedded := x.All("embedded", 2) == 1
	c := &glbCase{magic: magicGLTF, jsonTyp: typeJSON, binTyp: typeBIN, tail: true}
	padded := (n + 3) / 4 * 4
	c.bin = make([]byte, padded)
	copy(c.bin, bufData(n, 1))
	bls := []int64{int64(n), int64(n) + 1, int64(padded) + 1, int64(n) - 1, 0, -1, -int64(n), 1 << 31, 1<<32 + int64(n), 1<<32 - 1, -(1 << 32) + int64(n), -(1 << 31), 1<<62 + 1, 1 << 32}
	c.byteLength = bls[x.Dev("byteLength", len(bls))]
	if embedded {
		c.uri = octet + base64.StdEncoding.EncodeToString(bufData(n, 1))
	}
	c.json = glbJSON(c.byteLength, c.uri, pad)
	jl := uint32(len(c.json))
	total := 20 + jl + 8 + uint32(padded)
	jls := []uint32{jl, jl - 1, jl + 1, jl - 4, jl + 4, jl + 8, jl + 8 + uint32(padded), 0, 1, 0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFEC, 0xFFFFFFEB, 0xFFFFFFED, 1 << 31, 0x7FFFFFFF, jl | 1<<31}
	c.jsonLen = jls[x.Dev("jsonLen", len(jls))]
	ls := []uint32{total, total - 1, total + 1, total + 4, 20 + jl, 20 + jl - 1, jl, 12, 0, 0xFFFFFFFF, 1 << 31, 19, 20, 28}
	c.length = ls[x.Dev("length", len(ls))]
	c.jsonTyp = []uint32{typeJSON, typeBIN, 0, 0x4e4f534b, 0x6e6f736a, 0xFFFFFFFF}[x.Dev("jsonType", 6)]
	bl := uint32(padded)
	bns := []uint32{bl, uint32(n), uint32(n) - 1, bl - 1, bl + 1, bl + 4, 0, 0xFFFFFFFF, 1 << 31, 0x80000000 | bl}
	c.binLen = bns[x.Dev("binLen", len(bns))]
	c.binTyp = []uint32{typeBIN, typeJSON, 0, 0x004e4943, 0x204e4942, 0x004e4962}[x.Dev("binType", 6)]
	c.magic = []uint32{magicGLTF, 0, 0x46546c68, 0x676c5446}[x.Dev("magic", 4)]
	c.version = 2 ^ []uint32{2, 1, 0, 3, 0xFFFFFFFF, 0x02000000, 0x10002}[x.Dev("version", 7)]
	deliver := x.Dev("deliver", 5)
	c.tail = deliver != 1
	b := c.bytes()
	switch deliver {
	case 2: // last byte missing
		b = b[:len(b)-1]
	case 3: // unrelated chunk after BIN
		b = append(b, 4, 0, 0, 0, 'X', 'X', 'X', 'X', 1, 2, 3, 4)
		binary.LittleEndian.PutUint32(b[8:], c.length+12)
	case 4: // only half of the BIN data
		b = b[:len(b)-padded/2-1]
	}
	consistent := x.cost == 0 || (deliver == 3 && x.cost == 1)
	if consistent && embedded {
		// accepted whatever the first buffer is stored as
	}
	checkAcceptor(x, b, c.byteLength, !embedded, consistent)
}

// glbProduct: the full product of a reduced alphabet.
func glbProduct(x *X) {
	n := 5
	c := &glbCase{magic: magicGLTF, tail: true}
	c.bin = append(bufData(n, 1), 0, 0, 0)
	bls := []int64{5, 8, 9, 4, -1, 1<<32 + 5, -(1 << 32) + 5}
	c.byteLength = bls[x.All("byteLength", len(bls))]
	c.json = glbJSON(c.byteLength, "", 4)
	jl := uint32(len(c.json))
	total := 20 + jl + 8 + 8
	jls := []uint32{jl, jl - 4, jl + 4, 0xFFFFFFEC, 0xFFFFFFF0}
	c.jsonLen = jls[x.All("jsonLen", len(jls))]
	ls := []uint32{total, total - 4, total - 16, 0, 4, 0xFFFFFFFF}
	c.length = ls[x.All("length", len(ls))]
	c.jsonTyp = []uint32{typeJSON, typeBIN}[x.All("jsonType", 2)]
	bns := []uint32{8, 5, 4, 0, 9, 0xFFFFFFFF}
	c.binLen = bns[x.All("binLen", len(bns))]
	c.binTyp = []uint32{typeBIN, typeJSON, 0x4e4942}[x.All("binType", 3)]
	checkAcceptor(x, c.bytes(), c.byteLength, true, false)
}

// glbChunks: sequences of chunks in the wrong order or number.
func glbChunks(x *X) {
	n := 6
	js := glbJSON(int64(n), "", 0)
	noBuf := []byte(`{"asset":{"version":"2.0"}}     `)
	kinds := 1 + x.All("count", 4)
	var body []byte
	put := func(typ uint32, d []byte) {
		var h [8]byte
		binary.LittleEndian.PutUint32(h[:], uint32(len(d)))
		binary.LittleEndian.PutUint32(h[4:], typ)
		body = append(append(body, h[:]...), d...)
	}
	var seq []int
	needBin := false
	for i := 0; i < kinds; i++ {
		k := x.All("chunk", 10)
		seq = append(seq, k)
		switch k {
		case 0:
			put(typeJSON, js)
			if i == 0 {
				needBin = true
			}
		case 1:
			put(typeBIN, append(bufData(n, 1), 0, 0))
		case 2:
			put(0x58585858, []byte{1, 2, 3, 4})
		case 3:
			put(typeJSON, noBuf)
		case 4:
			put(typeBIN, nil)
		case 5:
			put(typeBIN, bufData(4, 2))
		case 6:
			put(0x58585858, nil)
		case 7:
			put(typeJSON, nil)
		case 8:
			put(0, nil)
		case 9: // another type that starts with BIN
			put(typeBIN|0x20000000, append(bufData(n, 1), 0, 0))
		}
	}
	hdr := make([]byte, 12)
	binary.LittleEndian.PutUint32(hdr, magicGLTF)
	binary.LittleEndian.PutUint32(hdr[4:], 2)
	binary.LittleEndian.PutUint32(hdr[8:], uint32(12+len(body)))
	b := append(hdr, body...)
	consistent := (seq[0] == 0 && len(seq) > 1 && seq[1] == 1) || seq[0] == 3
	checkAcceptor(x, b, int64(n), needBin, consistent)
}

var _ = errors.New

// keptReader is a reader with every optional method a library could look for. It follows the
// contracts of these methods, and it belongs to the caller: nobody else may close it.
type keptReader struct {
	*bytes.Reader
	closed int
}

func (k *keptReader) Close() error { k.closed++; return nil }

// readerKinds decodes from all kinds of readers of which a part has been read before.
func readerKinds(x *X) {
	data, want := streamCase(x, x.All("stream", 15))
	prefix := [][]byte{nil, []byte("x"), []byte(`{"asset":{"version":"1.0"}}`), bytes.Repeat([]byte("glTF"), 5000)}[x.All("before", 4)]
	all := append(append([]byte{}, prefix...), data...)
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(prefix))); err != nil {
			panic(divergence{"readerKinds: " + err.Error()})
		}
		return r
	}
	var after func()
	var r io.Reader
	switch k := x.All("reader", 14); k {
	case 0:
		r = skip(bytes.NewReader(all))
	case 1:
		r = skip(strings.NewReader(string(all)))
	case 2:
		r = skip(bytes.NewBuffer(all))
	case 3:
		r = skip(bufio.NewReaderSize(bytes.NewReader(all), 16))
	case 4:
		r = skip(bufio.NewReader(bytes.NewReader(all)))
	case 5:
		r = skip(bufio.NewReaderSize(bytes.NewReader(all), 1<<16))
	case 6: // a regular file
		dir := scratch(x)
		name := filepath.Join(dir, "f")
		if err := os.WriteFile(name, all, 0o600); err != nil {
			panic(divergence{err.Error()})
		}
		f, err := os.Open(name)
		if err != nil {
			panic(divergence{err.Error()})
		}
		r = skip(f)
		after = func() {
			if err := f.Close(); err != nil {
				x.Fail("closed", "the file has been closed: %v", err)
			}
			os.RemoveAll(dir)
		}
	case 7: // an inner part of something larger
		r = skip(io.NewSectionReader(bytes.NewReader(append(append([]byte("before"), all...), "after"...)), 6, int64(len(all))))
	case 8:
		r = io.LimitReader(skip(bytes.NewReader(append(append([]byte{}, all...), "{}{}"...))), int64(len(data)))
	case 9: // an operating-system pipe
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(divergence{err.Error()})
		}
		go func() { pw.Write(all); pw.Close() }()
		r = skip(pr)
		after = func() {
			if err := pr.Close(); err != nil {
				x.Fail("closed", "the pipe has been closed: %v", err)
			}
		}
	case 10:
		pr, pw := io.Pipe()
		go func() { pw.Write(all); pw.Close() }()
		r = skip(pr)
		after = func() { pr.Close() }
	case 11:
		r = io.TeeReader(skip(bytes.NewReader(all)), io.Discard)
	case 12:
		kr := &keptReader{Reader: bytes.NewReader(all)}
		r = skip(kr)
		after = func() {
			if kr.closed > 0 {
				x.Fail("closed", "the reader has been closed")
			}
		}
	case 13:
		r = io.MultiReader(skip(bytes.NewReader(all)), strings.NewReader(""))
	}
	if x.All("fs", 2) == 1 {
		doc := new(gltf.Document)
		if err := gltf.NewDecoderFS(r, newMemFS()).Decode(doc); err != nil {
			x.Fail("rejected", "decoding failed: %v", err)
		}
		if d := diffDoc(doc, want); d != "" {
			x.Fail("differs", "%s", d)
		}
		x.State(fmt.Sprint(x.choices()))
	} else {
		checkStream(x, r, want)
	}
	if after != nil {
		after()
	}
}
