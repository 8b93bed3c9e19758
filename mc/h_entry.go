package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Property{
		ID: "C27", Level: "fault_enumeration",
		Rule: "a case is a document with up to three buffers of every kind, loaded through a recording file system with up to the bounded number of failing operations, or loaded and saved through real files that are missing, unreadable or in the way; after the call every file opened must have been closed once; distinct cases are counted by document and faults",
		Harnesses: []Harness{
			{Name: "loads", Bound: 2, BoundDeep: 3, Run: releaseLoads},
			{Name: "saves", Bound: 2, BoundDeep: 3, Run: releaseSaves},
			{Name: "descriptors", Run: releaseDescriptors},
		},
	})
	register(&Property{
		ID: "C28", Level: "model_checking",
		Rule: "a case is a document saved, opened, encoded or decoded through two entry points (file functions and streams, constructors and fields, a used and a fresh encoder), with every way of writing the file name or every sequence of settings; the bytes, files and documents are compared; a state is the case with the bytes written",
		Assumptions: []string{
			"no settings are changed while a call is running",
		},
		Harnesses: []Harness{
			{Name: "names", Serial: true, Run: entryNames},
			{Name: "reuse", Run: entryReuse},
			{Name: "constructors", Run: entryConstructors},
			{Name: "sinks", Run: entrySinks},
			{Name: "files", Bound: 1, Run: entryFiles},
		},
	})
}

// ---- C27 ----

func releaseLoads(x *X) {
	n := 1 + x.All("buffers", 3)
	glb := x.All("glb", 2) == 1
	fsys := newMemFS()
	var arr []any
	var bin []byte
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("b%d.bin", i)
		b := map[string]any{"byteLength": 5, "uri": nm}
		switch k := x.All("kind", 9); k {
		case 0:
			fsys.files[nm] = bufData(5, i)
		case 1: // larger than declared
			fsys.files[nm] = bufData(1500, i)
		case 2: // shorter than declared
			fsys.files[nm] = bufData(2, i)
		case 3: // missing
		case 4:
			b["uri"] = dataURI(octet, bufData(5, i))
		case 5:
			b["uri"] = "../" + nm
		case 6:
			b["uri"] = octet + ",!"
		case 7:
			if i == 0 && glb {
				bin = bufData(8, 0)
			}
			delete(b, "uri")
		case 8:
			fsys.files[nm] = bufData(5, i)
			b["byteLength"] = []int{0, -1, 1}[x.All("length", 3)]
		}
		arr = append(arr, b)
	}
	text, _ := json.Marshal(map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": arr})
	in := text
	if glb {
		g := glbSpec{json: text, bin: bin, hasBin: bin != nil}
		in = g.bytes()
	}
	fsys.fault = func(op, name string) faultKind {
		switch op {
		case "open", "stat", "rclose":
			if x.Dev(op, 2) == 1 {
				return faultErr
			}
		case "read":
			return faultKind(x.Dev("read", 5))
		}
		return faultNone
	}
	err := gltf.NewDecoderFS(bytes.NewReader(in), fsys).Decode(new(gltf.Document))
	x.Outcome(fmt.Sprint(err))
	x.State(fmt.Sprint(x.choices()))
	if fsys.ropen != 0 {
		x.Fail("leak", "%d of %d files are still open after Decode (error %v)", fsys.ropen, len(fsys.opened), err)
	}
	if fsys.rbad != "" {
		x.Fail("misuse", "%s (error %v)", fsys.rbad, err)
	}
}

// releaseSaves: the files created for external buffers.
func releaseSaves(x *X) {
	n := 1 + x.All("buffers", 3)
	form := x.All("form", numForms)
	doc := gltf.NewDocument()
	for i := 0; i < n; i++ {
		b := &gltf.Buffer{ByteLength: 5, Data: bufData(5, i)}
		switch k := x.All("kind", 6); k {
		case 0:
			b.URI = fmt.Sprintf("b%d.bin", i)
		case 1:
		case 2:
			b.EmbeddedResource()
		case 3:
			b.URI = fmt.Sprintf("d/b%d.bin", i)
			b.Data = nil
		case 4:
			b.URI = "../b.bin"
		case 5:
			b.ByteLength, b.Data = 70000, bufData(70000, i)
			b.URI = fmt.Sprintf("b%d.bin", i)
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	fsys := newMemFS()
	fsys.fault = func(op, name string) faultKind {
		switch op {
		case "create", "open", "stat", "rclose", "close":
			if x.Dev(op, 2) == 1 {
				return faultErr
			}
		case "write", "read":
			return faultKind([]faultKind{faultNone, faultErr, faultShort, faultPost}[x.Dev(op, 4)])
		}
		return faultNone
	}
	var w bytes.Buffer
	main := &failWriter{n: 1 << 30}
	if k := x.All("output", 3); k > 0 { // the stream fails
		main.n, main.short = k*k, k == 2
	}
	e := gltf.NewEncoderFS(io.MultiWriter(main, &w), fsys)
	e.AsBinary = form == formGLB
	if form == formIndent {
		e.SetJSONIndent("", " ")
	}
	err := e.Encode(doc)
	x.Outcome(fmt.Sprint(err))
	x.State(fmt.Sprint(x.choices()))
	if fsys.open != 0 || fsys.ropen != 0 {
		x.Fail("leak", "%d of the created files %q are still open after Encode (error %v)", fsys.open+fsys.ropen, fsys.created, err)
	}
	if fsys.dbl || fsys.rbad != "" {
		x.Fail("misuse", "a file was closed twice or used after closing (error %v) %s", err, fsys.rbad)
	}
}

// openDescriptors lists the open descriptors of this process for files below dir.
func openDescriptors(dir string) (out []string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(divergence{"descriptors: " + err.Error()})
	}
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			out = append(out, strings.TrimPrefix(l, dir+"/"))
		}
	}
	sort.Strings(out)
	return out
}

func releaseDescriptors(x *X) {
	dir := scratch(x)
	defer os.RemoveAll(dir)
	real, err := filepath.EvalSymlinks(dir)
	if err != nil {
		panic(divergence{err.Error()})
	}
	op := x.All("op", 3)
	name := filepath.Join(dir, "m.out")
	mk := func(n string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			panic(divergence{err.Error()})
		}
	}
	doc := gltf.NewDocument()
	files := []string{"m.out"}
	for i := 0; i < 3; i++ {
		b := &gltf.Buffer{ByteLength: 5, Data: bufData(5, i)}
		if i > 0 || x.All("first", 2) == 1 {
			b.URI = fmt.Sprintf("b%d.bin", i)
			files = append(files, b.URI)
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	bin := op == 2 || x.All("stored-binary", 2) == 1
	bad := filepath.Join(dir, files[x.All("bad", len(files))])
	fault := x.All("fault", 14)
	if op == 0 { // the files to open
		f := gltf.Save
		if bin {
			f = gltf.SaveBinary
		}
		if err := f(doc, name); err != nil {
			x.Fail("spurious", "%v", err)
		}
	}
	remove := func() { os.Remove(bad) }
	switch fault {
	case 0:
	case 1:
		remove()
	case 2:
		remove()
		os.Mkdir(bad, 0o755)
	case 3:
		remove()
		os.Symlink(bad, bad)
	case 4:
		remove()
		if op > 0 { // reading it never ends
			os.Symlink("/dev/full", bad)
		}
	case 5: // unreadable, not writable
		os.WriteFile(bad, []byte("{"), 0o644)
		os.Chmod(bad, 0)
	case 6: // cut off, or an old file
		os.WriteFile(bad, []byte("{"), 0o644)
	case 7: // not JSON, or an old file
		os.WriteFile(bad, bytes.Repeat([]byte("x"), 9000), 0o644)
	case 8: // no valid document
		doc.Cameras = []*gltf.Camera{{}}
		if op == 0 {
			mk("m.out", []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1,"uri":"b1.bin"},{"byteLength":1}]}`))
		}
	case 9: // escaping name
		doc.Buffers[2].URI = "../x.bin"
		if op == 0 {
			mk("m.out", []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1,"uri":"b1.bin"},{"byteLength":1,"uri":"../x.bin"}]}`))
		}
	case 10: // an external buffer in a directory that does not exist
		doc.Buffers[2].URI = "missing/x.bin"
		if op == 0 {
			mk("m.out", []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1,"uri":"b1.bin"},{"byteLength":1,"uri":"missing/x.bin"}]}`))
		}
	case 11: // an external buffer below a file
		mk("plain", []byte("x"))
		doc.Buffers[2].URI = "plain/x.bin"
		if op == 0 {
			mk("m.out", []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1,"uri":"b1.bin"},{"byteLength":1,"uri":"plain/x.bin"}]}`))
		}
	case 12: // cut anywhere of interest, or an old file
		b, _ := os.ReadFile(bad)
		cuts := []int{0, 1, 3, 4, 11, 12, 16, 19, 20, 21, len(b) - 1}
		if c := cuts[x.All("cut", len(cuts))]; c >= 0 && c <= len(b) {
			b = b[:c]
		}
		os.WriteFile(bad, b, 0o644)
	case 13: // a GLB of another version, or claiming other lengths
		b, _ := os.ReadFile(bad)
		if at := []int{0, 4, 8, 12, 16}[x.All("word", 5)]; at < len(b) {
			b[at]++
		}
		os.WriteFile(bad, b, 0o644)
	}
	times := 1 + x.All("repeat", 2)
	for i := 0; i < times; i++ {
		switch op {
		case 0:
			_, err = gltf.Open(name)
		case 1:
			err = gltf.Save(doc, name)
		case 2:
			err = gltf.SaveBinary(doc, name)
		}
	}
	x.Outcome(fmt.Sprint(err != nil))
	x.State(fmt.Sprint(x.choices()))
	if l := openDescriptors(real); len(l) > 0 {
		x.Fail("descriptor", "descriptors of %q are open after the call returned (error %v)", l, err)
	}
}

// ---- C28 ----

// sameFiles compares a directory tree with what a file system was given.
func sameFiles(x *X, what, dir string, want map[string][]byte) {
	got := tree(dir)
	for k := range got {
		if strings.HasSuffix(k, "/") || k == "link" {
			delete(got, k)
		}
	}
	var g, w []string
	for k := range got {
		g = append(g, k)
	}
	for k := range want {
		w = append(w, k)
	}
	sort.Strings(g)
	sort.Strings(w)
	if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
		x.Fail("files", "%s: files %q, want %q", what, g, w)
	}
	for _, k := range w {
		b, err := os.ReadFile(filepath.Join(dir, k))
		if err != nil || !bytes.Equal(b, want[k]) {
			x.Fail("bytes", "%s: %q holds %d bytes %.60q, want %d bytes %.60q", what, k, len(b), b, len(want[k]), want[k])
		}
	}
}

func entryDoc(k int) *gltf.Document {
	doc := gltf.NewDocument()
	switch k {
	case 1:
		doc.Nodes = []*gltf.Node{{Name: "a node", Extras: map[string]any{"x": "<&>"}}}
		doc.Buffers = []*gltf.Buffer{{ByteLength: 5, Data: bufData(5, 1)}}
	case 2:
		doc.Buffers = []*gltf.Buffer{{ByteLength: 6, Data: bufData(6, 1)}, {ByteLength: 7, Data: bufData(7, 2), URI: "one.bin"}, {ByteLength: 3, Data: bufData(3, 3)}}
	case 3:
		doc.Buffers = []*gltf.Buffer{{ByteLength: 9, Data: bufData(9, 4), URI: "one.bin"}, {ByteLength: 2, Data: bufData(2, 5), URI: "sub/two%20.bin"}}
		doc.Asset.Copyright = "c"
	case 4:
		doc.Cameras = []*gltf.Camera{{}} // cannot be encoded
	case 5:
		doc.Buffers = []*gltf.Buffer{{ByteLength: 70000, Data: bufData(70000, 6)}, {ByteLength: 70001, Data: bufData(70001, 7), URI: "one.bin"}}
	}
	return doc
}

var entryDirs = []string{"", "./", "d/", "./d/", "d/../", "d/../d/", ".//d//", "d/e/../", "a b%20c#?/", "d/./", "é/", "ABS/", "ABS/d/", "ABS/d/../a b%20c#?/", "link/", "d.gltf/", "..d/", "e:f/", `g\h/`}
var entryBases = []string{"m.gltf", "m.glb", "m", "a b%41.gltf", ".gltf", "m#?.glb", "..m", "é.gltf", "i:j", `g\h.gltf`, "m.bin", "one"}

// entryNames: saving and opening by name, against the same through streams.
func entryNames(x *X) {
	dk := entryDirs[x.All("dir", len(entryDirs))]
	base := entryBases[x.All("base", len(entryBases))]
	bin := x.All("binary", 2) == 1
	doc := entryDoc([]int{0, 2, 3, 5}[x.All("doc", 4)])
	old := x.All("existing", 2) == 1
	root := scratch(x)
	defer os.RemoveAll(root)
	cwd := filepath.Join(root, "cwd")
	for _, d := range []string{"d/e", "a b%20c#?", "é", "d.gltf", "..d", "e:f", `g\h`, "target"} {
		if err := os.MkdirAll(filepath.Join(cwd, d), 0o777); err != nil {
			panic(divergence{err.Error()})
		}
	}
	if err := os.Symlink("target", filepath.Join(cwd, "link")); err != nil {
		panic(divergence{err.Error()})
	}
	was, err := os.Getwd()
	if err != nil {
		was = "/"
	}
	if err := os.Chdir(cwd); err != nil {
		panic(divergence{err.Error()})
	}
	defer os.Chdir(was)
	name := strings.Replace(dk, "ABS", cwd, 1) + base
	// the directory the name denotes, below cwd
	home, err := filepath.Rel(cwd, filepath.Join(cwd, strings.Replace(dk, "ABS", ".", 1)))
	if err != nil {
		panic(divergence{err.Error()})
	}
	if home == "link" {
		home = "target"
	}
	for _, b := range doc.Buffers {
		if strings.HasPrefix(b.URI, "sub/") {
			os.MkdirAll(filepath.Join(cwd, home, "sub"), 0o777)
		}
	}
	if old {
		os.WriteFile(filepath.Join(cwd, home, base), bytes.Repeat([]byte("z"), 200000), 0o644)
	}
	form := formJSON
	save := gltf.Save
	if bin {
		form, save = formGLB, gltf.SaveBinary
	}
	fsys := newMemFS()
	text := mustEncode(x, doc, form, fsys)
	want := map[string][]byte{filepath.Join(home, base): text}
	for k, v := range fsys.files {
		want[filepath.Join(home, k)] = v
	}
	if err := save(doc, name); err != nil {
		x.Fail("save", "saving %q: %v", name, err)
	}
	sameFiles(x, "saving "+name, cwd, want)
	got, err := gltf.Open(name)
	if err != nil {
		x.Fail("open", "opening %q: %v", name, err)
	}
	ref, err := decodeBytes(text, fsys)
	if err != nil {
		x.Fail("decode", "%v", err)
	}
	if d := diffDoc(got, ref); d != "" {
		x.Fail("differs", "Open(%q) and Decode differ: %s", name, d)
	}
	// the same file reached through a link: names are taken next to the name given
	if err := os.Mkdir(filepath.Join(root, "away"), 0o777); err != nil {
		panic(divergence{err.Error()})
	}
	moved := filepath.Join(root, "away", "moved")
	if err := os.Rename(filepath.Join(cwd, home, base), moved); err != nil {
		panic(divergence{err.Error()})
	}
	if err := os.Symlink(moved, filepath.Join(cwd, home, base)); err != nil {
		panic(divergence{err.Error()})
	}
	if got, err = gltf.Open(name); err != nil {
		x.Fail("open", "opening %q, a symbolic link to the document: %v", name, err)
	}
	if d := diffDoc(got, ref); d != "" {
		x.Fail("differs", "Open(%q), a symbolic link to the document, and Decode differ: %s", name, d)
	}
	x.State(fmt.Sprint(x.choices()))
}

// entryFiles: the same for every kind of document.
func entryFiles(x *X) {
	k := x.All("kind", numKinds)
	full := x.All("profile", 2) == 1
	bin := x.All("binary", 2) == 1
	t := kindDoc(x, k, full, bin)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m.glb")
	form := formJSON
	save := gltf.Save
	if bin {
		form, save = formGLB, gltf.SaveBinary
	}
	fsys := newMemFS()
	text := mustEncode(x, t.In, form, fsys)
	x.StateB(text)
	want := map[string][]byte{"m.glb": text}
	for k, v := range fsys.files {
		want[k] = v
		os.MkdirAll(filepath.Join(dir, filepath.Dir(k)), 0o777)
	}
	if err := save(t.In, name); err != nil {
		x.Fail("save", "%v", err)
	}
	sameFiles(x, "saving", dir, want)
	got, err := gltf.Open(name)
	if err != nil {
		x.Fail("open", "%v", err)
	}
	ref, err := decodeBytes(text, fsys)
	if err != nil {
		x.Fail("decode", "%v", err)
	}
	if d := diffDoc(got, ref); d != "" {
		x.Fail("differs", "Open and Decode differ: %s", d)
	}
}

type entrySet struct {
	bin, indented, prefixed, hasFS bool
}

func (s entrySet) apply(e *gltf.Encoder, fsys gltf.CreateFS) {
	e.AsBinary = s.bin
	e.Fsys = nil
	if s.hasFS {
		e.Fsys = fsys
	}
	s.indent(e)
}

func (s entrySet) indent(e *gltf.Encoder) {
	switch {
	case s.indented && s.prefixed:
		e.SetJSONIndent(" ", "\t")
	case s.indented:
		e.SetJSONIndent("", "  ")
	default:
		e.SetJSONIndent("", "")
	}
}

// entryReuse: one encoder for several documents.
func entryReuse(x *X) {
	n := 2
	if x.All("three", 2) == 1 || x.Thorough {
		n = 3
	}
	var one, all bytes.Buffer
	fsOne, fsAll := newMemFS(), newMemFS()
	shared := gltf.NewEncoder(&one)
	prev := entrySet{bin: true}
	for i := 0; i < n; i++ {
		kinds := 6
		if i == 2 && !x.Thorough {
			kinds = 4
		}
		doc := entryDoc(x.All("doc", kinds))
		set := entrySet{bin: x.All("binary", 2) == 1, hasFS: x.All("fs", 2) == 1}
		if i < 2 || x.Thorough {
			k := x.All("indent", 3)
			set.indented, set.prefixed = k > 0, k > 1
		}
		// the used encoder is told only what changes
		was := prev
		prev = set
		if was.bin != set.bin {
			shared.AsBinary = set.bin
		}
		if was.hasFS != set.hasFS {
			shared.Fsys = nil
			if set.hasFS {
				shared.Fsys = fsOne
			}
		}
		if was.indented != set.indented || was.prefixed != set.prefixed {
			set.indent(shared)
		}
		fresh := gltf.NewEncoder(&all)
		set.apply(fresh, fsAll)
		err1, err2 := shared.Encode(doc), fresh.Encode(doc)
		if (err1 == nil) != (err2 == nil) {
			x.Fail("error", "document %d: the used encoder returns %v, a fresh one %v", i, err1, err2)
		}
	}
	x.StateB(one.Bytes())
	if !bytes.Equal(one.Bytes(), all.Bytes()) {
		k := mismatch(one.Bytes(), all.Bytes())
		x.Fail("bytes", "output of a used encoder differs from that of fresh ones at byte %d: %.60q, want %.60q", k, one.Bytes()[k:], all.Bytes()[min(k, all.Len()):])
	}
	if fmt.Sprintf("%q", fsOne.created) != fmt.Sprintf("%q", fsAll.created) {
		x.Fail("files", "a used encoder creates %q, fresh ones %q", fsOne.created, fsAll.created)
	}
	for k, v := range fsAll.files {
		if !bytes.Equal(fsOne.files[k], v) {
			x.Fail("files", "%q: %.60q, want %.60q", k, fsOne.files[k], v)
		}
	}
}

// entryConstructors: NewEncoder and NewDecoder with their fields set, against
// NewEncoderFS and NewDecoderFS; without a file system external data is neither
// written nor read.
func entryConstructors(x *X) {
	doc := entryDoc([]int{0, 1, 2, 3, 5}[x.All("doc", 5)])
	bin := x.All("binary", 2) == 1
	how := x.All("encoder", 4)
	fsys, ref := newMemFS(), newMemFS()
	form := formJSON
	if bin {
		form = formGLB
	}
	want := mustEncode(x, doc, form, ref)
	var b bytes.Buffer
	var e *gltf.Encoder
	switch how {
	case 0:
		e = gltf.NewEncoderFS(&b, fsys)
	case 1:
		e = gltf.NewEncoder(&b)
		e.Fsys = fsys
	case 2:
		e = gltf.NewEncoder(&b)
	case 3:
		e = gltf.NewEncoderFS(&b, nil)
	}
	if how == 2 || how == 3 {
		ref.files = map[string][]byte{}
	}
	if !bin { // binary is the default
		e.AsBinary = false
	}
	if err := e.Encode(doc); err != nil {
		x.Fail("encode", "%v", err)
	}
	if !bytes.Equal(b.Bytes(), want) {
		x.Fail("bytes", "constructor %d: output differs at byte %d", how, mismatch(b.Bytes(), want))
	}
	if len(fsys.files) != len(ref.files) {
		x.Fail("files", "constructor %d: created %q", how, fsys.created)
	}
	for k, v := range ref.files {
		if !bytes.Equal(fsys.files[k], v) {
			x.Fail("files", "constructor %d: %q differs", how, k)
		}
	}
	ref = newMemFS()
	mustEncode(x, doc, form, ref)
	var d *gltf.Decoder
	r := bytes.NewReader(want)
	dhow := x.All("decoder", 4)
	switch dhow {
	case 0:
		d = gltf.NewDecoderFS(r, ref)
	case 1:
		d = gltf.NewDecoder(r)
		d.Fsys = ref
	case 2:
		d = gltf.NewDecoder(r)
	case 3:
		d = gltf.NewDecoderFS(r, nil)
	}
	got := new(gltf.Document)
	if err := d.Decode(got); err != nil {
		x.Fail("decode", "%v", err)
	}
	full, err := decodeBytes(want, ref)
	if err != nil {
		x.Fail("decode", "%v", err)
	}
	if dhow > 1 {
		for i, b := range doc.Buffers {
			if b.URI != "" {
				if len(got.Buffers[i].Data) != 0 {
					x.Fail("data", "buffer %d has data although there is no file system", i)
				}
				full.Buffers[i].Data = got.Buffers[i].Data
			}
		}
	}
	if df := diffDoc(got, full); df != "" {
		x.Fail("differs", "decoder %d: %s", dhow, df)
	}
	x.State(fmt.Sprint(x.choices()))
}

// ownWriter is a writer with every optional method a library could look for; it belongs to
// the caller.
type ownWriter struct {
	bytes.Buffer
	closed, flushed int
}

func (o *ownWriter) Close() error { o.closed++; return nil }
func (o *ownWriter) Flush() error { o.flushed++; return nil }

// entrySinks encodes to all kinds of writers to which something has been written before, and
// after which the caller writes more.
func entrySinks(x *X) {
	doc := entryDoc([]int{0, 1, 2, 3, 5}[x.All("doc", 5)])
	form := x.All("form", numForms)
	want := mustEncode(x, doc, form, newMemFS())
	prefix := [][]byte{nil, []byte("x"), bytes.Repeat([]byte("0123456789"), 7000)}[x.All("before", 3)]
	total := append(append([]byte{}, prefix...), want...)
	again := x.All("again", 2) == 1
	if again { // the same encoder appends a second copy
		total = append(total, want...)
	}
	total = append(total, "end"...)
	var w io.Writer
	var result func() []byte
	kind := x.All("writer", 8)
	file := func(flag int) {
		dir := scratch(x)
		name := filepath.Join(dir, "f")
		if flag&os.O_APPEND != 0 { // what was written before has been written by someone else
			os.WriteFile(name, prefix, 0o600)
		}
		f, err := os.OpenFile(name, flag, 0o600)
		if err != nil {
			panic(divergence{err.Error()})
		}
		w = f
		if flag&os.O_APPEND != 0 {
			prefix = nil
		}
		result = func() []byte {
			if err := f.Close(); err != nil {
				x.Fail("closed", "the file has been closed: %v", err)
			}
			b, err := os.ReadFile(name)
			if err != nil {
				panic(divergence{err.Error()})
			}
			os.RemoveAll(dir)
			return b
		}
	}
	switch kind {
	case 0:
		b := new(bytes.Buffer)
		w, result = b, b.Bytes
	case 1:
		b := new(strings.Builder)
		w, result = b, func() []byte { return []byte(b.String()) }
	case 2:
		b := new(bytes.Buffer)
		bw := bufio.NewWriterSize(b, 64)
		w, result = bw, func() []byte { bw.Flush(); return b.Bytes() }
	case 3:
		o := new(ownWriter)
		w, result = o, func() []byte {
			if o.closed > 0 {
				x.Fail("closed", "the writer has been closed")
			}
			return o.Bytes()
		}
	case 4:
		file(os.O_CREATE | os.O_RDWR)
	case 5:
		file(os.O_CREATE | os.O_WRONLY | os.O_APPEND)
	case 6:
		b := new(bytes.Buffer)
		w, result = io.MultiWriter(b, io.Discard), b.Bytes
	case 7:
		pr, pw := io.Pipe()
		var got []byte
		done := make(chan bool)
		go func() { got, _ = io.ReadAll(pr); close(done) }()
		w, result = pw, func() []byte { pw.Close(); <-done; return got }
	}
	w.Write(prefix)
	e := gltf.NewEncoderFS(w, newMemFS())
	if x.All("nofs", 2) == 1 {
		e = gltf.NewEncoder(w)
	}
	e.AsBinary = form == formGLB
	if form == formIndent {
		e.SetJSONIndent("", "\t")
	}
	for i := 0; i < 1 || again && i < 2; i++ {
		if err := e.Encode(doc); err != nil {
			x.Fail("encode", "%v", err)
		}
	}
	if _, err := w.Write([]byte("end")); err != nil {
		x.Fail("closed", "the writer cannot be used any more: %v", err)
	}
	got := result()
	x.State(fmt.Sprint(x.choices()))
	if !bytes.Equal(got, total) {
		x.Fail("bytes", "the writer (kind %d) holds %d bytes, want %d; they differ at byte %d", kind, len(got), len(total), mismatch(got, total))
	}
}
