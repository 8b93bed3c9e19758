package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/qmuntal/gltf"
)

func init() {
	register(&Property{
		ID: "C14", Level: "model_checking",
		Rule: "a case is a document whose buffer and image URIs are every concatenation, up to the depth, of the tokens path escapes are made of, loaded and saved through a recording file system and through real files in a scratch tree; a state is the URI with the names reached",
		Assumptions: []string{
			"a file system supplied by the caller rejects names that are not fs.ValidPath, as io/fs requires; names that carry a URI scheme are handed to it unchanged",
			"no symbolic links inside the directory",
		},
		Harnesses: []Harness{
			{Name: "names", Run: escapeNames},
			{Name: "files", Run: escapeFiles},
			{Name: "pairs", Run: escapePairs},
		},
	})
	register(&Property{
		ID: "C15", Level: "model_checking",
		Rule: "a case is a set of buffers with every combination of prefix, separator, directory and file name pieces, stored by the encoder and loaded by the decoder; the names and bytes are compared with an independent reading of the URI; a state is the URI set with the file system's content",
		Assumptions: []string{
			"file names are valid UTF-8 without encoded separators; URIs with literal '?', '#' or ':' are not relative paths",
		},
		Harnesses: []Harness{
			{Name: "names", Run: extNames},
			{Name: "deep", Run: extDeep},
			{Name: "several", Run: extSeveral},
			{Name: "lengths", Run: extLengths},
			{Name: "disk", Run: extDisk},
			{Name: "literal-percent", Run: extPercent},
		},
	})
	register(&Property{
		ID: "C16", Level: "model_checking",
		Rule: "a case is a data URI: every length up to the bound, every content of up to two bytes, every single-byte corruption and every truncation of short ones; results are compared with an independent base64 decoder; a state is the distinct URI",
		Harnesses: []Harness{
			{Name: "lengths", Run: b64Lengths},
			{Name: "contents", Run: b64Contents},
			{Name: "corrupt", Run: b64Corrupt},
			{Name: "others", Run: b64Others},
		},
	})
}

// ---- C14 ----

var schemeRE = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.\-]*:`)

var escTokens = []string{"..", "/", "\\", "a", ".", "%2e%2e", "%2F", "%5c", "%252e%252e", "file:", "C:", "b.bin", "//", "%", "%2e", "data:", "http://h", "%00", "?", "#", " ", "~"}

// escDoc builds a document with the URI at the place chosen.
func escDoc(x *X, uri string, where int) *gltf.Document {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	ok := func(i int) *gltf.Buffer {
		return &gltf.Buffer{ByteLength: 3, Data: []byte{1, 2, 3}, URI: fmt.Sprintf("ok%d.bin", i)}
	}
	bad := &gltf.Buffer{ByteLength: 3, Data: []byte{7, 8, 9}, URI: uri}
	switch where {
	case 0:
		doc.Buffers = []*gltf.Buffer{bad}
	case 1:
		doc.Buffers = []*gltf.Buffer{ok(0), bad, ok(2)}
	case 2:
		doc.Buffers = []*gltf.Buffer{ok(0)}
		doc.Images = []*gltf.Image{{URI: uri}}
	}
	return doc
}

// openFS answers every name, so that a decoder following an escaping URI is seen doing so.
type openFS struct {
	memFS
	content []byte
}

func (o *openFS) Open(name string) (fs.File, error) {
	o.memFS.opened = append(o.memFS.opened, name)
	if !utf8.ValidString(name) {
		return nil, fs.ErrInvalid
	}
	o.memFS.ropen++
	return &memFile{bytes.NewReader(o.content), name, int64(len(o.content)), &o.memFS, false}, nil
}

// ReadFile is the shortcut fs.ReadFile prefers.
func (o *openFS) ReadFile(name string) ([]byte, error) {
	o.memFS.opened = append(o.memFS.opened, name)
	return append([]byte{}, o.content...), nil
}

func (o *openFS) Stat(name string) (fs.FileInfo, error) {
	o.memFS.opened = append(o.memFS.opened, name)
	return nil, fs.ErrNotExist
}

func checkReached(x *X, uri string, o *openFS) {
	for _, n := range o.created {
		if !filepath.IsLocal(n) {
			x.Fail("escape-create", "URI %q: file %q was created", uri, n)
		}
	}
	for _, n := range o.opened {
		if !filepath.IsLocal(n) && !schemeRE.MatchString(n) {
			x.Fail("escape-open", "URI %q: file %q was opened", uri, n)
		}
	}
}

func uriText(x *X, doc *gltf.Document) []byte {
	// written by hand: the encoder is not trusted to pass the URI through
	var bs, is []any
	for _, b := range doc.Buffers {
		j := J{"byteLength": b.ByteLength}
		if b.URI != "" {
			j["uri"] = b.URI
		}
		bs = append(bs, j)
	}
	for _, im := range doc.Images {
		is = append(is, J{"uri": im.URI})
	}
	t := J{"asset": J{"version": "2.0"}}
	if bs != nil {
		t["buffers"] = bs
	}
	if is != nil {
		t["images"] = is
	}
	return []byte(jstyle{}.String(t))
}

func escRun(x *X, uri string, where int) {
	x.Log("uri %q", uri)
	for form := 0; form < 3; form++ {
		o := &openFS{memFS: *newMemFS(), content: []byte{1, 2, 3, 4}}
		doc := escDoc(x, uri, where)
		var buf bytes.Buffer
		e := gltf.NewEncoderFS(&buf, o)
		e.AsBinary = form == 2
		if form == 1 {
			e.SetJSONIndent(" ", " ")
		}
		err := e.Encode(doc)
		checkReached(x, uri, o)
		if len(o.opened) > 0 {
			x.Fail("open", "URI %q: saving opened %q", uri, o.opened)
		}
		want := len(doc.Buffers)
		if len(o.created) > want {
			x.Fail("create", "URI %q: %d files created for %d buffers: %q", uri, len(o.created), want, o.created)
		}
		x.State(fmt.Sprint(uri, where, form, "E", err != nil, o.created))
	}
	for form := 0; form < 2; form++ {
		o := &openFS{memFS: *newMemFS(), content: []byte{1, 2, 3, 4}}
		b := uriText(x, escDoc(x, uri, where))
		if form == 1 {
			b = makeGLB(b, nil, false)
		}
		doc := new(gltf.Document)
		err := gltf.NewDecoderFS(bytes.NewReader(b), o).Decode(doc)
		checkReached(x, uri, o)
		if len(o.created) > 0 {
			x.Fail("create", "URI %q: loading created %q", uri, o.created)
		}
		x.State(fmt.Sprint(uri, where, form, "D", err != nil, o.opened))
		if err != nil {
			continue
		}
		// what has been loaded must not escape when it is saved
		o2 := &openFS{memFS: *newMemFS()}
		for _, bf := range doc.Buffers {
			bf.Data = []byte{1, 2, 3}
		}
		e := gltf.NewEncoderFS(new(bytes.Buffer), o2)
		e.AsBinary = form == 1
		e.Encode(doc)
		checkReached(x, uri+" (loaded)", o2)
	}
}

func escapeNames(x *X) {
	where := x.All("where", 3)
	depth := 3
	if x.Thorough {
		depth = 4
		if where == 0 {
			depth = 5
		}
	}
	uri := ""
	for i := 0; i < depth; i++ {
		c := x.All("token", len(escTokens)+1)
		if c == len(escTokens) {
			break
		}
		uri += escTokens[c]
	}
	if uri == "" {
		return
	}
	escRun(x, uri, where)
}

// escapePairs: structured longer URIs: prefix, climbing steps, target.
func escapePairs(x *X) {
	pre := []string{"", "./", "a/", "a/b/", "/", "//", "file:", "file:///", "C:\\", "\\\\h\\", "a\\", "%2e/", "a/./", "..."}
	step := []string{"..", "%2e%2e", ".%2e", "%2E.", "%252e%252e", "..%00", ".. ", "..."}
	sep := []string{"/", "\\", "%2f", "%5C", "/./", "//", "\\.\\", "%252f"}
	tail := []string{"x.bin", "", "a", "%2e%2e", "..", "etc/passwd"}
	uri := pre[x.All("prefix", len(pre))]
	n := 1 + x.All("steps", 3)
	st, sp := x.All("step", len(step)), x.All("sep", len(sep))
	st2, sp2 := x.All("step2", len(step)), x.All("sep2", len(sep))
	for i := 0; i < n; i++ {
		if i == 1 {
			uri += step[st2] + sep[sp2]
		} else {
			uri += step[st] + sep[sp]
		}
	}
	uri += tail[x.All("tail", len(tail))]
	where := 0
	if x.Thorough {
		where = x.All("where", 3)
	}
	escRun(x, uri, where)
}

// tree lists every file below dir with its content.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		return nil
	})
	return m
}

// escapeFiles uses Open, Save and SaveBinary on a real tree, as an unprivileged user.
func escapeFiles(x *X) {
	if !unprivileged {
		return
	}
	root := scratch(x)
	defer os.RemoveAll(root)
	toks := []string{"..", "/", "\\", "sub", "s.bin", "%2e%2e", "%2F", "%5c", "doc-x", root, "file://", ".", "%252e%252e"}
	depth := 3
	if x.Thorough {
		depth = 4
	}
	uri := ""
	n := 0
	for i := 0; i < depth; i++ {
		c := x.All("token", len(toks)+1)
		if c == len(toks) {
			break
		}
		uri += toks[c]
		n++
	}
	if uri == "" {
		return
	}
	// a deep sub-path reaches further up
	if x.All("deep", 2) == 1 {
		uri = "../../" + uri
	}
	op := x.All("op", 3)
	secret := func(p string) {
		if err := os.WriteFile(p, []byte("secret of "+p), 0o666); err != nil {
			panic(divergence{err.Error()})
		}
	}
	dir := filepath.Join(root, "p", "q", "doc")
	for _, d := range []string{dir, dir + "-x", filepath.Join(dir, "sub"), filepath.Join(root, "p", "q", "sub")} {
		if err := os.MkdirAll(d, 0o777); err != nil {
			panic(divergence{err.Error()})
		}
	}
	for _, p := range []string{"s.bin", "p/s.bin", "p/q/s.bin", "p/q/doc-x/s.bin", "p/q/sub/s.bin"} {
		secret(filepath.Join(root, p))
	}
	os.WriteFile(filepath.Join(dir, "s.bin"), []byte("inside"), 0o666)
	os.WriteFile(filepath.Join(dir, "sub", "s.bin"), []byte("inside"), 0o666)
	x.Log("uri %q op %d", uri, op)
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{
		{ByteLength: 4, Data: []byte("okay"), URI: "first.bin"},
		{ByteLength: 6, Data: []byte("ESCAPE"), URI: uri}}}
	outside := func() map[string]string {
		m := tree(root)
		for k := range m {
			if strings.HasPrefix(k, "p/q/doc/") {
				delete(m, k)
			}
		}
		return m
	}
	before := outside()
	name := filepath.Join(dir, "doc.gltf")
	var err error
	switch op {
	case 0:
		os.WriteFile(name, uriText(x, doc), 0o666)
		os.WriteFile(filepath.Join(dir, "first.bin"), []byte("okay"), 0o666)
		var got *gltf.Document
		got, err = gltf.Open(name)
		if err == nil {
			for i, b := range got.Buffers {
				if i == 0 && string(b.Data) != "okay" || i == 1 && string(b.Data) != "inside" {
					x.Fail("escape-open", "URI %q: Open returned %q as data of buffer %d", uri, b.Data, i)
				}
			}
		}
	case 1:
		err = gltf.Save(doc, name)
	case 2:
		err = gltf.SaveBinary(doc, name)
	}
	after := outside()
	if fmt.Sprint(before) != fmt.Sprint(after) {
		for _, k := range sortedKeys(after) {
			if v, ok := before[k]; !ok || v != after[k] {
				x.Fail("escape-create", "URI %q: %s outside of the document's directory was written (%q)", uri, k, after[k])
			}
		}
		x.Fail("escape-create", "URI %q: files outside of the document's directory disappeared", uri)
	}
	x.State(fmt.Sprint(strings.ReplaceAll(uri, root, "ROOT"), op, err != nil))
	if err == nil && op > 0 {
		x.Outcome("saved")
	} else {
		x.Outcome(fmt.Sprint(op, err == nil))
	}
}

// ---- C15 ----

// namePieces are concatenated to make file names: the URI text and what it denotes.
var namePieces = [][2]string{
	{"a", "a"}, {"%20", " "}, {" ", " "}, {"é", "é"}, {"%C3%A9", "é"}, {"%25", "%"}, {"+", "+"}, {"%2B", "+"}, {"%41", "A"},
	{".bin", ".bin"}, {".", "."}, {"%2e", "."}, {"&", "&"}, {"%26", "&"}, {"=", "="}, {";", ";"}, {"@", "@"}, {"!", "!"}, {"'", "'"}, {"(", "("}, {"*", "*"}, {",", ","},
	{"~", "~"}, {"-", "-"}, {"_", "_"}, {"%3F", "?"}, {"%23", "#"}, {"%3A", ":"}, {"%e6%97%A5", "日"}, {"日", "日"}, {"😀", "😀"}, {"0", "0"}, {"Z", "Z"}, {"$", "$"}, {"[", "["}, {"]", "]"}, {"{", "{"}, {"\"", "\""}, {"<", "<"}, {"^", "^"}, {"`", "`"}, {"|", "|"}, {"%7F", "\x7f"}, {"%0A", "\n"}, {"%22", "\""}, {"%7e", "~"}, {"%2541", "%41"}, {"%25zz", "%zz"},
}

type uriName struct{ uri, name string }

// makeName builds one relative file name of up to n pieces.
func makeName(x *X, n int) (u uriName, ok bool) {
	for i := 0; i < n; i++ {
		c := x.All("piece", len(namePieces)+1)
		if c == len(namePieces) {
			break
		}
		u.uri += namePieces[c][0]
		u.name += namePieces[c][1]
	}
	return u, u.name != "" && u.name != "." && u.name != ".."
}

var (
	uriPrefix = []string{"", "./", "././", ".\\", "./.\\"}
	uriDirs   = []uriName{{"", ""}, {"d", "d"}, {"d%20e", "d e"}, {"..d", "..d"}, {"d.", "d."}, {"é", "é"}}
	uriSeps   = []string{"/", "\\", "/./", "\\.\\", "/././", "/.\\"}
)

// literalPercent: the name contains text which is itself a percent encoding, so
// a document loaded from it (its URI is replaced by the name) denotes another.
func literalPercent(name string) bool {
	if strings.ContainsAny(name, "\\:") {
		return true
	}
	v, err := url.PathUnescape(name)
	return err == nil && v != name
}

type extBuf struct {
	u     uriName
	data  []byte
	extra int // bytes in the file beyond byteLength
}

// extCycle stores and loads the buffers in every form.
func extCycle(x *X, bufs []extBuf) {
	for form := 0; form < 3; form++ {
		m := newMemFS()
		doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		want := map[string][]byte{"untouched.bin": []byte("keep")}
		m.files["untouched.bin"] = []byte("keep")
		for i, b := range bufs {
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: b.u.uri, ByteLength: len(b.data), Data: append([]byte{}, b.data...)})
			want[b.u.name] = b.data
			switch (form + i) % 3 {
			case 0:
				m.files[b.u.name] = []byte("an older and much longer file content")
			case 1: // as long as the new one
				m.files[b.u.name] = bytes.Repeat([]byte("="), len(b.data))
			}
		}
		text, err := encodeForm(doc, form, m)
		if err != nil {
			x.Fail("encode-error", "saving buffers %s (%s): %v", uris(bufs), formNames[form], err)
		}
		if c := append([]string{}, m.created...); len(c) != len(bufs) {
			x.Fail("created", "buffers %s: created files %q", uris(bufs), c)
		}
		checkFiles(x, m, want, bufs)
		if m.open != 0 {
			x.Fail("open", "file left open")
		}
		// loading: files may be longer than declared
		for _, b := range bufs {
			m.files[b.u.name] = append(append([]byte{}, b.data...), bufData(b.extra, 99)...)
		}
		m.opened = nil
		got, err := decodeBytes(text, m)
		if err != nil {
			x.Fail("decode-error", "loading buffers %s (%s): %v", uris(bufs), formNames[form], err)
		}
		checkLoaded(x, got, bufs, m)
		// JSON written by another tool
		text2 := uriText(x, doc)
		if form == formGLB {
			text2 = makeGLB(text2, nil, false)
		}
		m.opened = nil
		if got, err = decodeBytes(text2, m); err != nil {
			x.Fail("decode-error", "loading buffers %s from foreign JSON: %v", uris(bufs), err)
		}
		checkLoaded(x, got, bufs, m)
		x.State(fmt.Sprint(uris(bufs), form, sortedKeys(m.files)))
		// save what was loaded elsewhere, and load it again
		skip := false
		for _, b := range bufs {
			skip = skip || literalPercent(b.u.name)
		}
		if skip {
			continue
		}
		m2 := newMemFS()
		text, err = encodeForm(got, form, m2)
		if err != nil {
			x.Fail("encode-error", "saving the loaded buffers %s (%s): %v", uris(bufs), formNames[form], err)
		}
		delete(want, "untouched.bin")
		checkFiles(x, m2, want, bufs)
		if got, err = decodeBytes(text, m2); err != nil {
			x.Fail("decode-error", "loading buffers %s again (%s): %v", uris(bufs), formNames[form], err)
		}
		checkLoaded(x, got, bufs, nil)
	}
}

func uris(bufs []extBuf) string {
	var s []string
	for _, b := range bufs {
		s = append(s, fmt.Sprintf("%q", b.u.uri))
	}
	return strings.Join(s, ",")
}

func checkFiles(x *X, m *memFS, want map[string][]byte, bufs []extBuf) {
	for _, n := range sortedKeys(want) {
		got, ok := m.files[n]
		if !ok {
			x.Fail("missing", "buffers %s: file %q was not written; files: %q", uris(bufs), n, sortedKeys(m.files))
		}
		if !bytes.Equal(got, want[n]) {
			x.Fail("content", "buffers %s: file %q holds %.60q, want %.60q", uris(bufs), n, got, want[n])
		}
	}
	if len(m.files) != len(want) {
		x.Fail("stray", "buffers %s: files %q, want %q", uris(bufs), sortedKeys(m.files), sortedKeys(want))
	}
}

func checkLoaded(x *X, doc *gltf.Document, bufs []extBuf, m *memFS) {
	if len(doc.Buffers) != len(bufs) {
		x.Fail("differs", "loaded %d buffers, want %d", len(doc.Buffers), len(bufs))
	}
	names := map[string]bool{}
	for i, b := range bufs {
		if !bytes.Equal(doc.Buffers[i].Data, b.data) {
			x.Fail("content", "buffers %s: buffer %d loaded %d bytes %.60q, want %d bytes %.60q", uris(bufs), i, len(doc.Buffers[i].Data), doc.Buffers[i].Data, len(b.data), b.data)
		}
		names[b.u.name] = true
	}
	if m == nil {
		return
	}
	for _, o := range m.opened {
		if !names[o] {
			x.Fail("opened", "buffers %s: file %q was opened", uris(bufs), o)
		}
	}
}

// extNames: one external buffer, every name.
func extNames(x *X) {
	n := 2
	if x.Thorough {
		n = 3
	}
	pre := uriPrefix[x.All("prefix", len(uriPrefix))]
	u, ok := makeName(x, n)
	if !ok {
		return
	}
	u.uri = pre + u.uri
	switch x.All("dirs", 3) {
	case 1:
		d := uriDirs[1+x.All("dir", len(uriDirs)-1)]
		s := uriSeps[x.All("sep", len(uriSeps))]
		u = uriName{pre + d.uri + s + u.uri[len(pre):], d.name + "/" + u.name}
	case 2:
		d := uriDirs[1+x.All("dir", len(uriDirs)-1)]
		s := uriSeps[x.All("sep", len(uriSeps))]
		u = uriName{pre + d.uri + s + d.uri + "/" + u.uri[len(pre):], d.name + "/" + d.name + "/" + u.name}
	}
	x.Log("uri %q denotes %q", u.uri, u.name)
	extCycle(x, []extBuf{{u, []byte("content of it"), 0}})
}

// extDeep: one external buffer several directories down, with every mixture of
// separators.
func extDeep(x *X) {
	n := 3 + x.All("depth", 2)
	if x.Thorough {
		n += x.All("deeper", 2)
	}
	pieces := []uriName{{"d", "d"}, {"%20", " "}, {"ef", "ef"}, {"..g", "..g"}, {"é", "é"}}
	var u uriName
	for i := 0; i < n; i++ {
		p := pieces[i%len(pieces)]
		u.uri += p.uri + []string{"/", "\\", "/./"}[x.All("sep", 3)]
		u.name += p.name + "/"
	}
	u.uri += "a%62"
	u.name += "ab"
	extCycle(x, []extBuf{{u, []byte("content of it"), 0}})
}

// extSeveral: up to three external buffers of different names and lengths.
func extSeveral(x *X) {
	names := []uriName{{"a.bin", "a.bin"}, {"./b.bin", "b.bin"}, {"c%20d.bin", "c d.bin"}, {"s/a.bin", "s/a.bin"}, {"s\\b.bin", "s/b.bin"}, {"%61.bin%20", "a.bin "}, {"A.bin", "A.bin"}, {"a.bi", "a.bi"}}
	n := 2 + x.All("buffers", 2)
	used := map[int]bool{}
	var bufs []extBuf
	for i := 0; i < n; i++ {
		k := x.All("name", len(names))
		if used[k] {
			return
		}
		used[k] = true
		bufs = append(bufs, extBuf{names[k], bufData([]int{5, 1, 300}[(i+x.All("len", 3))%3], i), []int{0, 7}[x.All("extra", 2)]})
	}
	extCycle(x, bufs)
}

// extLengths: how byteLength, data and the existing file relate.
func extLengths(x *X) {
	lens := []int{1, 2, 3, 4, 5, 511, 512, 513, 4096, 70000}
	ln := lens[x.All("len", len(lens))]
	form := x.All("form", numForms)
	pos := x.All("position", 2)
	state := x.All("state", 4)
	m := newMemFS()
	old := []byte("existing file, to be left alone")
	switch x.All("existing", 4) { // by length
	case 1:
		old = bytes.Repeat([]byte("="), ln)
	case 2:
		old = bytes.Repeat([]byte("="), ln+1)
	case 3:
		old = bytes.Repeat([]byte("="), ln-1)
	}
	m.files["x.bin"] = old
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	if pos == 1 {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 2, Data: []byte{1, 2}})
	}
	b := &gltf.Buffer{URI: "x.bin", ByteLength: ln, Data: bufData(ln, 3)}
	switch state {
	case 1:
		b.Data = nil
	case 2:
		b.Data = []byte{}
	}
	if state == 3 {
		delete(m.files, "x.bin")
		old = nil
		b.Data = nil
	}
	doc.Buffers = append(doc.Buffers, b)
	text, err := encodeForm(doc, form, m)
	if err != nil {
		x.Fail("encode-error", "saving: %v", err)
	}
	x.State(fmt.Sprint(ln, form, pos, state))
	if state == 0 {
		if !bytes.Equal(m.files["x.bin"], b.Data) {
			x.Fail("content", "file holds %d bytes, want %d", len(m.files["x.bin"]), ln)
		}
	} else {
		if len(m.created) > 0 {
			x.Fail("created", "a buffer without data was written to %q", m.created)
		}
		got, ok := m.files["x.bin"]
		if ok != (old != nil) || !bytes.Equal(got, old) {
			x.Fail("content", "the file of a buffer without data was changed")
		}
		m.files["x.bin"] = bufData(ln, 3)
	}
	for _, extra := range []int{0, 1, 4097} {
		m.files["x.bin"] = bufData(ln+extra, 3)
		want := append([]byte{}, m.files["x.bin"][:ln]...)
		got, err := decodeBytes(text, m)
		if err != nil {
			x.Fail("decode-error", "loading: %v", err)
		}
		d := got.Buffers[len(got.Buffers)-1]
		if !bytes.Equal(d.Data, want) || d.ByteLength != ln {
			x.Fail("content", "file of %d bytes, byteLength %d: loaded %d bytes, byteLength %d", ln+extra, ln, len(d.Data), d.ByteLength)
		}
		if pos == 1 && !bytes.Equal(got.Buffers[0].Data, []byte{1, 2}) {
			x.Fail("content", "the other buffer holds %v", got.Buffers[0].Data)
		}
		// bytes beyond byteLength must not come back when the buffer grows
		_ = append(d.Data, 0xEE)
		if !bytes.Equal(m.files["x.bin"], bufData(ln+extra, 3)) {
			x.Fail("content", "appending to the loaded data changed the file")
		}
	}
}

// extDisk: Save, SaveBinary and Open on real files.
func extDisk(x *X) {
	pre := uriPrefix[x.All("prefix", len(uriPrefix))]
	n := 1
	if x.Thorough {
		n = 2
	}
	u, ok := makeName(x, n)
	if !ok {
		return
	}
	d := uriDirs[x.All("dir", len(uriDirs))]
	full := uriName{pre + u.uri, u.name}
	if d.name != "" {
		s := uriSeps[x.All("sep", len(uriSeps))]
		full = uriName{pre + d.uri + s + u.uri, d.name + "/" + u.name}
	}
	bin := x.All("glb", 2) == 1
	dir := scratch(x)
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "a b%20c", "d")
	if err := os.MkdirAll(filepath.Join(base, d.name), 0o777); err != nil {
		panic(divergence{err.Error()})
	}
	data := []byte("the data")
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{URI: full.uri, ByteLength: len(data), Data: data}}}
	name := filepath.Join(base, "m.gltf")
	save := gltf.Save
	if bin {
		save = gltf.SaveBinary
	}
	if err := save(doc, name); err != nil {
		x.Fail("encode-error", "saving %q: %v", full.uri, err)
	}
	var files []string
	for k := range tree(base) {
		if !strings.HasSuffix(k, "/") {
			files = append(files, k)
		}
	}
	sort.Strings(files)
	want := []string{"m.gltf", full.name}
	sort.Strings(want)
	if fmt.Sprintf("%q", files) != fmt.Sprintf("%q", want) {
		x.Fail("stray", "saving %q wrote %q, want %q", full.uri, files, want)
	}
	if b, _ := os.ReadFile(filepath.Join(base, full.name)); !bytes.Equal(b, data) {
		x.Fail("content", "saving %q: file holds %q", full.uri, b)
	}
	got, err := gltf.Open(name)
	if err != nil {
		x.Fail("decode-error", "opening %q: %v", full.uri, err)
	}
	checkLoaded(x, got, []extBuf{{full, data, 0}}, nil)
	x.State(full.uri)
}

// extPercent: names that contain a literal percent encoding, loaded and saved again.
func extPercent(x *X) {
	pairs := [][2]uriName{
		{{"a%2541.bin", "a%41.bin"}, {"aA.bin", "aA.bin"}},
		{{"a%2541.bin", "a%41.bin"}, {"b.bin", "b.bin"}},
	}
	k := x.All("pair", len(pairs))
	m := newMemFS()
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	for i, u := range pairs[k] {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: u.uri, ByteLength: 4})
		m.files[u.name] = bufData(4, i)
	}
	doc, err := decodeBytes(uriText(x, doc), m)
	if err != nil {
		x.Fail("decode-error", "%v", err)
	}
	m2 := newMemFS()
	text := mustEncode(x, doc, formJSON, m2)
	got, err := decodeBytes(text, m2)
	if err != nil {
		x.Fail("decode-error", "%v", err)
	}
	x.State(fmt.Sprint(k))
	for i := range pairs[k] {
		if !bytes.Equal(got.Buffers[i].Data, bufData(4, i)) {
			key := "percent"
			if k == 0 {
				key = "percent-collision"
			}
			x.Fail(key, "buffers %q loaded and saved: buffer %d holds %v, want %v", pairs[k], i, got.Buffers[i].Data, bufData(4, i))
		}
	}
}

// ---- C16 ----

const (
	pngURI = "data:image/png;base64,"
	jpgURI = "data:image/jpeg;base64,"
)

var b64Prefix = []string{octet, pngURI, jpgURI}

// refB64 decodes standard padded base64.
func refB64(s string) ([]byte, bool) {
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	if len(s)%4 != 0 {
		return nil, false
	}
	out := []byte{}
	for i := 0; i < len(s); i += 4 {
		q := s[i : i+4]
		pad := 0
		if i+4 == len(s) {
			pad = 4 - len(strings.TrimRight(q, "="))
			if pad > 2 {
				return nil, false
			}
		}
		v := 0
		for j := 0; j < 4; j++ {
			k := 0
			if j < 4-pad {
				if k = strings.IndexByte(alpha, q[j]); k < 0 {
					return nil, false
				}
			}
			v = v<<6 | k
		}
		out = append(out, []byte{byte(v >> 16), byte(v >> 8), byte(v)}[:3-pad]...)
	}
	return out, true
}

func refB64Enc(b []byte) string {
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var s strings.Builder
	for i := 0; i < len(b); i += 3 {
		v, n := 0, 0
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= int(b[i+j])
				n++
			}
		}
		for j := 0; j < 4; j++ {
			if j > n {
				s.WriteByte('=')
			} else {
				s.WriteByte(alpha[v>>(18-6*j)&63])
			}
		}
	}
	return s.String()
}

// b64Check checks one content in every role.
func b64Check(x *X, data []byte, deep bool) {
	enc := refB64Enc(data)
	for p, pre := range b64Prefix {
		uri := pre + enc
		if p > 0 {
			for _, mime := range []string{"image/png", "image/jpeg", "image/webp"} {
				im := &gltf.Image{URI: uri, MimeType: mime, Name: mime}
				if got, err := im.MarshalData(); !im.IsEmbeddedResource() || err != nil || !bytes.Equal(got, data) {
					x.Fail("image", "%.60s declared as %s: %d bytes %.40x, err %v; want %d bytes %.40x", uri, mime, len(got), got, err, len(data), data)
				}
			}
			im := &gltf.Image{URI: uri}
			got, err := im.MarshalData()
			if !im.IsEmbeddedResource() || err != nil || !bytes.Equal(got, data) {
				x.Fail("image", "%.60s: embedded=%v, %d bytes %.40x, err %v; want %d bytes %.40x", uri, im.IsEmbeddedResource(), len(got), got, err, len(data), data)
			}
			if im.URI != uri {
				x.Fail("image", "MarshalData changed the URI")
			}
			for i := range got {
				got[i] ^= 0xff
			}
			if got, _ = im.MarshalData(); !bytes.Equal(got, data) {
				x.Fail("image", "%.60s: second MarshalData differs", uri)
			}
			if deep {
				doc := &gltf.Document{Images: []*gltf.Image{{URI: "x.png"}, im}}
				for form := 0; form < numForms; form += 2 {
					d, err := decodeBytes(mustEncode(x, doc, form, nil), nil)
					if err != nil {
						x.Fail("decode-error", "%v", err)
					}
					if got, err := d.Images[1].MarshalData(); err != nil || !bytes.Equal(got, data) {
						x.Fail("image", "image of %d bytes after saving: %.40x, %v", len(data), got, err)
					}
				}
			}
			continue
		}
		b := &gltf.Buffer{ByteLength: len(data), Data: data}
		b.EmbeddedResource()
		if b.URI != uri || !b.IsEmbeddedResource() || b.ByteLength != len(data) || !bytes.Equal(b.Data, data) {
			x.Fail("embed", "EmbeddedResource of %.40x gave %.80s", data, b.URI)
		}
		if len(data) == 0 {
			continue
		}
		for bl := len(data); bl >= 1 && bl >= len(data)-1; bl-- {
			text := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}]}`, bl, uri)
			d, err := decodeBytes([]byte(text), newMemFS())
			if err != nil {
				x.Fail("decode-error", "%.100s: %v", text, err)
			}
			if !bytes.Equal(d.Buffers[0].Data, data[:bl]) || d.Buffers[0].URI != uri || d.Buffers[0].ByteLength != bl {
				x.Fail("buffer", "byteLength %d, %.60s: loaded %d bytes %.40x, want %.40x", bl, uri, len(d.Buffers[0].Data), d.Buffers[0].Data, data[:bl])
			}
			// marking the loaded buffer again is the identity
			if bl == len(data) {
				d.Buffers[0].EmbeddedResource()
				if d.Buffers[0].URI != uri {
					x.Fail("embed", "embedding the loaded buffer again gave %.80s, want %.80s", d.Buffers[0].URI, uri)
				}
			}
		}
		if deep {
			doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 1, Data: []byte{5}}, b}}
			for form := 0; form < numForms; form++ {
				d, err := decodeBytes(mustEncode(x, doc, form, nil), nil)
				if err != nil {
					x.Fail("decode-error", "%v", err)
				}
				if !bytes.Equal(d.Buffers[1].Data, data) {
					x.Fail("buffer", "buffer of %d bytes after saving (%s): %d bytes", len(data), formNames[form], len(d.Buffers[1].Data))
				}
			}
		}
	}
	x.State(enc)
}

func b64Lengths(x *X) {
	n := 1200
	if x.Thorough {
		n = 6000
	}
	big := []int{12287, 12288, 12289, 65535, 65536, 65537, 1 << 20, 1<<20 + 1}
	c := x.All("length", n+len(big))
	ln := c
	if c >= n {
		ln = big[c-n]
	}
	pat := x.All("pattern", 4)
	data := make([]byte, ln)
	for i := range data {
		switch pat {
		case 0:
			data[i] = byte(i*31 + i>>8 + ln)
		case 1:
			data[i] = 0xff
		case 2:
			data[i] = 0
		case 3:
			data[i] = []byte{0xfb, 0xef, 0xbe}[i%3] // only '+' in base64
		}
	}
	b64Check(x, data, ln < 300 || ln > 12000)
}

func b64Contents(x *X) {
	switch x.All("size", 3) {
	case 0:
		b64Check(x, []byte{byte(x.All("b0", 256))}, true)
	case 1:
		b64Check(x, []byte{byte(x.All("b0", 256)), byte(x.All("b1", 256))}, false)
	case 2:
		// every base64 digit at every position of a quantum
		d := x.All("digit", 64)
		v := d<<18 | (x.All("digit2", 64))<<12 | (63-d)<<6 | d
		b64Check(x, []byte{byte(v >> 16), byte(v >> 8), byte(v)}, false)
	}
}

// b64Result checks what the library makes of an arbitrary payload.
func b64Result(x *X, p int, payload string) {
	want, ok := refB64(payload)
	uri := b64Prefix[p] + payload
	x.State(uri)
	if p > 0 {
		im := &gltf.Image{URI: uri}
		got, err := im.MarshalData()
		if ok != (err == nil) || ok && !bytes.Equal(got, want) {
			x.Fail("image", "image %q: %x, err %v; want %x, valid %v", uri, got, err, want, ok)
		}
		return
	}
	js, err := json.Marshal(uri)
	if err != nil || !utf8.ValidString(uri) {
		return
	}
	text := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%s}]}`, max(len(want), 1), js)
	d, err := decodeBytes([]byte(text), newMemFS())
	if ok && len(want) == 0 {
		return // shorter than byteLength: left open
	}
	if ok != (err == nil) {
		x.Fail("buffer", "buffer %q: err %v, want valid %v", uri, err, ok)
	}
	if ok && !bytes.Equal(d.Buffers[0].Data, want) {
		x.Fail("buffer", "buffer %q: loaded %x, want %x", uri, d.Buffers[0].Data, want)
	}
}

func b64Corrupt(x *X) {
	p := x.All("kind", 3)
	ln := 1 + x.All("length", 9)
	enc := refB64Enc(bufData(ln, 2))
	switch x.All("fault", 4) {
	case 0: // one byte replaced
		i := x.All("pos", len(enc))
		c := byte(x.All("byte", 256))
		if c == '\r' || c == '\n' {
			return
		}
		b64Result(x, p, enc[:i]+string([]byte{c})+enc[i+1:])
	case 1: // truncated
		b64Result(x, p, enc[:x.All("cut", len(enc))])
	case 2: // one byte inserted
		i := x.All("pos", len(enc)+1)
		c := byte(x.All("ins", 256))
		if c == '\r' || c == '\n' {
			return
		}
		b64Result(x, p, enc[:i]+string([]byte{c})+enc[i:])
	case 3: // cut inside the prefix, or right after it
		uri := b64Prefix[p]
		cut := x.All("cut", len(uri))
		uri = uri[:cut]
		if p > 0 {
			im := &gltf.Image{URI: uri}
			got, err := im.MarshalData()
			if len(got) > 0 || im.IsEmbeddedResource() && err == nil {
				x.Fail("image", "image %q: %x, err %v", uri, got, err)
			}
			return
		}
		text := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":%q}]}`, uri)
		if _, err := decodeBytes([]byte(text), newMemFS()); err == nil {
			x.Fail("buffer", "buffer %q: truncated URI accepted", uri)
		}
		x.State(uri)
	}
}

// b64Others: resources that are not embedded.
func b64Others(x *X) {
	list := []string{"", "a.png", "a.jpg", "http://h/a.png", "data:image/gif;base64,R0lG", "data:image/png,abcd", "data:image/webp;base64,AAAA", "data:text/plain;base64,AAAA", "data:,x", "image/png;base64,AAAA", octet + "AAAA", "xdata:image/png;base64,AAAA", "data:image/pn;base64,AAAA", "data:imagepng;base64,AAAA", "data:image/jpg2;base64,AAAA"}
	uri := list[x.All("uri", len(list))]
	im := &gltf.Image{URI: uri}
	if x.All("view", 2) == 1 {
		im.BufferView = gltf.Index(0)
		im.MimeType = "image/png"
	}
	got, err := im.MarshalData()
	if im.IsEmbeddedResource() || len(got) > 0 || err != nil {
		x.Fail("image", "image %q: embedded=%v data %x err %v", uri, im.IsEmbeddedResource(), got, err)
	}
	x.State(uri)
	bl := []string{"", "a.bin", pngURI + "AAAA", jpgURI + "AAAA", "data:application/octet-stream,AAAA", "http://h/a.bin", "application/octet-stream;base64,AAAA"}
	for _, u := range bl {
		b := &gltf.Buffer{URI: u, ByteLength: 3, Data: []byte{1, 2, 3}}
		if b.IsEmbeddedResource() {
			x.Fail("buffer", "buffer %q counts as embedded", u)
		}
	}
	// a document with it: the URI is kept (resources elsewhere are not loaded)
	if uri != "" {
		d, err := decodeBytes([]byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"images":[{"uri":%q}]}`, uri)), newMemFS())
		if err != nil || d.Images[0].URI != uri {
			x.Fail("image", "document with image %q: %v", uri, err)
		}
	}
}

var _ = base64.StdEncoding
