package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"math"
	"sync"

	"github.com/qmuntal/gltf"
)

// hugeData is more than a GLB can hold. It is never written to, so it takes no memory.
var hugeData = sync.OnceValue(func() []byte { return make([]byte, 1<<32+1<<10) })

// countSink keeps the beginning of what is written to it.
type countSink struct {
	head []byte
	n    int64
}

func (w *countSink) Write(b []byte) (int, error) {
	if k := 4096 - len(w.head); k > 0 {
		w.head = append(w.head, b[:min(k, len(b))]...)
	}
	w.n += int64(len(b))
	return len(b), nil
}

func (w *countSink) Close() error { return nil }

// countFS creates files that only count.
type countFS map[string]*countSink

func (c countFS) Open(name string) (fs.File, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (c countFS) Create(name string) (io.WriteCloser, error) {
	c[name] = new(countSink)
	return c[name], nil
}

// rejectHuge: a GLB counts its bytes in 32 bits, so documents around that limit are saved
// up to it and refused beyond it.
func rejectHuge(x *X) {
	kind := x.All("kind", 3)
	mk := func(n int) *gltf.Document {
		doc := gltf.NewDocument()
		doc.Buffers = []*gltf.Buffer{{ByteLength: n, Data: hugeData()[:n]}}
		switch kind {
		case 1:
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 5, Data: bufData(5, 1), URI: "more.bin"})
		case 2:
			doc.Buffers[0].URI = "huge.bin"
		}
		return doc
	}
	save := func(n int) (*countSink, countFS, error) {
		w, files := new(countSink), countFS{}
		return w, files, gltf.NewEncoderFS(w, files).Encode(mk(n))
	}
	// the size of the JSON part, byteLength having ten digits
	const probe = 1 << 31
	w, _, err := save(probe)
	if err != nil || len(w.head) < 20 {
		x.Fail("rejected", "2 GiB: %v", err)
	}
	js := int(binary.LittleEndian.Uint32(w.head[12:]))
	limit := 1<<32 - 4 - 28 - js
	sizes := []int{1<<31 - 4, limit - 4, limit - 3, limit - 1, limit, limit + 1, limit + 4, limit + 8, limit + 12, limit + 20, limit + 28, limit + js, 1<<32 - 5, 1<<32 - 4, 1<<32 - 3, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 4, 1<<32 + 1000}
	n := sizes[x.All("size", len(sizes))]
	x.State(fmt.Sprint(kind, n))
	w, files, err := save(n)
	if kind == 2 {
		// no part of the data is in the GLB
		if err != nil || w.n != int64(js+20) || files["huge.bin"] == nil || files["huge.bin"].n != int64(n) {
			x.Fail("external", "an external buffer of %d bytes: error %v, GLB of %d bytes", n, err, w.n)
		}
		return
	}
	if n > limit {
		if err == nil {
			x.Fail("accepted", "a GLB of more than %d bytes is written, with the lengths % x", uint32(math.MaxUint32), w.head[:20])
		}
		return
	}
	pad := (n + 3) &^ 3
	if total := js + 28 + pad; err != nil || w.n != int64(total) || len(w.head) < js+28 ||
		binary.LittleEndian.Uint32(w.head[8:]) != uint32(total) || binary.LittleEndian.Uint32(w.head[20+js:]) != uint32(pad) {
		x.Fail("length", "a GLB of %d bytes: error %v, %d bytes written, head % x", total, err, w.n, w.head[:min(len(w.head), js+28)])
	}
}
