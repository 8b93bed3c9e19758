package main

import (
	"encoding/binary"
	"fmt"
)

// glbFile is the result of an independent GLB 2.0 parse.
type glbFile struct {
	json, jsonPadded []byte
	bin              []byte
	hasBin           bool
}

func parseGLB(b []byte) (*glbFile, error) {
	le := binary.LittleEndian
	if len(b) < 20 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	if string(b[:4]) != "glTF" {
		return nil, fmt.Errorf("magic %q", b[:4])
	}
	if v := le.Uint32(b[4:]); v != 2 {
		return nil, fmt.Errorf("version %d", v)
	}
	if n := le.Uint32(b[8:]); int64(n) != int64(len(b)) {
		return nil, fmt.Errorf("header length %d but %d bytes written", n, len(b))
	}
	if len(b)%4 != 0 {
		return nil, fmt.Errorf("total length %d is not a multiple of 4", len(b))
	}
	var f glbFile
	pos, i := 12, 0
	for pos < len(b) {
		if pos+8 > len(b) {
			return nil, fmt.Errorf("partial chunk header at %d", pos)
		}
		n, typ := int64(le.Uint32(b[pos:])), string(b[pos+4:pos+8])
		if n%4 != 0 {
			return nil, fmt.Errorf("chunk %d length %d is not a multiple of 4", i, n)
		}
		if int64(pos)+8+n > int64(len(b)) {
			return nil, fmt.Errorf("chunk %d length %d exceeds the file", i, n)
		}
		data := b[pos+8 : pos+8+int(n)]
		switch {
		case i == 0 && typ == "JSON":
			f.jsonPadded = data
			f.json = data
		case i == 1 && typ == "BIN\x00":
			f.bin, f.hasBin = data, true
		default:
			return nil, fmt.Errorf("unexpected chunk %d of type %q", i, typ)
		}
		pos += 8 + int(n)
		i++
	}
	if f.jsonPadded == nil {
		return nil, fmt.Errorf("no JSON chunk")
	}
	// strip the padding: only spaces are allowed, at most 3
	n := len(f.json)
	for n > 0 && f.json[n-1] != '}' {
		if f.json[n-1] != ' ' {
			return nil, fmt.Errorf("JSON chunk padded with byte %#x", f.json[n-1])
		}
		n--
	}
	if len(f.json)-n > 3 {
		return nil, fmt.Errorf("%d bytes of JSON padding", len(f.json)-n)
	}
	f.json = f.json[:n]
	return &f, nil
}

// makeGLB wraps JSON text and, if wanted, a BIN chunk.
func makeGLB(js, bin []byte, hasBin bool) []byte {
	g := glbSpec{json: js, bin: bin, hasBin: hasBin}
	return g.bytes()
}
