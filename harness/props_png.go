package main

// C22: the PNG format, against a hand-written reader and writer of chunk sequences.

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"

	"github.com/go-restruct/restruct/formats/png"
)

type chunk struct {
	typ  string
	body []byte
	crc  uint32
}

func (k chunk) bytes() []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(k.body)))
	b = append(append(b, k.typ...), k.body...)
	return binary.BigEndian.AppendUint32(b, k.crc)
}

func genChunk(c *C) (k chunk) {
	switch c.Pick(4, 4, 2, 2, 4) {
	case 0:
		k.typ = "IDAT"
	case 1:
		k.typ = c.OneOf("PLTE", "tEXt", "tRNS", "gAMA", "pHYs", "zTXt", "abcd", "IDAU", "JDAT", "iDAT", "IDAt", "IHDr", "IENd", "iEND", "HDRI", "IEN ", "DATI", "    ", "\xff\xfe\x80\x81", "'\\\"$")
	case 2:
		k.typ = "IEND"
	case 3:
		k.typ = "IHDR"
	default:
		b := make([]byte, 4)
		for i := range b {
			b[i] = 1 + byte(c.Draw(255))
		}
		k.typ = string(b)
	}
	switch k.typ {
	case "IHDR":
		k.body = c.Bytes(13)
	case "IEND":
	default:
		n := c.Len(70000)
		if c.Chance(1, 4000) {
			n = 1<<20 - 1 + c.Int(3) + c.Int(2)<<20
			c.Class("huge chunk")
		}
		k.body = c.Bytes(n)
	}
	if c.Chance(1, 2) {
		k.crc = crc32.ChecksumIEEE(append([]byte(k.typ), k.body...))
	} else {
		k.crc = uint32(c.U64(32))
	}
	return k
}

// toPNG is the value a chunk stands for.
func (k chunk) toPNG(p *png.Chunk) {
	p.Len, p.Type, p.CRC = uint32(len(k.body)), k.typ, k.crc
	switch k.typ {
	case "IHDR":
		p.Data.IHDR = &png.ChunkIHDR{Width: binary.BigEndian.Uint32(k.body), Height: binary.BigEndian.Uint32(k.body[4:]), BitDepth: k.body[8], ColorType: png.ColorType(k.body[9]),
			CompressionMethod: k.body[10], FilterMethod: k.body[11], InterlaceMethod: k.body[12]}
	case "IDAT":
		p.Data.IDAT = &png.ChunkIDAT{Data: k.body}
	case "IEND":
		p.Data.IEND = &png.ChunkIEND{}
	default:
		p.Data.Raw = &png.ChunkRaw{Data: k.body}
	}
}

func checkChunk(c *C, at int, got *png.Chunk, k chunk) {
	bad := func(what string, g, w interface{}) { c.Fail("chunk %d (%q): %s is %v, want %v", at, k.typ, what, g, w) }
	if got.Len != uint32(len(k.body)) {
		bad("length", got.Len, len(k.body))
	}
	if got.Type != k.typ {
		bad("type", got.Type, k.typ)
	}
	if got.CRC != k.crc {
		bad("CRC", got.CRC, k.crc)
	}
	set := func(b bool) string {
		if b {
			return "set"
		}
		return "nil"
	}
	d := &got.Data
	want := k.typ
	if want != "IHDR" && want != "IDAT" && want != "IEND" {
		want = "Raw"
	}
	for _, x := range []struct {
		n  string
		ok bool
	}{{"IHDR", d.IHDR != nil}, {"IDAT", d.IDAT != nil}, {"IEND", d.IEND != nil}, {"Raw", d.Raw != nil}} {
		if x.ok != (x.n == want) {
			bad("Data."+x.n, set(x.ok), set(!x.ok))
		}
	}
	switch want {
	case "IHDR":
		var w png.Chunk
		k.toPNG(&w)
		if *d.IHDR != *w.Data.IHDR {
			bad("header", *d.IHDR, *w.Data.IHDR)
		}
	case "IDAT":
		if !bytes.Equal(d.IDAT.Data, k.body) {
			bad("body", hexs(d.IDAT.Data), hexs(k.body))
		}
		if d.IDAT.Parent == nil || d.IDAT.Parent.Len != got.Len {
			bad("parent", d.IDAT.Parent, "the chunk")
		}
	case "Raw":
		if !bytes.Equal(d.Raw.Data, k.body) {
			bad("body", hexs(d.Raw.Data), hexs(k.body))
		}
		if d.Raw.Parent == nil || d.Raw.Parent.Len != got.Len {
			bad("parent", d.Raw.Parent, "the chunk")
		}
	}
}

func runC22(c *C) {
	magic := []byte("\x89PNG\r\n\x1a\n")
	if c.Chance(1, 4) {
		magic = c.Bytes(8)
	}
	head := chunk{"IHDR", c.Bytes(13), uint32(c.U64(32))}
	if c.Chance(1, 6) {
		head = genChunk(c)
		c.Class("other chunk first")
	}
	n := c.Len(40)
	if n > 6 && !c.Chance(1, 4) {
		n = 6
	}
	var ks []chunk
	for i := 0; i < n; i++ {
		ks = append(ks, genChunk(c))
	}
	data := append(append([]byte{}, magic...), head.bytes()...)
	ends := []int{len(data)}
	total := 0
	for _, k := range ks {
		data = append(data, k.bytes()...)
		ends = append(ends, len(data))
		total += len(k.body)
		switch k.typ {
		case "IHDR", "IDAT", "IEND":
			c.Class("chunk " + k.typ)
		default:
			c.Class("other chunk")
		}
		c.ClassIf(len(k.body) == 0, "empty body")
		c.ClassIf(len(k.body) > 4000, "large body")
	}
	c.Note("%d chunks, %d bytes: %s", n, len(data), hexs(data))
	check := func(what string, data []byte, n int, f *png.File) {
		if err := c.Unpack(data, binary.BigEndian, f); err != nil {
			c.Fail("%s: Unpack: %v", what, err)
		}
		if !bytes.Equal(f.Magic[:], magic) {
			c.Fail("%s: magic %x, want %x", what, f.Magic, magic)
		}
		checkChunk(c, -1, &f.Header, head)
		if len(f.Chunks) != n {
			c.Fail("%s: %d chunks, want %d", what, len(f.Chunks), n)
		}
		for i := range f.Chunks {
			checkChunk(c, i, &f.Chunks[i], ks[i])
		}
	}
	pack := func(what string, f interface{}, want []byte) {
		if n, err := c.SizeOf(f); err != nil || n != len(want) {
			c.Fail("%s: SizeOf gave %d, %v; the file has %d bytes", what, n, err, len(want))
		}
		d, err := c.Pack(binary.BigEndian, f)
		if err != nil {
			c.Fail("%s: Pack: %v", what, err)
		}
		if !bytes.Equal(d, want) {
			c.Fail("%s: Pack gave %s, want %s", what, hexs(d), hexs(want))
		}
	}
	keep := append([]byte{}, data...)
	var f png.File
	if c.Chance(1, 3) { // old contents do not matter
		f.Chunks = make([]png.Chunk, 1+c.Int(3))
		genChunk(c).toPNG(&f.Chunks[0])
		genChunk(c).toPNG(&f.Header)
		c.Class("used target")
	}
	check("the file", data, n, &f)
	if !bytes.Equal(keep, data) {
		c.Fail("Unpack changed its input")
	}
	if c.Chance(1, 3) {
		pack("what was unpacked, by value", f, data)
	}
	pack("what was unpacked", &f, data)
	for i := range f.Chunks {
		d := f.Chunks[i].Data
		if d.IDAT != nil && d.IDAT.Parent != &f.Chunks[i] || d.Raw != nil && d.Raw.Parent != &f.Chunks[i] {
			c.Fail("after Pack the parent of chunk %d is not the chunk", i)
		}
	}
	// a file made by hand
	var h png.File
	copy(h.Magic[:], magic)
	head.toPNG(&h.Header)
	for _, k := range ks {
		var p png.Chunk
		k.toPNG(&p)
		h.Chunks = append(h.Chunks, p)
	}
	pack("a file made by hand", &h, data)
	// cut anywhere
	for i := 0; i < 6; i++ {
		cut := c.Int(len(data))
		switch c.Int(3) {
		case 1: // around the ends of chunks
			cut = ends[c.Int(len(ends))] - 1 - c.Int(14)
		case 2:
			cut = ends[c.Int(len(ends))]
		}
		if cut < 0 {
			cut = 0
		}
		at := -1
		for j, e := range ends {
			if e == cut {
				at = j
			}
		}
		var g png.File
		if at >= 0 {
			check("cut between chunks", data[:cut], at, &g)
			c.Class("cut between chunks")
		} else if err := c.Unpack(data[:cut:cut], binary.BigEndian, &g); err == nil {
			c.Fail("cut to %d of %d bytes, inside a chunk, but Unpack succeeds", cut, len(data))
		}
	}
	// a length that the file cannot have
	if n > 0 {
		i := c.Int(n)
		if k := ks[i]; k.typ != "IHDR" && k.typ != "IEND" {
			bad := append([]byte{}, data...)
			binary.BigEndian.PutUint32(bad[ends[i]:], uint32(len(data)-ends[i]-8+c.Int(1000))|uint32(c.Draw(2)<<31))
			var g png.File
			if err := c.Unpack(bad, binary.BigEndian, &g); err == nil {
				c.Fail("chunk %d announces more than the file holds, but Unpack succeeds", i)
			}
			// and one that its value does not have
			h.Chunks[i].Len += uint32(1 + c.Int(3))
			if d, err := c.Pack(binary.BigEndian, &h); err == nil {
				c.Fail("chunk %d has another length than its data, but Pack gives %s", i, hexs(d))
			}
		}
	}
	if n > 0 && total > 0 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{ID: "C22", Run: runC22, Quick: 6000, Thor: 100000,
		Rule: "a magic number, a header chunk and 0 to 40 (rarely more) chunks are generated (known types, unknown and similar types, arbitrary bytes, bodies from 0 to 70000 and rarely 1 or 2 million bytes, right and wrong check sums) and written by a hand-written writer; unpacking (fresh and used targets) must give those chunks, packing that or a file made by hand the same bytes, cuts inside a chunk and impossible lengths errors, cuts between chunks the shorter file; non-trivial: there is a chunk after the header and a body that is not empty",
		Tech: "property-based testing: generated chunk sequences, differential against a hand-written PNG chunk reader and writer"})
}
