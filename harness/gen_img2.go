package main

// Images at the edge of what is supported: interlaced, 16 bit, CMYK JPEG, other formats, damaged files.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/png"
	"math/rand"
)

// genCMYK makes a baseline four-component JPEG (DC only) with an Adobe marker.
func genCMYK(r *rand.Rand) *genImage {
	bw, bh := 1+r.Intn(3), 1+r.Intn(3)
	w, h := bw*8-r.Intn(8), bh*8-r.Intn(8)
	var b bytes.Buffer
	seg := func(m byte, p []byte) {
		b.Write([]byte{0xff, m})
		binary.Write(&b, binary.BigEndian, uint16(len(p)+2))
		b.Write(p)
	}
	b.Write([]byte{0xff, 0xd8})
	seg(0xee, append([]byte("Adobe"), 0, 100, 0, 0, 0, 0, 0))
	q := make([]byte, 65)
	for i := 1; i < 65; i++ {
		q[i] = 8
	}
	seg(0xdb, q)
	sof := []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 4}
	for c := 1; c <= 4; c++ {
		sof = append(sof, byte(c), 0x11, 0)
	}
	seg(0xc0, sof)
	// DC table: 8 codes of length 3 for sizes 0..6 (7 codes), AC table: EOB only
	dc := append([]byte{0x00}, make([]byte, 16)...)
	dc[3] = 7
	for s := 0; s < 7; s++ {
		dc = append(dc, byte(s))
	}
	seg(0xc4, dc)
	ac := append([]byte{0x10}, make([]byte, 16)...)
	ac[1] = 1
	ac = append(ac, 0)
	seg(0xc4, ac)
	sos := []byte{4}
	for c := 1; c <= 4; c++ {
		sos = append(sos, byte(c), 0)
	}
	seg(0xda, append(sos, 0, 63, 0))
	var acc uint32
	var n uint
	put := func(v uint32, k uint) {
		acc = acc<<k | v
		n += k
		for n >= 8 {
			x := byte(acc >> (n - 8))
			b.WriteByte(x)
			if x == 0xff {
				b.WriteByte(0)
			}
			n -= 8
		}
	}
	pred := [4]int{}
	for i := 0; i < bw*bh; i++ {
		for c := 0; c < 4; c++ {
			v := r.Intn(60) - 30
			d := v - pred[c]
			pred[c] = v
			a := d
			if a < 0 {
				a = -a
			}
			s := uint(0)
			for a>>s > 0 {
				s++
			}
			put(uint32(s), 3)
			if d < 0 {
				d += 1<<s - 1
			}
			put(uint32(d), s)
			put(0, 1)
		}
	}
	if n > 0 {
		put(1<<(8-n)-1, 8-n)
	}
	b.Write([]byte{0xff, 0xd9})
	return &genImage{Data: b.Bytes(), JPEG: true, W: w, H: h, CS: "DeviceCMYK", Desc: fmt.Sprintf("jpeg DeviceCMYK %dx%d", w, h)}
}

// genAdam7 makes an interlaced PNG (gray, RGB or RGBA, 8 bit).
func genAdam7(r *rand.Rand) *genImage {
	ct := []int{0, 2, 6}[r.Intn(3)]
	ch := map[int]int{0: 1, 2: 3, 6: 4}[ct]
	w, h := 1+r.Intn(17), 1+r.Intn(17)
	g := &genImage{W: w, H: h, Px: make([][4]byte, w*h)}
	raw := make([]byte, w*h*ch)
	r.Read(raw)
	for i := range g.Px {
		s := raw[i*ch:]
		switch ct {
		case 0:
			g.Px[i] = [4]byte{s[0], s[0], s[0], 255}
		case 2:
			g.Px[i] = [4]byte{s[0], s[1], s[2], 255}
		default:
			g.Px[i] = [4]byte{s[0], s[1], s[2], s[3]}
		}
	}
	var data []byte
	for _, p := range [][4]int{{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}} {
		for y := p[1]; y < h; y += p[3] {
			if p[0] >= w {
				break
			}
			data = append(data, 0)
			for x := p[0]; x < w; x += p[2] {
				data = append(data, raw[(y*w+x)*ch:(y*w+x+1)*ch]...)
			}
		}
	}
	var z bytes.Buffer
	zw := zlib.NewWriter(&z)
	zw.Write(data)
	zw.Close()
	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	ihdr := make([]byte, 13)
	binary.BigEndian.PutUint32(ihdr, uint32(w))
	binary.BigEndian.PutUint32(ihdr[4:], uint32(h))
	ihdr[8], ihdr[9], ihdr[12] = 8, byte(ct), 1
	pngChunk(&b, "IHDR", ihdr)
	pngChunk(&b, "IDAT", z.Bytes())
	pngChunk(&b, "IEND", nil)
	g.Data = b.Bytes()
	g.Desc = fmt.Sprintf("interlaced png ct=%d %dx%d", ct, w, h)
	return g
}

func gen16(r *rand.Rand) *genImage {
	w, h := 1+r.Intn(12), 1+r.Intn(12)
	g := &genImage{W: w, H: h}
	var b bytes.Buffer
	switch r.Intn(2) {
	case 0:
		im := image.NewGray16(image.Rect(0, 0, w, h))
		r.Read(im.Pix)
		for i := 0; i < w*h; i++ {
			v := im.Pix[2*i]
			g.Px = append(g.Px, [4]byte{v, v, v, 255})
		}
		png.Encode(&b, im)
	default:
		im := image.NewNRGBA64(image.Rect(0, 0, w, h))
		r.Read(im.Pix)
		for i := 0; i < w*h; i++ {
			g.Px = append(g.Px, [4]byte{im.Pix[8*i], im.Pix[8*i+2], im.Pix[8*i+4], im.Pix[8*i+6]})
		}
		png.Encode(&b, im)
	}
	g.Data = b.Bytes()
	g.Desc = fmt.Sprintf("16 bit png %dx%d", w, h)
	return g
}

func genGIF(r *rand.Rand) *genImage {
	im := image.NewPaletted(image.Rect(0, 0, 4, 4), color.Palette{color.Black, color.White})
	r.Read(im.Pix)
	for i := range im.Pix {
		im.Pix[i] &= 1
	}
	var b bytes.Buffer
	gif.Encode(&b, im, nil)
	return &genImage{Data: b.Bytes(), W: 4, H: 4, Desc: "gif"}
}

// genOdd returns an image that must be refused or drawn right; damaged ones have no pixels.
func genOdd(r *rand.Rand) *genImage {
	switch r.Intn(8) {
	case 0, 1:
		return genAdam7(r)
	case 2:
		return gen16(r)
	case 3:
		return genGIF(r)
	case 4:
		return genCMYK(r)
	case 5: // pixel data cut short but a valid zlib stream
		g := genPNG(r)
		return &genImage{Data: shortenPNG(g.Data, r), W: g.W, H: g.H, Desc: "short " + g.Desc}
	case 6: // corrupt pixel data
		g := genPNG(r)
		d := append([]byte(nil), g.Data...)
		for i := 8; i+12 <= len(d); i += 12 + int(binary.BigEndian.Uint32(d[i:])) {
			if string(d[i+4:i+8]) == "IDAT" && binary.BigEndian.Uint32(d[i:]) > 0 {
				d[i+8] ^= 0x55
				break
			}
		}
		return &genImage{Data: d, W: g.W, H: g.H, Desc: "damaged " + g.Desc}
	}
	g := genImg(r)
	return &genImage{Data: g.Data[:r.Intn(30)], Desc: "truncated " + g.Desc}
}

func shortenPNG(d []byte, r *rand.Rand) []byte {
	var b bytes.Buffer
	b.Write(d[:8])
	p := 8
	done := false
	for p+12 <= len(d) {
		n := int(binary.BigEndian.Uint32(d[p:]))
		typ := string(d[p+4 : p+8])
		if p+12+n > len(d) {
			break
		}
		body := d[p+8 : p+8+n]
		if typ == "IDAT" {
			if !done {
				var z bytes.Buffer
				zw := zlib.NewWriter(&z)
				zw.Write(make([]byte, r.Intn(2)))
				zw.Close()
				pngChunk(&b, "IDAT", z.Bytes())
				done = true
			}
		} else {
			pngChunk(&b, typ, body)
		}
		p += 12 + n
	}
	return b.Bytes()
}

// genLike makes an image file of the same length as other, differing from it only in a few bytes somewhere.
func genLike(r *rand.Rand) (a, b *genImage) {
	if r.Intn(3) == 0 { // JPEG: bytes of a comment at the front or behind the image
		x := genJPEG(r)
		pad := make([]byte, 1+r.Intn(3000))
		r.Read(pad)
		for i := range pad {
			pad[i] = 'a' + pad[i]%26
		}
		mk := func(pad []byte) *genImage {
			v := *x
			v.Data = append([]byte{0xff, 0xd8, 0xff, 0xfe, byte((len(pad) + 2) >> 8), byte(len(pad) + 2)}, pad...)
			v.Data = append(v.Data, x.Data[2:]...)
			v.Desc = fmt.Sprintf("%s +comment %d", x.Desc, len(pad))
			return &v
		}
		if r.Intn(2) == 0 {
			mk = func(pad []byte) *genImage {
				v := *x
				v.Data = append(append([]byte(nil), x.Data...), pad...)
				v.Desc = fmt.Sprintf("%s +tail %d", x.Desc, len(pad))
				return &v
			}
		}
		p2 := append([]byte(nil), pad...)
		switch k := r.Intn(4); {
		case k == 0:
			p2[0]++
		case k == 1:
			p2[len(p2)-1]++
		case k == 2 && len(p2) > 1: // the same bytes in another order
			p2[0], p2[len(p2)-1] = p2[len(p2)-1], p2[0]
			if p2[0] == p2[len(p2)-1] {
				p2[0]++
			}
		default:
			p2[r.Intn(len(p2))]++
		}
		return mk(pad), mk(p2)
	}
	ct := []int{0, 2}[r.Intn(2)]
	ch := 1 + ct
	w, h := 1+r.Intn(40), 1+r.Intn(40)
	px := make([]byte, w*h*ch)
	r.Read(px)
	mk := func(px []byte) *genImage {
		g := &genImage{W: w, H: h, Desc: fmt.Sprintf("png ct=%d depth=8 %dx%d stored palA=0", ct, w, h)}
		var raw []byte
		for y := 0; y < h; y++ {
			raw = append(raw, 0)
			raw = append(raw, px[y*w*ch:(y+1)*w*ch]...)
		}
		for i := 0; i < w*h; i++ {
			p := [4]byte{px[i*ch], px[i*ch], px[i*ch], 255}
			if ch == 3 {
				p = [4]byte{px[i*ch], px[i*ch+1], px[i*ch+2], 255}
			}
			g.Px = append(g.Px, p)
		}
		var z, b, ih bytes.Buffer
		zw, _ := zlib.NewWriterLevel(&z, 0)
		zw.Write(raw)
		zw.Close()
		b.Write([]byte{0x89, 'P', 'N', 'G', 0x0d, 0x0a, 0x1a, 0x0a})
		binary.Write(&ih, binary.BigEndian, uint32(w))
		binary.Write(&ih, binary.BigEndian, uint32(h))
		ih.Write([]byte{8, byte(ct), 0, 0, 0})
		pngChunk(&b, "IHDR", ih.Bytes())
		pngChunk(&b, "IDAT", z.Bytes())
		pngChunk(&b, "IEND", nil)
		g.Data = b.Bytes()
		return g
	}
	p2 := append([]byte(nil), px...)
	switch r.Intn(4) {
	case 0:
		p2[0] ^= 1 << uint(r.Intn(8))
	case 1:
		p2[len(p2)-1] ^= 1 << uint(r.Intn(8))
	case 2:
		p2[r.Intn(len(p2))] ^= 255
	case 3:
		i, j := r.Intn(len(p2)), r.Intn(len(p2))
		p2[i], p2[j] = p2[j], p2[i]
		if p2[i] == p2[j] {
			p2[j] ^= 128
		}
	}
	return mk(px), mk(p2)
}
