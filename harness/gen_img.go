package main

// PNG and JPEG generators whose pixels are known, and a decoder of PDF image XObjects.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/jpeg"
	"math/rand"
	"strings"
)

type genImage struct {
	Data  []byte
	JPEG  bool
	W, H  int
	CS    string    // JPEG colour space
	Px    [][4]byte // PNG: RGBA per pixel (not premultiplied)
	Desc  string
	Alpha bool // some pixel is not opaque
}

func pngChunk(b *bytes.Buffer, typ string, data []byte) {
	binary.Write(b, binary.BigEndian, uint32(len(data)))
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(data)
	b.WriteString(typ)
	b.Write(data)
	binary.Write(b, binary.BigEndian, c.Sum32())
}

// filterRows applies PNG row filters.
func filterRows(r *rand.Rand, rows [][]byte, bpp int, mode int) []byte {
	var out []byte
	var prev []byte
	for _, row := range rows {
		ft := mode
		if mode > 4 {
			ft = r.Intn(5)
		}
		out = append(out, byte(ft))
		for i := range row {
			var a, b, c int
			if i >= bpp {
				a = int(row[i-bpp])
			}
			if prev != nil {
				b = int(prev[i])
				if i >= bpp {
					c = int(prev[i-bpp])
				}
			}
			v := int(row[i])
			switch ft {
			case 1:
				v -= a
			case 2:
				v -= b
			case 3:
				v -= (a + b) / 2
			case 4:
				p := a + b - c
				pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
				q := c
				if pa <= pb && pa <= pc {
					q = a
				} else if pb <= pc {
					q = b
				}
				v -= q
			}
			out = append(out, byte(v))
		}
		prev = row
	}
	return out
}

func genPNG(r *rand.Rand) *genImage { return genPNGof(r, -1, -1) }

func genPNGof(r *rand.Rand, ct, depth int) *genImage {
	if ct < 0 {
		ct = []int{0, 2, 3, 4, 6}[r.Intn(5)]
	}
	if depth < 0 {
		depth = 8
		if ct == 0 || ct == 3 {
			depth = []int{1, 2, 4, 8}[r.Intn(4)]
		}
	}
	w, h := 1+r.Intn(24), 1+r.Intn(24)
	big := r.Intn(40) == 0
	if big {
		w, h = 180+r.Intn(120), 180+r.Intn(60)
	}
	ch := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
	max := 1<<depth - 1
	g := &genImage{W: w, H: h}
	var pal [][3]byte
	var palA []byte
	np := 0
	if ct == 3 {
		np = 1 + r.Intn(max+1)
		if np > max+1 {
			np = max + 1
		}
		ws := r.Intn(20) == 0
		for i := 0; i < np; i++ {
			p := [3]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
			if ws {
				p = [3]byte{' ', '\n', '\t'}
			}
			pal = append(pal, p)
		}
		switch r.Intn(4) {
		case 0: // partial transparency
			n := 1 + r.Intn(np)
			for i := 0; i < n; i++ {
				palA = append(palA, byte(r.Intn(256)))
			}
		case 1: // one fully transparent entry
			n := 1 + r.Intn(np)
			for i := 0; i < n; i++ {
				palA = append(palA, 255)
			}
			palA[r.Intn(n)] = 0
		}
	}
	var trns []int
	if (ct == 0 || ct == 2) && r.Intn(3) == 0 {
		for i := 0; i < ch; i++ {
			trns = append(trns, r.Intn(max+1))
		}
	}
	noise := r.Intn(2) == 0
	base := r.Intn(256)
	rows := make([][]byte, h)
	for y := 0; y < h; y++ {
		row := make([]byte, (w*ch*depth+7)/8)
		for x := 0; x < w; x++ {
			var s [4]int
			for c := 0; c < ch; c++ {
				v := (base + x*3 + y*5 + c*40) & 255
				if noise || big {
					v = r.Intn(256)
				}
				if depth < 8 {
					v = v & max
				}
				s[c] = v
			}
			if ct == 3 {
				s[0] = s[0] % np
			}
			if trns != nil && r.Intn(4) == 0 {
				for c := 0; c < ch; c++ {
					s[c] = trns[c]
				}
			}
			if (ct == 4 || ct == 6) && r.Intn(3) == 0 {
				s[ch-1] = []int{0, 255}[r.Intn(2)]
			}
			if depth == 8 {
				for c := 0; c < ch; c++ {
					row[x*ch+c] = byte(s[c])
				}
			} else {
				bit := x * depth
				row[bit/8] |= byte(s[0] << (8 - depth - bit%8))
			}
			var px [4]byte
			px[3] = 255
			switch ct {
			case 0:
				v := byte(s[0] * 255 / max)
				px = [4]byte{v, v, v, 255}
				if trns != nil && s[0] == trns[0] {
					px[3] = 0
				}
			case 2:
				px = [4]byte{byte(s[0]), byte(s[1]), byte(s[2]), 255}
				if trns != nil && s[0] == trns[0] && s[1] == trns[1] && s[2] == trns[2] {
					px[3] = 0
				}
			case 3:
				p := pal[s[0]]
				px = [4]byte{p[0], p[1], p[2], 255}
				if s[0] < len(palA) {
					px[3] = palA[s[0]]
				}
			case 4:
				v := byte(s[0])
				px = [4]byte{v, v, v, byte(s[1])}
			case 6:
				px = [4]byte{byte(s[0]), byte(s[1]), byte(s[2]), byte(s[3])}
			}
			if px[3] != 255 {
				g.Alpha = true
			}
			g.Px = append(g.Px, px)
		}
		rows[y] = row
	}
	bpp := (ch*depth + 7) / 8
	mode := r.Intn(6)
	raw := filterRows(r, rows, bpp, mode)
	var z bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&z, []int{0, 1, 6, 9}[r.Intn(4)])
	zw.Write(raw)
	zw.Close()
	var b bytes.Buffer
	b.Write([]byte{0x89, 'P', 'N', 'G', 0x0d, 0x0a, 0x1a, 0x0a})
	var ih bytes.Buffer
	binary.Write(&ih, binary.BigEndian, uint32(w))
	binary.Write(&ih, binary.BigEndian, uint32(h))
	ih.Write([]byte{byte(depth), byte(ct), 0, 0, 0})
	pngChunk(&b, "IHDR", ih.Bytes())
	if r.Intn(3) == 0 {
		pngChunk(&b, "gAMA", []byte{0, 0, 0xb1, 0x8f})
	}
	if r.Intn(5) == 0 {
		x := make([]byte, r.Intn(60000))
		if r.Intn(8) == 0 {
			x = make([]byte, 65500+r.Intn(80000))
		}
		copy(x, "Comment\x00")
		pngChunk(&b, "tEXt", x)
	}
	if r.Intn(12) == 0 { // a chunk whose bytes look like other chunks
		var x bytes.Buffer
		pngChunk(&x, "PLTE", []byte{9, 9, 9})
		pngChunk(&x, "tRNS", []byte{0, 0, 0})
		pngChunk(&x, "IDAT", []byte{1, 2, 3})
		pngChunk(&x, "IEND", nil)
		pngChunk(&b, "prVt", x.Bytes())
	}
	if pal != nil || (ct == 2 && r.Intn(6) == 0) {
		var pb []byte
		for _, p := range pal {
			pb = append(pb, p[:]...)
		}
		if pal == nil { // suggested palette
			pb = []byte{1, 2, 3, 4, 5, 6}
		}
		pngChunk(&b, "PLTE", pb)
	}
	if palA != nil {
		pngChunk(&b, "tRNS", palA)
	}
	if trns != nil {
		var t bytes.Buffer
		be16(&t, trns...)
		pngChunk(&b, "tRNS", t.Bytes())
	}
	zb := z.Bytes()
	if r.Intn(3) == 0 {
		for len(zb) > 0 {
			n := 1 + r.Intn(len(zb))
			if r.Intn(8) == 0 {
				pngChunk(&b, "IDAT", nil)
			}
			pngChunk(&b, "IDAT", zb[:n])
			zb = zb[n:]
		}
	} else {
		pngChunk(&b, "IDAT", zb)
	}
	if r.Intn(4) == 0 {
		pngChunk(&b, "tIME", []byte{7, 0xE0, 1, 2, 3, 4, 5})
	}
	pngChunk(&b, "IEND", nil)
	g.Data = b.Bytes()
	g.Desc = fmt.Sprintf("png ct=%d depth=%d %dx%d filter=%d pal=%d palA=%d trns=%v bytes=%d", ct, depth, w, h, mode, len(pal), len(palA), trns, len(g.Data))
	return g
}

var jpegComments = []string{
	"endstream endobj (", "", "\nendstream\nendobj\n7 0 obj\n<</Type/Page>>\nendobj\n",
	"\nxref\n0 2\n0000000000 65535 f \n0000000016 00000 n \n", "\ntrailer\n<</Root 9 0 R/Size 3>>\nstartxref\n5\n%%EOF\n",
	"\xff\xd8\xff\xc0\x00\x0b\x08\x00\x05\x00\x05\x01", "\x89PNG\r\n\x1a\n", "/Contents 5 0 R /Kids [1 0 R]",
}

func genJPEG(r *rand.Rand) *genImage {
	w, h := 1+r.Intn(40), 1+r.Intn(40)
	g := &genImage{JPEG: true, W: w, H: h}
	var m image.Image
	if r.Intn(3) == 0 {
		im := image.NewGray(image.Rect(0, 0, w, h))
		r.Read(im.Pix)
		m, g.CS = im, "DeviceGray"
	} else {
		im := image.NewRGBA(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				im.Set(x, y, color.RGBA{byte(r.Intn(256)), byte(x * 7), byte(y * 9), 255})
			}
		}
		m, g.CS = im, "DeviceRGB"
	}
	var b bytes.Buffer
	jpeg.Encode(&b, m, &jpeg.Options{Quality: 30 + r.Intn(70)})
	g.Data = b.Bytes()
	for k := 0; r.Intn(4) == 0 && k < 3; k++ { // comments whose text looks like PDF syntax, or like image data
		com := []byte(jpegComments[r.Intn(len(jpegComments))])
		if r.Intn(3) == 0 {
			com = append(com, make([]byte, r.Intn(65533-len(com)))...)
		}
		n := 2 + len(com)
		x := append([]byte{0xff, 0xd8, 0xff, 0xfe, byte(n >> 8), byte(n)}, com...)
		g.Data = append(x, g.Data[2:]...)
	}
	if r.Intn(4) == 0 {
		g.Data = append(g.Data, []byte{'\r', '\n', ' ', 0}[:1+r.Intn(4)]...)
	}
	g.Desc = fmt.Sprintf("jpeg %s %dx%d bytes=%d", g.CS, w, h, len(g.Data))
	return g
}

// fatJpeg is a JPEG file of more than ten million bytes.
func fatJpeg(r *rand.Rand) *genImage {
	g := genJPEG(r)
	x := []byte{0xff, 0xd8}
	for len(x) < 10_100_000+r.Intn(100000) {
		com := make([]byte, 65533)
		r.Read(com)
		x = append(append(x, 0xff, 0xfe, 0xff, 0xff), com...)
	}
	g.Data = append(x, g.Data[2:]...)
	g.Desc += fmt.Sprintf(" and comments of %d bytes", len(x))
	return g
}

// smasks returns the least and largest number of soft masks the image may be stored with.
func (g *genImage) smasks() (int, int) {
	switch {
	case g.JPEG:
		return 0, 0
	case strings.Contains(g.Desc, "ct=4"), strings.Contains(g.Desc, "ct=6"):
		if g.Alpha {
			return 1, 1
		}
		return 0, 1
	case strings.Contains(g.Desc, "ct=3"):
		if g.Alpha {
			return 1, 1
		}
		if !strings.Contains(g.Desc, "palA=0") {
			return 0, 1
		}
	}
	return 0, 0
}

func genImg(r *rand.Rand) *genImage {
	if r.Intn(16) == 0 {
		return genCMYK(r)
	}
	if r.Intn(3) == 0 {
		return genJPEG(r)
	}
	return genPNG(r)
}

// sampleRow unpacks n samples of bpc bits.
func unpackSamples(row []byte, n, bpc int) ([]int, error) {
	out := make([]int, n)
	for i := 0; i < n; i++ {
		bit := i * bpc
		if (bit+bpc+7)/8 > len(row) {
			return nil, fmt.Errorf("image row too short")
		}
		switch bpc {
		case 8:
			out[i] = int(row[i])
		case 1, 2, 4:
			out[i] = int(row[bit/8]>>(8-bpc-bit%8)) & (1<<bpc - 1)
		default:
			return nil, fmt.Errorf("BitsPerComponent %d", bpc)
		}
	}
	return out, nil
}

// ImagePixels decodes an image XObject (Flate) into RGBA.
func (d *Doc) ImagePixels(s *Stream) (int, int, [][4]byte, error) {
	iv := func(k Name) (int, error) {
		v, err := d.Resolve(s.D[k])
		if err != nil {
			return 0, err
		}
		n, ok := v.(int64)
		if !ok {
			return 0, fmt.Errorf("image /%s is %v", k, v)
		}
		return int(n), nil
	}
	w, err := iv("Width")
	if err != nil {
		return 0, 0, nil, err
	}
	h, err := iv("Height")
	if err != nil {
		return 0, 0, nil, err
	}
	bpc, err := iv("BitsPerComponent")
	if err != nil {
		return 0, 0, nil, err
	}
	cs, err := d.Resolve(s.D["ColorSpace"])
	if err != nil {
		return 0, 0, nil, err
	}
	n := 0
	var lut []byte
	hival := 0
	switch x := cs.(type) {
	case Name:
		switch x {
		case "DeviceGray":
			n = 1
		case "DeviceRGB":
			n = 3
		default:
			return 0, 0, nil, fmt.Errorf("colour space %s", x)
		}
	case Arr:
		if len(x) != 4 || x[0] != Name("Indexed") || x[1] != Name("DeviceRGB") {
			return 0, 0, nil, fmt.Errorf("colour space %v", x)
		}
		n = 1
		hival = intOf(x[2], -1)
		lv, err := d.Resolve(x[3])
		if err != nil {
			return 0, 0, nil, fmt.Errorf("palette: %w", err)
		}
		switch l := lv.(type) {
		case Str:
			lut = l
		case *Stream:
			lut, err = d.Decode(l)
			if err != nil {
				return 0, 0, nil, err
			}
		default:
			return 0, 0, nil, fmt.Errorf("palette is %T", lv)
		}
		if len(lut) < 3*(hival+1) {
			return 0, 0, nil, fmt.Errorf("palette has %d bytes for hival %d", len(lut), hival)
		}
	default:
		return 0, 0, nil, fmt.Errorf("colour space is %T", cs)
	}
	if s.D["Decode"] != nil {
		return 0, 0, nil, fmt.Errorf("unexpected /Decode")
	}
	data, err := d.Decode(s)
	if err != nil {
		return 0, 0, nil, err
	}
	rl := (w*n*bpc + 7) / 8
	if len(data) != rl*h {
		return 0, 0, nil, fmt.Errorf("image data %d bytes, expected %d", len(data), rl*h)
	}
	var mask []int
	if mv, _ := d.Resolve(s.D["Mask"]); mv != nil {
		a, ok := mv.(Arr)
		if !ok || len(a) != 2*n {
			return 0, 0, nil, fmt.Errorf("bad /Mask %v", mv)
		}
		for _, e := range a {
			mask = append(mask, intOf(e, -1))
		}
	}
	px := make([][4]byte, 0, w*h)
	max := 1<<bpc - 1
	for y := 0; y < h; y++ {
		sm, err := unpackSamples(data[y*rl:(y+1)*rl], w*n, bpc)
		if err != nil {
			return 0, 0, nil, err
		}
		for x := 0; x < w; x++ {
			var p [4]byte
			p[3] = 255
			v := sm[x*n : x*n+n]
			if mask != nil {
				in := true
				for c := range v {
					if v[c] < mask[2*c] || v[c] > mask[2*c+1] {
						in = false
					}
				}
				if in {
					p[3] = 0
				}
			}
			if lut != nil {
				if v[0] > hival {
					return 0, 0, nil, fmt.Errorf("palette index %d > hival %d", v[0], hival)
				}
				copy(p[:3], lut[3*v[0]:3*v[0]+3])
			} else if n == 1 {
				g := byte(v[0] * 255 / max)
				p[0], p[1], p[2] = g, g, g
			} else {
				for c := 0; c < 3; c++ {
					p[c] = byte(v[c] * 255 / max)
				}
			}
			px = append(px, p)
		}
	}
	if sv, err := d.Resolve(s.D["SMask"]); err != nil {
		return 0, 0, nil, fmt.Errorf("SMask: %w", err)
	} else if sv != nil {
		ms, ok := sv.(*Stream)
		if !ok || ms.D["Subtype"] != Name("Image") || ms.D["ColorSpace"] != Name("DeviceGray") {
			return 0, 0, nil, fmt.Errorf("SMask is not a gray image: %T", sv)
		}
		mw, mh, mp, err := d.ImagePixels(ms)
		if err != nil {
			return 0, 0, nil, fmt.Errorf("SMask: %w", err)
		}
		if mw != w || mh != h {
			return 0, 0, nil, fmt.Errorf("SMask is %dx%d for image %dx%d", mw, mh, w, h)
		}
		for i := range px {
			px[i][3] = mp[i][0]
		}
	}
	return w, h, px, nil
}

// CheckImage compares an image XObject with its source.
func (d *Doc) CheckImage(v interface{}, g *genImage) error {
	v, err := d.Resolve(v)
	if err != nil {
		return err
	}
	s, ok := v.(*Stream)
	if !ok || s.D["Subtype"] != Name("Image") || (s.D["Type"] != nil && s.D["Type"] != Name("XObject")) {
		return fmt.Errorf("not an image XObject: %T", v)
	}
	if g.JPEG {
		if !bytes.Equal(s.Raw, g.Data) {
			return fmt.Errorf("stored JPEG data differs from the source (%d vs %d bytes)", len(s.Raw), len(g.Data))
		}
		if s.D["Filter"] != Name("DCTDecode") || s.D["ColorSpace"] != Name(g.CS) || intOf(s.D["Width"], -1) != g.W || intOf(s.D["Height"], -1) != g.H || intOf(s.D["BitsPerComponent"], -1) != 8 || s.D["SMask"] != nil || s.D["Mask"] != nil {
			return fmt.Errorf("JPEG image dictionary does not describe the %s: %s", g.Desc, canonSimple(s.D))
		}
		if dec := canonSimple(s.D["Decode"]); g.CS == "DeviceCMYK" && dec != "[1 0 1 0 1 0 1 0]" || g.CS != "DeviceCMYK" && s.D["Decode"] != nil {
			return fmt.Errorf("JPEG image has /Decode %s", dec)
		}
		return nil
	}
	w, h, px, err := d.ImagePixels(s)
	if err != nil {
		return err
	}
	if w != g.W || h != g.H {
		return fmt.Errorf("image is %dx%d, source %dx%d", w, h, g.W, g.H)
	}
	for i := range px {
		a, b := px[i], g.Px[i]
		if a != b {
			return fmt.Errorf("pixel %d,%d is %v, source %v", i%w, i/w, a, b)
		}
	}
	return nil
}
