package main

// Independent TrueType reader used as oracle.

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"strings"
)

type TTF struct {
	data       []byte
	tab        map[string][]byte
	tabOff     map[string]int
	Upem       int
	NumGlyphs  int
	NHM        int
	LocaLong   bool
	loca       []int
	TypoAsc    int
	TypoDesc   int
	UlPos      int
	UlThick    int
	cm4        []seg4
	cm4b       []byte // subtable bytes
	cm12       [][3]uint32
	has4       bool
	Kern       map[[2]int]int
	Ascender   int
	Descender  int
	hasCmap    bool
	headFields [4]int
	WinAsc     int
	WinDesc    int
	OS2Ver     int
	FsType     int
	FsSel      int
	CapH       int
	XH         int
	Italic     int // integer part of the angle
	Fixed      bool
	PSName     string
}

type seg4 struct{ start, end, delta, ro, roPos int }

func u16(b []byte, o int) int {
	if o < 0 || o+2 > len(b) {
		panic(fmt.Sprintf("ttf: short read at %d of %d", o, len(b)))
	}
	return int(binary.BigEndian.Uint16(b[o:]))
}
func s16(b []byte, o int) int { return int(int16(u16(b, o))) }
func u32(b []byte, o int) int {
	if o < 0 || o+4 > len(b) {
		panic(fmt.Sprintf("ttf: short read at %d of %d", o, len(b)))
	}
	return int(binary.BigEndian.Uint32(b[o:]))
}

// ParseTTF parses a font. needCmap=false for embedded programs (which carry no cmap).
func ParseTTF(b []byte, needCmap bool) (t *TTF, err error) {
	defer func() {
		if r := recover(); r != nil {
			t, err = nil, fmt.Errorf("%v", r)
		}
	}()
	t = &TTF{data: b, tab: map[string][]byte{}, tabOff: map[string]int{}}
	if u32(b, 0) != 0x00010000 {
		return nil, fmt.Errorf("bad sfnt version %x", u32(b, 0))
	}
	n := u16(b, 4)
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		tag := string(b[o : o+4])
		off, ln := u32(b, o+8), u32(b, o+12)
		if ln == 0 {
			continue
		}
		if off+ln > len(b) {
			return nil, fmt.Errorf("table %q [%d,+%d) outside font of %d bytes", tag, off, ln, len(b))
		}
		if _, dup := t.tab[tag]; dup {
			return nil, fmt.Errorf("table %q twice", tag)
		}
		t.tab[tag] = b[off : off+ln]
		t.tabOff[tag] = off
	}
	for _, r := range []string{"head", "hhea", "maxp", "hmtx", "loca"} {
		if t.tab[r] == nil {
			return nil, fmt.Errorf("table %q missing", r)
		}
	}
	h := t.tab["head"]
	if u32(h, 12) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("bad head magic")
	}
	t.Upem = u16(h, 18)
	t.headFields = [4]int{s16(h, 36), s16(h, 38), s16(h, 40), s16(h, 42)}
	t.LocaLong = s16(h, 50) != 0
	t.NumGlyphs = u16(t.tab["maxp"], 4)
	t.NHM = u16(t.tab["hhea"], 34)
	t.Ascender, t.Descender = s16(t.tab["hhea"], 4), s16(t.tab["hhea"], 6)
	lt := t.tab["loca"]
	for i := 0; i <= t.NumGlyphs; i++ {
		if t.LocaLong {
			t.loca = append(t.loca, u32(lt, 4*i))
		} else {
			t.loca = append(t.loca, 2*u16(lt, 2*i))
		}
	}
	gl := len(t.tab["glyf"])
	for i := 0; i < t.NumGlyphs; i++ {
		if t.loca[i] > t.loca[i+1] || t.loca[i+1] > gl {
			return nil, fmt.Errorf("loca entry %d out of order or range (%d..%d of %d)", i, t.loca[i], t.loca[i+1], gl)
		}
	}
	if os2 := t.tab["OS/2"]; os2 != nil && len(os2) >= 72 {
		t.TypoAsc, t.TypoDesc = s16(os2, 68), s16(os2, 70)
		if len(os2) >= 78 {
			t.WinAsc, t.WinDesc = u16(os2, 74), u16(os2, 76)
		}
		t.OS2Ver, t.FsType, t.FsSel = u16(os2, 0), u16(os2, 8), u16(os2, 62)
		if t.OS2Ver >= 2 && len(os2) >= 90 {
			t.XH, t.CapH = s16(os2, 86), s16(os2, 88)
		}
	}
	if p := t.tab["post"]; p != nil && len(p) >= 12 {
		t.UlPos, t.UlThick = s16(p, 8), s16(p, 10)
		t.Italic = s16(p, 4)
		if len(p) >= 16 {
			t.Fixed = u32(p, 12) != 0
		}
	}
	if n := t.tab["name"]; n != nil {
		t.parseName(n)
	}
	if k := t.tab["kern"]; k != nil {
		t.parseKern(k)
	}
	if needCmap {
		if err := t.parseCmap(); err != nil {
			return nil, err
		}
	}
	return t, nil
}

// parseName takes the first PostScript name.
func (t *TTF) parseName(b []byte) {
	n, so := u16(b, 2), u16(b, 4)
	for i := 0; i < n; i++ {
		o := 6 + 12*i
		if u16(b, o+6) != 6 {
			continue
		}
		s := b[so+u16(b, o+10):][:u16(b, o+8)]
		for _, c := range s {
			if c != 0 && !strings.ContainsRune(" []()<>{}/%", rune(c)) { // names are ASCII, also in UTF-16
				t.PSName += string(rune(c))
			}
		}
		return
	}
}

func (t *TTF) parseKern(k []byte) {
	t.Kern = map[[2]int]int{}
	if u16(k, 0) != 0 {
		return
	}
	n := u16(k, 2)
	p := 4
	for i := 0; i < n; i++ {
		ln := u16(k, p+2)
		cov := u16(k, p+4)
		if cov>>8 == 0 {
			np := u16(k, p+6)
			for j := 0; j < np; j++ {
				o := p + 14 + 6*j
				t.Kern[[2]int{u16(k, o), u16(k, o+2)}] = s16(k, o+4)
			}
		}
		p += ln
	}
}

func (t *TTF) parseCmap() error {
	c := t.tab["cmap"]
	if c == nil {
		return fmt.Errorf("no cmap")
	}
	n := u16(c, 2)
	for i := 0; i < n; i++ {
		pid, eid, off := u16(c, 4+8*i), u16(c, 6+8*i), u32(c, 8+8*i)
		if pid == 3 && eid == 1 && u16(c, off) == 4 {
			s := c[off:]
			t.has4 = true
			t.cm4b = s
			sc := u16(s, 6) / 2
			for k := 0; k < sc; k++ {
				t.cm4 = append(t.cm4, seg4{end: u16(s, 14+2*k), start: u16(s, 16+2*sc+2*k), delta: u16(s, 16+4*sc+2*k), ro: u16(s, 16+6*sc+2*k), roPos: 16 + 6*sc + 2*k})
			}
		}
		if pid == 3 && eid == 10 && u16(c, off) == 12 {
			s := c[off:]
			ng := u32(s, 12)
			for k := 0; k < ng; k++ {
				t.cm12 = append(t.cm12, [3]uint32{uint32(u32(s, 16+12*k)), uint32(u32(s, 20+12*k)), uint32(u32(s, 24+12*k))})
			}
		}
	}
	if !t.has4 {
		return fmt.Errorf("no (3,1) format 4 cmap")
	}
	return nil
}

// Glyph maps a rune. ok=false when the font's tables do not cover the rune at all
// (supplementary plane without group); BMP runes without glyph map to 0.
func (t *TTF) Glyph(r rune) (g int, ok bool) {
	if r > 0xFFFF {
		for _, s := range t.cm12 {
			if uint32(r) >= s[0] && uint32(r) <= s[1] {
				return int(s[2] + uint32(r) - s[0]), true
			}
		}
		return 0, false
	}
	c := int(r)
	for _, s := range t.cm4 {
		if c <= s.end {
			if c < s.start {
				return 0, true
			}
			if s.ro == 0 {
				return (c + s.delta) & 0xFFFF, true
			}
			p := s.roPos + s.ro + 2*(c-s.start)
			if p+2 > len(t.cm4b) {
				return 0, true
			}
			v := u16(t.cm4b, p)
			if v == 0 {
				return 0, true
			}
			return (v + s.delta) & 0xFFFF, true
		}
	}
	return 0, true
}

// Adv is the advance width in font units.
func (t *TTF) Adv(g int) int {
	if g >= t.NHM {
		g = t.NHM - 1
	}
	return u16(t.tab["hmtx"], 4*g)
}

// LSB is the left side bearing of a glyph.
func (t *TTF) LSB(g int) int {
	h := t.tab["hmtx"]
	o := 4*g + 2
	if g >= t.NHM {
		o = 4*t.NHM + 2*(g-t.NHM)
	}
	if o+2 > len(h) {
		return 0
	}
	return s16(h, o)
}

// PdfW is the advance in 1/1000 em, truncated (the library's convention).
func (t *TTF) PdfW(g int) int { return t.Adv(g) * 1000 / t.Upem }

func (t *TTF) GlyphData(g int) ([]byte, error) {
	if g < 0 || g >= t.NumGlyphs {
		return nil, fmt.Errorf("glyph %d out of %d", g, t.NumGlyphs)
	}
	gl := t.tab["glyf"]
	return gl[t.loca[g]:t.loca[g+1]], nil
}

// Sig is a hash of the glyph's outline with its components' outlines substituted.
func (t *TTF) Sig(g int, depth int) (sig string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("glyph %d: %v", g, r)
		}
	}()
	if depth > 12 {
		return "", fmt.Errorf("composite too deep")
	}
	d, err := t.GlyphData(g)
	if err != nil {
		return "", err
	}
	if len(d) == 0 {
		return "empty", nil
	}
	h := md5.New()
	if s16(d, 0) >= 0 {
		h.Write(d)
		return fmt.Sprintf("s%x", h.Sum(nil)), nil
	}
	h.Write(d[:10])
	p := 10
	for {
		fl := u16(d, p)
		cg := u16(d, p+2)
		n := 2
		if fl&1 != 0 {
			n = 4
		}
		if fl&8 != 0 {
			n += 2
		} else if fl&0x40 != 0 {
			n += 4
		} else if fl&0x80 != 0 {
			n += 8
		}
		if p+4+n > len(d) {
			return "", fmt.Errorf("glyph %d: truncated composite", g)
		}
		h.Write(d[p : p+2])
		h.Write(d[p+4 : p+4+n])
		cs, err := t.Sig(cg, depth+1)
		if err != nil {
			return "", err
		}
		h.Write([]byte(cs))
		p += 4 + n
		if fl&0x20 == 0 {
			break
		}
	}
	h.Write(d[p:])
	return fmt.Sprintf("c%x", h.Sum(nil)), nil
}

func (t *TTF) typo(v int, size float64) float64 { return float64(v) * size / float64(t.Upem) }

// checkDir checks the table directory of an embedded program.
func (t *TTF) checkDir() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	b := t.data
	n := u16(b, 4)
	sel := 0
	for 2<<sel <= n {
		sel++
	}
	if u16(b, 6) != 16<<sel || u16(b, 8) != sel || u16(b, 10) != 16*n-16<<sel {
		return fmt.Errorf("table directory of %d tables has search fields %d %d %d", n, u16(b, 6), u16(b, 8), u16(b, 10))
	}
	last := ""
	type span struct{ a, b int }
	var sp []span
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		tag := string(b[o : o+4])
		if tag <= last {
			return fmt.Errorf("table %q after %q", tag, last)
		}
		last = tag
		off, ln := u32(b, o+8), u32(b, o+12)
		if off%4 != 0 {
			return fmt.Errorf("table %q at odd offset %d", tag, off)
		}
		if ln > 0 {
			if off < 12+16*n {
				return fmt.Errorf("table %q overlaps the directory", tag)
			}
			for _, s := range sp {
				if off < s.b && s.a < off+ln {
					return fmt.Errorf("table %q overlaps another", tag)
				}
			}
			sp = append(sp, span{off, off + ln})
		}
		if tag == "glyf" || tag == "loca" {
			var sum uint32
			for k := 0; k < ln; k += 4 {
				var q [4]byte
				copy(q[:], b[off+k:min(off+ln, off+k+4)])
				sum += binary.BigEndian.Uint32(q[:])
			}
			if sum != uint32(u32(b, o+4)) {
				return fmt.Errorf("checksum of table %q is %x, stored %x", tag, sum, u32(b, o+4))
			}
		}
	}
	return nil
}
