package main

// Synthetic TrueType fonts with a known character map, metrics and outlines.

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"sort"
	"unicode/utf16"
)

type genFont struct {
	Data  []byte
	Runes []rune // runes the font maps to a glyph
	Desc  string
}

func be16(b *bytes.Buffer, v ...int) {
	for _, x := range v {
		binary.Write(b, binary.BigEndian, uint16(x))
	}
}
func be32(b *bytes.Buffer, v ...int) {
	for _, x := range v {
		binary.Write(b, binary.BigEndian, uint32(x))
	}
}

func simpleGlyph(r *rand.Rand) []byte {
	var b bytes.Buffer
	nc := 1 + r.Intn(3)
	be16(&b, nc, r.Intn(50), r.Intn(50)-30, 300+r.Intn(600), 300+r.Intn(600))
	pts := 0
	for i := 0; i < nc; i++ {
		pts += 3 + r.Intn(4)
		be16(&b, pts-1)
	}
	ni := 0
	if r.Intn(3) == 0 {
		ni = r.Intn(12)
	}
	be16(&b, ni)
	for i := 0; i < ni; i++ {
		b.WriteByte(byte(r.Intn(256)))
	}
	for i := 0; i < pts; i++ {
		b.WriteByte(1)
	}
	for i := 0; i < 2*pts; i++ {
		be16(&b, r.Intn(400)-200)
	}
	return b.Bytes()
}

// bigGlyph has some kilobytes of instructions.
func bigGlyph(r *rand.Rand) []byte {
	var b bytes.Buffer
	be16(&b, 1, r.Intn(50), r.Intn(50)-30, 300+r.Intn(600), 300+r.Intn(600), 2)
	ni := 1000 + r.Intn(9000)
	be16(&b, ni)
	x := make([]byte, ni)
	r.Read(x)
	b.Write(x)
	b.Write([]byte{1, 1, 1})
	for i := 0; i < 6; i++ {
		be16(&b, r.Intn(400)-200)
	}
	return b.Bytes()
}

func compositeGlyph(r *rand.Rand, comps []int) []byte {
	var b bytes.Buffer
	be16(&b, 0xFFFF, r.Intn(50), 0, 400, 500)
	instr := r.Intn(3) == 0
	for i, c := range comps {
		fl := 0
		words := r.Intn(2) == 0
		if words {
			fl |= 1
		}
		if r.Intn(2) == 0 {
			fl |= 2
		}
		if r.Intn(3) == 0 {
			fl |= 4
		}
		sc := r.Intn(4)
		switch sc {
		case 1:
			fl |= 8
		case 2:
			fl |= 0x40
		case 3:
			fl |= 0x80
		}
		if r.Intn(4) == 0 {
			fl |= 0x200
		}
		if i < len(comps)-1 {
			fl |= 0x20
		} else if instr {
			fl |= 0x100
		}
		be16(&b, fl, c)
		n := 2
		if words {
			n = 4
		}
		n += []int{0, 2, 4, 8}[sc]
		for k := 0; k < n; k++ {
			b.WriteByte(byte(r.Intn(256)))
		}
	}
	if instr {
		n := r.Intn(6)
		be16(&b, n)
		for k := 0; k < n; k++ {
			b.WriteByte(byte(r.Intn(256)))
		}
	}
	return b.Bytes()
}

func buildCmap4(r *rand.Rand, m map[rune]int) []byte {
	var ks []int
	for k := range m {
		if k < 0xFFFF {
			ks = append(ks, int(k))
		}
	}
	sort.Ints(ks)
	type seg struct {
		s, e  int
		delta int
		arr   []int // glyph ids when range offset is used
	}
	var segs []seg
	for i := 0; i < len(ks); {
		j := i
		useArr := r.Intn(2) == 0
		d0 := m[rune(ks[i])] - ks[i]
		for j+1 < len(ks) {
			gap := ks[j+1] - ks[j]
			if useArr {
				if gap > 4 || j-i > 40 {
					break
				}
			} else if gap != 1 || m[rune(ks[j+1])]-ks[j+1] != d0 {
				break
			}
			j++
		}
		sg := seg{s: ks[i], e: ks[j]}
		if useArr {
			if r.Intn(2) == 0 {
				sg.delta = r.Intn(30)
			}
			for c := sg.s; c <= sg.e; c++ {
				g, ok := m[rune(c)]
				if !ok {
					sg.arr = append(sg.arr, 0)
				} else {
					v := (g - sg.delta) & 0xFFFF
					if v == 0 { // zero in the array means missing: avoid by dropping the delta
						sg.arr = nil
						sg.delta = 0
						for c2 := sg.s; c2 <= sg.e; c2++ {
							sg.arr = append(sg.arr, m[rune(c2)])
						}
						break
					}
					sg.arr = append(sg.arr, v)
				}
			}
		} else {
			sg.delta = d0 & 0xFFFF
		}
		segs = append(segs, sg)
		i = j + 1
	}
	segs = append(segs, seg{s: 0xFFFF, e: 0xFFFF, delta: 1})
	sc := len(segs)
	var b, garr bytes.Buffer
	be16(&b, 4, 0, 0, sc*2)
	sr, es := 1, 0
	for sr*2 <= sc {
		sr *= 2
		es++
	}
	be16(&b, sr*2, es, sc*2-sr*2)
	for _, s := range segs {
		be16(&b, s.e)
	}
	be16(&b, 0)
	for _, s := range segs {
		be16(&b, s.s)
	}
	for _, s := range segs {
		be16(&b, s.delta)
	}
	for i, s := range segs {
		if s.arr == nil {
			be16(&b, 0)
		} else {
			be16(&b, 2*(sc-i)+garr.Len())
			be16(&garr, s.arr...)
		}
	}
	b.Write(garr.Bytes())
	out := b.Bytes()
	binary.BigEndian.PutUint16(out[2:], uint16(len(out)))
	return out
}

func buildCmap12(m map[rune]int) []byte {
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var groups [][3]int
	for i := 0; i < len(ks); {
		j := i
		for j+1 < len(ks) && ks[j+1] == ks[j]+1 && m[rune(ks[j+1])] == m[rune(ks[j])]+1 {
			j++
		}
		groups = append(groups, [3]int{ks[i], ks[j], m[rune(ks[i])]})
		i = j + 1
	}
	var b bytes.Buffer
	be16(&b, 12, 0)
	be32(&b, 16+12*len(groups), 0, len(groups))
	for _, g := range groups {
		be32(&b, g[0], g[1], g[2])
	}
	return b.Bytes()
}

func genTTF(r *rand.Rand) *genFont {
	n := 4 + r.Intn(60)
	if r.Intn(8) == 0 {
		n = 260 + r.Intn(300)
	}
	var few []int // the glyphs a font with thousands of them makes use of
	if k := r.Intn(120); k < 3 {
		n = 4200 + r.Intn(6000)
		if k == 0 {
			n = 33000 + r.Intn(32000)
		}
		have := map[int]bool{0: true}
		few = []int{0}
		for i := 0; i < 40; i++ {
			g := r.Intn(n)
			for _, x := range []int{g, g ^ 0x100, g ^ 0x1000, g ^ 0x8000, g ^ 0x4000, n - 1 - i%3, i % 5} {
				if x < n && !have[x] {
					have[x] = true
					few = append(few, x)
				}
			}
		}
	}
	upem := []int{1000, 2048, 1024, 512, 256, 4096, 1200, 16, 16384}[r.Intn(9)]
	// glyphs; rank gives an acyclic component order unrelated to glyph numbers
	rank := r.Perm(n)
	gl := make([][]byte, n)
	comp := 0
	use := few
	if few == nil {
		for g := 0; g < n; g++ {
			use = append(use, g)
		}
	}
	for _, g := range use {
		switch k := r.Intn(10); {
		case k == 0:
			gl[g] = nil
		case k <= 4 && rank[g] > 2:
			var cs []int
			nc := 1 + r.Intn(3)
			if r.Intn(10) == 0 {
				nc = 4 + r.Intn(9)
			}
			for t := 0; t < 60 && len(cs) < nc; t++ {
				c := use[r.Intn(len(use))]
				if rank[c] < rank[g] && c != g {
					cs = append(cs, c)
				}
			}
			if len(cs) > 0 {
				gl[g] = compositeGlyph(r, cs)
				comp++
			} else {
				gl[g] = simpleGlyph(r)
			}
		default:
			gl[g] = simpleGlyph(r)
		}
	}
	// composite depth limit
	for changed := true; changed; {
		changed = false
		for _, g := range use {
			if glyphDepth(gl, g, 0) > 6 {
				gl[g] = simpleGlyph(r)
				changed = true
			}
		}
	}
	if r.Intn(20) == 0 && n < 100 { // glyph data beyond 64 KB
		for g := 0; g < n; g++ {
			if len(gl[g]) > 12 && gl[g][0] != 0xFF && r.Intn(2) == 0 {
				gl[g] = bigGlyph(r)
			}
		}
	}
	long := r.Intn(2) == 0
	sum := 0
	for g := 0; g < n; g++ {
		sum += len(gl[g]) + 4
	}
	if sum > 120000 {
		long = true
	}
	var glyf, loca bytes.Buffer
	wl := func(o int) {
		if long {
			be32(&loca, o)
		} else {
			be16(&loca, o/2)
		}
	}
	for g := 0; g < n; g++ {
		wl(glyf.Len())
		glyf.Write(gl[g])
		if !long || r.Intn(3) > 0 {
			for glyf.Len()%[]int{2, 4}[r.Intn(2)] != 0 {
				glyf.WriteByte(0)
			}
		}
		if !long && glyf.Len()%2 == 1 {
			glyf.WriteByte(0)
		}
	}
	wl(glyf.Len())
	nhm := n
	if r.Intn(2) == 0 {
		nhm = 1 + r.Intn(n)
	}
	var hmtx bytes.Buffer
	fixed := r.Intn(upem + 1)
	grid := 1
	if r.Intn(6) == 0 { // advances that are multiples of 125 thousandths
		grid = upem / 8
	}
	for g := 0; g < n; g++ {
		if g < nhm {
			a := r.Intn(upem + upem/2)
			if r.Intn(6) == 0 {
				a = fixed
			}
			if r.Intn(12) == 0 {
				a = 0
			}
			a -= a % grid
			be16(&hmtx, a)
		}
		be16(&hmtx, r.Intn(100)-50)
	}
	// character map
	m := map[rune]int{}
	pick := func() int { return 1 + r.Intn(n-1) }
	if few != nil {
		pick = func() int { return few[1+r.Intn(len(few)-1)] }
	}
	for c := rune(0x20); c < 0x7f; c++ {
		if r.Intn(5) > 0 {
			m[c] = pick()
		}
	}
	if r.Intn(2) == 0 { // consecutive block
		st := rune(0x0E01)
		g0 := pick()
		for k := 0; k < 30 && g0+k < n; k++ {
			m[st+rune(k)] = g0 + k
		}
	}
	for k := 0; k < r.Intn(20); k++ {
		c := rune(0xA0 + r.Intn(0xD000))
		m[c] = pick()
	}
	if r.Intn(3) == 0 {
		m[0xFFFD] = pick()
	}
	if r.Intn(4) == 0 {
		m[0xFFFC] = pick()
		m[0xE000] = pick()
	}
	if _, ok := m[' ']; !ok {
		m[' '] = pick()
	}
	sup := map[rune]int{}
	if r.Intn(2) == 0 {
		for k := 0; k < 2+r.Intn(4); k++ {
			st := rune(0x10000 + r.Intn(0xFFFFF))
			g0 := pick()
			for j := 0; j < 1+r.Intn(6) && g0+j < n; j++ {
				if st+rune(j) > 0x10FFFF {
					break
				}
				sup[st+rune(j)] = g0 + j
			}
		}
	}
	c4 := buildCmap4(r, m)
	all := map[rune]int{}
	for k, v := range m {
		all[k] = v
	}
	for k, v := range sup {
		all[k] = v
	}
	type sub struct {
		pid, eid int
		data     []byte
	}
	var subs []sub
	if r.Intn(3) == 0 {
		subs = append(subs, sub{0, 3, c4})
	}
	if r.Intn(3) == 0 {
		var f0 bytes.Buffer
		be16(&f0, 0, 262, 0)
		for i := 0; i < 256; i++ {
			f0.WriteByte(0)
		}
		subs = append(subs, sub{1, 0, f0.Bytes()})
	}
	subs = append(subs, sub{3, 1, c4})
	if len(sup) > 0 {
		subs = append(subs, sub{3, 10, buildCmap12(all)})
	}
	var cmap bytes.Buffer
	be16(&cmap, 0, len(subs))
	o := 4 + 8*len(subs)
	var body bytes.Buffer // the subtables stand in any order, with or without gaps
	at := make([]int, len(subs))
	ord := make([]int, len(subs))
	for i := range ord {
		ord[i] = i
	}
	if r.Intn(3) == 0 {
		ord = r.Perm(len(subs))
	}
	for _, i := range ord {
		if k := r.Intn(40); k == 0 && subs[i].eid == 10 {
			body.Write(make([]byte, 70000))
		} else if k < 4 {
			body.Write(make([]byte, 4*r.Intn(9)))
		}
		at[i] = body.Len()
		body.Write(subs[i].data)
	}
	for i, s := range subs {
		be16(&cmap, s.pid, s.eid)
		be32(&cmap, o+at[i])
	}
	cmap.Write(body.Bytes())
	var rs []rune
	for k := range all {
		rs = append(rs, k)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })

	asc, desc := upem*(60+r.Intn(50))/100, -upem*(10+r.Intn(30))/100
	tasc, tdesc := upem*(60+r.Intn(50))/100, -upem*(10+r.Intn(30))/100
	tabs := map[string][]byte{}
	var head, hhea, maxp, os2, post, name bytes.Buffer
	be32(&head, 0x00010000, 0x00010000, 0, 0x5F0F3CF5)
	be16(&head, r.Intn(16), upem)
	be32(&head, 0, r.Intn(1<<30), 0, r.Intn(1<<30))
	be16(&head, -upem*r.Intn(40)/100, -upem*r.Intn(50)/100, upem+upem*r.Intn(90)/100, upem*(60+r.Intn(70))/100, r.Intn(2), 7, 2, b2i(long), 0)
	be32(&hhea, 0x00010000)
	be16(&hhea, asc, desc, r.Intn(90), upem*3/2, -50, -50, upem, 1, 0, 0, 0, 0, 0, 0, 0, nhm)
	be32(&maxp, 0x00010000)
	be16(&maxp, n, 50, 3, 60, 4, 2, 0, 0, 0, 0, 0, 20, 3, 6)
	ver := 1 + r.Intn(4)
	be16(&os2, ver, upem/2, 400, 5, []int{0, 0, 4, 8}[r.Intn(4)], 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0)
	os2.Write(make([]byte, 10))
	be32(&os2, 1, 0, 0, 0)
	os2.WriteString("VRIF")
	be16(&os2, []int{0x40, 0x20, 1, 0x21}[r.Intn(4)], 0x20, 0xFFFD, tasc, tdesc, 100, asc, -desc)
	be32(&os2, 1, 0)
	if ver >= 2 {
		be16(&os2, upem*(35+r.Intn(25))/100, upem*(55+r.Intn(25))/100, 0, 32, 2)
	}
	angle := 0 // 16.16
	if r.Intn(2) == 0 {
		angle = (r.Intn(45) - 30) << 16
	}
	be32(&post, 0x00030000, angle)
	be16(&post, -upem*(5+r.Intn(20))/100, upem*(2+r.Intn(8))/100)
	be32(&post, r.Intn(2), 0, 0, 0, 0)
	ps := "Verif" + string(rune('A'+r.Intn(26))) + string(rune('a'+r.Intn(26)))
	if r.Intn(3) == 0 {
		ps += "-" + itoa(r.Intn(1000))
	}
	if r.Intn(12) == 0 {
		ps += []string{" (b)", "[1]", "<x>", "a/b", "{%}"}[r.Intn(5)]
	}
	u := utf16.Encode([]rune(ps))
	var strs bytes.Buffer
	strs.WriteString(ps)
	for _, c := range u {
		be16(&strs, int(c))
	}
	recs := [][6]int{{1, 0, 0, 1, len(ps), 0}, {1, 0, 0, 6, len(ps), 0}, {3, 1, 0x409, 4, 2 * len(u), len(ps)}, {3, 1, 0x409, 6, 2 * len(u), len(ps)}}
	if r.Intn(3) == 0 {
		recs = recs[2:]
	}
	be16(&name, 0, len(recs), 6+12*len(recs))
	for _, rc := range recs {
		be16(&name, rc[:]...)
	}
	name.Write(strs.Bytes())
	tabs["head"], tabs["hhea"], tabs["maxp"], tabs["OS/2"], tabs["post"], tabs["name"] = head.Bytes(), hhea.Bytes(), maxp.Bytes(), os2.Bytes(), post.Bytes(), name.Bytes()
	tabs["hmtx"], tabs["cmap"], tabs["loca"] = hmtx.Bytes(), cmap.Bytes(), loca.Bytes()
	tabs["glyf"] = glyf.Bytes()
	if glyf.Len() == 0 {
		return genTTF(r)
	}
	for _, t := range []string{"cvt ", "fpgm", "prep"} {
		if r.Intn(2) == 0 {
			x := make([]byte, 1+r.Intn(37))
			if t == "cvt " {
				x = make([]byte, 2+2*r.Intn(20))
			}
			r.Read(x)
			tabs[t] = x
		}
	}
	if r.Intn(3) == 0 {
		x := make([]byte, 1+r.Intn(50))
		r.Read(x)
		tabs["GSUB"] = x
	}
	if r.Intn(2) == 0 {
		tabs["kern"] = genKern(r, n, upem, all)
	}
	desc2 := "synthetic upem=" + itoa(upem) + " glyphs=" + itoa(n) + " composites=" + itoa(comp) + " nhm=" + itoa(nhm) + " long=" + itoa(b2i(long)) + " sup=" + itoa(len(sup)) + " kern=" + itoa(b2i(tabs["kern"] != nil))
	return &genFont{Data: assembleTTF(r, tabs), Runes: rs, Desc: desc2}
}

func genKern(r *rand.Rand, n, upem int, m map[rune]int) []byte {
	var gs []int
	for _, g := range m {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	ns := 1 + r.Intn(2)
	var b bytes.Buffer
	be16(&b, 0, ns)
	used := map[[2]int]bool{}
	wide := -1 // a left glyph with very many partners
	if r.Intn(3) == 0 {
		wide = r.Intn(ns)
	}
	for s := 0; s < ns; s++ {
		ps := map[[2]int]int{}
		if s == wide {
			l := gs[r.Intn(len(gs))]
			if g, ok := m[' ']; ok && r.Intn(2) == 0 {
				l = g
			}
			for _, k := range r.Perm(len(gs)) {
				p := [2]int{l, gs[k]}
				if len(ps) < 400 && !used[p] {
					used[p] = true
					ps[p] = r.Intn(upem/2+1) - upem/4
				}
			}
		}
		for k := 0; k < 10+r.Intn(300); k++ {
			p := [2]int{gs[r.Intn(len(gs))], gs[r.Intn(len(gs))]}
			if used[p] {
				continue
			}
			used[p] = true
			v := r.Intn(upem/2+1) - upem/4
			ps[p] = v
		}
		var keys [][2]int
		for p := range ps {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i][0] != keys[j][0] {
				return keys[i][0] < keys[j][0]
			}
			return keys[i][1] < keys[j][1]
		})
		np := len(keys)
		sr, es := 1, 0
		for sr*2 <= np {
			sr *= 2
			es++
		}
		be16(&b, 0, 14+6*np, 1, np, sr*6, es, (np-sr)*6)
		for _, k := range keys {
			be16(&b, k[0], k[1], ps[k])
		}
	}
	return b.Bytes()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func glyphDepth(gl [][]byte, g, d int) int {
	x := gl[g]
	if d > 10 || len(x) < 10 || s16(x, 0) >= 0 {
		return d
	}
	max := d
	for _, c := range compRefs(x) {
		if k := glyphDepth(gl, c, d+1); k > max {
			max = k
		}
	}
	return max
}

func compRefs(d []byte) []int {
	var out []int
	p := 10
	for {
		fl := u16(d, p)
		out = append(out, u16(d, p+2))
		n := 2
		if fl&1 != 0 {
			n = 4
		}
		if fl&8 != 0 {
			n += 2
		} else if fl&0x40 != 0 {
			n += 4
		} else if fl&0x80 != 0 {
			n += 8
		}
		p += 4 + n
		if fl&0x20 == 0 {
			return out
		}
	}
}

func ttfSum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

func assembleTTF(r *rand.Rand, tabs map[string][]byte) []byte {
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	order := append([]string(nil), tags...)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	pos := map[string]int{}
	o := 12 + 16*len(tags)
	var body bytes.Buffer
	for i, t := range order {
		pos[t] = o + body.Len()
		body.Write(tabs[t])
		if i < len(order)-1 || r.Intn(2) == 0 {
			for (o+body.Len())%4 != 0 {
				body.WriteByte(0)
			}
		}
	}
	var b bytes.Buffer
	be32(&b, 0x00010000)
	sr, es := 1, 0
	for sr*2 <= len(tags) {
		sr *= 2
		es++
	}
	be16(&b, len(tags), sr*16, es, (len(tags)-sr)*16)
	for _, t := range tags {
		b.WriteString(t)
		be32(&b, int(ttfSum(tabs[t])), pos[t], len(tabs[t]))
	}
	b.Write(body.Bytes())
	return b.Bytes()
}
