package main

// The monitor: compares a saved document with what the model says must be in it.

import (
	"bytes"
	"fmt"
	"math"
	"strings"
)

type Finding struct {
	Aspect string
	Msg    string
}

type Obs map[string]int

func (o Obs) add(k string, n int) {
	if o != nil {
		o[k] += n
	}
}

const tol = 0.0051

func near(a, b float64) bool { return math.Abs(a-b) <= tol+1e-9*math.Abs(b) }

func baseName(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '/' {
			b.WriteByte('+')
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func sameBase(got Name, fname string) bool {
	g := string(got)
	if len(g) > 7 && g[6] == '+' && strings.Trim(g[:6], "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" && g[7:] == baseName(fname) {
		return true
	}
	return g == baseName(fname)
}

type savedView struct {
	Doc    *Doc
	Pages  []*Page
	Events [][]Event // inserted events per page
	Enc    *encInfo
	ImgIDs map[*mItem]int
}

// Verify checks the bytes against the model. The view is nil when the document is unreadable.
func (m *Model) Verify(out []byte, obs Obs) (fs []Finding, view *savedView) {
	add := func(a, f string, v ...interface{}) { fs = append(fs, Finding{a, fmt.Sprintf(f, v...)}) }
	d, err := ParseDoc(out, false)
	if err != nil {
		add("structure", "saved file: %v", err)
		return fs, nil
	}
	d.tmpl = m.E.Tdoc
	if err := d.Check(); err != nil {
		add("structure", "saved file: %v", err)
	}
	obs.add("objects", len(d.off))
	view = &savedView{Doc: d, ImgIDs: map[*mItem]int{}}
	if m.Prot {
		e, err := d.EncInfo()
		if err != nil || e == nil {
			add("protect", "no usable encryption dictionary: %v", err)
			return fs, nil
		}
		view.Enc = e
		key := e.authUser([]byte(m.UP))
		if key == nil {
			add("protect", "user password %q is refused", m.UP)
			return fs, nil
		}
		if err := d.Decrypt(e, key); err != nil {
			add("protect", "decrypting: %v", err)
			return fs, nil
		}
		obs.add("decrypted documents", 1)
	} else if d.Trailer["Encrypt"] != nil {
		add("protect", "document is encrypted though no protection was set")
		return fs, nil
	}
	pages, err := d.Pages()
	if err != nil {
		add("structure", "page tree: %v", err)
		return fs, nil
	}
	view.Pages = pages
	view.Events = make([][]Event, len(pages))
	if len(pages) != len(m.Pages) {
		add("pages", "saved document has %d pages, expected %d", len(pages), len(m.Pages))
		return fs, view
	}
	obs.add("pages", len(pages))
	for i, pg := range pages {
		m.verifyPage(i, pg, d, view, obs, add)
	}
	// catalog
	ca, e1 := m.E.Tdoc.Dict(m.E.Tdoc.Trailer["Root"])
	cb, e2 := d.Dict(d.Trailer["Root"])
	if e1 == nil && e2 == nil {
		c := newEq(m.E.Tdoc, d, m.E.Tpages, pages)
		if err := c.eqDict(ca, cb, "catalog", map[Name]bool{"Pages": true}); err != nil {
			add("template", "%v", err)
		}
		if err := c.eq(m.E.Tdoc.Trailer["Info"], d.Trailer["Info"], "document information"); err != nil {
			add("template", "%v", err)
		}
		obs.add("objects compared with template", c.n)
	} else if e2 != nil {
		add("template", "catalog: %v", e2)
	}
	return fs, view
}

func (m *Model) verifyPage(i int, pg *Page, d *Doc, view *savedView, obs Obs, add func(string, string, ...interface{})) {
	where := fmt.Sprintf("page %d", i+1)
	tp := m.E.Tpages[m.Pages[i]]
	c := newEq(m.E.Tdoc, d, m.E.Tpages, view.Pages)
	if err := samePageDict(c, tp, pg, where); err != nil {
		add("template", "%v", err)
	}
	// resources
	ra, e1 := m.E.Tdoc.Dict(tp.Inh["Resources"])
	rb, e2 := d.Dict(pg.Inh["Resources"])
	if e2 != nil {
		add("template", "%s resources: %v", where, e2)
		return
	}
	if e1 == nil {
		for k, v := range ra {
			if k == "Font" || k == "XObject" {
				da, err := m.E.Tdoc.Dict(v)
				if err != nil {
					continue
				}
				db, err := d.Dict(rb[k])
				if err != nil {
					add("template", "%s resources /%s: %v", where, k, err)
					continue
				}
				for n, x := range da {
					y, ok := db[n]
					if !ok {
						add("template", "%s: resource /%s /%s of the template is gone", where, k, n)
						continue
					}
					if err := c.eq(x, y, where+" /"+string(k)+" /"+string(n)); err != nil {
						add("template", "%v", err)
					}
				}
				continue
			}
			w, ok := rb[k]
			if !ok {
				add("template", "%s: resource category /%s is gone", where, k)
				continue
			}
			if err := c.eq(v, w, where+" resources /"+string(k)); err != nil {
				add("template", "%v", err)
			}
		}
		for k := range rb {
			if _, ok := ra[k]; !ok && k != "Font" && k != "XObject" && k != "ProcSet" {
				add("template", "%s: unexpected resource category /%s", where, k)
			}
		}
	}
	obs.add("objects compared with template", c.n)
	// contents
	tops, err := m.E.Tdoc.pageOps(tp)
	if err != nil {
		return // oracle cannot read this template page
	}
	gops, err := d.pageOps(pg)
	if err != nil {
		add("template", "%s content: %v", where, err)
		add("text", "%s content: %v", where, err)
		add("image", "%s content: %v", where, err)
		return
	}
	ts := opStrings(tops)
	split, err := splitInserted(ts, opStrings(gops))
	if err != nil {
		add("template", "%s: %v", where, err)
		return
	}
	obs.add("template operators", len(ts))
	all, depth, err := Interpret(gops)
	if err != nil {
		if _, _, te := Interpret(tops); te != nil {
			return // template itself is broken here
		}
		add("template", "%s content: %v", where, err)
		add("text", "%s content: %v", where, err)
		return
	}
	if depth != 0 {
		if _, td, te := Interpret(tops); te == nil && td == 0 {
			add("template", "%s: graphics state stack left at depth %d", where, depth)
		}
	}
	var evs []Event
	for _, e := range all {
		if e.Idx >= split {
			evs = append(evs, e)
		}
	}
	view.Events[i] = evs
	m.matchPage(i, pg, d, evs, view, obs, add)
}

func (m *Model) matchPage(i int, pg *Page, d *Doc, evs []Event, view *savedView, obs Obs, add func(string, string, ...interface{})) {
	where := fmt.Sprintf("page %d", i+1)
	ph, phok := m.tmplHeight(m.Pages[i])
	var items []*mItem
	for _, it := range m.Items {
		if it.Page == i+1 {
			items = append(items, it)
		}
	}
	var order, gotOrder string
	var texts, imgs []*mItem
	for _, it := range items {
		if it.Kind == "text" && it.Text != "" {
			texts = append(texts, it)
			order += "T"
		} else if it.Kind == "image" {
			imgs = append(imgs, it)
			order += "I"
		}
	}
	var gt, gi, gd []Event
	for _, e := range evs {
		switch e.Kind {
		case "text":
			if len(e.Glyphs) > 0 {
				gt = append(gt, e)
				gotOrder += "T"
			}
		case "image":
			gi = append(gi, e)
			gotOrder += "I"
		default:
			gd = append(gd, e)
		}
	}
	fonts, err := d.res(pg, "Font")
	if err != nil {
		add("font", "%s fonts: %v", where, err)
		return
	}
	xobjs, err := d.res(pg, "XObject")
	if err != nil {
		add("image", "%s XObjects: %v", where, err)
		return
	}
	if len(gt) != len(texts) {
		add("text", "%s shows %d inserted texts, expected %d", where, len(gt), len(texts))
	} else {
		for k, it := range texts {
			m.matchText(where, it, gt[k], fonts, d, ph, phok, obs, add)
		}
	}
	if len(gi) != len(imgs) {
		add("image", "%s shows %d inserted images, expected %d", where, len(gi), len(imgs))
	} else {
		for k, it := range imgs {
			e := gi[k]
			obs.add("images matched", 1)
			yw := ph - (it.Y + it.H)
			okY := phok
			if !near(e.M[0], it.W) || !near(e.M[3], it.H) || !near(e.M[4], it.X) || (okY && !near(e.M[5], yw)) || e.M[1] != 0 || e.M[2] != 0 {
				add("image", "%s image %d (call %d): matrix %v, expected [%v 0 0 %v %v %v]", where, k, it.Call, e.M, it.W, it.H, it.X, yw)
			}
			if e.Clip || e.Other != "" {
				add("image", "%s image %d (call %d): drawn under leftover graphics state (clip %v, %q)", where, k, it.Call, e.Clip, e.Other)
			}
			v, ok := xobjs[e.XName]
			if !ok {
				add("image", "%s image %d: no XObject named /%s", where, k, e.XName)
				continue
			}
			if ref, ok := v.(Ref); ok {
				view.ImgIDs[it] = ref.N
			}
			if err := d.CheckImage(v, it.Img); err != nil {
				add("image", "%s image %d (call %d, %s): %v", where, k, it.Call, it.Img.Desc, err)
			}
		}
	}
	if order != gotOrder && len(order) == len(gotOrder) {
		add("text", "%s: order of inserted items is %s, expected %s", where, gotOrder, order)
		add("image", "%s: order of inserted items is %s, expected %s", where, gotOrder, order)
	}
	m.matchDecor(where, items, gd, ph, phok, obs, add)
}

func colNear(c Color, w [3]int) bool {
	if c.Space != "rgb" {
		return false
	}
	for k := 0; k < 3; k++ {
		if math.Abs(c.C[k]-float64(w[k])/255) > tol {
			return false
		}
	}
	return true
}

func (m *Model) matchText(where string, it *mItem, e Event, fonts Dict, d *Doc, ph float64, phok bool, obs Obs, add func(string, string, ...interface{})) {
	where = fmt.Sprintf("%s call %d %q", where, it.Call, clip(it.Text))
	obs.add("texts matched", 1)
	runes := []rune(it.Text)
	f := it.Font
	hasCB := f.kern >= 0 || f.rise >= 0
	asp := "text"
	if len(e.Glyphs) != len(runes) {
		add(asp, "%s: shows %d glyphs, expected %d", where, len(e.Glyphs), len(runes))
		add("font", "%s: shows %d glyphs, expected %d", where, len(e.Glyphs), len(runes))
		return
	}
	fobj, ok := fonts[e.Font]
	if !ok {
		add("text", "%s: no font resource /%s", where, e.Font)
		add("font", "%s: no font resource /%s", where, e.Font)
		return
	}
	t0, err := d.type0memo(fobj)
	if err != nil {
		add("font", "%s: font /%s: %v", where, e.Font, err)
		return
	}
	if !sameBase(t0.Base, it.FName) {
		add("text", "%s: set in font %q, expected %q", where, t0.Base, it.FName)
		add("font", "%s: set in font %q, expected %q", where, t0.Base, it.FName)
		return
	}
	if e.Size != float64(it.Size) {
		add("text", "%s: size %v, expected %d", where, e.Size, it.Size)
	}
	if e.Raw != "" {
		add("text", "%s: %s", where, e.Raw)
	}
	adj := f.adjusts(it.Text)
	tw := 0.0
	for k, g := range e.Glyphs {
		wantG, _ := f.src.T.Glyph(runes[k])
		if g.Code != wantG {
			add("font", "%s: character %d (%q) is glyph %d, the font maps it to %d", where, k, runes[k], g.Code, wantG)
			add("text", "%s: character %d (%q) is glyph %d, the font maps it to %d", where, k, runes[k], g.Code, wantG)
			return
		}
		obs.add("glyphs checked", 1)
		tw += t0.width(g.Code) - g.Adjust
		m.matchGlyph(where, f, t0, g.Code, runes[k], obs, add)
		if hasCB {
			wr := 0.0
			if f.rise >= 0 {
				var lr rune
				if k > 0 {
					lr = runes[k-1]
				}
				wr = float64(riseFn(f.rise)(lr, runes[k], it.Size, it.Text, k))
			}
			if math.Abs(g.Adjust+float64(adj[k])) > 1e-9 {
				add("callback", "%s: kerning before character %d is %v, expected %d", where, k, g.Adjust, -adj[k])
			}
			if !near(g.Rise, wr) {
				add("callback", "%s: text rise of character %d is %v, expected %v", where, k, g.Rise, wr)
			}
			obs.add("callback values checked", 1)
		} else {
			if g.Adjust != 0 || g.Rise != 0 {
				add("text", "%s: character %d is shifted (kern %v, rise %v) though no callback is set", where, k, g.Adjust, g.Rise)
				add("callback", "%s: character %d is shifted (kern %v, rise %v) though no callback is set", where, k, g.Adjust, g.Rise)
			}
		}
	}
	tw = tw * float64(it.Size) / 1000
	wx := it.X
	if it.Align&aRight != 0 {
		wx = it.X + it.W - tw
	} else if it.Align&aCenter != 0 {
		wx = it.X + it.W/2 - tw/2
	}
	if !near(e.X, wx) {
		add("text", "%s: drawn at x=%v, expected %v (x=%v w=%v align=%d width %v)", where, e.X, wx, it.X, it.W, it.Align, tw)
		add("align", "%s: drawn at x=%v, expected %v (x=%v w=%v align=%d width %v)", where, e.X, wx, it.X, it.W, it.Align, tw)
	}
	T := f.src.T
	asc, desc := T.typo(T.TypoAsc, float64(it.Size)), T.typo(T.TypoDesc, float64(it.Size))
	var wy float64
	switch {
	case it.Align&aBottom != 0:
		wy = ph - it.Y - it.H - desc
	case it.Align&aMiddle != 0:
		wy = ph - it.Y - it.H/2 - (desc+asc)/2
	default:
		wy = ph - it.Y - asc
	}
	if phok {
		obs.add("positions checked", 1)
		if !near(e.Y, wy) {
			add("text", "%s: baseline at y=%v, expected %v (y=%v h=%v align=%d page height %v)", where, e.Y, wy, it.Y, it.H, it.Align, ph)
		}
	}
	if !e.Flat || e.Clip || e.Other != "" || e.TextSt != "Tc0 Tw0 Tz100 Tr0" {
		add("text", "%s: drawn under leftover graphics state (flat %v clip %v %q %q)", where, e.Flat, e.Clip, e.Other, e.TextSt)
	}
	if !colNear(e.Fill, it.Col) {
		add("text", "%s: fill colour %v, expected %v/255", where, e.Fill, it.Col)
	}
}

func (m *Model) matchGlyph(where string, f *mFont, t0 *Type0, g int, r rune, obs Obs, add func(string, string, ...interface{})) {
	T := f.src.T
	key := [2]int{g, int(r)}
	if t0.okGlyph == nil {
		t0.okGlyph = map[[2]int]bool{}
	}
	if t0.okGlyph[key] {
		return
	}
	t0.okGlyph[key] = true
	if !t0.okFont[f.src] {
		if t0.okFont == nil {
			t0.okFont = map[*fontSrc]bool{}
		}
		t0.okFont[f.src] = true
		matchFont(where, T, t0, add)
		obs.add("font programs and descriptors compared", 1)
	}
	w := t0.width(g)
	if t0.TTF.Adv(g) != T.Adv(g) {
		add("font", "%s: glyph %d advances %d in the embedded font, %d in the font", where, g, t0.TTF.Adv(g), T.Adv(g))
	}
	if a, b := t0.TTF.LSB(g), T.LSB(g); a != b {
		add("font", "%s: glyph %d has left side bearing %d in the embedded font, %d in the font", where, g, a, b)
	}
	if math.Abs(w-float64(T.Adv(g))*1000/float64(T.Upem)) >= 1 {
		add("font", "%s: width of glyph %d is %v, the font says %d/%d", where, g, w, T.Adv(g), T.Upem)
	}
	sa, e1 := T.Sig(g, 0)
	sb, e2 := t0.TTF.Sig(g, 0)
	if e1 == nil && (e2 != nil || sa != sb) {
		add("font", "%s: outline of glyph %d (%q) in the embedded font differs from the font's own (%v)", where, g, r, e2)
	}
	obs.add("outlines compared", 1)
	u := t0.ToUni[g]
	ur := []rune(u)
	if len(ur) != 1 || !f.used[g][ur[0]] {
		add("font", "%s: ToUnicode sends glyph %d to %q, which is no character used for it", where, g, u)
	}
}

// matchFont compares what an embedded font carries besides its glyphs.
func matchFont(where string, T *TTF, t0 *Type0, add func(string, string, ...interface{})) {
	if err := t0.TTF.checkDir(); err != nil {
		add("font", "%s: embedded font: %v", where, err)
	}
	if t0.TTF.Upem != T.Upem || t0.TTF.NumGlyphs != T.NumGlyphs {
		add("font", "%s: embedded font has %d units and %d glyphs, the font %d and %d", where, t0.TTF.Upem, t0.TTF.NumGlyphs, T.Upem, T.NumGlyphs)
	}
	for _, tag := range []string{"cvt ", "fpgm", "prep", "head", "hhea", "maxp"} {
		a, b := T.tab[tag], t0.TTF.tab[tag]
		if tag == "head" && len(a) >= 12 && len(b) >= 12 { // checksum of the whole file
			a = append(append([]byte(nil), a[:8]...), a[12:]...)
			b = append(append([]byte(nil), b[:8]...), b[12:]...)
		}
		if !bytes.Equal(a, b) {
			add("font", "%s: table %q of the embedded font differs from the font's own", where, tag)
		}
	}
	sc := func(v int) float64 { return float64(v) * 1000 / float64(T.Upem) }
	for i, v := range T.headFields {
		if math.Abs(t0.BBox[i]-sc(v)) > 1 {
			add("font", "%s: FontBBox %v, the font's box is %v of %d units", where, t0.BBox, T.headFields, T.Upem)
			break
		}
	}
	any := func(k Name, vs ...int) {
		for _, v := range vs {
			if math.Abs(t0.Desc[k]-sc(v)) <= 1 {
				return
			}
		}
		add("font", "%s: font descriptor /%s is %v, none of the font's own %v of %d units", where, k, t0.Desc[k], vs, T.Upem)
	}
	any("Ascent", T.Ascender, T.TypoAsc, T.WinAsc)
	if T.OS2Ver >= 2 {
		any("CapHeight", T.CapH)
	} else {
		any("CapHeight", T.Ascender, T.TypoAsc, T.WinAsc)
	}
	if math.Abs(t0.Desc["ItalicAngle"]-float64(T.Italic)) > 1 {
		add("font", "%s: font descriptor /ItalicAngle is %v, the font's %d", where, t0.Desc["ItalicAngle"], T.Italic)
	}
	any("Descent", T.Descender, T.TypoDesc, -T.WinDesc, T.WinDesc)
	if fl := int(t0.Desc["Flags"]) & 36; fl != 4 && fl != 32 {
		add("font", "%s: font descriptor /Flags %v: exactly one of symbolic and nonsymbolic must be set", where, t0.Desc["Flags"])
	}
}

func (m *Model) matchDecor(where string, items []*mItem, got []Event, ph float64, phok bool, obs Obs, add func(string, string, ...interface{})) {
	p := 0
	near2 := func(a, b float64) bool { return math.Abs(a-b) <= 0.06 }
	for _, it := range items {
		if it.Kind != "text" {
			continue
		}
		nl, nr := 0, 0
		if it.Border {
			nl = 4
		}
		if it.Under {
			nr = 1
		}
		n := nl + nr
		if p+n > len(got) {
			add("decor", "%s call %d: %d border/underline strokes found, expected at least %d", where, it.Call, len(got), p+n)
			return
		}
		okY := phok
		used := [4]bool{}
		for _, e := range got[p : p+n] {
			switch {
			case e.Kind == "line" && it.Border:
				top, bot := ph-it.Y, ph-it.Y-it.H
				l, r := it.X, it.X+it.W
				edges := [4][4]float64{{l, top, r, top}, {l, top, l, bot}, {r, top, r, bot}, {l, bot, r, bot}}
				hit := false
				for k, ed := range edges {
					if used[k] {
						continue
					}
					a, b := e.Pts[0], e.Pts[1]
					same := func(a, b [2]float64) bool {
						if !okY {
							return near2(a[0], ed[0]) && near2(b[0], ed[2]) && math.Abs(math.Abs(a[1]-b[1])-math.Abs(ed[1]-ed[3])) <= 0.06
						}
						return near2(a[0], ed[0]) && near2(a[1], ed[1]) && near2(b[0], ed[2]) && near2(b[1], ed[3])
					}
					if same(a, b) || same(b, a) {
						used[k] = true
						hit = true
						break
					}
				}
				if !hit {
					add("decor", "%s call %d: border stroke %v is no edge of the box x=%v y=%v w=%v h=%v", where, it.Call, e.Pts, it.X, it.Y, it.W, it.H)
				}
				if math.Abs(e.LW-0.1) > 0.001 || !strings.ContainsAny(e.Dash, "123456789") {
					add("decor", "%s call %d: border drawn %v wide with dash %q, expected 0.1 wide and dotted", where, it.Call, e.LW, e.Dash)
				}
				obs.add("border edges matched", 1)
			case e.Kind == "rect" && it.Under:
				T := it.Font.src.T
				fs := float64(it.Size)
				y0 := ph - (it.Y - float64(T.UlPos)/float64(T.Upem)*fs) - 0.7*fs
				th := float64(T.UlThick) / float64(T.Upem) * fs
				a, b := e.Pts[0], e.Pts[1]
				x1, x2 := math.Min(a[0], b[0]), math.Max(a[0], b[0])
				ex1, ex2 := math.Min(it.X, it.X+it.W), math.Max(it.X, it.X+it.W)
				if math.Abs(x1-ex1) > 0.011 || math.Abs(x2-ex2) > 0.011 {
					add("decor", "%s call %d: underline spans x %v..%v, expected %v..%v", where, it.Call, x1, x2, ex1, ex2)
				}
				yt, yb := math.Max(a[1], b[1]), math.Min(a[1], b[1])
				et, eb := math.Max(y0, y0-th), math.Min(y0, y0-th)
				if okY && (math.Abs(yt-et) > 0.011 || math.Abs(yb-eb) > 0.011) {
					add("decor", "%s call %d: underline spans y %v..%v, expected %v..%v", where, it.Call, yb, yt, eb, et)
				}
				if !colNear(e.Fill, it.Col) || !strings.HasSuffix(e.Raw, " f") {
					add("decor", "%s call %d: underline painted %q in %v, expected filled in %v", where, it.Call, e.Raw, e.Fill, it.Col)
				}
				obs.add("underlines matched", 1)
			default:
				add("decor", "%s call %d: unexpected %s %q", where, it.Call, e.Kind, e.Raw)
				return
			}
		}
		p += n
	}
	if p != len(got) {
		add("decor", "%s: %d unexpected drawing operations after the inserted items, first %s %q %v", where, len(got)-p, got[p].Kind, got[p].Raw, got[p].Pts)
	}
	obs.add("pages checked for stray drawing", 1)
}

func (d *Doc) type0memo(v interface{}) (*Type0, error) {
	r, ok := v.(Ref)
	if !ok {
		return d.Type0(v)
	}
	if d.t0 == nil {
		d.t0 = map[int]t0res{}
	}
	if t, ok := d.t0[r.N]; ok {
		return t.t, t.err
	}
	t, err := d.Type0(v)
	d.t0[r.N] = t0res{t, err}
	return t, err
}

type t0res struct {
	t   *Type0
	err error
}

// pick returns the first finding in one of the aspects ("" if none).
func pick(fs []Finding, aspects ...string) string {
	for _, f := range fs {
		for _, a := range aspects {
			if f.Aspect == a || a == "*" {
				return f.Aspect + ": " + f.Msg
			}
		}
	}
	return ""
}
