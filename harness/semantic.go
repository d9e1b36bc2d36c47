package main

// Comparison of objects and documents independent of object numbers.

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
)

type eqCtx struct {
	A, B   *Doc
	pgA    map[int]int // page object id -> page index
	pgB    map[int]int
	strict bool // page references must have equal indices
	seen   map[[2]int]bool
	n      int
}

func newEq(a, b *Doc, pa, pb []*Page) *eqCtx {
	c := &eqCtx{A: a, B: b, pgA: map[int]int{}, pgB: map[int]int{}, seen: map[[2]int]bool{}}
	for i, p := range pa {
		c.pgA[p.ID] = i
	}
	for i, p := range pb {
		c.pgB[p.ID] = i
	}
	return c
}

func isPageNode(v interface{}) bool {
	d, ok := v.(Dict)
	return ok && (d["Type"] == Name("Page") || d["Type"] == Name("Pages"))
}

func (c *eqCtx) eq(a, b interface{}, path string) error {
	c.n++
	if len(path) > 400 {
		path = "..." + path[len(path)-300:]
	}
	ra, aok := a.(Ref)
	rb, bok := b.(Ref)
	if aok && bok {
		k := [2]int{ra.N, rb.N}
		if c.seen[k] {
			return nil
		}
		c.seen[k] = true
	}
	va, err := c.A.Resolve(a)
	if err != nil {
		return fmt.Errorf("%s (original): %w", path, err)
	}
	vb, err := c.B.Resolve(b)
	if err != nil {
		return fmt.Errorf("%s: %w", path, err)
	}
	if aok && isPageNode(va) {
		if c.strict && bok {
			ia, oka := c.pgA[ra.N]
			ib, okb := c.pgB[rb.N]
			if oka != okb || ia != ib {
				return fmt.Errorf("%s: refers to page index %d, expected %d", path, ib, ia)
			}
		}
		if vb == nil || isPageNode(vb) {
			return nil
		}
		return fmt.Errorf("%s: expected a page, got %T", path, vb)
	}
	if na, ok := numOf(va); ok {
		nb, ok := numOf(vb)
		if !ok || math.Abs(na-nb) > 1e-9*math.Max(1, math.Abs(na)) {
			return fmt.Errorf("%s: %v became %v", path, canonSimple(va), canonSimple(vb))
		}
		return nil
	}
	bad := func() error { return fmt.Errorf("%s: %s became %s", path, brief(va), brief(vb)) }
	switch x := va.(type) {
	case nil:
		if vb != nil {
			return bad()
		}
	case bool:
		if vb != x {
			return bad()
		}
	case Name:
		if vb != x {
			return bad()
		}
	case Str:
		y, ok := vb.(Str)
		if !ok || !bytes.Equal(x, y) {
			return bad()
		}
	case Arr:
		y, ok := vb.(Arr)
		if !ok || len(x) != len(y) {
			return bad()
		}
		for i := range x {
			if err := c.eq(x[i], y[i], path+"["+itoa(i)+"]"); err != nil {
				return err
			}
		}
	case Dict:
		y, ok := vb.(Dict)
		if !ok {
			return bad()
		}
		return c.eqDict(x, y, path, nil)
	case *Stream:
		y, ok := vb.(*Stream)
		if !ok {
			return bad()
		}
		skip := map[Name]bool{"Length": true}
		if !bytes.Equal(x.Raw, y.Raw) {
			da, ea := c.A.Decode(x)
			db, eb := c.B.Decode(y)
			if ea != nil || eb != nil || !bytes.Equal(da, db) {
				return fmt.Errorf("%s: stream data changed (%d -> %d bytes)", path, len(x.Raw), len(y.Raw))
			}
			skip["Filter"], skip["DecodeParms"] = true, true
		}
		return c.eqDict(x.D, y.D, path, skip)
	default:
		return fmt.Errorf("%s: unknown %T", path, va)
	}
	return nil
}

func (c *eqCtx) eqDict(x, y Dict, path string, skip map[Name]bool) error {
	for k, v := range x {
		if skip[k] || v == nil {
			continue
		}
		w, ok := y[k]
		if !ok {
			if rv, err := c.A.Resolve(v); err == nil && rv == nil {
				continue
			}
			return fmt.Errorf("%s: entry /%s is gone", path, k)
		}
		if err := c.eq(v, w, path+"/"+string(k)); err != nil {
			return err
		}
	}
	for k, v := range y {
		if _, ok := x[k]; !ok && !skip[k] && v != nil {
			return fmt.Errorf("%s: unexpected new entry /%s", path, k)
		}
	}
	return nil
}

func brief(v interface{}) string {
	if s, ok := v.(*Stream); ok {
		return fmt.Sprintf("stream of %d bytes", len(s.Raw))
	}
	return clip(canonSimple(v))
}

// ---- embedded fonts

type Type0 struct {
	Base    Name
	W       map[int]float64
	DW      float64
	TTF     *TTF
	ToUni   map[int]string
	Prog    []byte
	okGlyph map[[2]int]bool
	Desc    map[Name]float64
	BBox    [4]float64
	okFont  map[*fontSrc]bool
}

func (d *Doc) Type0(v interface{}) (*Type0, error) {
	fd, err := d.Dict(v)
	if err != nil {
		return nil, err
	}
	if fd == nil || fd["Type"] != Name("Font") || fd["Subtype"] != Name("Type0") || fd["Encoding"] != Name("Identity-H") {
		return nil, fmt.Errorf("not a Type0 Identity-H font: %s", brief(fd))
	}
	t := &Type0{W: map[int]float64{}, DW: 1000, ToUni: map[int]string{}}
	t.Base, _ = fd["BaseFont"].(Name)
	dv, err := d.Resolve(fd["DescendantFonts"])
	if err != nil {
		return nil, err
	}
	da, ok := dv.(Arr)
	if !ok || len(da) != 1 {
		return nil, fmt.Errorf("DescendantFonts %v", dv)
	}
	cf, err := d.Dict(da[0])
	if err != nil {
		return nil, err
	}
	if cf == nil || cf["Type"] != Name("Font") || cf["Subtype"] != Name("CIDFontType2") {
		return nil, fmt.Errorf("descendant font is %s", brief(cf))
	}
	if cf["BaseFont"] != t.Base {
		return nil, fmt.Errorf("descendant BaseFont %v differs from %v", cf["BaseFont"], t.Base)
	}
	si, err := d.Dict(cf["CIDSystemInfo"])
	if err != nil || si == nil {
		return nil, fmt.Errorf("CIDSystemInfo missing")
	}
	ro, _ := si["Registry"].(Str)
	oo, _ := si["Ordering"].(Str)
	if string(ro) != "Adobe" || string(oo) != "Identity" {
		return nil, fmt.Errorf("CIDSystemInfo is %q-%q", ro, oo)
	}
	if dw, ok := numOf(cf["DW"]); ok {
		t.DW = dw
	}
	if m := cf["CIDToGIDMap"]; m != nil && m != Name("Identity") {
		return nil, fmt.Errorf("CIDToGIDMap is not Identity")
	}
	wv, err := d.Resolve(cf["W"])
	if err != nil {
		return nil, err
	}
	wa, _ := wv.(Arr)
	for i := 0; i < len(wa); {
		c, ok := wa[i].(int64)
		if !ok || i+1 >= len(wa) {
			return nil, fmt.Errorf("malformed /W at %d", i)
		}
		if l, ok := wa[i+1].(Arr); ok {
			for k, e := range l {
				f, ok := numOf(e)
				if !ok {
					return nil, fmt.Errorf("malformed /W")
				}
				if old, dup := t.W[int(c)+k]; dup && old != f {
					return nil, fmt.Errorf("/W gives code %d two widths", int(c)+k)
				}
				t.W[int(c)+k] = f
			}
			i += 2
			continue
		}
		if i+2 >= len(wa) {
			return nil, fmt.Errorf("malformed /W at %d", i)
		}
		c2, ok := wa[i+1].(int64)
		f, ok2 := numOf(wa[i+2])
		if !ok || !ok2 || c2 < c || c2 > 65535 {
			return nil, fmt.Errorf("malformed /W range")
		}
		for k := c; k <= c2; k++ {
			t.W[int(k)] = f
		}
		i += 3
	}
	de, err := d.Dict(cf["FontDescriptor"])
	if err != nil || de == nil {
		return nil, fmt.Errorf("FontDescriptor missing (%v)", err)
	}
	if de["FontName"] != t.Base {
		return nil, fmt.Errorf("FontName %v differs from BaseFont %v", de["FontName"], t.Base)
	}
	if de["Type"] != Name("FontDescriptor") {
		return nil, fmt.Errorf("FontDescriptor has type %v", de["Type"])
	}
	t.Desc = map[Name]float64{}
	for _, k := range []Name{"Ascent", "Descent", "CapHeight", "Flags", "ItalicAngle", "StemV"} {
		f, ok := numOf(de[k])
		if !ok {
			return nil, fmt.Errorf("FontDescriptor /%s is %s", k, brief(de[k]))
		}
		t.Desc[k] = f
	}
	bb, err := d.Resolve(de["FontBBox"])
	if err != nil {
		return nil, err
	}
	ba, ok := bb.(Arr)
	if !ok || len(ba) != 4 {
		return nil, fmt.Errorf("FontBBox is %s", brief(bb))
	}
	for i := range ba {
		f, ok := numOf(ba[i])
		if !ok {
			return nil, fmt.Errorf("FontBBox is %s", brief(bb))
		}
		t.BBox[i] = f
	}
	fv, err := d.Resolve(de["FontFile2"])
	if err != nil {
		return nil, err
	}
	fs, ok := fv.(*Stream)
	if !ok {
		return nil, fmt.Errorf("FontFile2 is %T", fv)
	}
	t.Prog, err = d.Decode(fs)
	if err != nil {
		return nil, fmt.Errorf("FontFile2: %w", err)
	}
	if l1, ok := fs.D["Length1"].(int64); !ok || int(l1) != len(t.Prog) {
		return nil, fmt.Errorf("FontFile2 /Length1 %v, program has %d bytes", fs.D["Length1"], len(t.Prog))
	}
	t.TTF, err = ParseTTF(t.Prog, false)
	if err != nil {
		return nil, fmt.Errorf("embedded font program: %w", err)
	}
	uv, err := d.Resolve(fd["ToUnicode"])
	if err != nil {
		return nil, err
	}
	us, ok := uv.(*Stream)
	if !ok {
		return nil, fmt.Errorf("ToUnicode is %T", uv)
	}
	ub, err := d.Decode(us)
	if err != nil {
		return nil, fmt.Errorf("ToUnicode: %w", err)
	}
	if err := t.parseToUnicode(string(ub)); err != nil {
		return nil, fmt.Errorf("ToUnicode: %w", err)
	}
	return t, nil
}

var reBlock = regexp.MustCompile(`(?s)(\d+)\s+begin(bfrange|bfchar)(.*?)end(bfrange|bfchar)`)
var reHex = regexp.MustCompile(`<\s*([0-9A-Fa-f\s]*)>`)

func hexUnits(s string) ([]uint16, error) {
	s = strings.Join(strings.Fields(s), "")
	if len(s)%4 != 0 || len(s) == 0 {
		return nil, fmt.Errorf("bad hex %q", s)
	}
	var out []uint16
	for i := 0; i < len(s); i += 4 {
		v, err := strconv.ParseUint(s[i:i+4], 16, 16)
		if err != nil {
			return nil, err
		}
		out = append(out, uint16(v))
	}
	return out, nil
}

func (t *Type0) parseToUnicode(s string) error {
	if !strings.Contains(s, "begincmap") || !strings.Contains(s, "endcmap") || !strings.Contains(s, "begincodespacerange") {
		return fmt.Errorf("not a CMap")
	}
	for _, m := range reBlock.FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(m[1])
		hs := reHex.FindAllStringSubmatch(m[3], -1)
		per := 3
		if m[2] == "bfchar" {
			per = 2
		}
		if len(hs) != n*per {
			return fmt.Errorf("%s block declares %d entries, holds %d strings", m[2], n, len(hs))
		}
		for i := 0; i < len(hs); i += per {
			lo, err := hexUnits(hs[i][1])
			if err != nil {
				return err
			}
			hi := lo
			if per == 3 {
				if hi, err = hexUnits(hs[i+1][1]); err != nil {
					return err
				}
			}
			dst, err := hexUnits(hs[i+per-1][1])
			if err != nil {
				return err
			}
			for c := int(lo[0]); c <= int(hi[0]); c++ {
				u := append([]uint16(nil), dst...)
				u[len(u)-1] += uint16(c - int(lo[0]))
				if _, dup := t.ToUni[c]; !dup {
					t.ToUni[c] = string(utf16.Decode(u))
				}
			}
		}
	}
	return nil
}

func (t *Type0) width(c int) float64 {
	if w, ok := t.W[c]; ok {
		return w
	}
	return t.DW
}

// resolved page resources
func (d *Doc) res(p *Page, kind Name) (Dict, error) {
	r, err := d.Dict(p.Inh["Resources"])
	if err != nil {
		return nil, err
	}
	if r == nil {
		return Dict{}, nil
	}
	k, err := d.Dict(r[kind])
	if err != nil {
		return nil, err
	}
	if k == nil {
		return Dict{}, nil
	}
	return k, nil
}

func (d *Doc) pageOps(p *Page) ([]ContentOp, error) {
	cs, err := d.Contents(p)
	if err != nil {
		return nil, err
	}
	return ParseContent(bytes.Join(cs, []byte("\n")))
}

type sameOpt struct {
	noUnicode bool // ToUnicode may differ
	noCount   bool // number of objects may differ
	stripQ    bool // ignore q/Q wrappers
	tolNum    float64
}

// sameDoc decides whether two documents show the same and hold the same.
func sameDoc(a, b *Doc, opt sameOpt) error {
	pa, err := a.Pages()
	if err != nil {
		return fmt.Errorf("first document: %w", err)
	}
	pb, err := b.Pages()
	if err != nil {
		return fmt.Errorf("second document: %w", err)
	}
	if len(pa) != len(pb) {
		return fmt.Errorf("%d pages vs %d", len(pa), len(pb))
	}
	if !opt.noCount && len(a.off) != len(b.off) {
		return fmt.Errorf("%d objects vs %d", len(a.off), len(b.off))
	}
	c := newEq(a, b, pa, pb)
	c.strict = true
	fontMemo := map[string]error{}
	for i := range pa {
		where := fmt.Sprintf("page %d", i+1)
		oa, err := a.pageOps(pa[i])
		if err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
		ob, err := b.pageOps(pb[i])
		if err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
		if len(oa) != len(ob) {
			return fmt.Errorf("%s: %d drawing operators vs %d", where, len(oa), len(ob))
		}
		fa, err := a.res(pa[i], "Font")
		if err != nil {
			return err
		}
		fb, err := b.res(pb[i], "Font")
		if err != nil {
			return err
		}
		xa, err := a.res(pa[i], "XObject")
		if err != nil {
			return err
		}
		xb, err := b.res(pb[i], "XObject")
		if err != nil {
			return err
		}
		var curA, curB interface{}
		var curKey string
		for k := range oa {
			sa, sb := oa[k].String(), ob[k].String()
			if oa[k].Op != ob[k].Op || len(oa[k].Args) != len(ob[k].Args) {
				return fmt.Errorf("%s operator %d: %q vs %q", where, k, clip(sa), clip(sb))
			}
			switch oa[k].Op {
			case "Tf":
				if len(oa[k].Args) == 2 {
					na, _ := oa[k].Args[0].(Name)
					nb, _ := ob[k].Args[0].(Name)
					curA, curB = fa[na], fb[nb]
					curKey = fmt.Sprint(i, na, nb)
					if canonSimple(oa[k].Args[1]) != canonSimple(ob[k].Args[1]) {
						return fmt.Errorf("%s operator %d: %q vs %q", where, k, clip(sa), clip(sb))
					}
				}
			case "Do":
				na, _ := oa[k].Args[0].(Name)
				nb, _ := ob[k].Args[0].(Name)
				if err := c.eq(xa[na], xb[nb], where+" XObject "+string(na)); err != nil {
					return err
				}
			case "TJ", "Tj", "'", "\"":
				if sa != sb {
					return fmt.Errorf("%s operator %d: %q vs %q", where, k, clip(sa), clip(sb))
				}
				key := curKey + sa
				e, ok := fontMemo[key]
				if !ok {
					e = sameFont(c, curA, curB, oa[k], where, opt)
					fontMemo[key] = e
				}
				if e != nil {
					return e
				}
			default:
				if sa != sb {
					return fmt.Errorf("%s operator %d: %q vs %q", where, k, clip(sa), clip(sb))
				}
			}
		}
		if err := samePageDict(c, pa[i], pb[i], where); err != nil {
			return err
		}
		ra, err := a.Dict(pa[i].Inh["Resources"])
		if err != nil {
			return err
		}
		rb, err := b.Dict(pb[i].Inh["Resources"])
		if err != nil {
			return err
		}
		if err := c.eqDict(ra, rb, where+" Resources", map[Name]bool{"Font": true, "XObject": true}); err != nil {
			return err
		}
		if len(fa) != len(fb) || len(xa) != len(xb) {
			return fmt.Errorf("%s: %d fonts and %d XObjects in resources vs %d and %d", where, len(fa), len(xa), len(fb), len(xb))
		}
	}
	ca, err := a.Dict(a.Trailer["Root"])
	if err != nil {
		return err
	}
	cb, err := b.Dict(b.Trailer["Root"])
	if err != nil {
		return err
	}
	if err := c.eqDict(ca, cb, "catalog", map[Name]bool{"Pages": true}); err != nil {
		return err
	}
	return c.eq(a.Trailer["Info"], b.Trailer["Info"], "document information")
}

func samePageDict(c *eqCtx, pa, pb *Page, where string) error {
	for _, k := range []Name{"MediaBox", "CropBox", "Rotate"} {
		if err := c.eq(pa.Inh[k], pb.Inh[k], where+"/"+string(k)); err != nil {
			return err
		}
	}
	return c.eqDict(pa.D, pb.D, where, map[Name]bool{"Parent": true, "Contents": true, "Resources": true, "MediaBox": true, "CropBox": true, "Rotate": true})
}

func codesOf(o ContentOp) []int {
	var out []int
	var items []interface{}
	if len(o.Args) == 0 {
		return nil
	}
	if a, ok := o.Args[len(o.Args)-1].(Arr); ok {
		items = a
	} else {
		items = []interface{}{o.Args[len(o.Args)-1]}
	}
	for _, it := range items {
		if s, ok := it.(Str); ok {
			for i := 0; i+1 < len(s); i += 2 {
				out = append(out, int(s[i])<<8|int(s[i+1]))
			}
		}
	}
	return out
}

func sameFont(c *eqCtx, fa, fb interface{}, o ContentOp, where string, opt sameOpt) error {
	da, err := c.A.Dict(fa)
	if err != nil {
		return err
	}
	if da == nil || da["Subtype"] != Name("Type0") {
		return c.eq(fa, fb, where+" font")
	}
	ta, ea := c.A.type0memo(fa)
	if ea != nil { // a foreign Type0 font
		return c.eq(fa, fb, where+" font")
	}
	tb, err := c.B.type0memo(fb)
	if err != nil {
		return fmt.Errorf("%s font: %w", where, err)
	}
	if ta.Base != tb.Base {
		return fmt.Errorf("%s: font %s vs %s", where, ta.Base, tb.Base)
	}
	for _, code := range codesOf(o) {
		if ta.width(code) != tb.width(code) {
			return fmt.Errorf("%s: width of code %d %v vs %v", where, code, ta.width(code), tb.width(code))
		}
		if code < ta.TTF.NumGlyphs {
			sa, e1 := ta.TTF.Sig(code, 0)
			sb, e2 := tb.TTF.Sig(code, 0)
			if e1 == nil && (e2 != nil || sa != sb) {
				return fmt.Errorf("%s: glyph %d differs (%v)", where, code, e2)
			}
		}
		if !opt.noUnicode && ta.ToUni[code] != tb.ToUni[code] {
			return fmt.Errorf("%s: ToUnicode of code %d %q vs %q", where, code, ta.ToUni[code], tb.ToUni[code])
		}
	}
	return nil
}
