package main

// C24 TrueType parser and font maker.

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/signintech/pdft/minigopdf/fontmaker/core"
)

func init() {
	register(&Check{ID: "C24", Quick: 40000, Thorough: 400000, Level: "exploration",
		Rule:   "a font was parsed and compared table by table, or a font definition was made and read back",
		Assume: []string{"the harness's own TrueType reader is right", "fonts carry a (3,1) format 4 character map and one unambiguous value per metric"},
		Run:    runC24})
}

func runC24(t *T) {
	r := t.R
	f := pickFontSrc(r, 4)
	T := f.T
	if !t.parserReports(f, T) {
		return
	}
	t.ops = append(t.ops, f.Desc)
	if chance(r, 70) {
		t.makeFont(f, T)
	}
	t.note(true, keyOf(t.ops...), "%s", strings.Join(t.ops, " | "))
}

func (t *T) parserReports(f *fontSrc, T *TTF) bool {
	r := t.R
	p := &core.TTFParser{}
	kern := chance(r, 60)
	p.SetUseKerning(kern)
	var err error
	if chance(r, 30) {
		err = p.Parse(t.writeFile("parse.ttf", f.Data))
	} else {
		rd, _ := chunked(r, f.Data)
		err = p.ParseByReader(rd)
	}
	if err != nil {
		t.fail("parser refuses %s: %v", f.Desc, err)
		return false
	}
	ok := true
	eq := func(what string, got, want int) {
		if got != want {
			t.fail("%s: parser reports %s %d, the font has %d", f.Desc, what, got, want)
			ok = false
		}
		t.Obs.add("metrics compared", 1)
	}
	eq("unitsPerEm", int(p.UnitsPerEm()), T.Upem)
	eq("number of glyphs", int(p.NumGlyphs()), T.NumGlyphs)
	eq("number of horizontal metrics", int(p.NumberOfHMetrics()), T.NHM)
	eq("xMin", p.XMin(), T.headFields[0])
	eq("yMin", p.YMin(), T.headFields[1])
	eq("xMax", p.XMax(), T.headFields[2])
	eq("yMax", p.YMax(), T.headFields[3])
	eq("italic angle", p.ItalicAngle(), T.Italic)
	eq("underline position", p.UnderlinePosition(), T.UlPos)
	eq("underline thickness", p.UnderlineThickness(), T.UlThick)
	eq("typographic ascender", p.TypoAscender(), T.TypoAsc)
	eq("typographic descender", p.TypoDescender(), T.TypoDesc)
	if T.OS2Ver >= 2 {
		eq("cap height", p.CapHeight(), T.CapH)
		if T.XH != 0 {
			eq("x height", p.XHeight(), T.XH)
		}
	}
	eq("bold", b2i(p.Bold), b2i(T.FsSel&32 != 0))
	eq("embeddable", b2i(p.Embeddable), b2i(T.FsType != 2 && T.FsType&0x200 == 0))
	if !bytes.Equal(p.FontData(), f.Data) {
		t.fail("%s: the font data the parser keeps differs from the font", f.Desc)
		return false
	}
	ws := p.Widths()
	if len(ws) < T.NumGlyphs {
		t.fail("%s: %d widths for %d glyphs", f.Desc, len(ws), T.NumGlyphs)
		return false
	}
	for g := 0; g < T.NumGlyphs && ok; g++ {
		if int(ws[g]) != T.Adv(g) {
			t.fail("%s: width of glyph %d is reported as %d, the font has %d", f.Desc, g, ws[g], T.Adv(g))
			ok = false
		}
	}
	t.Obs.add("widths compared", T.NumGlyphs)
	cs := p.Chars()
	n := 0
	for c := rune(0); c < 0xFFFF && ok; c++ {
		g, _ := T.Glyph(c)
		if int(cs[int(c)]) != g {
			t.fail("%s: character U+%04X is reported as glyph %d, the font has %d", f.Desc, c, cs[int(c)], g)
			ok = false
		}
		if g != 0 {
			n++
		}
	}
	t.Obs.add("characters compared", n)
	if T.cm12 != nil {
		gs := p.GroupingTables()
		if len(gs) != len(T.cm12) {
			t.fail("%s: %d groups of characters beyond the BMP, the font has %d", f.Desc, len(gs), len(T.cm12))
			return false
		}
		for i, g := range gs {
			if uint32(g.StartCharCode) != T.cm12[i][0] || uint32(g.EndCharCode) != T.cm12[i][1] || uint32(g.GlyphID) != T.cm12[i][2] {
				t.fail("%s: group %d is reported as %v, the font has %v", f.Desc, i, g, T.cm12[i])
				return false
			}
		}
		t.Obs.add("groups compared", len(gs))
	}
	if kern {
		got := map[[2]int]int{}
		if k := p.Kern(); k != nil {
			for l, m := range k.Kerning {
				for rt, v := range m {
					got[[2]int{int(l), int(rt)}] = int(v)
				}
			}
		}
		want := T.Kern
		if want == nil {
			want = map[[2]int]int{}
		}
		if !reflect.DeepEqual(got, want) {
			t.fail("%s: %d kerning pairs reported, the font has %d, or values differ", f.Desc, len(got), len(want))
			ok = false
		}
		t.Obs.add("kerning pairs compared", len(want))
	}
	return ok
}

type mapEnt struct {
	uv   int
	name string
}

func genMap(r *rand.Rand, f *fontSrc) [256]mapEnt {
	var m [256]mapEnt
	for i := range m {
		m[i] = mapEnt{-1, ".notdef"}
		if i >= 32 && i < 127 || chance(r, 70) && i >= 128 {
			m[i] = mapEnt{i, fmt.Sprintf("uni%04X", i)}
		}
	}
	for k := r.Intn(40); k > 0; k-- {
		c := f.Runes[r.Intn(len(f.Runes))]
		if c < 0xFFFF {
			m[r.Intn(256)] = mapEnt{int(c), fmt.Sprintf("uni%04X", c)}
		}
	}
	return m
}

func (t *T) writeMap(dir, name string, m [256]mapEnt) {
	var b strings.Builder
	eol := []string{"\n", "\n", "\r\n", " \n"}[t.R.Intn(4)]
	form := []string{"!%02X U+%04X %s", "!%02x U+%04x %s"}[t.R.Intn(2)]
	explicit := t.R.Intn(3) == 0
	for c, e := range m {
		if e.uv < 0 {
			if !explicit {
				continue
			}
			e.uv = 0
		}
		fmt.Fprintf(&b, form, c, e.uv, e.name)
		if c < 255 || t.R.Intn(2) == 0 {
			b.WriteString(eol)
		}
	}
	must(os.WriteFile(filepath.Join(dir, name), []byte(b.String()), 0644))
}

func hostileMap(r *rand.Rand) string {
	var b strings.Builder
	for k := 1 + r.Intn(5); k > 0; k-- {
		b.WriteString([]string{"", "\n", "!41 U+0041 A\n", "!41 U+0041\n", "!41\n", "! U+ \n", "!1FF U+0041 A\n", "!-1 U+0041 A\n", "!41 U+FFFFFFFFFFFF A\n", "A B C\n", "é é é\n", "!41  U+0041 A\n",
			"!41 U A\n", "!41 U+-5 x\n", strings.Repeat("x", 70000) + "\n", "\x00\n", "!42 U+FFFF B\n", "!43 U+10FFFF C\n"}[r.Intn(18)])
	}
	return b.String()
}

func (t *T) makeFont(f *fontSrc, T *TTF) {
	r := t.R
	maps, outd := filepath.Join(t.Dir, "maps"), filepath.Join(t.Dir, "out")
	must(os.RemoveAll(maps))
	must(os.RemoveAll(outd))
	must(os.MkdirAll(maps, 0755))
	must(os.MkdirAll(outd, 0755))
	ref := genMap(r, f)
	enc := ref
	for k := r.Intn(60); k > 0; k-- {
		c := r.Intn(256)
		for j := r.Intn(4); j >= 0 && c+j < 256; j-- {
			if chance(r, 80) {
				u := int(f.Runes[r.Intn(len(f.Runes))])
				if u < 0xFFFF {
					enc[c+j] = mapEnt{u, fmt.Sprintf("uni%04X", u)}
				}
			} else {
				enc[c+j] = mapEnt{-1, ".notdef"}
			}
		}
	}
	t.writeMap(maps, "cp1252.map", ref)
	encName := "cp874"
	if chance(r, 15) {
		encName, enc = "cp1252", ref
	} else {
		t.writeMap(maps, "cp874.map", enc)
	}
	data := append([]byte(nil), f.Data...)
	base := []string{"loma", "Loma_b", "my font", "x", "a1"}[r.Intn(5)]
	ext := []string{".ttf", ".TTF", ".Ttf"}[r.Intn(3)]
	locked := chance(r, 10)
	if locked {
		ty := []int{2, 0x200, 0x204, 0x20A}[r.Intn(4)]
		o := T.tabOff["OS/2"] + 8
		data[o], data[o+1] = byte(ty>>8), byte(ty)
	}
	fp := t.writeFile(base+ext, data)
	nothing := func(err error, why string) bool {
		if err == nil {
			t.fail("MakeFont with %s reports success", why)
			return false
		}
		es, e := os.ReadDir(outd)
		must(e)
		if len(es) > 0 {
			t.fail("MakeFont with %s fails and leaves %s behind", why, es[0].Name())
			return false
		}
		t.Obs.add("refusals of the font maker", 1)
		return true
	}
	fm := core.NewFontMaker()
	if chance(r, 25) { // a damaged map or font: any answer but a crash
		bad := filepath.Join(t.Dir, "bad")
		must(os.RemoveAll(bad))
		must(os.MkdirAll(bad, 0755))
		fd := data
		mapd := maps
		what := ""
		if chance(r, 60) {
			mapd = bad
			what = hostileMap(r)
			must(os.WriteFile(filepath.Join(bad, "cp1252.map"), []byte(what), 0644))
			must(os.WriteFile(filepath.Join(bad, "cp874.map"), []byte(what), 0644))
		} else {
			fd, what = mutTTF(r, data)
		}
		err := fm.MakeFont(t.writeFile("damaged.ttf", fd), mapd, encName, bad)
		t.ops = append(t.ops, fmt.Sprintf("damaged input %.60q", what))
		if err != nil {
			t.Obs.add("damaged maps and fonts refused", 1)
		} else {
			t.Obs.add("damaged maps and fonts accepted", 1)
		}
		fm = core.NewFontMaker()
	}
	if chance(r, 25) {
		switch r.Intn(4) {
		case 0:
			if !nothing(fm.MakeFont(filepath.Join(t.Dir, "none.ttf"), maps, encName, outd), "a missing font") {
				return
			}
		case 1:
			if !nothing(fm.MakeFont(t.writeFile("x.otf", data), maps, encName, outd), "a font that is no .ttf") {
				return
			}
		case 2:
			if !nothing(fm.MakeFont(fp, maps, "cp0", outd), "a missing encoding") {
				return
			}
		case 3:
			if !nothing(fm.MakeFont(t.writeFile("junk.ttf", garbage(r)), maps, encName, outd), "rubbish as a font") {
				return
			}
		}
	}
	err := fm.MakeFont(fp, maps, encName, outd)
	if locked {
		if !errors.Is(err, core.ErrFontLicenseDoesNotAllowEmbedding) {
			t.fail("a font whose licence forbids embedding: MakeFont returns %v", err)
			return
		}
		nothing(err, "a font that must not be embedded")
		return
	}
	if err != nil {
		t.fail("MakeFont: %v", err)
		return
	}
	t.ops = append(t.ops, "font definition, "+encName)
	name := strings.ReplaceAll(base, " ", "_")
	z, err := os.ReadFile(filepath.Join(outd, name+".z"))
	if err != nil {
		t.fail("MakeFont: %v", err)
		return
	}
	zr, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		t.fail("MakeFont: %s.z: %v", name, err)
		return
	}
	raw, err := io.ReadAll(zr)
	if err != nil || !bytes.Equal(raw, data) {
		t.fail("MakeFont: %s.z does not hold the font (%v)", name, err)
		return
	}
	src, err := os.ReadFile(filepath.Join(outd, name+".font.go"))
	if err != nil {
		t.fail("MakeFont: %v", err)
		return
	}
	d, err := readDef(src)
	if err != nil {
		t.fail("MakeFont: definition file: %v", err)
		return
	}
	sc := func(v int) float64 { return float64(v) * 1000 / float64(T.Upem) }
	near := func(what, got string, want float64) {
		g, err := strconv.ParseFloat(got, 64)
		if err != nil || math.Abs(g-want) > 0.5001 {
			t.fail("MakeFont: %s is %q, the font's is %.2f", what, got, want)
		}
		t.Obs.add("definition values compared", 1)
	}
	for c := 0; c < 256; c++ {
		g := 0
		if enc[c].uv >= 0 {
			g, _ = T.Glyph(rune(enc[c].uv))
		}
		near(fmt.Sprintf("width of code %d (U+%04X)", c, enc[c].uv), d.cw[c], sc(T.Adv(g)))
		if t.failed() {
			return
		}
		if enc[c].uv >= 0 && g == 0 {
			warned := false
			for _, s := range fm.GetResults() {
				warned = warned || strings.Contains(s, enc[c].name)
			}
			if !warned {
				t.fail("MakeFont: code %d (%s) has no glyph and nothing says so", c, enc[c].name)
				return
			}
			t.Obs.add("missing characters reported", 1)
		}
	}
	near("underline position", d.val["up"], sc(T.UlPos))
	near("underline thickness", d.val["ut"], sc(T.UlThick))
	for k, v := range map[string]string{"name": T.PSName, "enc": encName, "fonttype": "TrueType"} {
		if d.val[k] != v {
			t.fail("MakeFont: %s is %q, not %q", k, d.val[k], v)
		}
	}
	for m, v := range map[string]string{"GetType": "fonttype", "GetName": "name", "GetDesc": "desc", "GetUp": "up", "GetUt": "ut", "GetCw": "cw", "GetEnc": "enc", "GetDiff": "diff", "GetFamily": "family", "GetOriginalsize": itoa(len(data))} {
		if d.ret[m] != v {
			t.fail("MakeFont: method %s of the definition returns %q, not %s", m, d.ret[m], v)
		}
	}
	near("StemV", d.desc["StemV"], float64(70+50*b2i(T.FsSel&32 != 0)))
	near("Ascent", d.desc["Ascent"], sc(T.TypoAsc))
	near("Descent", d.desc["Descent"], sc(T.TypoDesc))
	if T.OS2Ver >= 2 {
		near("CapHeight", d.desc["CapHeight"], sc(T.CapH))
	}
	near("ItalicAngle", d.desc["ItalicAngle"], float64(T.Italic))
	near("MissingWidth", d.desc["MissingWidth"], sc(T.Adv(0)))
	near("Flags", d.desc["Flags"], float64(b2i(T.Fixed)+32+64*b2i(T.Italic != 0)))
	bb := strings.Fields(strings.Trim(d.desc["FontBBox"], "[] "))
	if len(bb) != 4 {
		t.fail("MakeFont: FontBBox is %q", d.desc["FontBBox"])
		return
	}
	for i, v := range bb {
		near("FontBBox", v, sc(T.headFields[i]))
	}
	// the encoding: the differences applied to the reference give the encoding
	var names [256]string
	for c := range ref {
		names[c] = ref[c].name
	}
	at := -1
	for _, w := range strings.Fields(d.val["diff"]) {
		if w[0] == '/' {
			if at < 0 || at > 255 {
				t.fail("MakeFont: the list of differences names %s for code %d", w, at)
				return
			}
			names[at] = w[1:]
			at++
		} else if at, err = strconv.Atoi(w); err != nil {
			t.fail("MakeFont: %q in the list of differences", w)
			return
		}
	}
	for c := range names {
		if names[c] != enc[c].name {
			t.fail("MakeFont: with the differences code %d is %s, in the encoding it is %s", c, names[c], enc[c].name)
			return
		}
	}
	t.Obs.add("font definitions compared", 1)
}

type fontDef struct {
	cw   map[int]string
	val  map[string]string
	ret  map[string]string // what a method returns: a field or a value
	desc map[string]string
}

func litOf(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, _ := strconv.Unquote(x.Value)
			return s
		}
		return x.Value
	case *ast.UnaryExpr:
		return x.Op.String() + litOf(x.X)
	case *ast.ParenExpr:
		return litOf(x.X)
	}
	return ""
}

// readDef reads the assignments of the Init method.
func readDef(src []byte) (*fontDef, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "font.go", src, 0)
	if err != nil {
		return nil, err
	}
	d := &fontDef{cw: map[int]string{}, val: map[string]string{}, ret: map[string]string{}, desc: map[string]string{}}
	for _, dc := range f.Decls {
		fn, ok := dc.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if len(fn.Body.List) == 1 {
			if rt, ok := fn.Body.List[0].(*ast.ReturnStmt); ok && len(rt.Results) == 1 {
				if se, ok := rt.Results[0].(*ast.SelectorExpr); ok {
					d.ret[fn.Name.Name] = se.Sel.Name
				} else {
					d.ret[fn.Name.Name] = litOf(rt.Results[0])
				}
			}
		}
		if fn.Name.Name != "Init" {
			continue
		}
		for _, s := range fn.Body.List {
			a, ok := s.(*ast.AssignStmt)
			if !ok || len(a.Lhs) != 1 {
				continue
			}
			switch l := a.Lhs[0].(type) {
			case *ast.SelectorExpr:
				d.val[l.Sel.Name] = litOf(a.Rhs[0])
			case *ast.IndexExpr:
				if call, ok := l.Index.(*ast.CallExpr); ok && len(call.Args) == 1 {
					v := litOf(call.Args[0])
					c := -1
					if fs, ok := call.Fun.(*ast.SelectorExpr); ok && fs.Sel.Name == "ToByte" && len(v) == 1 {
						c = int(v[0])
					} else if n, err := strconv.Atoi(v); err == nil {
						c = n
					}
					d.cw[c] = litOf(a.Rhs[0])
				} else if cl, ok := a.Rhs[0].(*ast.CompositeLit); ok {
					var k, v string
					for _, el := range cl.Elts {
						if kv, ok := el.(*ast.KeyValueExpr); ok {
							if id, ok := kv.Key.(*ast.Ident); ok && id.Name == "Key" {
								k = litOf(kv.Value)
							} else {
								v = litOf(kv.Value)
							}
						}
					}
					d.desc[k] = v
				}
			}
		}
	}
	if len(d.cw) == 0 {
		return nil, fmt.Errorf("no widths")
	}
	return d, nil
}
