package main

// Generator of template PDFs: page trees, resources, contents, syntax styles.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

type tmplOpt struct {
	Plain    bool // simple syntax, no exotic features
	SameSize bool
	MaxPages int
	MinPages int
	NoEmpty  bool // every page has /Contents
	HugeID   int  // percent of the templates with high object numbers that go beyond 16 bits
	NoState  bool // contents leave the graphics state as found
}

type pdfGen struct {
	r     *rand.Rand
	opt   tmplOpt
	objs  []interface{} // index = logical id; value is Dict/Arr/Stream/...
	raw   map[int]bool
	feats map[string]bool

	rawNames bool
	inner    bool // the document is to be embedded in another one
}

func (g *pdfGen) add(v interface{}) Ref {
	g.objs = append(g.objs, v)
	return Ref{N: len(g.objs) - 1}
}
func (g *pdfGen) feat(s string)  { g.feats[s] = true }
func (g *pdfGen) p(pct int) bool { return g.r.Intn(100) < pct }

var oddStrings = []string{
	"plain text", "with (nested (parens)) inside", "ends >> endobj stream", "endstream\nendobj\n1 0 obj", "back\\slash and \r\n breaks",
	"/Type /Page /Contents 5 0 R", "% not a comment", "\xfe\xff\x0e\x01\x0e\x02", "unbalanced ) and (", "", "xref\ntrailer\nstartxref\n12",
	"<<", "[", "5 0 R", "\x00\x01\x02\xff",
	"ends with a p", "1\x0189 8\x009", "0000000016 00000 n \n0000000300 00000 n \n", "\xe9t\xe9 \x80",
}

var strBits = []string{"\\", "\\", "(", ")", "a", " ", "\\)", "\\(", ">>", "<<", "/X", "\r", "\n", "7", "\\\\", "<", ">", "]", "%", "\x80", "R"}

func (g *pdfGen) str() Str {
	if g.r.Intn(4) == 0 {
		var b []byte
		for n := 1 + g.r.Intn(6); n > 0; n-- {
			b = append(b, strBits[g.r.Intn(len(strBits))]...)
		}
		g.feat("delimiter-strings")
		return Str(b)
	}
	return Str(oddStrings[g.r.Intn(len(oddStrings))])
}

var resNames = []string{"F1", "F2", "F3", "I1", "I2", "TT0", "C2_0", "Fm0", "Im1", "R7", "G3", "A#1", "N.M", "x-y", "F10", "F1A", "Font", "P/Q", "S T", "MediaBox", "Type", "Kids", "stream", "endobj", "F\xe9", "\xe0\xb8\x81\xff"}

// Numbered names around the point where the number of digits changes.
var numNames = []string{"F9", "F10", "F99", "F100", "F101", "F999", "F1000", "F010", "I9", "I10", "I99", "I100", "I101", "I999", "I1000", "I0100"}

func (g *pdfGen) names(n int) []Name {
	if g.r.Intn(12) == 0 {
		pfx := []string{"F", "I"}[g.r.Intn(2)]
		k := []int{9, 99, 999, 99999}[g.r.Intn(4)]
		out := []Name{Name(pfx + itoa(k)), Name(pfx + itoa(k+1)), Name(pfx + itoa(k+2))}
		if g.r.Intn(2) == 0 {
			for i, j := range g.r.Perm(len(numNames))[:3] {
				out[i] = Name(numNames[j])
			}
		}
		g.feat("numbered-names")
		if n > 3 {
			n = 3
		}
		return out[:n]
	}
	p := g.r.Perm(len(resNames))
	var out []Name
	lim := len(resNames)
	if g.opt.Plain {
		lim = 11
	}
	for _, i := range p {
		if i < lim && len(out) < n {
			out = append(out, Name(resNames[i]))
		}
	}
	return out
}

func (g *pdfGen) maybeRef(v interface{}, pct int) interface{} {
	if g.p(pct) {
		return g.add(v)
	}
	return v
}

// ragged puts ends of lines and keywords at both ends of the data of a stream.
func (g *pdfGen) ragged(data []byte) []byte {
	if g.opt.Plain || !g.p(30) {
		return data
	}
	g.feat("ragged-streams")
	ends := []string{"", "\n", "\r\n", "\r", " ", "\n\n", "endstream", "\nendstream\nendobj\n", "stream\n", "\x00", "\r\n \t"}
	if g.p(10) {
		data = nil
	}
	return []byte(ends[g.r.Intn(len(ends))] + string(data) + ends[g.r.Intn(len(ends))])
}

// indirect sometimes makes an object of its own of a number or string.
func (g *pdfGen) indirect(v interface{}) interface{} {
	if g.opt.Plain || !g.p(12) {
		return v
	}
	g.feat("indirect-scalars")
	return g.add(v)
}

func (g *pdfGen) stream(d Dict, data []byte) Ref {
	st := &Stream{D: d, Raw: data}
	if g.p(3) && !g.opt.Plain {
		d["PZ"] = Name([]string{"Length", "Filter", "stream"}[g.r.Intn(3)])
	}
	mode := g.r.Intn(4)
	if d["Filter"] == nil {
		switch mode {
		case 0, 1:
			var z bytes.Buffer
			w := zlib.NewWriter(&z)
			w.Write(data)
			w.Close()
			st.Raw = z.Bytes()
			d["Filter"] = Name("FlateDecode")
			if g.p(25) {
				d["Filter"] = Arr{Name("FlateDecode")}
				g.feat("filter-array")
			}
		case 2:
			if g.p(20) && !g.opt.Plain {
				st.Raw = []byte(fmt.Sprintf("%x>", data))
				d["Filter"] = Name("ASCIIHexDecode")
			}
		}
	}
	if g.p(15) && !g.opt.Plain {
		d["Length"] = g.add(int64(len(st.Raw)))
		g.feat("indirect-length")
	} else {
		d["Length"] = int64(len(st.Raw))
	}
	return g.add(st)
}

func (g *pdfGen) fontObj() interface{} {
	d := Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name([]string{"Helvetica", "Times-Roman", "Courier"}[g.r.Intn(3)])}
	if g.p(30) {
		d["Encoding"] = Dict{"Type": Name("Encoding"), "Differences": Arr{int64(g.r.Intn(200)), Name("a" + itoa(g.r.Intn(99))), Name("odd name")}}
	}
	if g.p(20) {
		d["Widths"] = g.maybeRef(Arr{int64(g.r.Intn(900)), 250.5, int64(-3)}, 50)
	}
	return d
}

func (g *pdfGen) formObj() Ref {
	d := Dict{"Type": Name("XObject"), "Subtype": Name("Form"), "BBox": Arr{int64(0), int64(0), int64(10), int64(10)}}
	if g.p(40) {
		d["Resources"] = Dict{"ProcSet": Arr{Name("PDF")}, "Font": Dict{"F1": g.maybeRef(g.fontObj(), 60)}}
	}
	if g.p(25) {
		d["PieceInfo"] = Dict{"note": g.str()}
	}
	return g.stream(d, []byte(fmt.Sprintf("0 0 %d 5 re f\n", g.r.Intn(30))))
}

func (g *pdfGen) imageObj() Ref {
	im := genPNGof(g.r, 2, 8)
	data := make([]byte, 0, im.W*im.H*3)
	for _, p := range im.Px {
		data = append(data, p[:3]...)
	}
	return g.stream(Dict{"Type": Name("XObject"), "Subtype": Name("Image"), "Width": int64(im.W), "Height": int64(im.H), "ColorSpace": Name("DeviceRGB"), "BitsPerComponent": int64(8)}, data)
}

type genRes struct {
	val   interface{} // Dict or Ref
	fonts []Name
	xobjs []Name
	gs    []Name
}

func (g *pdfGen) resources() *genRes {
	gr := &genRes{}
	d := Dict{}
	nf := g.r.Intn(4)
	if nf > 0 || g.p(30) {
		fd := Dict{}
		for _, n := range g.names(nf) {
			if k := len(gr.fonts); k > 0 && g.p(20) { // two names for one font
				fd[n] = fd[gr.fonts[k-1]]
				g.feat("alias-font")
			} else {
				fd[n] = g.maybeRef(g.fontObj(), 70)
			}
			gr.fonts = append(gr.fonts, n)
		}
		d["Font"] = g.maybeRef(fd, 40)
	}
	nx := g.r.Intn(4)
	if nx > 0 || g.p(15) {
		xd := Dict{}
		for _, n := range g.names(nx) {
			if k := len(gr.xobjs); k > 0 && g.p(30) { // two names for one object
				xd[n] = xd[gr.xobjs[g.r.Intn(k)]]
				g.feat("alias-xobject")
			} else if g.p(50) {
				xd[n] = g.formObj()
			} else {
				xd[n] = g.imageObj()
			}
			gr.xobjs = append(gr.xobjs, n)
		}
		d["XObject"] = g.maybeRef(xd, 40)
	}
	if g.p(40) {
		d["ProcSet"] = g.maybeRef(Arr{Name("PDF"), Name("Text"), Name("ImageC")}, 30)
	}
	if g.p(30) {
		n := g.names(1)[0]
		d["ExtGState"] = g.maybeRef(Dict{n: g.maybeRef(Dict{"Type": Name("ExtGState"), "ca": 0.5, "LW": int64(2)}, 50)}, 30)
		gr.gs = append(gr.gs, n)
	}
	if g.p(15) {
		d["ColorSpace"] = Dict{"Cs1": Arr{Name("CalRGB"), Dict{"WhitePoint": Arr{0.9505, int64(1), 1.089}}}}
	}
	if g.p(10) {
		d["Properties"] = Dict{"MC0": g.add(Dict{"Title": g.str()})}
	}
	if g.p(4) && !g.opt.Plain {
		d["PZ"] = Name([]string{"Font", "XObject", "ProcSet"}[g.r.Intn(3)])
		g.feat("key-like-names")
	}
	if g.p(4) && !g.opt.Plain {
		for _, k := range []Name{"Font", "XObject", "Pattern"} {
			if _, have := d[k]; !have && g.p(50) {
				d[k] = nil
				g.feat("null-entries")
			}
		}
	}
	if g.p(45) {
		gr.val = g.add(d)
		g.feat("res-indirect")
	} else {
		gr.val = d
	}
	return gr
}

// ops writes random drawing operators.
func (g *pdfGen) ops(gr *genRes) []string {
	var out []string
	n := 1 + g.r.Intn(10)
	num := func() string {
		switch g.r.Intn(5) {
		case 0:
			return fmt.Sprintf("%.3f", g.r.Float64()*500)
		case 1:
			return fmt.Sprintf("-.%d", g.r.Intn(99))
		case 2:
			return fmt.Sprintf("+%d", g.r.Intn(99))
		case 3:
			return fmt.Sprintf("%d.", g.r.Intn(99))
		}
		return itoa(g.r.Intn(600))
	}
	nm := func(n Name) string { return g.name(n) }
	depth := 0
	state := func() {
		if g.opt.NoState && depth == 0 {
			out = append(out, "q")
			depth++
		}
	}
	for i := 0; i < n; i++ {
		switch g.r.Intn(12) {
		case 0:
			out = append(out, fmt.Sprintf("%s %s %s %s re f", num(), num(), num(), num()))
		case 1:
			state()
			out = append(out, fmt.Sprintf("%.2f %.2f %.2f rg", g.r.Float64(), g.r.Float64(), g.r.Float64()))
		case 2:
			out = append(out, fmt.Sprintf("%s %s m %s %s l S", num(), num(), num(), num()))
		case 3:
			if depth < 3 {
				out = append(out, "q")
				depth++
			}
		case 4:
			if depth > 0 {
				out = append(out, "Q")
				depth--
			}
		case 5:
			state()
			g.feat("ctm")
			out = append(out, []string{"1 0 0 1 20 30 cm", ".5 0 0 .5 0 0 cm", "0 1 -1 0 100 100 cm", "1 0 0 -1 0 800 cm"}[g.r.Intn(4)])
		case 6:
			if len(gr.fonts) > 0 {
				t := []string{"(Hello) Tj", "[(A) -120 (B\\)x) 3.5] TJ", "<48656c6c6f> Tj", "(multi\\\nline) Tj", "T* (x) '"}[g.r.Intn(5)]
				ts := ""
				if g.p(20) && !(g.opt.NoState && depth == 0) {
					ts = []string{"2 Tc ", "1 Tr ", "50 Tz ", "3 Ts ", "1 Tw "}[g.r.Intn(5)]
					g.feat("textstate")
				}
				state()
				out = append(out, fmt.Sprintf("BT %s %d Tf %s%s %s Td %s ET", nm(gr.fonts[g.r.Intn(len(gr.fonts))]), 8+g.r.Intn(10), ts, num(), num(), t))
			}
		case 7:
			if len(gr.xobjs) > 0 {
				out = append(out, fmt.Sprintf("q %s 0 0 %s %s %s cm %s Do Q", num(), num(), num(), num(), nm(gr.xobjs[g.r.Intn(len(gr.xobjs))])))
			}
		case 8:
			if len(gr.gs) > 0 {
				state()
				out = append(out, nm(gr.gs[0])+" gs")
			}
		case 9:
			state()
			out = append(out, "0.5 g 2 w [3 1] 0 d")
		case 10:
			if g.p(30) {
				state()
				out = append(out, "0 0 50 50 re W n")
				g.feat("clip")
			} else {
				out = append(out, "/Span <</ActualText (a)>> BDC 0 0 1 1 re f EMC")
			}
		case 11:
			state()
			out = append(out, "0.1 0.2 0.3 0.4 k")
		}
	}
	for depth > 0 {
		out = append(out, "Q")
		depth--
	}
	return out
}

type genTmpl struct {
	Data  []byte
	Feats []string
	NPage int
}

func (g *genTmpl) desc() string {
	return fmt.Sprintf("generated template: %d pages, %d bytes, features %s", g.NPage, len(g.Data), strings.Join(g.Feats, ","))
}

func genPDF(r *rand.Rand, opt tmplOpt) *genTmpl {
	return (&pdfGen{r: r, opt: opt, feats: map[string]bool{}}).doc()
}

func (g *pdfGen) doc() *genTmpl {
	r, opt := g.r, g.opt
	g.rawNames = g.p(30)
	g.objs = append(g.objs, nil) // logical 0 unused
	cat := g.add(Dict{})
	rootPages := g.add(Dict{})
	if opt.MaxPages == 0 {
		opt.MaxPages = 6
	}
	if opt.MinPages == 0 {
		opt.MinPages = 1
	}
	np := opt.MinPages + r.Intn(opt.MaxPages-opt.MinPages+1)
	nested := np > 1 && g.p(40)
	deep := !opt.Plain && g.r.Intn(14) == 0
	sizes := [][2]float64{{595.28, 841.89}, {612, 792}, {300, 200}, {841.89, 595.28}, {100.5, 99.25}, {2000, 3000}}
	mb := func(k int) interface{} {
		s := sizes[k]
		if !opt.SameSize && g.p(12) { // the lower edge is not at 0
			y0 := []float64{100, -50.25, 7, -1000}[r.Intn(4)]
			g.feat("mediabox-offset")
			if g.p(30) { // any two opposite corners will do
				g.feat("mediabox-corners")
				return Arr{g.numForm(s[0]), g.numForm(y0 + s[1]), g.numForm(0), g.numForm(y0)}
			}
			return Arr{g.numForm(0), g.numForm(y0), g.numForm(s[0]), g.numForm(y0 + s[1])}
		}
		return Arr{g.numForm(0), g.numForm(0), g.numForm(s[0]), g.numForm(s[1])}
	}
	base := r.Intn(len(sizes))
	sharedRes := g.resources()
	var sharedContent interface{}
	allRes := g.p(30)
	type node struct {
		ref  Ref
		d    Dict
		kids []*node
		leaf bool
		n    int
	}
	var leaves []*node
	for i := 0; i < np; i++ {
		d := Dict{"Type": Name("Page")}
		nd := &node{ref: g.add(d), d: d, leaf: true, n: 1}
		leaves = append(leaves, nd)
	}
	// tree
	root := &node{ref: rootPages, d: g.objs[rootPages.N].(Dict)}
	root.d["Type"] = Name("Pages")
	cur := leaves
	levels := 0
	if nested {
		levels = 1 + r.Intn(2)
		g.feat("nested-tree")
	}
	if deep {
		levels = 4 + r.Intn(9)
		g.feat("deep-tree")
	}
	for l := 0; l < levels; l++ {
		var next []*node
		for i := 0; i < len(cur); {
			k := 1 + r.Intn(3)
			if deep {
				k = 1 + r.Intn(2)*r.Intn(2)
			}
			if i+k > len(cur) {
				k = len(cur) - i
			}
			if k == 1 && !deep && g.p(50) {
				next = append(next, cur[i])
				i++
				continue
			}
			d := Dict{"Type": Name("Pages")}
			nd := &node{ref: g.add(d), d: d}
			nd.kids = append(nd.kids, cur[i:i+k]...)
			next = append(next, nd)
			i += k
		}
		cur = next
	}
	root.kids = cur
	rootMB := g.p(50 + 30*b2i(deep))
	if rootMB {
		root.d["MediaBox"] = mb(base)
		g.feat("inherited-mediabox")
	}
	rootRes := g.p(25 + 35*b2i(deep))
	if rootRes {
		root.d["Resources"] = sharedRes.val
		g.feat("inherited-resources")
	}
	if g.p(10 + 30*b2i(deep)) {
		root.d["Rotate"] = g.indirect(int64(90 * r.Intn(4)))
	}
	if g.p(8 + 30*b2i(deep)) {
		root.d["CropBox"] = Arr{int64(3), int64(4), 80.5, int64(70)}
	}
	var finish func(nd *node, parent *node, hasMB bool, res *genRes) int
	finish = func(nd *node, parent *node, hasMB bool, res *genRes) int {
		if parent != nil {
			nd.d["Parent"] = parent.ref
		}
		if nd.leaf {
			if !hasMB || (!opt.SameSize && g.p(40-20*b2i(deep))) {
				k := base
				if !opt.SameSize {
					k = r.Intn(len(sizes))
				}
				nd.d["MediaBox"] = g.maybeRef(mb(k), 10)
			}
			pr := res
			switch {
			case pr == nil && allRes:
				nd.d["Resources"] = sharedRes.val
				pr = sharedRes
				g.feat("shared-resources")
			case pr == nil || g.p(40):
				pr = g.resources()
				nd.d["Resources"] = pr.val
			}
			if g.p(15) {
				nd.d["CropBox"] = Arr{int64(1), int64(2), 90.5, int64(80)}
			}
			if g.p(10) {
				nd.d["Rotate"] = g.indirect(int64(90 * r.Intn(4)))
			}
			// contents
			mk := func() Ref {
				ops := g.ops(pr)
				if r.Intn(150) == 0 && !opt.Plain { // more than 64 KB
					for k := 3000 + r.Intn(5000); k > 0; k-- {
						ops = append(ops, fmt.Sprintf("%d %d %d.%d %d re f", r.Intn(600), r.Intn(800), r.Intn(50), r.Intn(100), r.Intn(50)))
					}
					g.feat("big-contents")
				}
				return g.stream(Dict{}, []byte(strings.Join(ops, []string{"\n", "\r\n", " "}[r.Intn(3)])+"\n"))
			}
			switch k := r.Intn(10); {
			case k == 0 && !opt.NoEmpty:
				g.feat("no-contents")
				if !opt.Plain {
					switch r.Intn(6) {
					case 0:
						nd.d["Contents"] = Arr{}
						g.feat("empty-contents-array")
					case 1:
						nd.d["Contents"] = g.add(Arr{})
						g.feat("empty-contents-array")
					case 2:
						nd.d["Contents"] = nil
						g.feat("null-contents")
					}
				}
			case k <= 4:
				nd.d["Contents"] = mk()
			case k <= 6:
				n := 1 + r.Intn(4)
				if r.Intn(12) == 0 {
					n = 5 + r.Intn(40)
					g.feat("many-contents")
				}
				var a Arr
				for j := 0; j < n; j++ {
					a = append(a, mk())
				}
				nd.d["Contents"] = g.maybeRef(a, 35)
				g.feat("contents-array")
			case k == 7 && pr == sharedRes:
				if sharedContent == nil {
					sharedContent = mk()
				}
				nd.d["Contents"] = sharedContent
				g.feat("shared-contents")
			default:
				nd.d["Contents"] = mk()
			}
			if g.p(25) {
				an := Dict{"Type": Name("Annot"), "Subtype": Name("Text"), "Rect": Arr{int64(10), int64(10), int64(50), int64(60)}, "Contents": g.indirect(g.str()), "P": nd.ref}
				if g.p(40) {
					an["A"] = Dict{"S": Name("URI"), "URI": Str("http://example.org/a(b)?x=>>")}
				}
				if g.p(30) {
					an["Dest"] = Arr{leaves[r.Intn(len(leaves))].ref, Name("Fit")}
				}
				nd.d["Annots"] = g.maybeRef(Arr{g.maybeRef(an, 70)}, 40)
				g.feat("annots")
			}
			if g.p(20) {
				nd.d["Group"] = Dict{"S": Name("Transparency"), "CS": Name("DeviceRGB"), "I": true}
			}
			if g.p(15) && !opt.Plain {
				nd.d["PieceInfo"] = Dict{"Contents": g.str(), "Resources": Dict{"Font": g.str()}, "Kids": Arr{int64(1), nil, Name("MediaBox")}}
				g.feat("decoy-keys")
			}
			if g.p(5) && !opt.Plain { // a name that is a key elsewhere
				nd.d["PZ"] = Name([]string{"Contents", "Resources", "MediaBox", "Parent", "Kids", "Pages", "Annots", "Rotate", "CropBox"}[r.Intn(9)])
				g.feat("key-like-names")
			}
			if g.p(10) {
				nd.d["StructParents"] = int64(r.Intn(9))
			}
			return 1
		}
		n := 0
		var kids Arr
		for _, k := range nd.kids {
			h, rs := hasMB, res
			if !k.leaf && deep && h && g.p(85) {
				// inherits everything
			} else if !k.leaf {
				if !h || g.p(20) {
					kk := base
					if !opt.SameSize {
						kk = r.Intn(len(sizes))
					}
					k.d["MediaBox"] = mb(kk)
					h = true
				}
				if g.p(20) {
					rs = g.resources()
					k.d["Resources"] = rs.val
				}
				if g.p(20) {
					k.d["Rotate"] = g.indirect(int64(90 * r.Intn(4)))
					g.feat("inherited-rotate")
				}
				if g.p(15) {
					k.d["CropBox"] = g.maybeRef(Arr{int64(5), int64(6), 85.25, int64(77)}, 20)
					g.feat("inherited-cropbox")
				}
			}
			n += finish(k, nd, h, rs)
			kids = append(kids, k.ref)
		}
		if g.p(3) && !opt.Plain { // a branch without pages
			g.feat("empty-branch")
			e := g.add(Dict{"Type": Name("Pages"), "Parent": nd.ref, "Count": int64(0), "Kids": Arr{}})
			k := r.Intn(len(kids) + 1)
			kids = append(kids[:k:k], append(Arr{e}, kids[k:]...)...)
		}
		if g.p(4) && !opt.Plain {
			nd.d["PZ"] = Name([]string{"Count", "Kids", "Parent", "Page", "MediaBox", "Resources"}[r.Intn(6)])
			g.feat("key-like-names")
		}
		if g.p(4) && !opt.Plain {
			for _, k := range []Name{"Resources", "Rotate", "CropBox"} {
				if _, have := nd.d[k]; !have && g.p(50) {
					nd.d[k] = nil
					g.feat("null-entries")
				}
			}
		}
		nd.d["Count"] = g.indirect(int64(n))
		nd.d["Kids"] = kids
		if g.p(10) && !opt.Plain {
			nd.d["Kids"] = g.add(kids)
		}
		return n
	}
	var r0 *genRes
	if rootRes {
		r0 = sharedRes
	}
	finish(root, nil, rootMB, r0)
	cd := g.objs[cat.N].(Dict)
	cd["Type"] = Name("Catalog")
	cd["Pages"] = rootPages
	if g.p(4) && !opt.Plain {
		cd["PZ"] = Name([]string{"Pages", "Page", "Kids"}[r.Intn(3)])
		g.feat("key-like-names")
	}
	if g.p(25) {
		cd["PageMode"] = Name("UseOutlines")
		o := g.add(Dict{})
		it := g.add(Dict{"Title": g.indirect(g.str()), "Parent": o, "Dest": Arr{leaves[0].ref, Name("XYZ"), nil, int64(5), nil}})
		od := g.objs[o.N].(Dict)
		od["Type"], od["First"], od["Last"], od["Count"] = Name("Outlines"), it, it, int64(1)
		cd["Outlines"] = o
	}
	if g.p(15) {
		cd["AcroForm"] = Dict{"Fields": Arr{}, "DA": Str("/Helv 0 Tf 0 g "), "DR": Dict{"Font": Dict{"Helv": g.maybeRef(g.fontObj(), 50)}}}
	}
	if g.p(20) {
		cd["Metadata"] = g.stream(Dict{"Type": Name("Metadata"), "Subtype": Name("XML")}, g.ragged([]byte("<x:xmpmeta>"+oddStrings[r.Intn(4)]+"</x:xmpmeta>")))
	}
	if g.p(15) {
		cd["Lang"] = g.indirect(Str("th-TH"))
	}
	if g.p(3) && !opt.Plain && !g.inner { // a document attached as it is
		in := &pdfGen{r: r, opt: tmplOpt{MaxPages: 3}, feats: map[string]bool{}, inner: true}
		data := in.doc().Data
		f := g.add(&Stream{D: Dict{"Type": Name("EmbeddedFile"), "Length": int64(len(data))}, Raw: data})
		cd["Names"] = Dict{"EmbeddedFiles": Dict{"Names": Arr{Str("a.pdf"), g.add(Dict{"Type": Name("Filespec"), "F": Str("a.pdf"), "EF": Dict{"F": f}})}}}
		g.feat("attached-pdf")
	}
	for k := 0; k < r.Intn(3); k++ { // unreferenced objects
		g.add(Dict{"Note": g.str()})
	}
	info := Ref{}
	if g.p(30) {
		info = g.add(Dict{"Producer": g.str(), "Title": Str("t")})
	}
	tm := g.serialize(cat, info)
	tm.NPage = np
	return tm
}

func writeName(n Name) string {
	var b strings.Builder
	b.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c <= ' ' || c > '~' || isDelim(c) || c == '#' {
			fmt.Fprintf(&b, "#%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// name writes a name; bytes above 126 may stand in it as they are.
func (g *pdfGen) name(n Name) string {
	s := writeName(n)
	if g.opt.Plain || !g.rawNames {
		return s
	}
	for i := 0; i < len(n); i++ {
		if n[i] > 126 {
			s = strings.ReplaceAll(s, fmt.Sprintf("#%02X", n[i]), string([]byte{n[i]}))
			g.feat("raw-high-bytes")
		}
	}
	return s
}

// rawTok is a number in a form of its own.
type rawTok string

// numForm writes a number in one of the forms the format allows.
func (g *pdfGen) numForm(v float64) interface{} {
	if g.opt.Plain || !g.p(25) {
		if v == float64(int64(v)) {
			return int64(v)
		}
		return v
	}
	g.feat("number-forms")
	s := fmtNum(v)
	dot := strings.Contains(s, ".")
	switch g.r.Intn(4) {
	case 0:
		if v >= 0 {
			s = "+" + s
		}
	case 1:
		if !dot {
			s += "."
		}
	case 2:
		if !dot {
			s += ".000"
		} else {
			s += "00"
		}
	case 3:
		if v == 0 {
			s = ".0"
		} else if v > 0 {
			s = "00" + s
		}
	}
	return rawTok(s)
}

func (g *pdfGen) sp() string {
	if g.opt.Plain {
		return " "
	}
	switch g.r.Intn(14) {
	case 0:
		return "\n"
	case 1:
		return "\r\n"
	case 2:
		return "  "
	case 3:
		return "\t"
	case 4:
		if g.r.Intn(6) == 0 {
			g.feat("comments")
			return " % note >> endobj (\n"
		}
		return "\r"
	}
	return " "
}

func (g *pdfGen) write(b *bytes.Buffer, v interface{}, ids map[int]int) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprint(b, x)
	case int64:
		b.WriteString(fmt.Sprint(x))
	case float64:
		b.WriteString(fmtNum(x))
	case Name:
		b.WriteString(g.name(x))
	case rawTok:
		b.WriteString(string(x))
	case Ref:
		fmt.Fprintf(b, "%d 0 R", ids[x.N])
	case Str:
		if g.r.Intn(4) == 0 {
			b.WriteByte('<')
			for i, c := range x {
				if i == len(x)-1 && c&15 == 0 && g.r.Intn(2) == 0 { // the last digit may be left out when it is 0
					fmt.Fprintf(b, "%x", c>>4)
					g.feat("odd-hex")
				} else if g.r.Intn(2) == 0 {
					fmt.Fprintf(b, "%02x", c)
				} else {
					fmt.Fprintf(b, "%02X", c)
				}
				if i%20 == 19 && !g.opt.Plain {
					b.WriteString("\n")
				}
			}
			b.WriteByte('>')
			return
		}
		b.WriteByte('(')
		bal := true
		dp := 0
		for _, c := range x {
			if c == '(' {
				dp++
			} else if c == ')' {
				dp--
				if dp < 0 {
					bal = false
				}
			}
		}
		bal = bal && dp == 0 && g.r.Intn(2) == 0
		for i, c := range x {
			next := byte(')')
			if i+1 < len(x) {
				next = x[i+1]
			}
			if g.r.Intn(40) == 0 { // a line that goes on
				b.WriteString([]string{"\\\n", "\\\r\n", "\\\r"}[g.r.Intn(2+b2i(c != '\n'))])
				g.feat("continued-line")
			}
			octal := c < 32 && c != '\n' && c != '\r' || c > 126 && g.r.Intn(2) == 0 || g.r.Intn(40) == 0 && c != '(' && c != ')'
			switch {
			case octal && (next < '0' || next > '7') && g.r.Intn(2) == 0:
				fmt.Fprintf(b, "\\%o", c) // as few digits as it takes
				g.feat("short-octal")
			case octal:
				fmt.Fprintf(b, "\\%03o", c)
			case (c == '(' || c == ')') && !bal, c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\r':
				b.WriteString("\\r")
			case c == '\n' && g.r.Intn(2) == 0:
				b.WriteString("\\n")
			case c == '\n' && g.r.Intn(2) == 0 && next != '\n':
				b.WriteString([]string{"\r\n", "\r"}[g.r.Intn(2)])
				g.feat("cr-in-string")
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte(')')
	case Arr:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 || g.r.Intn(2) == 0 {
				b.WriteString(g.sp())
			}
			g.write(b, e, ids)
		}
		if g.r.Intn(2) == 0 {
			b.WriteString(g.sp())
		}
		b.WriteString("]")
	case Dict:
		b.WriteString("<<")
		var ks []string
		for k := range x {
			ks = append(ks, string(k))
		}
		sort.Strings(ks)
		g.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for i, k := range ks {
			if i > 0 || g.r.Intn(2) == 0 {
				b.WriteString(g.sp())
			}
			b.WriteString(g.name(Name(k)))
			e := x[Name(k)]
			tight := false
			switch e.(type) {
			case Name, Arr, Dict, Str:
				tight = g.r.Intn(3) == 0
			}
			if !tight {
				b.WriteString(g.sp())
			}
			g.write(b, e, ids)
		}
		if g.r.Intn(2) == 0 {
			b.WriteString(g.sp())
		}
		b.WriteString(">>")
	default:
		panic(fmt.Sprintf("write %T", v))
	}
}

func (g *pdfGen) serialize(cat, info Ref) *genTmpl {
	n := len(g.objs) - 1
	ids := map[int]int{}
	style := g.r.Intn(4)
	perm := g.r.Perm(n)
	next := 1
	for i := 0; i < n; i++ {
		li := i + 1
		if style == 1 || style == 2 {
			li = perm[i] + 1
		}
		if style >= 2 && g.r.Intn(5) == 0 {
			next += 1 + g.r.Intn(4)
			g.feat("id-gaps")
		}
		ids[li] = next
		next++
	}
	if g.p(6) {
		ids[n] = next + 500 + g.r.Intn(500)
		if g.p(g.opt.HugeID) {
			ids[n] = 65530 + g.r.Intn(20)
			if g.p(30) {
				ids[n] += 1 << 16
			}
			g.feat("huge-id")
			if g.p(60) { // not only one object, and not only the last one
				next = ids[n] + 1
				for li := 1; li < n; li++ {
					if g.p(40) {
						ids[li] = next
						next++
					}
				}
				ids[n] = next
			}
		}
		next = ids[n] + 1
		g.feat("high-id")
	}
	var b bytes.Buffer
	b.WriteString([]string{"%PDF-1.4\n", "%PDF-1.7\r\n%\xe2\xe3\xcf\xd3\r\n", "%PDF-1.5\n%\xb5\xb5\xb5\xb5\n\n"}[g.r.Intn(3)])
	off := map[int]int{}
	oddHead := !g.opt.Plain && g.p(12)
	writeObj := func(li int) {
		id := ids[li]
		off[id] = b.Len()
		hs := [2]string{" ", " "}
		if oddHead && g.p(30) {
			for i := range hs {
				hs[i] = []string{"\n", "\r", "\t", " "}[g.r.Intn(4)]
			}
			g.feat("odd-object-heads")
		}
		fmt.Fprintf(&b, "%d%s0%sobj", id, hs[0], hs[1])
		b.WriteString([]string{"\n", "\r\n", " ", ""}[g.r.Intn(4)])
		v := g.objs[li]
		switch v.(type) {
		case int64, nil, bool, float64:
			b.WriteString("\n")
		}
		if st, ok := v.(*Stream); ok {
			g.write(&b, st.D, ids)
			b.WriteString([]string{"\n", "", "\r\n", " "}[g.r.Intn(4)])
			b.WriteString([]string{"stream\n", "stream\r\n"}[g.r.Intn(2)])
			b.Write(st.Raw)
			b.WriteString([]string{"\nendstream", "\r\nendstream", "\nendstream", "endstream"}[g.r.Intn(4)])
		} else {
			g.write(&b, v, ids)
		}
		b.WriteString([]string{"\nendobj\n", "\r\nendobj\r\n", "\nendobj\n\n"}[g.r.Intn(3)])
		if !g.opt.Plain && g.r.Intn(60) == 0 {
			fmt.Fprintf(&b, "%% %d 0 obj << /Type /Page >> endobj %d\n", id, id+1)
			g.feat("comments-between-objects")
		}
	}
	order := g.r.Perm(n)
	if g.p(50) {
		sort.Ints(order)
	}
	// revisions: an object of revision k stands in the k-th update; what earlier ones hold of it is out of date
	nrev := 0
	rev := make([]int, n+1)
	if g.r.Intn(10) == 0 && !g.opt.Plain {
		nrev = 1 + g.r.Intn(3)
		g.feat("incremental-update")
		for i := 1; i <= n; i++ {
			if g.p(25) {
				rev[i] = 1 + g.r.Intn(nrev)
			}
		}
		for k := 1; k <= nrev; k++ {
			rev[1+g.r.Intn(n)] = k
		}
	}
	stale := func(v interface{}) interface{} {
		switch x := v.(type) {
		case Dict:
			d := Dict{}
			for k, e := range x {
				d[k] = e
				if a, ok := e.(Arr); ok && k != "Kids" && g.p(40) {
					d[k] = append(append(Arr{}, a...), int64(7))
				}
			}
			if d["MediaBox"] != nil {
				d["MediaBox"] = Arr{int64(0), int64(0), int64(77), int64(88)}
			}
			if g.p(30) {
				delete(d, "Contents")
			}
			if g.p(30) {
				d["Annots"] = Arr{}
			}
			d["Old"] = Str("old")
			if g.r.Intn(12) == 0 { // more of it than there is now
				d["Old"] = Str(strings.Repeat("older and longer ", 60+g.r.Intn(600)))
			}
			return d
		case *Stream:
			d := Dict{}
			for k, e := range x.D {
				d[k] = e
			}
			raw := []byte("1 0 0 rg 7 7 70 70 re f\n")
			if g.r.Intn(12) == 0 {
				raw = bytes.Repeat(raw, 30+g.r.Intn(600))
			}
			delete(d, "Filter")
			d["Length"] = int64(len(raw))
			return &Stream{D: d, Raw: raw}
		case int64:
			return x + 1
		}
		return v
	}
	if nrev == 0 && g.r.Intn(20) == 0 && !g.opt.Plain {
		return g.linear(&b, ids, off, order, next, cat, info, writeObj)
	}
	var written []int
	for _, o := range order {
		if li := o + 1; rev[li] == 0 {
			writeObj(li)
			written = append(written, ids[li])
		} else if g.p(80) {
			v := g.objs[li]
			g.objs[li] = stale(v)
			writeObj(li)
			g.objs[li] = v
			written = append(written, ids[li])
		}
	}
	xrefAt := func(cov []int) int {
		pos := b.Len()
		eol := []string{"\n", "\r\n", "\n"}[g.r.Intn(3)]
		b.WriteString("xref" + eol)
		sort.Ints(cov)
		for i := 0; i < len(cov); {
			j := i
			for j+1 < len(cov) && cov[j+1] == cov[j]+1 {
				j++
			}
			fmt.Fprintf(&b, "%d %d%s%s", cov[i], j-i+1, []string{"", "", " "}[g.r.Intn(3)], eol)
			for ; i <= j; i++ {
				if o, ok := off[cov[i]]; ok {
					fmt.Fprintf(&b, "%010d 00000 n%s", o, []string{" \n", "\r\n", " \r"}[g.r.Intn(2)])
				} else {
					fmt.Fprintf(&b, "%010d 65535 f \n", 0)
				}
			}
		}
		return pos
	}
	trailer := func(prev int, pos int) {
		t := Dict{"Size": int64(next), "Root": cat}
		if info.N != 0 {
			t["Info"] = info
		}
		if prev >= 0 {
			t["Prev"] = int64(prev)
		}
		if g.p(30) {
			t["ID"] = Arr{Str("abc\x00("), Str("abd)")}
		}
		b.WriteString([]string{"trailer\n", "trailer\r\n", "trailer", "trailer "}[g.r.Intn(4)])
		g.write(&b, t, ids)
		eol := []string{"\n", "\r\n", "\n"}[g.r.Intn(3)]
		fmt.Fprintf(&b, "%sstartxref%s%d%s%%%%EOF%s", eol, eol, pos, eol, []string{eol, "", eol + eol}[g.r.Intn(2+b2i(nrev == 0))])
	}
	var cov []int
	if g.p(50) || g.opt.Plain {
		for i := 0; i < next; i++ {
			cov = append(cov, i)
		}
	} else {
		cov = append(cov, 0)
		cov = append(cov, written...)
		g.feat("xref-subsections")
	}
	pos := xrefAt(cov)
	trailer(-1, pos)
	for k := 1; k <= nrev; k++ {
		if b.Bytes()[b.Len()-1] != '\n' {
			b.WriteString("\n")
		}
		var cov []int
		for _, o := range order {
			li := o + 1
			if rev[li] == k {
				writeObj(li)
				cov = append(cov, ids[li])
			} else if rev[li] > k && g.p(20) {
				v := g.objs[li]
				g.objs[li] = stale(v)
				writeObj(li)
				g.objs[li] = v
				cov = append(cov, ids[li])
			}
		}
		if g.p(30) {
			cov = append(cov, 0)
		}
		p2 := xrefAt(cov)
		trailer(pos, p2)
		pos = p2
	}
	return g.done(b.Bytes())
}

func (g *pdfGen) done(data []byte) *genTmpl {
	var fs []string
	for f := range g.feats {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return &genTmpl{Data: data, Feats: fs}
}

// linear lays the file out as a linearized one: the first table stands before the objects, the
// older one it refers to at the end of the file, and the last startxref names the first table.
func (g *pdfGen) linear(b *bytes.Buffer, ids, off map[int]int, order []int, next int, cat, info Ref, writeObj func(int)) *genTmpl {
	g.feat("linearized")
	from := 1 + g.r.Intn(next) // objects from here on are in the first table
	var low, high []int
	for _, o := range order {
		if id := ids[o+1]; id >= from {
			high = append(high, id)
		} else {
			low = append(low, id)
		}
	}
	sort.Ints(low)
	sort.Ints(high)
	eol := []string{"\n", "\r\n"}[g.r.Intn(2)]
	table := func(cov []int) string {
		var t bytes.Buffer
		t.WriteString("xref" + eol)
		if len(cov) == 0 {
			fmt.Fprintf(&t, "%d 0%s", from, eol)
		}
		for i := 0; i < len(cov); {
			j := i
			for j+1 < len(cov) && cov[j+1] == cov[j]+1 {
				j++
			}
			fmt.Fprintf(&t, "%d %d%s", cov[i], j-i+1, eol)
			for ; i <= j; i++ {
				if cov[i] == 0 {
					t.WriteString("0000000000 65535 f\r\n")
				} else {
					fmt.Fprintf(&t, "%010d 00000 n\r\n", off[cov[i]])
				}
			}
		}
		return t.String()
	}
	first := b.Len()
	b.WriteString(table(high)) // offsets are filled in below
	t := Dict{"Size": int64(next), "Root": cat, "Prev": rawTok("@@@@@@@@@@")}
	if info.N != 0 {
		t["Info"] = info
	}
	b.WriteString("trailer" + eol)
	g.write(b, t, ids)
	b.WriteString(eol + "startxref" + eol + "0" + eol + "%%EOF" + eol)
	for _, o := range order {
		writeObj(o + 1)
	}
	pos := b.Len()
	b.WriteString(table(append([]int{0}, low...)))
	t = Dict{"Size": int64(from)}
	if g.p(50) {
		t = Dict{"Size": int64(next), "Root": cat}
	}
	b.WriteString("trailer" + eol)
	g.write(b, t, ids)
	fmt.Fprintf(b, "%sstartxref%s%d%s%%%%EOF%s", eol, eol, first, eol, eol)
	data := bytes.Replace(b.Bytes(), []byte("@@@@@@@@@@"), []byte(fmt.Sprintf("%010d", pos)), 1)
	copy(data[first:], table(high))
	return g.done(data)
}
