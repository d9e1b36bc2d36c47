package main

// C20: documents made from scratch with the generator package.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	gopdf "github.com/signintech/pdft/minigopdf"
)

type gItem struct {
	Kind    string // glyph, line, rect, path, image, border
	Desc    string
	Glyph   int
	Rune    rune
	Font    *mFont
	Family  string
	Size    int
	X, Y    float64
	Fill    *[3]float64 // nil: not checked
	Stroke  [3]float64
	LW      float64
	Dash    string
	Pts     [][2]float64
	Ptol    float64
	Raw     string
	W, H    float64
	NatSize bool
	First   bool
	Img     *genImage
	Sides   int
	TolX    float64
}

type gPage struct {
	W, H  float64
	Under float64 // total width of underlined texts
	Items []gItem
}

type gFont struct {
	fam   string
	style int
	f     *mFont
	kern  bool
}

// genState is the model of a generator session.
type genState struct {
	imgPaths   int
	r          *rand.Rand
	gp         *gopdf.GoPdf
	pages      []*gPage
	cfgW, cfgH float64
	x, y       float64
	left, top  float64
	font       *gFont
	size       int
	under      bool
	txt        [3]int
	fill       *[3]float64
	stroke     [3]float64
	lw         float64
	lwSet      float64
	dash       string
	fonts      []*gFont
	imgs       []*genImage
	srcs       []*fontSrc
	useUnder   bool
	nUnder     int
	anyUnder   bool
	ops        []string
	dir        string
	seenImg    map[*genImage]bool
	lastOpt    *gopdf.CellOption
}

func (s *genState) pg() *gPage { return s.pages[len(s.pages)-1] }

func (s *genState) op(f string, a ...interface{}) {
	o := fmt.Sprintf(f, a...)
	s.ops = append(s.ops, o)
}

func (s *genState) add(it gItem) {
	p := s.pg()
	it.Stroke, it.LW, it.Dash = s.stroke, s.lw, s.dash
	if it.Desc == "" && len(s.ops) > 0 {
		it.Desc = s.ops[len(s.ops)-1]
	}
	p.Items = append(p.Items, it)
}

// addText appends the glyphs of a text starting at x with the baseline at y (PDF space).
func (s *genState) addText(text string, x, y float64) float64 {
	f := s.font.f
	f.use(text)
	adj := f.adjusts(text)
	if !s.font.kern {
		for i := range adj {
			adj[i] = 0
		}
	}
	sum := 0
	i := 0
	var col *[3]float64
	if s.txt != [3]int{} {
		col = &[3]float64{float64(s.txt[0]) / 255, float64(s.txt[1]) / 255, float64(s.txt[2]) / 255}
	}
	for _, r := range text {
		g, _ := f.src.T.Glyph(r)
		sum += adj[i]
		s.add(gItem{Kind: "glyph", Glyph: g, Rune: r, Font: f, Family: s.font.fam, Size: s.size, X: x + float64(sum)*float64(s.size)/1000, Y: y, Fill: col})
		sum += f.src.T.PdfW(g)
		i++
	}
	if col != nil {
		s.fill = nil // text leaves its colour behind
	}
	if s.under {
		s.nUnder++
		s.anyUnder = true
	}
	return float64(sum) * float64(s.size) / 1000
}

func (s *genState) text() string {
	t := genText(s.r, s.font.f.src, false)
	if chance(s.r, 3) {
		t = ""
	}
	if s.font.f.textErr(t) {
		return "A"
	}
	return t
}

func rnd2(r *rand.Rand, max float64) float64 { return math.Round(r.Float64()*max*100) / 100 }

// step performs one drawing call on both sides.
func (s *genState) step(t *T) bool {
	r := s.r
	gp := s.gp
	ph := s.pg().H
	bad := func(err error, what string) bool {
		if err != nil {
			t.fail("%s: %v", what, err)
			return true
		}
		return false
	}
	switch r.Intn(24) {
	case 0:
		if chance(r, 40) {
			w, h := 50+rnd2(r, 900), 50+rnd2(r, 900)
			s.op("AddPageWithOption(%vx%v)", w, h)
			gp.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: w, H: h}})
			s.newPage(w, h)
		} else {
			s.op("AddPage")
			gp.AddPage()
			s.newPage(s.cfgW, s.cfgH)
		}
	case 1, 2:
		return s.setFont(t)
	case 3, 4, 5, 6:
		if s.font == nil {
			if err := gp.Text("x"); err == nil {
				t.fail("Text without a font is accepted")
				return false
			}
			if _, err := gp.MeasureTextWidth("x"); err == nil {
				t.fail("MeasureTextWidth without a font is accepted")
				return false
			}
			return s.checkXY(t, "Text without a font")
		}
		if chance(r, 70) || s.font.kern {
			s.moveX()
		}
		if chance(r, 50) {
			s.y = rnd2(r, 700)
			s.op("SetY(%v)", s.y)
			gp.SetY(s.y)
		}
		tx := s.text()
		s.op("Text(%q) at %v,%v", clip(tx), s.x, s.y)
		mw, err := gp.MeasureTextWidth(tx)
		if bad(err, "MeasureTextWidth") || bad(gp.Text(tx), "Text") {
			return false
		}
		w := s.addText(tx, s.x, ph-s.y)
		if math.Abs(mw-w) > 1e-6 {
			t.fail("MeasureTextWidth(%q) = %v, the font gives %v", clip(tx), mw, w)
			return false
		}
		if s.under {
			s.pg().Under += math.Abs(w)
		}
		s.x += w
		return s.checkXY(t, "Text")
	case 7, 8, 9:
		if s.font == nil {
			if err := gp.Cell(nil, "x"); err == nil {
				t.fail("Cell without a font is accepted")
				return false
			}
			return true
		}
		if chance(r, 55) || s.font.kern { // cells go on where the last one ended otherwise
			s.moveX()
		}
		if chance(r, 50) {
			s.y = rnd2(r, 700)
			s.op("SetY(%v)", s.y)
			gp.SetY(s.y)
		}
		tx := s.text()
		var rect *gopdf.Rect
		if chance(r, 60) {
			rect = &gopdf.Rect{W: rnd2(r, 200), H: rnd2(r, 60)}
		}
		opt := gopdf.CellOption{Align: aLeft | aTop, Float: gopdf.Right}
		if chance(r, 70) {
			opt.Align = genAlign(r)
			if chance(r, 60) {
				opt.Border = []int{0, gopdf.Left, gopdf.Right, gopdf.Top, gopdf.Bottom, gopdf.Left | gopdf.Bottom, 15}[r.Intn(7)]
			}
			opt.Float = []int{0, gopdf.Right, gopdf.Bottom, gopdf.Right | gopdf.Bottom}[r.Intn(4)]
			if s.lastOpt != nil && chance(r, 40) {
				opt = *s.lastOpt
				if chance(r, 50) {
					opt.Border = 0
				}
			}
			s.lastOpt = &gopdf.CellOption{Align: opt.Align, Border: opt.Border, Float: opt.Float}
			s.op("CellWithOption(%v,%q,%+v) at %v,%v", rect, clip(tx), opt, s.x, s.y)
			if bad(gp.CellWithOption(rect, tx, opt), "CellWithOption") {
				return false
			}
		} else {
			s.op("Cell(%v,%q) at %v,%v", rect, clip(tx), s.x, s.y)
			if bad(gp.Cell(rect, tx), "Cell") {
				return false
			}
		}
		T := s.font.f.src.T
		asc, desc := T.typo(T.TypoAsc, float64(s.size)), T.typo(T.TypoDesc, float64(s.size))
		// width first, to know where it starts
		keep := len(s.pg().Items)
		tw := s.addText(tx, 0, 0)
		cw, ch := tw, asc-desc
		if rect != nil {
			cw, ch = rect.W, rect.H
			rect.W, rect.H = 4321, 1234 // the caller's rectangle is its own
		}
		if s.under {
			s.pg().Under += math.Abs(cw)
		}
		x0 := s.x
		if opt.Align&aRight != 0 {
			x0 = s.x + cw - tw
		} else if opt.Align&aCenter != 0 {
			x0 = s.x + cw/2 - tw/2
		}
		var y0 float64
		switch {
		case opt.Align&aBottom != 0:
			y0 = ph - s.y - ch - desc
		case opt.Align&aMiddle != 0:
			y0 = ph - s.y - ch/2 - (asc+desc)/2
		default:
			y0 = ph - s.y - asc
		}
		for i := keep; i < len(s.pg().Items); i++ {
			s.pg().Items[i].X += x0
			s.pg().Items[i].Y = y0
		}
		yt, yb := ph-s.y, ph-s.y-ch
		lt := s.lwSet/2 + 0.02
		if opt.Border&gopdf.Top != 0 {
			s.add(gItem{Kind: "line", Pts: [][2]float64{{s.x, yt}, {s.x + cw, yt}}, TolX: lt})
		}
		if opt.Border&gopdf.Left != 0 {
			s.add(gItem{Kind: "line", Pts: [][2]float64{{s.x, yt}, {s.x, yb}}, TolX: 0.02})
		}
		if opt.Border&gopdf.Right != 0 {
			s.add(gItem{Kind: "line", Pts: [][2]float64{{s.x + cw, yt}, {s.x + cw, yb}}, TolX: 0.02})
		}
		if opt.Border&gopdf.Bottom != 0 {
			s.add(gItem{Kind: "line", Pts: [][2]float64{{s.x, yb}, {s.x + cw, yb}}, TolX: lt})
		}
		if opt.Float == 0 || opt.Float&gopdf.Right != 0 {
			s.x += cw
		}
		if opt.Float&gopdf.Bottom != 0 {
			s.y += ch
		}
		return s.checkXY(t, "Cell")
	case 10, 11:
		x1, y1, x2, y2 := coord(r), coord(r), coord(r), coord(r)
		s.op("Line(%v,%v,%v,%v)", x1, y1, x2, y2)
		gp.Line(x1, y1, x2, y2)
		s.add(gItem{Kind: "line", Pts: [][2]float64{{x1, ph - y1}, {x2, ph - y2}}})
	case 12, 13:
		x, y, w, h := coord(r), coord(r), rnd2(r, 300), rnd2(r, 300)
		style := []string{"", "D", "F", "DF", "FD"}[r.Intn(5)]
		if s.useUnder {
			style = []string{"", "D"}[r.Intn(2)]
		}
		op := map[string]string{"": "S", "D": "S", "F": "f", "DF": "B", "FD": "B"}[style]
		it := gItem{Kind: "rect", Raw: "R " + op, Fill: s.fill}
		switch {
		case style == "" && chance(r, 50):
			if chance(r, 50) {
				s.op("RectFromLowerLeft(%v,%v,%v,%v)", x, y, w, h)
				gp.RectFromLowerLeft(x, y, w, h)
				it.Pts = [][2]float64{{x, ph - y}, {x + w, ph - y + h}}
			} else {
				s.op("RectFromUpperLeft(%v,%v,%v,%v)", x, y, w, h)
				gp.RectFromUpperLeft(x, y, w, h)
				it.Pts = [][2]float64{{x, ph - y - h}, {x + w, ph - y}}
			}
		case chance(r, 50):
			s.op("RectFromLowerLeftWithStyle(%v,%v,%v,%v,%q)", x, y, w, h, style)
			gp.RectFromLowerLeftWithStyle(x, y, w, h, style)
			it.Pts = [][2]float64{{x, ph - y}, {x + w, ph - y + h}}
		default:
			s.op("RectFromUpperLeftWithStyle(%v,%v,%v,%v,%q)", x, y, w, h, style)
			gp.RectFromUpperLeftWithStyle(x, y, w, h, style)
			it.Pts = [][2]float64{{x, ph - y - h}, {x + w, ph - y}}
		}
		s.add(it)
	case 14:
		x1, y1 := rnd2(r, 400), rnd2(r, 400)
		x2, y2 := x1+rnd2(r, 200), y1+rnd2(r, 200)
		s.op("Oval(%v,%v,%v,%v)", x1, y1, x2, y2)
		gp.Oval(x1, y1, x2, y2)
		k := 0.5522847
		cx, cy, rx, ry := (x1+x2)/2, ph-(y1+y2)/2, (x2-x1)/2, (y2-y1)/2
		s.add(gItem{Kind: "path", Raw: "mcccc S", Ptol: 0.02 + 0.001*math.Max(rx, ry), Pts: [][2]float64{
			{cx, cy - ry}, {cx + k*rx, cy - ry}, {cx + rx, cy - k*ry}, {cx + rx, cy}, {cx + rx, cy + k*ry}, {cx + k*rx, cy + ry}, {cx, cy + ry},
			{cx - k*rx, cy + ry}, {cx - rx, cy + k*ry}, {cx - rx, cy}, {cx - rx, cy - k*ry}, {cx - k*rx, cy - ry}, {cx, cy - ry}}})
	case 15:
		var p [8]float64
		for i := range p {
			p[i] = coord(r)
		}
		style := []string{"", "D", "F", "DF", "FD", "f", " d "}[r.Intn(7)]
		op := map[string]string{"": "S", "D": "S", "F": "f", "DF": "B", "FD": "B"}[strings.ToUpper(strings.TrimSpace(style))]
		s.op("Curve(%v,%q)", p, style)
		gp.Curve(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], style)
		s.add(gItem{Kind: "path", Raw: "mc " + op, Fill: s.fill, Pts: [][2]float64{{p[0], ph - p[1]}, {p[2], ph - p[3]}, {p[4], ph - p[5]}, {p[6], ph - p[7]}}})
	case 16, 17, 18:
		i := r.Intn(len(s.imgs))
		img := s.imgs[i]
		x, y := coord(r), coord(r)
		var rect *gopdf.Rect
		w, h := rnd2(r, 200), rnd2(r, 200)
		if chance(r, 85) {
			rect = &gopdf.Rect{W: w, H: h}
		}
		var err error
		switch r.Intn(3) {
		case 0:
			s.op("Image(file of img#%d) at %v,%v %v", i, x, y, rect)
			fp := filepath.Join(s.dir, fmt.Sprintf("img%d", i&s.imgPaths)) // some files are rewritten
			must(os.WriteFile(fp, img.Data, 0644))
			err = gp.Image(fp, x, y, rect)
		case 1:
			s.op("ImageByHolder(bytes of img#%d) at %v,%v %v", i, x, y, rect)
			b := append([]byte(nil), img.Data...)
			hd, e := gopdf.ImageHolderByBytes(b)
			if bad(e, "ImageHolderByBytes") {
				return false
			}
			for k := range b {
				b[k] ^= 0x3c // the caller's buffer is its own
			}
			err = gp.ImageByHolder(hd, x, y, rect)
		default:
			s.op("ImageByHolder(reader of img#%d) at %v,%v %v", i, x, y, rect)
			hd, e := gopdf.ImageHolderByReader(imgReader(r, img.Data))
			if bad(e, "ImageHolderByReader") {
				return false
			}
			err = gp.ImageByHolder(hd, x, y, rect)
		}
		if bad(err, "image "+img.Desc) {
			return false
		}
		s.add(gItem{Kind: "image", Img: img, X: x, Y: ph - y, W: w, H: h, NatSize: rect == nil, First: !s.seenImg[img]})
		if rect != nil {
			rect.W, rect.H = 4321, 1234
		}
		s.seenImg[img] = true
	case 19:
		switch r.Intn(6) {
		case 0:
			s.lw = rnd2(r, 6)
			s.lwSet = s.lw
			s.op("SetLineWidth(%v)", s.lw)
			gp.SetLineWidth(s.lw)
		case 1:
			lt := []string{"dashed", "dotted", "solid", ""}[r.Intn(4)]
			s.op("SetLineType(%q)", lt)
			gp.SetLineType(lt)
			s.dash = map[string]string{"dashed": "[5] 2", "dotted": "[2 3] 11"}[lt]
		case 2:
			g := rnd2(r, 1.4) - 0.2
			s.op("SetGrayFill(%v)", g)
			gp.SetGrayFill(g)
			g = math.Max(0, math.Min(1, g))
			s.fill = &[3]float64{g, g, g}
		case 3:
			g := rnd2(r, 1.4) - 0.2
			s.op("SetGrayStroke(%v)", g)
			gp.SetGrayStroke(g)
			g = math.Max(0, math.Min(1, g))
			s.stroke = [3]float64{g, g, g}
		case 4:
			c := [3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
			s.op("SetFillColor%v", c)
			gp.SetFillColor(uint8(c[0]), uint8(c[1]), uint8(c[2]))
			s.fill = &[3]float64{float64(c[0]) / 255, float64(c[1]) / 255, float64(c[2]) / 255}
		case 5:
			c := [3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
			s.op("SetStrokeColor%v", c)
			gp.SetStrokeColor(uint8(c[0]), uint8(c[1]), uint8(c[2]))
			s.stroke = [3]float64{float64(c[0]) / 255, float64(c[1]) / 255, float64(c[2]) / 255}
		}
	case 20:
		c := [3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
		if chance(r, 30) {
			c = [3]int{}
		} else if chance(r, 50) { // only one component changes
			k := r.Intn(3)
			v := c[k]
			c = s.txt
			c[k] = v
		}
		s.op("SetTextColor%v", c)
		gp.SetTextColor(uint8(c[0]), uint8(c[1]), uint8(c[2]))
		s.txt = c
	case 21:
		h := rnd2(r, 40)
		s.op("Br(%v)", h)
		gp.Br(h)
		s.y += h
		s.x = s.left
		return s.checkXY(t, "Br")
	case 22:
		// things that fail and must leave nothing behind
		switch r.Intn(4) {
		case 0:
			if err := gp.SetFont("no such family", "", 10); err == nil {
				t.fail("SetFont with an unknown family is accepted")
				return false
			}
		case 1:
			hd, e := gopdf.ImageHolderByBytes(garbage(r))
			if bad(e, "ImageHolderByBytes") {
				return false
			}
			if err := gp.ImageByHolder(hd, 1, 1, &gopdf.Rect{W: 5, H: 5}); err == nil {
				t.fail("rubbish is accepted as an image")
				return false
			}
		case 2:
			if s.font != nil && s.font.f.textErr(astral) {
				if err := gp.Text("a" + astral); err == nil {
					t.fail("a character the font cannot show is accepted")
					return false
				}
				if err := gp.Cell(&gopdf.Rect{W: 50, H: 20}, "a"+astral); err == nil {
					t.fail("a character the font cannot show is accepted")
					return false
				}
				if err := gp.CellWithOption(&gopdf.Rect{W: 50, H: 20}, astral, gopdf.CellOption{Border: gopdf.Left | gopdf.Right}); err == nil {
					t.fail("a character the font cannot show is accepted by CellWithOption")
					return false
				}
				if _, err := gp.MeasureTextWidth("a" + astral); err == nil {
					t.fail("a character the font cannot show is measured")
					return false
				}
			}
		case 3:
			if err := gp.AddTTFFontByReader("junk", bytes.NewReader(garbage(r))); err == nil {
				t.fail("rubbish is accepted as a font")
				return false
			}
			if err := gp.AddTTFFont("junk", filepath.Join(s.dir, "missing.ttf")); err == nil {
				t.fail("a missing font file is accepted")
				return false
			}
			if err := gp.AddTTFFont("junk", s.dir); err == nil {
				t.fail("a directory is accepted as a font file")
				return false
			}
			if err := gp.KernOverride("no such family", kernFn(0)); err == nil {
				t.fail("KernOverride of an unknown family is accepted")
				return false
			}
			if err := gp.Image(filepath.Join(s.dir, "missing.png"), 0, 0, nil); err == nil {
				t.fail("a missing image file is accepted")
				return false
			}
		}
		s.op("a call that fails")
		t.Obs.add("failing generator calls", 1)
		return s.checkXY(t, "a failed call")
	case 23:
		return s.addFont(t)
	}
	return true
}

func (s *genState) checkXY(t *T, after string) bool {
	if math.Abs(s.gp.GetX()-s.x) > 1e-6*math.Max(1, math.Abs(s.x)) || math.Abs(s.gp.GetY()-s.y) > 1e-6*math.Max(1, math.Abs(s.y)) {
		t.fail("after %s the position is %v,%v, expected %v,%v", after, s.gp.GetX(), s.gp.GetY(), s.x, s.y)
		return false
	}
	t.Obs.add("current positions checked", 1)
	return true
}

func (s *genState) moveX() {
	s.x = rnd2(s.r, 500)
	s.op("SetX(%v)", s.x)
	s.gp.SetX(s.x)
}

func (s *genState) newPage(w, h float64) {
	s.pages = append(s.pages, &gPage{W: w, H: h})
	s.x, s.y = s.left, s.top
	s.fill = &[3]float64{}
	s.stroke = [3]float64{}
	s.lw, s.dash = 1, ""
}

func (s *genState) addFont(t *T) bool {
	r := s.r
	if len(s.fonts) >= 5 {
		return true
	}
	names := []string{"arial", "loma", "Times New", "a", "f#1"}
	fam := names[r.Intn(len(names))]
	style := []int{0, 0, gopdf.Bold, gopdf.Italic, gopdf.Bold | gopdf.Italic}[r.Intn(5)]
	for _, f := range s.fonts {
		if f.fam == fam && f.style == style {
			return true
		}
	}
	src := s.srcs[r.Intn(len(s.srcs))]
	kern := chance(r, 40)
	gf := &gFont{fam: fam, style: style, kern: kern, f: &mFont{src: src, used: map[int]map[rune]bool{}, kern: 0, rise: -1}}
	s.op("AddTTFFontByReaderWithOption(%q, %s, kern %v style %d)", fam, src.Desc, kern, style)
	opt := gopdf.TtfOption{UseKerning: kern, Style: style}
	var err error
	if chance(r, 30) { // by path, the file is the caller's again afterwards
		fp := filepath.Join(s.dir, "font.ttf")
		if err = os.WriteFile(fp, src.Data, 0644); err == nil {
			if style == 0 && !kern {
				err = s.gp.AddTTFFont(fam, fp)
			} else {
				err = s.gp.AddTTFFontWithOption(fam, fp, opt)
			}
			os.WriteFile(fp, garbage(r), 0644)
		}
		t.Obs.add("fonts added by path", 1)
	} else if style == 0 && !kern {
		rd, _ := chunked(r, src.Data)
		err = s.gp.AddTTFFontByReader(fam, rd)
	} else {
		err = s.gp.AddTTFFontByReaderWithOption(fam, bytes.NewReader(src.Data), opt)
	}
	if err != nil {
		t.fail("adding font %s: %v", src.Desc, err)
		return false
	}
	if kern && chance(r, 50) {
		first := true
		for _, f := range s.fonts {
			if f.fam == fam {
				first = false
			}
		}
		if first {
			gf.f.kern = r.Intn(20)
			s.op("KernOverride(%q,cb%d)", fam, gf.f.kern)
			if err := s.gp.KernOverride(fam, kernFn(gf.f.kern)); err != nil {
				t.fail("KernOverride: %v", err)
				return false
			}
		}
	}
	s.fonts = append(s.fonts, gf)
	return true
}

func (s *genState) setFont(t *T) bool {
	r := s.r
	if len(s.fonts) == 0 {
		return s.addFont(t)
	}
	f := s.fonts[r.Intn(len(s.fonts))]
	st := ""
	if f.style&gopdf.Bold != 0 {
		st += "B"
	}
	if f.style&gopdf.Italic != 0 {
		st += "I"
	}
	under := s.useUnder && chance(r, 50)
	if under {
		st += "U"
	}
	size := 1 + r.Intn(40)
	s.op("SetFont(%q,%q,%d)", f.fam, st, size)
	if err := s.gp.SetFont(f.fam, st, size); err != nil {
		t.fail("SetFont(%q,%q): %v", f.fam, st, err)
		return false
	}
	s.font, s.size, s.under = f, size, under
	return true
}

func genDate(r *rand.Rand) time.Time {
	if chance(r, 15) {
		return time.Time{}
	}
	zones := []int{0, 7 * 3600, -5 * 3600, 5*3600 + 1800, -(3*3600 + 1800), 5*3600 + 2700, 14 * 3600, -1800}
	z := time.UTC
	if chance(r, 80) {
		z = time.FixedZone("z", zones[r.Intn(len(zones))])
	}
	return time.Date(1980+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(2)*500, z)
}

func utf16Hex(s string) Str {
	b := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return Str(b)
}

func runC20(t *T) {
	r := t.R
	loadCorpus()
	s := &genState{r: r, gp: &gopdf.GoPdf{}, left: 10, top: 10, lwSet: 1, dir: t.Dir, seenImg: map[*genImage]bool{}, useUnder: chance(r, 30)}
	for k := 1 + r.Intn(3); k > 0; k-- {
		s.srcs = append(s.srcs, pickFontSrc(r, 10))
	}
	nimg, more := 1+r.Intn(3), 0
	if chance(r, 5) {
		nimg, more = 9+r.Intn(9), 30+r.Intn(60)
	} else if chance(r, 2) {
		more = 100 + r.Intn(250)
	}
	if r.Intn(150) == 0 {
		nimg, more = 33+r.Intn(50), 200+r.Intn(200)
	}
	s.imgPaths = r.Intn(2) * 255
	for k := nimg; k > 0; k-- {
		s.imgs = append(s.imgs, genImg(r))
	}
	if r.Intn(2500) == 0 { // a file of more than ten million bytes
		s.imgs = append(s.imgs, fatJpeg(r))
		more, nimg = 60, 9
	}
	cfg := gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 595.28, H: 841.89}}
	if chance(r, 40) {
		cfg.PageSize = gopdf.Rect{W: 100 + rnd2(r, 900), H: 100 + rnd2(r, 900)}
	}
	s.cfgW, s.cfgH = cfg.PageSize.W, cfg.PageSize.H
	prot := chance(r, 25)
	perm, up, op := genPerm(r), genPass(r), genPass(r)
	if prot {
		cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: perm, UserPass: []byte(up), OwnerPass: []byte(op)}
	}
	gp := s.gp
	gp.Start(cfg)
	s.op("Start(%v, protection %v perm %d user %q owner %q)", cfg.PageSize, prot, perm, up, op)
	if chance(r, 30) {
		lv := []int{0, 1, 9, -1, -2, 10, 99}[r.Intn(7)]
		s.op("SetCompressLevel(%d)", lv)
		gp.SetCompressLevel(lv)
	} else if chance(r, 10) {
		s.op("SetNoCompression")
		gp.SetNoCompression()
	}
	var info *gopdf.PdfInfo
	if chance(r, 25) && !prot {
		info = &gopdf.PdfInfo{Title: "Title (1) \U0001F600", Author: genText(r, s.srcs[0], false), Subject: "ไทย", Creator: "c", Producer: "p\\", CreationDate: genDate(r)}
		if chance(r, 30) {
			info.Title = ""
		}
		gp.SetInfo(*info)
		s.op("SetInfo")
	}
	if chance(r, 30) {
		s.left, s.top = rnd2(r, 80), rnd2(r, 80)
		gp.SetLeftMargin(s.left)
		gp.SetTopMargin(s.top)
		s.op("margins %v %v", s.left, s.top)
	}
	for k := r.Intn(3); k > 0; k-- {
		if !s.addFont(t) {
			return
		}
	}
	s.op("AddPage")
	gp.AddPage()
	s.newPage(s.cfgW, s.cfgH)
	if chance(r, 80) {
		if !s.setFont(t) {
			return
		}
		if s.font == nil && !s.setFont(t) {
			return
		}
	}
	n := 3 + r.Intn(25) + more
	for i := 0; i < n; i++ {
		t.ops = s.ops
		if t.pause != nil {
			t.pause(i)
		}
		if !s.step(t) {
			t.ops = s.ops
			return
		}
		if chance(r, 4) && (more == 0 || chance(r, 10)) { // an output in between
			b, err := gp.GetBytesPdfReturnErr()
			if err != nil {
				t.fail("GetBytesPdfReturnErr: %v", err)
				return
			}
			s.op("GetBytesPdf")
			if s.verify(t, b, prot, perm, up, op, info) == nil {
				t.ops = s.ops
				return
			}
			t.Obs.add("intermediate outputs verified", 1)
		}
	}
	t.ops = s.ops
	var out []byte
	var err error
	switch r.Intn(3) {
	case 0:
		out, err = gp.GetBytesPdfReturnErr()
	case 1:
		gp.Close()
		switch r.Intn(3) {
		case 0:
			out, err = io.ReadAll(gp)
		case 1:
			var b bytes.Buffer
			_, err = io.CopyBuffer(struct{ io.Writer }{&b}, struct{ io.Reader }{gp}, make([]byte, 1+r.Intn(5000)))
			out = b.Bytes()
		case 2: // one large read, then the end
			b := make([]byte, 1<<22)
			var n int
			n, err = io.ReadFull(gp, b)
			if err == io.ErrUnexpectedEOF {
				err = nil
			}
			out = b[:n]
			if err == nil && n == len(b) {
				var rest []byte
				rest, err = io.ReadAll(gp)
				out = append(out, rest...)
			}
		}
	case 2:
		fp := filepath.Join(t.Dir, "gen.pdf")
		gp.WritePdf(fp)
		out, err = os.ReadFile(fp)
	}
	if err != nil {
		t.fail("output: %v", err)
		return
	}
	d := s.verify(t, out, prot, perm, up, op, info)
	if d == nil {
		return
	}
	items := 0
	for _, p := range s.pages {
		items += len(p.Items)
	}
	if !prot {
		t.refill(out, d)
	}
	t.note(items > 0, keyOf(t.ops...), "%d pages, %d fonts, %d items, protection %v", len(s.pages), len(s.fonts), items, prot)
}

// refill opens the generated document with pdft and fills it.
func (t *T) refill(out []byte, d *Doc) {
	p := &Prof{MinCalls: 1, MaxCalls: 6, W: map[string]int{"setfont": 12, "insert": 34, "img": 8, "imgcache": 8, "dup": 9, "rm": 3, "border": 4}, MaxFonts: 2, NImgs: 1, NoMissing: true, Tmpl: tmplOpt{Plain: true}}
	e, err := genEnv(t.R, p)
	must(err)
	e.Dir = t.Dir
	e.Tmpl, e.TmplDesc = out, "generated document"
	d2, err := ParseDoc(out, false)
	must(err)
	e.Tdoc = d2
	e.Tpages, err = d2.Pages()
	must(err)
	g := newSessGen(t.R, p, e)
	g.addFonts()
	g.run()
	t.ops = append(t.ops, "-- filled with pdft")
	t.ops = append(t.ops, callsDesc(g.calls)...)
	s, err := openSess(e)
	if err != nil {
		t.fail("generated document: %v", err)
		return
	}
	if n := s.P.GetNumberOfPage(); n != len(e.Tpages) {
		t.fail("pdft counts %d pages in the generated document, it has %d", n, len(e.Tpages))
		return
	}
	if msg := runCalls(s, g.calls, g.wants); msg != "" {
		t.fail("filling the generated document: %s", msg)
		return
	}
	o2, err := s.Save()
	if err != nil {
		t.fail("filling the generated document: %v", err)
		return
	}
	fs, _ := g.m.Verify(o2, t.Obs)
	if msg := pick(fs, "*"); msg != "" {
		t.fail("filling the generated document: %s", msg)
		return
	}
	t.Obs.add("generated documents filled with pdft", 1)
}

type flatEv struct {
	e    Event
	gl   int
	x    float64
	kind string
}

func (s *genState) verify(t *T, out []byte, prot bool, perm int, up, op string, info *gopdf.PdfInfo) *Doc {
	d, err := ParseDoc(out, false)
	if err != nil {
		t.fail("generated file: %v", err)
		return nil
	}
	if prot {
		en, err := d.EncInfo()
		if err != nil || en == nil {
			t.fail("no usable encryption dictionary: %v", err)
			return nil
		}
		if int(en.P)&0x3c != perm || en.P&3 != 0 {
			t.fail("permissions %#x asked, /P is %d", perm, en.P)
			return nil
		}
		key := en.authUser([]byte(up))
		if key == nil {
			t.fail("user password %q is refused", up)
			return nil
		}
		if op != "" && !bytes.Equal(en.authOwner([]byte(op)), key) {
			t.fail("owner password %q is refused", op)
			return nil
		}
		if err := d.Decrypt(en, key); err != nil {
			t.fail("decrypting: %v", err)
			return nil
		}
		t.Obs.add("protected documents decrypted", 1)
	} else if d.Trailer["Encrypt"] != nil {
		t.fail("document is encrypted though no protection was asked for")
		return nil
	}
	if err := d.Check(); err != nil {
		t.fail("generated file: %v", err)
		return nil
	}
	if info != nil {
		id, err := d.Dict(d.Trailer["Info"])
		if err != nil || id == nil {
			t.fail("no Info dictionary: %v", err)
			return nil
		}
		for k, v := range map[Name]string{"Title": info.Title, "Author": info.Author, "Subject": info.Subject, "Creator": info.Creator, "Producer": info.Producer} {
			if v == "" {
				continue
			}
			got, _ := id[k].(Str)
			if !bytes.Equal(got, utf16Hex(v)) {
				t.fail("Info %s is %q, expected %q", k, got, v)
				return nil
			}
		}
		if !info.CreationDate.IsZero() {
			got, _ := id["CreationDate"].(Str)
			ct, err := pdfDate(string(got))
			if err != nil || !ct.Equal(info.CreationDate.Truncate(time.Second)) {
				t.fail("Info CreationDate is %q, expected %v (%v)", got, info.CreationDate, err)
				return nil
			}
		} else if id["CreationDate"] != nil {
			t.fail("Info has a CreationDate that was not set")
			return nil
		}
		t.Obs.add("info dictionaries checked", 1)
	}
	pages, err := d.Pages()
	if err != nil {
		t.fail("%v", err)
		return nil
	}
	if len(pages) != len(s.pages) {
		t.fail("%d pages, expected %d", len(pages), len(s.pages))
		return nil
	}
	nu := 0
	for i, p := range pages {
		if !s.verifyPage(t, d, i, p, &nu) {
			return nil
		}
	}
	if s.useUnder && (nu > s.nUnder || s.anyUnder && nu == 0) {
		t.fail("%d underlined texts, %d bars", s.nUnder, nu)
		return nil
	}
	return d
}

var rePdfDate = regexp.MustCompile(`^D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(?:Z(?:00'00'?)?|([+-])(\d\d)'(\d\d)'?)$`)

// pdfDate reads a PDF date string.
func pdfDate(s string) (time.Time, error) {
	m := rePdfDate.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, fmt.Errorf("not a PDF date")
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	off := (n(8)*60 + n(9)) * 60
	if m[7] == "-" {
		off = -off
	}
	if n(2) < 1 || n(2) > 12 || n(3) < 1 || n(3) > 31 || n(4) > 23 || n(5) > 59 || n(6) > 59 || n(9) > 59 {
		return time.Time{}, fmt.Errorf("not a PDF date")
	}
	return time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), 0, time.FixedZone("", off)), nil
}

func near3(a [4]float64, b [3]float64) bool {
	for k := 0; k < 3; k++ {
		if math.Abs(a[k]-b[k]) > 0.0052 {
			return false
		}
	}
	return true
}

func (s *genState) verifyPage(t *T, d *Doc, i int, p *Page, nu *int) bool {
	want := s.pages[i]
	where := fmt.Sprintf("page %d", i+1)
	mb, err := d.Resolve(p.Inh["MediaBox"])
	a, ok := mb.(Arr)
	if err != nil || !ok || len(a) != 4 {
		t.fail("%s: MediaBox %v", where, mb)
		return false
	}
	for k, w := range []float64{0, 0, want.W, want.H} {
		f, _ := numOf(a[k])
		if !near(f, w) {
			t.fail("%s: MediaBox %v, expected size %v x %v", where, a, want.W, want.H)
			return false
		}
	}
	ops, err := d.pageOps(p)
	if err != nil {
		t.fail("%s: %v", where, err)
		return false
	}
	evs, depth, err := Interpret(ops)
	if err != nil || depth != 0 {
		t.fail("%s: content: %v (depth %d)", where, err, depth)
		return false
	}
	fonts, err := d.res(p, "Font")
	if err != nil {
		t.fail("%s: %v", where, err)
		return false
	}
	xobj, err := d.res(p, "XObject")
	if err != nil {
		t.fail("%s: %v", where, err)
		return false
	}
	var flat []flatEv
	bars, barW := 0, 0.0
	for _, e := range evs {
		if e.Kind != "text" {
			if s.useUnder && e.Kind == "rect" && e.Raw == "R f" {
				*nu++
				bars++
				barW += math.Abs(e.Pts[1][0] - e.Pts[0][0])
				continue
			}
			flat = append(flat, flatEv{e: e, kind: e.Kind})
			continue
		}
		if len(e.Glyphs) == 0 {
			continue
		}
		t0, err := d.type0memo(fonts[e.Font])
		if err != nil {
			t.fail("%s: font /%s: %v", where, e.Font, err)
			return false
		}
		x := e.X
		for _, g := range e.Glyphs {
			x -= g.Adjust * e.Size / 1000
			flat = append(flat, flatEv{e: e, gl: g.Code, x: x, kind: "glyph"})
			x += t0.width(g.Code) * e.Size / 1000
		}
	}
	if math.Abs(barW-want.Under) > 0.0101*float64(bars+1) {
		t.fail("%s: the underlined texts are %v wide together, their bars %v", where, want.Under, barW)
		return false
	}
	m := &Model{}
	add := func(a, f string, v ...interface{}) { t.fail(f, v...) }
	for k, it := range want.Items {
		if k >= len(flat) {
			t.fail("%s: %s drawn by %q is missing (%d of %d items shown)", where, it.Kind, it.Desc, len(flat), len(want.Items))
			return false
		}
		g := flat[k]
		e := g.e
		w := fmt.Sprintf("%s item %d of %q", where, k, clipN(it.Desc, 90))
		if g.kind != it.Kind {
			t.fail("%s: expected %s, found %s %q", w, it.Kind, g.kind, e.Raw)
			return false
		}
		tolp := 0.0101 + it.Ptol + it.TolX
		switch it.Kind {
		case "glyph":
			if g.gl != it.Glyph {
				t.fail("%s: character %q is glyph %d, the font maps it to %d", w, it.Rune, g.gl, it.Glyph)
				return false
			}
			t0, _ := d.type0memo(fonts[e.Font])
			if !sameBase(t0.Base, it.Family) {
				t.fail("%s: set in %q, expected %q", w, t0.Base, it.Family)
				return false
			}
			m.matchGlyph(w, it.Font, t0, g.gl, it.Rune, t.Obs, add)
			if t.failed() {
				return false
			}
			if e.Size != float64(it.Size) {
				t.fail("%s: size %v, expected %d", w, e.Size, it.Size)
				return false
			}
			if math.Abs(g.x-it.X) > 0.0101 || math.Abs(e.Y-it.Y) > 0.0101 || !e.Flat {
				t.fail("%s: character %q at %v,%v, expected %v,%v", w, it.Rune, g.x, e.Y, it.X, it.Y)
				return false
			}
			if it.Fill != nil && (e.Fill.Space != "rgb" || !near3(e.Fill.C, *it.Fill)) {
				t.fail("%s: colour %v, expected %v", w, e.Fill, *it.Fill)
				return false
			}
			t.Obs.add("generator glyphs matched", 1)
		case "line", "rect", "path":
			if it.Raw != "" && e.Raw != it.Raw {
				t.fail("%s: drawn as %q, expected %q", w, e.Raw, it.Raw)
				return false
			}
			if len(e.Pts) != len(it.Pts) {
				t.fail("%s: %d points, expected %d", w, len(e.Pts), len(it.Pts))
				return false
			}
			for j := range it.Pts {
				ty := 0.0101 + it.Ptol
				if math.Abs(e.Pts[j][0]-it.Pts[j][0]) > tolp+0.005*b2f(it.Kind == "rect") || math.Abs(e.Pts[j][1]-it.Pts[j][1]) > ty+0.005*b2f(it.Kind == "rect") {
					t.fail("%s: point %d at %v, expected %v", w, j, e.Pts[j], it.Pts[j])
					return false
				}
			}
			if !strings.HasSuffix(e.Raw, " f") {
				if e.Stroke.Space != "rgb" || !near3(e.Stroke.C, it.Stroke) {
					t.fail("%s: stroke colour %v, expected %v", w, e.Stroke, it.Stroke)
					return false
				}
				if !near(e.LW, it.LW) {
					t.fail("%s: line width %v, expected %v", w, e.LW, it.LW)
					return false
				}
				dash := strings.TrimSpace(e.Dash)
				if it.Dash == "" && dash != "[] 0" || it.Dash != "" && strings.ReplaceAll(dash, " ", "") != strings.ReplaceAll(it.Dash, " ", "") {
					t.fail("%s: dash %q, expected %q", w, e.Dash, it.Dash)
					return false
				}
			}
			if !strings.HasSuffix(strings.ToLower(e.Raw), " s") && it.Fill != nil {
				if e.Fill.Space != "rgb" || !near3(e.Fill.C, *it.Fill) {
					t.fail("%s: fill colour %v, expected %v", w, e.Fill, *it.Fill)
					return false
				}
			}
			t.Obs.add("generator shapes matched", 1)
		case "image":
			mm := e.M
			if !it.NatSize && (!near(mm[0], it.W) || !near(mm[3], it.H)) || mm[1] != 0 || mm[2] != 0 || !near(mm[4], it.X) || math.Abs(mm[5]+mm[3]-it.Y) > 0.0101 {
				t.fail("%s: image matrix %v, expected box %v x %v at %v, top %v", w, mm, it.W, it.H, it.X, it.Y)
				return false
			}
			if it.NatSize && it.First { // the image's own proportions
				iw, ih := float64(it.Img.W), float64(it.Img.H)
				sc := (mm[0] + 1) / iw
				if mm[0] < 0 || mm[3] < 0 || mm[3] > ih*sc+1 || mm[0] > iw*(mm[3]+1)/ih+1 {
					t.fail("%s: image of %v x %v pixels drawn %v x %v", w, iw, ih, mm[0], mm[3])
					return false
				}
			}
			if err := d.CheckImage(xobj[e.XName], it.Img); err != nil {
				t.fail("%s: %v", w, err)
				return false
			}
			t.Obs.add("generator images matched", 1)
		}
	}
	if len(flat) > len(want.Items) {
		e := flat[len(want.Items)]
		t.fail("%s: %d items more than drawn, first %s %q", where, len(flat)-len(want.Items), e.kind, e.e.Raw)
		return false
	}
	t.Obs.add("generator pages matched", 1)
	return true
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Check{ID: "C20", Quick: 37500, Thorough: 150000,
		Rule: "case = generator session: page sizes, fonts (families in several styles, kerning, overrides), Text, Cell, images (bytes, reader, file), lines, rectangles, ovals, curves, colours, line styles, failing calls, protection, compression, intermediate outputs; the result is filled with pdft as well; non-trivial when something was drawn",
		Run:  runC20})
}

func imgReader(r *rand.Rand, b []byte) io.Reader {
	rd, _ := chunked(r, b)
	return rd
}
