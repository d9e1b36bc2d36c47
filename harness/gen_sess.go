package main

// Generator of call histories (realistic, mixed and hostile-but-legal).

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

const repoDir = "/repo"

type Prof struct {
	Tmpl      tmplOpt
	Corpus    int // percent of cases with a template of the repository's corpus
	MinCalls  int
	MaxCalls  int
	W         map[string]int // weights of calls
	RealFont  int            // percent of real fonts
	MaxFonts  int
	Kern      int // percent of fonts with callbacks
	Rise      int
	ReKern    bool // callbacks are replaced between measurements
	NImgs     int
	Breakers  []string
	NoMissing bool // only pages that exist
	NoUnder   bool
	BadPages  bool // sometimes impossible page operations
	Protect   int  // percent of histories with protection
	ImgGen    func(*rand.Rand) *genImage
	LongText  bool
	MinFonts  int
	Shared    *Env // fonts, their names and images of an earlier document are used again
	Fat       bool // seldom, an image of more than ten million bytes
	fat       bool
	scaled    bool
	big       bool
	bigText   bool
}

// scale makes some cases large in one or more directions: ten and more pages, fonts, images or
// hundreds of calls and characters, where numbering and blocking start to matter.
func (p *Prof) scale(r *rand.Rand) {
	if p.scaled {
		return
	}
	p.scaled = true
	if !chance(r, 3) {
		return
	}
	p.big = true
	p.fat = p.Fat && r.Intn(30) == 0
	k := r.Intn(7)
	if k == 6 && r.Intn(3) == 0 && p.Tmpl.MaxPages == 0 { // more pages than a byte counts
		p.Tmpl.MinPages, p.Tmpl.MaxPages = 128, 300
		p.Corpus = 0
	}
	if k == 0 || k == 5 {
		p.Tmpl.MinPages = 10
		p.Tmpl.MaxPages = 10 + r.Intn(25)
		p.Corpus = 0
	}
	if k == 1 || k == 5 {
		p.MinCalls, p.MaxCalls = 30, 30+r.Intn(60)
	}
	if (k == 2 || k == 5) && p.MaxFonts > 1 {
		p.MinFonts = 8 + r.Intn(6)
	}
	if (k == 3 || k == 5) && p.NImgs > 0 {
		p.NImgs += 7 + r.Intn(6)
		if r.Intn(5) == 0 {
			p.NImgs += 25 + r.Intn(60)
			if p.W["imgcache"] > 0 {
				p.MinCalls, p.MaxCalls = 60, 200
			}
		}
	}
	if k == 4 || k == 5 {
		p.bigText = true
	}
	if k == 6 && p.Tmpl.MinPages < 100 && r.Intn(4) == 0 && p.MaxCalls >= 14 { // hundreds of calls on a page or two
		p.MinCalls, p.MaxCalls = 150, 500
		p.Tmpl.MinPages, p.Tmpl.MaxPages = 1, 2
		p.Corpus = 0
	}
}

var corpusPDF = []string{
	"chrome_50_linux64.pdf", "chrome_50_win10.pdf", "delphi.pdf", "pdf_from_docx.pdf", "pdf_from_docx_with_f.pdf", "pdf_from_rdlc.pdf", "pdf_from_word2010.pdf",
	"pdf_from_word2010_b.pdf", "pdf_from_word2013.pdf", "pdf_from_word2013_b.pdf", "pdf_with_img.pdf", "pdf_from_gopdf.pdf",
}

var corpusOnce sync.Once
var corpus []struct {
	name string
	data []byte
}
var realFonts []*fontSrc

func loadCorpus() {
	corpusOnce.Do(func() {
		fs, _ := filepath.Glob(repoDir + "/test/pdf/*.pdf")
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			n := filepath.Base(f)
			if strings.Contains(n, "no_trailer") || strings.Contains(n, "iia") || len(b) > 3<<20 {
				continue
			}
			corpus = append(corpus, struct {
				name string
				data []byte
			}{n, b})
		}
		for _, f := range []string{"/test/ttf/Loma.ttf", "/test/ttf/angsa.ttf", "/test/ttf/arial.ttf", "/minigopdf/test/res/times.ttf"} {
			b, err := os.ReadFile(repoDir + f)
			if err != nil {
				continue
			}
			t, err := ParseTTF(b, true)
			if err != nil {
				panic("harness: " + f + ": " + err.Error())
			}
			src := &fontSrc{Desc: filepath.Base(f), Data: b, T: t, File: repoDir + f}
			for r := rune(0x20); r < 0x3000; r++ {
				if g, ok := t.Glyph(r); ok && g != 0 {
					src.Runes = append(src.Runes, r)
				}
			}
			realFonts = append(realFonts, src)
		}
	})
}

func newFontSrc(g *genFont) *fontSrc {
	t, err := ParseTTF(g.Data, true)
	if err != nil {
		panic("harness: generated font unreadable: " + err.Error())
	}
	return &fontSrc{Desc: g.Desc, Data: g.Data, T: t, Runes: g.Runes}
}

func pickFontSrc(r *rand.Rand, realPct int) *fontSrc {
	loadCorpus()
	if chance(r, realPct) {
		return realFonts[r.Intn(len(realFonts))]
	}
	return newFontSrc(genTTF(r))
}

var fontNames = []string{"arial", "THSarabun", "font one", "Loma-Bold", "a", "A", "F1", "xé", "p(q)", "n#1", "F10", "Font", "x/y", "a b", "ไทย", "I1"}

func genEnv(r *rand.Rand, p *Prof) (*Env, error) {
	loadCorpus()
	p.scale(r)
	e := &Env{}
	if chance(r, p.Corpus) {
		c := corpus[r.Intn(len(corpus))]
		e.Tmpl, e.TmplDesc = c.data, c.name
	} else {
		t := genPDF(r, p.Tmpl)
		e.Tmpl, e.TmplDesc = t.Data, t.desc()
	}
	if err := e.parseTemplate(); err != nil {
		return nil, err
	}
	nf := 1
	if p.MaxFonts > 1 {
		nf += r.Intn(p.MaxFonts)
	}
	if nf < p.MinFonts {
		nf = p.MinFonts
	}
	for i := 0; i < nf; i++ {
		if p.Shared != nil && i < len(p.Shared.Fonts) && chance(r, 50) {
			e.Fonts = append(e.Fonts, p.Shared.Fonts[i])
			continue
		}
		e.Fonts = append(e.Fonts, pickFontSrc(r, p.RealFont))
	}
	for i := 0; i < p.NImgs; i++ {
		if p.Shared != nil && i < len(p.Shared.Imgs) && chance(r, 70) {
			e.Imgs = append(e.Imgs, p.Shared.Imgs[i])
		} else if p.ImgGen != nil {
			e.Imgs = append(e.Imgs, p.ImgGen(r))
		} else {
			e.Imgs = append(e.Imgs, genImg(r))
		}
	}
	if p.fat && len(e.Imgs) > 0 {
		e.Imgs[0] = fatJpeg(r)
	}
	return e, nil
}

func genText(r *rand.Rand, f *fontSrc, long bool) string {
	n := 1 + r.Intn(12)
	switch r.Intn(12) {
	case 0:
		n = 1
	case 1:
		n = 20 + r.Intn(60)
	}
	if long {
		n = 10 + r.Intn(120)
	}
	var b strings.Builder
	base := 0
	if len(f.Runes) > 40 {
		base = r.Intn(len(f.Runes) - 30)
	}
	for i := 0; i < n; i++ {
		x := r.Intn(100)
		switch {
		case x < 16:
			b.WriteByte(' ')
		case x < 20 && i > 0:
			s := []rune(b.String())
			b.WriteRune(s[len(s)-1]) // doubled character
		case x < 21:
			b.WriteRune([]rune{0xFFFD, 0x3042, 0x7FFF, 0xFFFE, 0x00A0, '\n', '\t', 'A', 0xE000, 0xD7FF}[r.Intn(10)])
		case x < 60 && len(f.Runes) > 40:
			b.WriteRune(f.Runes[base+r.Intn(30)])
		default:
			if len(f.Runes) == 0 {
				b.WriteByte('?')
				break
			}
			b.WriteRune(f.Runes[r.Intn(len(f.Runes))])
		}
	}
	if chance(r, 2) {
		b.WriteString("\xff\xc3(")
	}
	return b.String()
}

// genBigText uses hundreds of characters, most of them different.
func genBigText(r *rand.Rand, f *fontSrc) string {
	n := 90 + r.Intn(500)
	var b strings.Builder
	p := r.Perm(len(f.Runes))
	for i := 0; i < n; i++ {
		if len(p) == 0 || chance(r, 8) {
			b.WriteByte(' ')
			continue
		}
		b.WriteRune(f.Runes[p[i%len(p)]])
	}
	return b.String()
}

func coord(r *rand.Rand) float64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(1200) - 300)
	case 2:
		return -r.Float64() * 50
	case 3:
		return math.Round(r.Float64()*600*1000) / 1000
	case 4:
		if chance(r, 15) {
			return []float64{0.004, 0.5, 1, 999.995, 1000, 1234.56, 9999.99, 14400, 32768, 123456.5, -1000, -4321.25}[r.Intn(12)]
		}
	}
	return math.Round(r.Float64()*600*100) / 100
}

func extent(r *rand.Rand) float64 {
	switch r.Intn(14) {
	case 0:
		return 0
	case 1:
		return r.Float64() * 3
	case 2:
		return 500 + r.Float64()*900
	}
	return math.Round(r.Float64()*300*100) / 100
}

var haligns = []int{0, aLeft, aRight, aCenter}
var valigns = []int{0, aTop, aBottom, aMiddle}

func genAlign(r *rand.Rand) int { return haligns[r.Intn(4)] | valigns[r.Intn(4)] }

func genCol(r *rand.Rand) *[3]int {
	switch r.Intn(5) {
	case 0, 1:
		return nil
	case 2:
		return &[3]int{0, 0, 0}
	case 3:
		switch r.Intn(4) {
		case 0:
			v := r.Intn(256)
			return &[3]int{v, v, v}
		case 1:
			v := []int{0, 1, 127, 128, 254, 255}
			return &[3]int{v[r.Intn(6)], v[r.Intn(6)], v[r.Intn(6)]}
		}
		return &[3]int{255 * r.Intn(2), 255 * r.Intn(2), 255 * r.Intn(2)}
	}
	return &[3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
}

var permList = []int{4, 8, 16, 32}

func genPerm(r *rand.Rand) int {
	p := 0
	for _, x := range permList {
		if chance(r, 50) {
			p |= x
		}
	}
	return p
}

func genPass(r *rand.Rand) string {
	n := []int{0, 1, 3, 8, 12, 31, 32, 33, 40}[r.Intn(9)]
	b := make([]byte, n)
	for i := range b {
		if chance(r, 70) {
			b[i] = byte(33 + r.Intn(90))
		} else {
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

var styles = []string{"", "", "", "", "U", "B", "I", "BU", "u", "BI", "UB", "Ub", "uI", "iu", "IUB", "bi"}

// sessGen makes calls one by one, tracking the model.
type sessGen struct {
	r       *rand.Rand
	p       *Prof
	m       *Model
	calls   []Call
	wants   []error
	touched map[string]bool
}

func newSessGen(r *rand.Rand, p *Prof, e *Env) *sessGen {
	return &sessGen{r: r, p: p, m: newModel(e), touched: map[string]bool{}}
}

func (g *sessGen) do(c Call) error {
	err := g.m.Do(c)
	g.calls = append(g.calls, c)
	g.wants = append(g.wants, err)
	if c.K == "insert" || c.K == "wrap" || c.K == "measure" {
		g.touched[g.m.Cur] = true
	}
	return err
}

func (g *sessGen) page() int {
	n := len(g.m.Pages)
	if n == 0 || (!g.p.NoMissing && chance(g.r, 3)) {
		return []int{0, -1, n + 1, n + 5}[g.r.Intn(4)]
	}
	if chance(g.r, 30) {
		return n
	}
	return 1 + g.r.Intn(n)
}

func (g *sessGen) addFonts() {
	perm := g.r.Perm(len(fontNames))
	if g.p.Shared != nil && g.p.Shared.perm != nil && chance(g.r, 70) {
		perm = g.p.Shared.perm
	}
	g.m.E.perm = perm
	for i := range g.m.E.Fonts {
		n := fontNames[perm[i]]
		g.do(Call{K: "addfont", Font: n, FI: i, Path: chance(g.r, 20)})
		if chance(g.r, g.p.Kern) {
			g.do(Call{K: "kern", Font: n, CB: g.r.Intn(20)})
			if g.p.ReKern && chance(g.r, 40) { // measured under one callback, drawn under the next
				g.do(Call{K: "setfont", Font: n, Size: 1 + g.r.Intn(30)})
				var ms []Call
				for k := 0; k < 3; k++ {
					ms = append(ms, Call{K: "measure", Text: g.text()})
					g.do(ms[k])
				}
				g.do(Call{K: "kern", Font: n, CB: g.r.Intn(20)})
				for _, c := range ms {
					g.do(g.box(Call{K: "insert", Text: c.Text, Align: genAlign(g.r)}))
				}
			}
		}
		if chance(g.r, g.p.Rise) {
			g.do(Call{K: "rise", Font: n, CB: g.r.Intn(20)})
		}
	}
	g.setFont()
}

func (g *sessGen) fontList() []string {
	var out []string
	for _, c := range g.calls {
		if c.K == "addfont" && g.m.Fonts[c.Font] != nil {
			dup := false
			for _, o := range out {
				dup = dup || o == c.Font
			}
			if !dup {
				out = append(out, c.Font)
			}
		}
	}
	return out
}

func (g *sessGen) setFont() {
	fl := g.fontList()
	if len(fl) == 0 {
		return
	}
	st := styles[g.r.Intn(len(styles))]
	if g.p.NoUnder && strings.ContainsAny(st, "uU") {
		st = ""
	}
	size := 1 + g.r.Intn(40)
	if chance(g.r, 10) {
		size = []int{1, 2, 72, 100, 7, 128 + g.r.Intn(300)}[g.r.Intn(6)]
	}
	if g.p.Breakers != nil && chance(g.r, 12) {
		size = []int{125, 250, 500, 1000}[g.r.Intn(4)]
	}
	if chance(g.r, 3) { // text that takes no room
		size = 0
	}
	g.do(Call{K: "setfont", Font: fl[g.r.Intn(len(fl))], Style: st, Size: size})
}

func (g *sessGen) box(c Call) Call {
	c.Page, c.X, c.Y, c.W, c.H = g.page(), coord(g.r), coord(g.r), extent(g.r), extent(g.r)
	return c
}

func (g *sessGen) text() string {
	f := g.m.Fonts[g.m.Cur]
	if f == nil {
		return "abc"
	}
	if chance(g.r, 2) {
		return ""
	}
	t := genText(g.r, f.src, false)
	if g.p.bigText && chance(g.r, 40) {
		t = genBigText(g.r, f.src)
	}
	if f.textErr(t) {
		return "A"
	}
	return t
}

// again repeats an earlier call of the kind, changing at most one of its arguments, so that
// anything remembered about a call under too small a key shows.
func (g *sessGen) again(kind string) bool {
	r := g.r
	var old []Call
	for _, c := range g.calls {
		if c.K == kind {
			old = append(old, c)
		}
	}
	if len(old) == 0 {
		return false
	}
	c := old[r.Intn(len(old))]
	if chance(r, 50) {
		c = old[len(old)-1]
	}
	switch r.Intn(10) {
	case 0, 1:
		c.Page = g.page()
	case 2:
		c.X = coord(r)
	case 3:
		c.Y = coord(r)
	case 4:
		if kind != "wrap" {
			c.W = extent(r)
		}
	case 5:
		c.H = extent(r)
	case 6:
		c.Align = genAlign(r)
	case 7:
		c.Col = genCol(r)
	case 8:
		if kind == "insert" {
			c.Text = g.text()
		} else if kind != "wrap" {
			c.Img = r.Intn(len(g.m.E.Imgs))
		}
	}
	if c.Page > len(g.m.Pages) && g.p.NoMissing {
		c.Page = g.page()
	}
	if kind == "insert" || kind == "wrap" {
		f := g.m.Fonts[g.m.Cur]
		if f == nil || f.textErr(c.Text) {
			return false
		}
	}
	g.do(c)
	return true
}

func (g *sessGen) step(kind string) {
	r := g.r
	switch kind {
	case "insert", "wrap", "img", "imgb64", "imgcache":
		if chance(r, 12) && g.again(kind) {
			return
		}
	}
	switch kind {
	case "setfont":
		g.setFont()
	case "insert":
		c := g.box(Call{K: "insert", Text: g.text(), Align: genAlign(r), Col: genCol(r)})
		g.do(c)
	case "wrap":
		f := g.m.Fonts[g.m.Cur]
		if f == nil {
			return
		}
		t := genText(r, f.src, true)
		if f.textErr(t) {
			return
		}
		brk := "basic"
		if len(g.p.Breakers) > 0 {
			brk = g.p.Breakers[r.Intn(len(g.p.Breakers))]
		}
		c := g.box(Call{K: "wrap", Text: t, Align: genAlign(r), Col: genCol(r), Brk: brk})
		full := f.width(t, g.m.Size)
		switch r.Intn(6) {
		case 0:
			c.W = full * 1.1
		case 1:
			c.W = 0
		default:
			c.W = full / (1 + 6*r.Float64())
		}
		c.W = math.Round(c.W*1e4)/1e4 + 0.00003
		if brk != "nil" && chance(r, 50) { // a width that some run of tokens fills exactly
			toks, _ := tokBreaker{brk}.BreakTextToToken(t)
			if len(toks) > 1 {
				i := r.Intn(len(toks))
				j := i + 1 + r.Intn(len(toks)-i)
				if j > i+6 {
					j = i + 6
				}
				x := strings.TrimSpace(strings.Join(toks[i:j], ""))
				if x != "" && f.exactWidth(x, g.m.Size) {
					c.W = f.width(x, g.m.Size)
				}
			}
		}
		g.do(c)
	case "measure":
		g.do(Call{K: "measure", Text: g.text()})
	case "img", "imgb64", "imgcache":
		if len(g.m.E.Imgs) == 0 {
			return
		}
		g.do(g.box(Call{K: kind, Img: r.Intn(len(g.m.E.Imgs))}))
	case "border":
		g.do(Call{K: "border", Show: chance(r, 50)})
	case "dup":
		n := len(g.m.Pages)
		if n == 0 || n > 14 && !g.p.big || n > 45 {
			return
		}
		a, b := 1+r.Intn(n), r.Intn(n)
		if chance(r, 30) {
			b = -1 - r.Intn(n)
		}
		if g.p.BadPages && chance(r, 25) {
			switch r.Intn(4) {
			case 0:
				a = []int{0, -1, n + 1, n + 7}[r.Intn(4)]
			case 1:
				b = []int{n, n + 1, -n - 1, -n - 5}[r.Intn(4)]
			case 2:
				a, b = n+1, -n-1
			}
		}
		if !g.p.BadPages && g.m.E.Tpages[g.m.Pages[a-1]].D["Contents"] == nil {
			return
		}
		g.do(Call{K: "dup", A: a, B: b})
	case "rm", "rmo":
		n := len(g.m.Pages)
		if g.p.BadPages && chance(r, 25) {
			g.do(Call{K: kind, A: []int{0, -1, n + 1, n + 9}[r.Intn(4)]})
			return
		}
		if n == 0 || (n == 1 && kind == "rm" && !chance(r, 5)) || (kind == "rmo" && !chance(r, 40)) {
			return
		}
		g.do(Call{K: kind, A: 1 + r.Intn(n)})
	case "protect":
		g.do(Call{K: "protect", Perm: genPerm(r), UP: genPass(r), OP: genPass(r) + "x"})
	case "save", "npage":
		g.do(Call{K: kind, Path: kind == "save" && chance(r, 40)})
	}
}

func (g *sessGen) run() {
	total := 0
	var ks []string
	for _, k := range []string{"setfont", "insert", "wrap", "measure", "img", "imgb64", "imgcache", "border", "dup", "rm", "rmo", "save", "npage"} {
		if g.p.W[k] > 0 {
			ks = append(ks, k)
			total += g.p.W[k]
		}
	}
	n := g.p.MinCalls
	if g.p.MaxCalls > n {
		n += g.r.Intn(g.p.MaxCalls - n + 1)
	}
	protAt := -1
	if chance(g.r, g.p.Protect) {
		protAt = g.r.Intn(n + 1)
	}
	for i := 0; i < n; i++ {
		if i == protAt {
			g.step("protect")
		}
		x := g.r.Intn(total)
		for _, k := range ks {
			x -= g.p.W[k]
			if x < 0 {
				g.step(k)
				break
			}
		}
	}
	if protAt == n {
		g.step("protect")
	}
}

// runCalls executes the calls, checking error behaviour; message is empty when all is well.
func runCalls(s *Sess, calls []Call, wants []error) string {
	for i, c := range calls {
		err := s.Do(c)
		if e := errMatch(wants[i], err); e != nil {
			return fmt.Sprintf("call %d %s: %v", i+1, c, e)
		}
	}
	return ""
}
