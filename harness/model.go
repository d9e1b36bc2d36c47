package main

// Abstract model of a PDFt session: what every call is supposed to do, independent of the code.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
)

const (
	aTop    = pdft.Top
	aBottom = pdft.Bottom
	aMiddle = pdft.Middle
	aLeft   = pdft.Left
	aRight  = pdft.Right
	aCenter = pdft.Center
)

// Call is one API call of a history.
type Call struct {
	K          string
	Page       int
	X, Y, W, H float64
	Align      int
	Col        *[3]int
	Text       string
	Font       string
	FI         int // index of font source
	Style      string
	Size       int
	Img        int
	A, B       int
	Perm       int
	UP, OP     string
	Show       bool
	Brk        string
	CB         int
	Path       bool // by path
	Bad        string
}

func (c Call) String() string {
	pos := fmt.Sprintf("p%d %.4g,%.4g %.4gx%.4g", c.Page, c.X, c.Y, c.W, c.H)
	switch c.K {
	case "addfont":
		return fmt.Sprintf("addfont(%q,font#%d,path=%v)", c.Font, c.FI, c.Path)
	case "setfont":
		return fmt.Sprintf("setfont(%q,%q,%d)", c.Font, c.Style, c.Size)
	case "insert":
		return fmt.Sprintf("insert(%q,%s,align=%d,col=%v)", clip(c.Text), pos, c.Align, c.colDesc())
	case "wrap":
		return fmt.Sprintf("wrap(%q,%s,align=%d,col=%v,brk=%s)", clip(c.Text), pos, c.Align, c.colDesc(), c.Brk)
	case "measure":
		return fmt.Sprintf("measure(%q)", clip(c.Text))
	case "img", "imgb64", "imgcache":
		return fmt.Sprintf("%s(#%d,%s)", c.K, c.Img, pos)
	case "border":
		return fmt.Sprintf("border(%v)", c.Show)
	case "dup":
		return fmt.Sprintf("dup(%d,%d)", c.A, c.B)
	case "rm", "rmo":
		return fmt.Sprintf("%s(%d)", c.K, c.A)
	case "protect":
		return fmt.Sprintf("protect(%d,%q,%q)", c.Perm, c.UP, c.OP)
	case "kern", "rise":
		return fmt.Sprintf("%s(%q,cb%d)", c.K, c.Font, c.CB)
	case "bad":
		return fmt.Sprintf("bad:%s(%q,%d,%d)", c.Bad, clip(c.Text), c.A, c.B)
	}
	return c.K
}

func (c Call) colDesc() string {
	if c.Col == nil {
		return "nil"
	}
	return fmt.Sprint(*c.Col)
}

func callsDesc(cs []Call) []string {
	out := make([]string, len(cs))
	for i, c := range cs {
		out[i] = c.String()
	}
	return out
}

type fontSrc struct {
	Desc  string
	Data  []byte
	T     *TTF
	Runes []rune
	File  string // path if it is a file already
}

type Env struct {
	Tmpl     []byte
	TmplDesc string
	Fonts    []*fontSrc
	Imgs     []*genImage
	Tdoc     *Doc
	Tpages   []*Page
	Dir      string // scratch directory
	perm     []int  // order of the font names
}

func (e *Env) desc() string {
	var p []string
	p = append(p, "template "+e.TmplDesc)
	for i, f := range e.Fonts {
		p = append(p, fmt.Sprintf("font#%d %s", i, f.Desc))
	}
	for i, f := range e.Imgs {
		p = append(p, fmt.Sprintf("img#%d %s", i, f.Desc))
	}
	return strings.Join(p, "; ")
}

// parseTemplate prepares the oracle's view of the template.
func (e *Env) parseTemplate() error {
	d, err := ParseDoc(e.Tmpl, true)
	if err != nil {
		return fmt.Errorf("oracle cannot read template: %w", err)
	}
	e.Tdoc = d
	e.Tpages, err = d.Pages()
	if err != nil {
		return fmt.Errorf("oracle cannot read template pages: %w", err)
	}
	return nil
}

func (e *Env) fontPath(i int) (string, error) {
	f := e.Fonts[i]
	if f.File != "" {
		return f.File, nil
	}
	p := filepath.Join(e.Dir, "font.ttf")
	return p, os.WriteFile(p, f.Data, 0644)
}

// ---- deterministic callbacks

func kernFn(id int) func(l, r rune, lp, rp uint, pv int16) int16 {
	return func(l, r rune, lp, rp uint, pv int16) int16 {
		switch id % 5 {
		case 0:
			return pv
		case 1:
			return pv + int16((int(l)*31+int(r)*17+id)%81) - 40
		case 2:
			return -pv
		case 3:
			if l == r {
				return 150
			}
			return 0
		}
		return int16(int(lp)*13%97) - int16(int(rp)*7%89)
	}
}

func riseFn(id int) func(l, r rune, fs int, all string, idx int) float32 {
	return func(l, r rune, fs int, all string, idx int) float32 {
		switch id % 4 {
		case 0:
			if idx%2 == 0 {
				return 2.5
			}
			return 0
		case 1:
			return float32(int(r)%7)*0.75 - 2
		case 2:
			if idx == utf8.RuneCountInString(all)-1 {
				return float32(fs) / 4
			}
			return -1.25
		}
		return float32(int(l)%5) - float32(len(all)%3)
	}
}

// ---- text breakers

type tokBreaker struct{ mode string }

// tokens of the custom breakers; concatenation is always the text
func (t tokBreaker) BreakTextToToken(s string) ([]string, error) {
	switch t.mode {
	case "fail":
		return nil, errBreak
	case "rune":
		var out []string
		for i := 0; i < len(s); {
			_, n := utf8.DecodeRuneInString(s[i:])
			out = append(out, s[i:i+n])
			i += n
		}
		return out, nil
	case "pairs":
		var out []string
		start, k := 0, 0
		for i := range s {
			if k > 0 && k%3 == 0 {
				out = append(out, s[start:i])
				if k%2 == 0 {
					out = append(out, "")
				}
				start = i
			}
			k++
		}
		return append(out, s[start:]), nil
	case "after": // space stays with the word before it
		return strings.SplitAfter(s, " "), nil
	case "whole":
		return []string{s}, nil
	}
	// own implementation of the basic one
	var out []string
	cur := ""
	for _, b := range []byte(s) {
		if b == ' ' {
			if cur != "" {
				out = append(out, cur)
			}
			out = append(out, " ")
			cur = ""
			continue
		}
		cur += string([]byte{b})
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out, nil
}

var errBreak = errors.New("breaker refuses")

// breaker handed to the code under test
func brkFor(mode string) textbreak.TextBreaker {
	switch mode {
	case "nil", "":
		return nil
	case "basic":
		return textbreak.BasicTextbreak{}
	}
	return tokBreaker{mode}
}

// ---- model

type mFont struct {
	src  *fontSrc
	used map[int]map[rune]bool // glyph -> runes given to the font
	kern int                   // -1: none
	rise int
}

func (f *mFont) runeGlyph(r rune) (int, bool) { return f.src.T.Glyph(r) }

// textErr tells whether the text cannot be set in the font.
func (f *mFont) textErr(s string) bool {
	for _, r := range s {
		if _, ok := f.src.T.Glyph(r); !ok && r > 0xFFFF {
			return true
		}
	}
	return false
}

func (f *mFont) use(s string) {
	for _, r := range s {
		g, _ := f.src.T.Glyph(r)
		if f.used[g] == nil {
			f.used[g] = map[rune]bool{}
		}
		f.used[g][r] = true
	}
}

// adjusts returns the kerning in thousandths before each glyph.
func (f *mFont) adjusts(s string) []int {
	var out []int
	var lr rune
	lg := 0
	k := 0
	for _, r := range s {
		g, _ := f.src.T.Glyph(r)
		v := 0
		if k > 0 && f.kern >= 0 {
			pv := f.src.T.Kern[[2]int{lg, g}]
			kv := kernFn(f.kern)(lr, r, uint(lg), uint(g), int16(pv))
			v = int(kv) * 1000 / f.src.T.Upem
		}
		out = append(out, v)
		lr, lg = r, g
		k++
	}
	return out
}

func (f *mFont) width(s string, size int) float64 {
	sum := 0
	for _, r := range s {
		g, _ := f.src.T.Glyph(r)
		sum += f.src.T.PdfW(g)
	}
	for _, a := range f.adjusts(s) {
		sum += a
	}
	return float64(sum) * (float64(size) / 1000)
}

// exactWidth tells that the width has one exact value in whatever order it is computed.
func (f *mFont) exactWidth(s string, size int) bool {
	sum := 0
	for _, r := range s {
		g, _ := f.src.T.Glyph(r)
		w := f.src.T.PdfW(g)
		if w%125 != 0 {
			return false
		}
		sum += w
	}
	for _, a := range f.adjusts(s) {
		if a%125 != 0 {
			return false
		}
	}
	return size > 0 && size%125 == 0 && 1000%size == 0
}

type mItem struct {
	Kind       string // text, image
	Page       int
	X, Y, W, H float64
	Align      int
	Col        [3]int
	Text       string
	Font       *mFont
	FName      string
	Under      bool
	Size       int
	Border     bool
	Img        *genImage
	Cached     bool
	Call       int
	Wrap       bool
}

type Model struct {
	E       *Env
	Pages   []int // template page index per current page
	Fonts   map[string]*mFont
	Cur     string
	Style   string
	Size    int
	Border  bool
	Items   []*mItem
	Prot    bool
	Perm    int
	UP, OP  string
	nCall   int
	wrapEps bool // a width was too close to the box to decide
}

func newModel(e *Env) *Model {
	m := &Model{E: e, Fonts: map[string]*mFont{}}
	for i := range e.Tpages {
		m.Pages = append(m.Pages, i)
	}
	return m
}

func (m *Model) pageHeight(n int) (float64, bool) {
	if n < 1 || n > len(m.Pages) {
		return 0, false
	}
	return m.tmplHeight(m.Pages[n-1])
}

func (m *Model) tmplHeight(t int) (float64, bool) {
	v, err := m.E.Tdoc.Resolve(m.E.Tpages[t].Inh["MediaBox"])
	if err != nil {
		return 0, false
	}
	a, ok := v.(Arr)
	if !ok || len(a) != 4 {
		return 0, false
	}
	top := math.Inf(-1)
	for _, k := range []int{1, 3} { // any two opposite corners
		e, err := m.E.Tdoc.Resolve(a[k])
		if err != nil {
			return 0, false
		}
		f, ok := numOf(e)
		if !ok {
			return 0, false
		}
		top = math.Max(top, f)
	}
	return top, true
}

var (
	errAny = errors.New("some error")
)

// wrapLines is the specification of line breaking.
func (m *Model) wrapLines(c Call) ([]string, error) {
	f := m.Fonts[m.Cur]
	mode := c.Brk
	toks, err := tokBreaker{mode}.BreakTextToToken(c.Text)
	if err != nil {
		return nil, err
	}
	var lines []string
	cur := ""
	for _, t := range toks {
		if t == "" {
			continue
		}
		cand := cur + t
		wd := f.width(strings.TrimSpace(cand), m.Size)
		if d := wd - c.W; d > -1e-6 && d < 1e-6 && !(d == 0 && f.exactWidth(strings.TrimSpace(cand), m.Size)) {
			m.wrapEps = true
		}
		if wd > c.W && strings.TrimSpace(cur) != "" {
			lines = append(lines, strings.TrimSpace(cur))
			cur = t
			continue
		}
		cur = cand
	}
	if strings.TrimSpace(cur) != "" {
		lines = append(lines, strings.TrimSpace(cur))
	}
	return lines, nil
}

// Do applies the call; the error tells what is expected: nil, a specific error, or errAny.
func (m *Model) Do(c Call) error {
	m.nCall++
	switch c.K {
	case "addfont":
		if m.Fonts[c.Font] != nil {
			return pdft.ErrAddSameFontName
		}
		m.Fonts[c.Font] = &mFont{src: m.E.Fonts[c.FI], used: map[int]map[rune]bool{}, kern: -1, rise: -1}
	case "setfont":
		if m.Fonts[c.Font] == nil {
			return pdft.ErrFontNameNotFound
		}
		m.Cur, m.Style, m.Size = c.Font, c.Style, c.Size
	case "kern", "rise":
		f := m.Fonts[c.Font]
		if f == nil {
			return pdft.ErrFontNameNotFound
		}
		if c.K == "kern" {
			f.kern = c.CB
		} else {
			f.rise = c.CB
		}
	case "measure":
		f := m.Fonts[m.Cur]
		if f == nil {
			return pdft.ErrFontNameNotFound
		}
		if f.textErr(c.Text) {
			return errAny
		}
		f.use(c.Text)
	case "insert":
		return m.insert(c.Text, c, c.Y, false)
	case "wrap":
		if c.Brk == "nil" || c.Brk == "" {
			return m.insert(c.Text, c, c.Y, false)
		}
		f := m.Fonts[m.Cur]
		if f == nil {
			if c.Brk == "fail" {
				return errBreak
			}
			if tk, _ := (tokBreaker{c.Brk}).BreakTextToToken(c.Text); strings.Join(tk, "") == "" {
				return nil // nothing to draw, nothing to measure
			}
			return pdft.ErrFontNameNotFound
		}
		if f.textErr(c.Text) && c.Brk != "fail" {
			return errAny
		}
		lines, err := m.wrapLines(c)
		if err != nil {
			return errBreak
		}
		f.use(c.Text)
		lh := 1.2 * float64(m.Size)
		off := 0.0
		if c.Align&aMiddle != 0 {
			off = float64(len(lines))*lh/2 - float64(m.Size)/2
		}
		for i, l := range lines {
			if err := m.insert(l, c, c.Y+float64(i)*lh-off, true); err != nil {
				return err
			}
		}
	case "img", "imgb64", "imgcache":
		it := &mItem{Kind: "image", Page: c.Page, X: c.X, Y: c.Y, W: c.W, H: c.H, Img: m.E.Imgs[c.Img], Cached: c.K == "imgcache", Call: m.nCall}
		m.Items = append(m.Items, it)
	case "border":
		m.Border = c.Show
	case "dup":
		pos := c.B
		if c.A < 1 || c.A > len(m.Pages) {
			return pdft.ErrNoDesiredPageToCopy
		}
		if pos < 0 {
			pos += len(m.Pages)
		}
		if pos < 0 || pos >= len(m.Pages) {
			return pdft.ErrNoDesiredPageToCopy
		}
		if m.E.Tpages[m.Pages[c.A-1]].D["Contents"] == nil {
			return pdft.ErrNoContentsProperty
		}
		np := append([]int(nil), m.Pages[:pos+1]...)
		np = append(np, m.Pages[c.A-1])
		m.Pages = append(np, m.Pages[pos+1:]...)
	case "rm":
		if c.A < 1 || c.A > len(m.Pages) {
			return pdft.ErrNoDesiredPageToRemove
		}
		m.Pages = append(append([]int(nil), m.Pages[:c.A-1]...), m.Pages[c.A:]...)
	case "rmo":
		if c.A < 1 || c.A > len(m.Pages) {
			return pdft.ErrNoDesiredPageToKeep
		}
		m.Pages = []int{m.Pages[c.A-1]}
	case "protect":
		m.Prot, m.Perm, m.UP, m.OP = true, c.Perm, c.UP, c.OP
	}
	return nil
}

func (m *Model) insert(text string, c Call, y float64, wrap bool) error {
	f := m.Fonts[m.Cur]
	if f == nil {
		return pdft.ErrFontNameNotFound
	}
	if f.textErr(text) {
		return errAny
	}
	f.use(text)
	it := &mItem{Kind: "text", Page: c.Page, X: c.X, Y: y, W: c.W, H: c.H, Align: c.Align, Text: text, Font: f, FName: m.Cur,
		Under: strings.ContainsAny(m.Style, "uU"), Size: m.Size, Border: m.Border, Call: m.nCall, Wrap: wrap}
	if c.Col != nil {
		it.Col = *c.Col
	}
	m.Items = append(m.Items, it)
	return nil
}

// ---- execution of a call on the real code

type pdfAPI interface {
	Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *pdft.FontColor) error
}

type cbRec struct {
	Font string
	Kind string
	L, R rune
	LP   uint
	RP   uint
	PV   int16
	FS   int
	All  string
	Idx  int
	Ret  float64
}

type Sess struct {
	P    *pdft.PDFt
	E    *Env
	Rec  func(cbRec)
	Wid  []float64 // results of measure calls
	NPg  []int
	Outs [][]byte          // intermediate saves
	Pw   map[string][]byte // passwords shared between sessions
}

func openSess(e *Env) (*Sess, error) {
	s := &Sess{P: &pdft.PDFt{}, E: e}
	if err := s.P.OpenFrom(bytes.NewReader(e.Tmpl)); err != nil {
		return nil, fmt.Errorf("OpenFrom of a supported template failed: %w", err)
	}
	return s, nil
}

func colOf(c *[3]int) *pdft.FontColor {
	if c == nil {
		return nil
	}
	return &pdft.FontColor{R: c[0], G: c[1], B: c[2]}
}

func (s *Sess) Do(c Call) error {
	p := s.P
	switch c.K {
	case "addfont":
		if c.Path {
			fp, err := s.E.fontPath(c.FI)
			if err != nil {
				return err
			}
			return p.AddFont(c.Font, fp)
		}
		return p.AddFontFrom(c.Font, bytes.NewReader(s.E.Fonts[c.FI].Data))
	case "setfont":
		return p.SetFont(c.Font, c.Style, c.Size)
	case "kern":
		if c.CB < 0 {
			return p.KernOverride(c.Font, nil)
		}
		fn := kernFn(c.CB)
		name := c.Font
		return p.KernOverride(c.Font, func(l, r rune, lp, rp uint, pv int16) int16 {
			v := fn(l, r, lp, rp, pv)
			if s.Rec != nil {
				s.Rec(cbRec{Font: name, Kind: "kern", L: l, R: r, LP: lp, RP: rp, PV: pv, Ret: float64(v)})
			}
			return v
		})
	case "rise":
		if c.CB < 0 {
			return p.TextriseOverride(c.Font, nil)
		}
		fn := riseFn(c.CB)
		name := c.Font
		return p.TextriseOverride(c.Font, func(l, r rune, fs int, all string, idx int) float32 {
			v := fn(l, r, fs, all, idx)
			if s.Rec != nil {
				s.Rec(cbRec{Font: name, Kind: "rise", L: l, R: r, FS: fs, All: all, Idx: idx, Ret: float64(v)})
			}
			return v
		})
	case "measure":
		w, err := p.MeasureTextWidth(c.Text)
		if err == nil {
			s.Wid = append(s.Wid, w)
		}
		return err
	case "insert":
		return p.Insert(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, colOf(c.Col))
	case "wrap":
		return p.InsertWrapText(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, colOf(c.Col), brkFor(c.Brk))
	case "img":
		return p.InsertImg(s.E.Imgs[c.Img].Data, c.Page, c.X, c.Y, c.W, c.H)
	case "imgcache":
		return p.InsertImgWithCache(s.E.Imgs[c.Img].Data, c.Page, c.X, c.Y, c.W, c.H)
	case "imgb64":
		return p.InsertImgBase64(b64Lines(base64.StdEncoding.EncodeToString(s.E.Imgs[c.Img].Data), c.Page+c.Img), c.Page, c.X, c.Y, c.W, c.H)
	case "border":
		p.ShowCellBorder(c.Show)
	case "dup":
		return p.DuplicatePageAfter(c.A, c.B)
	case "rm":
		return p.RemovePage(c.A)
	case "rmo":
		return p.RemoveOtherPages(c.A)
	case "protect":
		return p.SetProtection(c.Perm, s.pw(c.UP), s.pw(c.OP))
	case "save":
		if c.Path {
			fp := filepath.Join(s.E.Dir, "save.pdf")
			if err := p.Save(fp); err != nil {
				return err
			}
			b, err := os.ReadFile(fp)
			if err != nil {
				return err
			}
			s.Outs = append(s.Outs, b)
			return nil
		}
		var b bytes.Buffer
		if err := p.SaveTo(&b); err != nil {
			return err
		}
		s.Outs = append(s.Outs, b.Bytes())
	case "npage":
		s.NPg = append(s.NPg, p.GetNumberOfPage())
	case "bad":
		return s.doBad(c)
	default:
		panic("harness: unknown call " + c.K)
	}
	return nil
}

func (s *Sess) pw(w string) []byte {
	if b, ok := s.Pw[w]; ok {
		return b
	}
	return []byte(w)
}

func (s *Sess) Save() ([]byte, error) {
	var b bytes.Buffer
	err := s.P.SaveTo(&b)
	return b.Bytes(), err
}

// errMatch compares the actual error with the expected one.
func errMatch(want, got error) error {
	switch {
	case want == nil && got != nil:
		return fmt.Errorf("unexpected error: %v", got)
	case want != nil && got == nil:
		return fmt.Errorf("no error, expected %v", want)
	case want != nil && want != errAny && !errors.Is(got, want):
		return fmt.Errorf("error %q, expected %q", got, want)
	}
	return nil
}

// b64Lines breaks some base64 texts into lines, as mail programs do.
func b64Lines(s string, k int) string {
	if k%4 != 3 {
		return s
	}
	nl := []string{"\n", "\r\n"}[k/4%2]
	var b strings.Builder
	for len(s) > 76 {
		b.WriteString(s[:76] + nl)
		s = s[76:]
	}
	return b.String() + s + nl
}
