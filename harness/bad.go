package main

// Calls that must fail (C16), and what they must fail with.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/signintech/pdft"
)

var errRead = errors.New("reader fails")
var errWrite = errors.New("writer fails")

type failReader struct {
	data []byte
	n    int
	err  error
	pos  int
	with bool // the last data comes together with the error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.pos >= f.n || f.pos >= len(f.data) {
		return 0, f.err
	}
	k := copy(p, f.data[f.pos:f.n])
	f.pos += k
	if f.with && f.pos >= f.n {
		return k, f.err
	}
	return k, nil
}

type failWriter struct {
	left  int
	short bool // short count without an error
	hit   bool
	err   error // what a refused write answers, errWrite if nil
	buf   bytes.Buffer
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		f.buf.Write(p)
		return len(p), nil
	}
	k := f.left
	f.left = 0
	f.hit = true
	f.buf.Write(p[:k])
	if f.short {
		return k, nil
	}
	if f.err != nil {
		return k, f.err
	}
	return k, errWrite
}

func garbage(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte("this is not what you are looking for")
	case 2:
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		b[0] = 0x11
		return b
	case 3:
		return []byte("\x89PNG\r\n\x1a\n")
	case 4:
		return []byte("GIF89a\x01\x00\x01\x00\x00\x00\x00;")
	}
	return []byte{0}
}

const astral = "\U0010FFFD"

// genBad makes one failing call; ok is false when it does not apply.
func (g *sessGen) genBad(m *Model) (c Call, want error, ok bool) {
	r := g.r
	c = g.box(Call{K: "bad", CB: r.Intn(1 << 30)})
	cur := m.Fonts[m.Cur]
	names := []string{}
	for n := range m.Fonts {
		names = append(names, n)
	}
	kinds := []string{"dupfont", "missfont", "junkfont", "readfont", "setfont", "kern", "rise", "astral", "astralm", "astralw", "brk", "img", "b64", "b64x", "imgcache", "imgcache", "dup", "rm", "rmo", "openmiss", "openjunk", "openread", "savebad", "savew", "nofont"}
	c.Bad = kinds[r.Intn(len(kinds))]
	want = errAny
	c.Col = genCol(r)
	c.Align = genAlign(r)
	switch c.Bad {
	case "dupfont":
		if len(names) == 0 {
			return c, nil, false
		}
		for _, x := range fontNames { // deterministic choice
			if m.Fonts[x] != nil {
				c.Font = x
				if chance(r, 40) {
					break
				}
			}
		}
		c.FI = r.Intn(len(m.E.Fonts))
		c.Path = chance(r, 30)
		want = pdft.ErrAddSameFontName
	case "missfont", "junkfont", "readfont":
		c.Font = "new font"
		if chance(r, 50) { // a name that is added properly later
			for _, x := range fontNames {
				if m.Fonts[x] == nil {
					c.Font = x
					if chance(r, 30) {
						break
					}
				}
			}
		}
		c.FI = r.Intn(len(m.E.Fonts))
		if c.Bad == "readfont" {
			want = errRead
		}
	case "setfont", "kern", "rise":
		c.Font = []string{"no such font", "", "ARIAL?", "F99"}[r.Intn(4)]
		want = pdft.ErrFontNameNotFound
	case "astral", "astralm", "astralw":
		if cur == nil {
			return c, nil, false
		}
		pre := genText(r, cur.src, c.Bad == "astralw")
		c.Text = pre + astral + genText(r, cur.src, false)
		if chance(r, 30) {
			c.Text = pre + " " + astral
		}
		if !cur.textErr(astral) {
			return c, nil, false
		}
		c.Brk = []string{"basic", "rune", "whole", "nil"}[r.Intn(4)]
	case "brk":
		if cur == nil {
			return c, nil, false
		}
		c.Text = genText(r, cur.src, true)
		want = errBreak
	case "img", "b64", "b64x", "imgcache":
	case "dup", "rm", "rmo":
		n := len(m.Pages)
		c.A = []int{0, -1, n + 1, n + 3, -n}[r.Intn(5)]
		c.B = r.Intn(n + 1)
		if c.Bad == "dup" && n > 0 && chance(r, 50) {
			c.A = 1 + r.Intn(n)
			c.B = []int{n, n + 1, -n - 1, -n - 4}[r.Intn(4)]
		}
		want = map[string]error{"dup": pdft.ErrNoDesiredPageToCopy, "rm": pdft.ErrNoDesiredPageToRemove, "rmo": pdft.ErrNoDesiredPageToKeep}[c.Bad]
	case "openread":
		want = errRead
	case "openmiss":
		want = os.ErrNotExist
	case "savew":
		want = errWrite
	case "nofont":
		if cur != nil {
			return c, nil, false
		}
		c.Text = "abc"
		want = pdft.ErrFontNameNotFound
	}
	return c, want, true
}

func (s *Sess) doBad(c Call) error {
	p := s.P
	r := rand.New(rand.NewSource(int64(c.CB)))
	switch c.Bad {
	case "dupfont":
		if c.Path {
			fp, err := s.E.fontPath(c.FI)
			if err != nil {
				panic(harnessErr{err.Error()})
			}
			return p.AddFont(c.Font, fp)
		}
		return p.AddFontFrom(c.Font, bytes.NewReader(s.E.Fonts[c.FI].Data))
	case "missfont":
		return p.AddFont(c.Font, filepath.Join(s.E.Dir, "missing.ttf"))
	case "junkfont":
		return p.AddFontFrom(c.Font, bytes.NewReader(garbage(r)))
	case "readfont":
		d := s.E.Fonts[c.FI].Data
		return p.AddFontFrom(c.Font, &failReader{data: d, n: r.Intn(len(d) + 1), err: errRead})
	case "setfont":
		return p.SetFont(c.Font, "U", 33)
	case "kern":
		return p.KernOverride(c.Font, kernFn(3))
	case "rise":
		return p.TextriseOverride(c.Font, riseFn(1))
	case "astral", "nofont":
		return p.Insert(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, colOf(c.Col))
	case "astralm":
		_, err := p.MeasureTextWidth(c.Text)
		return err
	case "astralw":
		return p.InsertWrapText(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, colOf(c.Col), brkFor(c.Brk))
	case "brk":
		return p.InsertWrapText(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, colOf(c.Col), brkFor("fail"))
	case "img":
		return p.InsertImg(garbage(r), c.Page, c.X, c.Y, c.W, c.H)
	case "imgcache": // the same rubbish is refused every time
		g := garbage(r)
		if err := p.InsertImgWithCache(g, c.Page, c.X, c.Y, c.W, c.H); err == nil {
			return nil
		}
		return p.InsertImgWithCache(g, c.Page, c.X, c.Y, c.W, c.H)
	case "b64":
		return p.InsertImgBase64(base64.StdEncoding.EncodeToString(garbage(r)), c.Page, c.X, c.Y, c.W, c.H)
	case "b64x":
		x := []string{"!!!", "data:image/png;base64,iVBOR", "iVBORw0KGgo*", "====", "\x00"}[r.Intn(5)]
		if len(s.E.Imgs) > 0 && chance(r, 60) { // a proper one with one character spoilt
			b := []byte(base64.StdEncoding.EncodeToString(s.E.Imgs[r.Intn(len(s.E.Imgs))].Data))
			switch cut := 1 + r.Intn(3); {
			case chance(r, 60):
				b[r.Intn(len(b))] = '!'
			case chance(r, 50): // the last of its characters are missing
				b = b[:len(b)-cut]
			default:
				b = append(bytes.TrimRight(b, "="), "QUJ"[:cut]...)
				if len(b)%4 == 0 {
					b = b[:len(b)-1]
				}
			}
			x = string(b)
		}
		return p.InsertImgBase64(x, c.Page, c.X, c.Y, c.W, c.H)
	case "dup":
		return p.DuplicatePageAfter(c.A, c.B)
	case "rm":
		return p.RemovePage(c.A)
	case "rmo":
		return p.RemoveOtherPages(c.A)
	case "openmiss":
		return p.Open(filepath.Join(s.E.Dir, "missing.pdf"))
	case "openjunk":
		g := garbage(r)
		if chance(r, 40) {
			g = append([]byte("%PDF-1.4\n"), g...)
		}
		return p.OpenFrom(bytes.NewReader(g))
	case "openread":
		return p.OpenFrom(&failReader{data: s.E.Tmpl, n: r.Intn(len(s.E.Tmpl) + 1), err: errRead})
	case "savebad":
		if chance(r, 50) {
			return p.Save(filepath.Join(s.E.Dir, "no such directory", "x.pdf"))
		}
		return p.Save(s.E.Dir)
	case "savew":
		return p.SaveTo(&failWriter{left: r.Intn(200)})
	}
	panic("harness: unknown bad call " + c.Bad)
}

func runC16(t *T) {
	r := t.R
	p := &Prof{Corpus: 8, MinCalls: 1, MaxCalls: 12, W: map[string]int{"setfont": 12, "insert": 34, "wrap": 5, "measure": 3, "img": 6, "imgb64": 3, "imgcache": 8, "dup": 8, "rm": 5, "rmo": 1, "border": 6, "save": 3},
		RealFont: 4, MaxFonts: 3, NImgs: 2, Kern: 12, Rise: 8, Protect: 8, NoMissing: true}
	g := t.genSession(p)
	if g == nil {
		return
	}
	e := g.m.E
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	m := newModel(e)
	var log []string
	good := g.calls
	bg := &sessGen{r: r, p: p, m: m, touched: map[string]bool{}}
	nbad := 0
	bads := func() bool {
		for k := r.Intn(4); k > 0; k-- {
			bg.m = m
			c, want, ok := bg.genBad(m)
			if !ok {
				continue
			}
			log = append(log, c.String()+" "+c.Font)
			t.ops = append([]string{e.desc()}, log...)
			err := s.doBad(c)
			if x := errMatch(want, err); x != nil {
				t.fail("%s %q: %v", c, c.Font, x)
				return false
			}
			if n := s.P.GetNumberOfPage(); n != len(m.Pages) {
				t.fail("after the failed %s the document has %d pages, expected %d", c, n, len(m.Pages))
				return false
			}
			nbad++
			t.Obs.add("failing calls: "+c.Bad, 1)
		}
		return true
	}
	for i, c := range good {
		if !bads() {
			return
		}
		want := m.Do(c)
		log = append(log, c.String())
		if x := errMatch(want, s.Do(c)); x != nil {
			t.ops = append([]string{e.desc()}, log...)
			t.fail("call %d %s: %v", i+1, c, x)
			return
		}
	}
	if !bads() {
		return
	}
	t.ops = append([]string{e.desc()}, log...)
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	got := t.parseProt(out, m)
	want := t.replay(e, without(good, "save"))
	if got == nil || want == nil {
		return
	}
	if err := sameDoc(want, got, sameOpt{}); err != nil {
		t.fail("failed calls left a trace in the document: %v", err)
		return
	}
	t.Obs.add("documents compared", 1)
	t.note(nbad > 0, keyOf(t.ops...), "%s | %s + %d failing calls", e.TmplDesc, kinds(good), nbad)
}

func init() {
	register(&Check{ID: "C16", Quick: 6000, Thorough: 50000,
		Rule: "case = history with failing calls of 24 kinds (fonts, callbacks, text, breakers, images, base64, page operations, open and save faults) at random points; the save is compared with the history without them; non-trivial when at least one call failed",
		Run:  runC16})
}

var _ io.Reader = (*failReader)(nil)
