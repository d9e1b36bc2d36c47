package main

// C17 I/O, C18 Render, C19 text breaker.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
)

// oddReader splits its data at random, sometimes returns nothing, sometimes data with EOF.
type oddReader struct {
	b    []byte
	r    *rand.Rand
	max  int
	zero int
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	if o.zero > 0 && chance(o.r, o.zero) {
		return 0, nil
	}
	n := 1 + o.r.Intn(o.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], o.b)
	o.b = o.b[n:]
	if len(o.b) == 0 && o.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func chunked(r *rand.Rand, b []byte) (io.Reader, string) {
	switch r.Intn(7) {
	case 5: // a seekable reader that has been read from already
		n := 1 + r.Intn(40)
		rd := bytes.NewReader(append(bytes.Repeat([]byte("%PDF-1.4 junk "), 3)[:n:n], b...))
		io.CopyN(io.Discard, rd, int64(n))
		return rd, "the rest of a seekable reader"
	case 0:
		if len(b) < 300000 {
			return iotest.OneByteReader(bytes.NewReader(b)), "one byte at a time"
		}
		return iotest.HalfReader(bytes.NewReader(b)), "half reads"
	case 1:
		return iotest.DataErrReader(bytes.NewReader(b)), "data with EOF"
	case 2:
		return iotest.HalfReader(bytes.NewReader(b)), "half reads"
	case 3:
		return bytes.NewBuffer(append([]byte(nil), b...)), "bytes.Buffer"
	case 4:
		return io.MultiReader(bytes.NewReader(b[:len(b)/2]), strings.NewReader(""), bytes.NewReader(b[len(b)/2:])), "two parts"
	}
	return &oddReader{b: b, r: r, max: []int{1, 3, 17, 600, 5000}[1+r.Intn(4)], zero: r.Intn(2) * 10}, "random parts"
}

func runC17(t *T) {
	r := t.R
	p := &Prof{Corpus: 10, MinCalls: 1, MaxCalls: 8, W: map[string]int{"setfont": 12, "insert": 34, "wrap": 4, "img": 8, "imgcache": 8, "dup": 6, "rm": 3, "border": 4},
		RealFont: 6, MaxFonts: 2, NImgs: 2, Kern: 10, Protect: 10}
	g := t.genSession(p)
	if g == nil {
		return
	}
	e := g.m.E
	want := t.replay(e, g.calls)
	if want == nil {
		return
	}
	s := &Sess{P: &pdft.PDFt{}, E: e}
	target := filepath.Join(t.Dir, "target.pdf")
	// a document that cannot be built must not touch the target
	if chance(r, 30) {
		old := []byte("previous content of the target\n")
		must(os.WriteFile(target, old, 0644))
		v := &pdft.PDFt{}
		how := "on a value without a document"
		if chance(r, 50) {
			v.OpenFrom(bytes.NewReader(garbage(r)))
			how = "after a failed OpenFrom"
		}
		err := v.Save(target)
		now, rerr := os.ReadFile(target)
		if err == nil {
			if rerr != nil {
				t.fail("Save %s reported success but the file cannot be read: %v", how, rerr)
				return
			}
			if _, perr := ParseDoc(now, false); perr != nil {
				t.fail("Save %s reported success and wrote %d bytes that are not a document: %v", how, len(now), perr)
				return
			}
		} else if rerr != nil || !bytes.Equal(now, old) {
			t.fail("Save %s failed (%v) and changed the target file", how, err)
			return
		}
		if err == nil {
			t.Obs.add("empty documents saved", 1)
		} else {
			t.Obs.add("unbuildable documents refused", 1)
		}
	}
	if chance(r, 25) && !t.genReadFaults(e) {
		return
	}
	how := "path"
	tmplFile := ""
	if chance(r, 25) {
		tmplFile = t.writeFile("tmpl.pdf", e.Tmpl)
		if err := s.P.Open(tmplFile); err != nil {
			t.fail("Open of a supported template: %v", err)
			return
		}
	} else {
		if chance(r, 50) { // a failing read first
			n := faultPoint(r, len(e.Tmpl))
			fault := readFaults[r.Intn(len(readFaults))]
			err := s.P.OpenFrom(&failReader{data: e.Tmpl, n: n, err: fault, with: chance(r, 30)})
			if !errors.Is(err, fault) {
				t.fail("reader fails after %d of %d bytes with %q, OpenFrom returns %v", n, len(e.Tmpl), fault, err)
				return
			}
			t.Obs.add("read faults reported", 1)
		}
		rd, h := chunked(r, e.Tmpl)
		how = h
		if err := s.P.OpenFrom(rd); err != nil {
			t.fail("OpenFrom with a reader giving %s: %v", how, err)
			return
		}
	}
	t.ops = append(t.ops, "opened: "+how)
	for i, c := range g.calls {
		var err error
		if c.K == "addfont" && !c.Path {
			d := e.Fonts[c.FI].Data
			if chance(r, 40) {
				n := faultPoint(r, len(d))
				fault := readFaults[r.Intn(len(readFaults))]
				err := s.P.AddFontFrom(c.Font, &failReader{data: d, n: n, err: fault, with: chance(r, 30)})
				if !errors.Is(err, fault) {
					t.fail("reader fails after %d of %d bytes with %q, AddFontFrom returns %v", n, len(d), fault, err)
					return
				}
				t.Obs.add("read faults reported", 1)
			}
			rd, h := chunked(r, d)
			t.ops = append(t.ops, "font read: "+h)
			err = s.P.AddFontFrom(c.Font, rd)
		} else {
			err = s.Do(c)
		}
		if x := errMatch(g.wants[i], err); x != nil {
			t.fail("call %d %s: %v", i+1, c, x)
			return
		}
	}
	first, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	check := func(out []byte, how string) bool {
		d := t.parseProt(out, g.m)
		if d == nil {
			t.fail("(%s)", how)
			return false
		}
		if err := sameDoc(want, d, sameOpt{}); err != nil {
			t.fail("%s: document differs: %v", how, err)
			return false
		}
		t.Obs.add("documents compared: "+how, 1)
		return true
	}
	if !check(first, "chunked input") {
		return
	}
	faults := 0
	for k := 2 + r.Intn(3); k > 0; k-- {
		w := &failWriter{left: faultPoint(r, len(first)-40), short: chance(r, 25), err: writeFaults[r.Intn(len(writeFaults))]}
		at := w.left
		err := s.P.SaveTo(w)
		if w.hit && err == nil {
			t.fail("the writer took only %d of about %d bytes, SaveTo reports success", at, len(first))
			return
		}
		if w.hit && !w.short && !errors.Is(err, w.err) {
			t.fail("SaveTo hides the writer's error %q: %v", w.err, err)
			return
		}
		if !w.hit && err != nil {
			t.fail("SaveTo: %v", err)
			return
		}
		if w.hit {
			faults++
			t.Obs.add("write faults reported", 1)
		}
	}
	again, err := s.Save()
	if err != nil {
		t.fail("SaveTo after failed writes: %v", err)
		return
	}
	if !check(again, "retry after write faults") {
		return
	}
	if chance(r, 60) {
		for _, bad := range []string{t.Dir, filepath.Join(t.Dir, "nowhere", "x.pdf"), "/dev/full"} {
			if bad == "/dev/full" {
				if st, err := os.Stat(bad); err != nil || st.Mode()&os.ModeCharDevice == 0 {
					continue
				}
			}
			if err := s.P.Save(bad); err == nil {
				t.fail("Save to %s reports success", filepath.Base(bad))
				return
			}
			t.Obs.add("impossible targets reported", 1)
		}
		switch r.Intn(4) {
		case 0: // a new file
			os.Remove(target)
		case 1: // over the template it was opened from
			if tmplFile != "" {
				target = tmplFile
			}
		default:
			old := bytes.Repeat([]byte("old content "), (len(first)+5000)/12)
			must(os.WriteFile(target, old, 0644))
		}
		if err := s.P.Save(target); err != nil {
			t.fail("Save: %v", err)
			return
		}
		now, err := os.ReadFile(target)
		must(err)
		if bytes.Contains(now, []byte("old content old content")) {
			t.fail("Save over a longer file leaves its tail in place")
			return
		}
		if !check(now, "saved to a path") {
			return
		}
	}
	t.note(faults > 0, keyOf(t.ops...), "%s | %s, template read by %s, %d write faults", e.TmplDesc, kinds(g.calls), how, faults)
}

// genReadFaults: the generator's readers report the reader's error as well.
func (t *T) genReadFaults(e *Env) bool {
	r := t.R
	gp := &gopdf.GoPdf{}
	gp.Start(gopdf.Config{PageSize: gopdf.Rect{W: 200, H: 200}})
	gp.AddPage()
	fault := readFaults[r.Intn(len(readFaults))]
	if len(e.Fonts) > 0 {
		d := e.Fonts[r.Intn(len(e.Fonts))].Data
		n := faultPoint(r, len(d))
		rd := &failReader{data: d, n: n, err: fault, with: chance(r, 30)}
		err := gp.AddTTFFontByReader("f", rd)
		if !errors.Is(err, fault) {
			t.fail("reader fails after %d of %d bytes with %q, AddTTFFontByReader returns %v", n, len(d), fault, err)
			return false
		}
		t.Obs.add("generator read faults reported", 1)
	}
	if len(e.Imgs) > 0 {
		d := e.Imgs[r.Intn(len(e.Imgs))].Data
		n := faultPoint(r, len(d))
		rd := &failReader{data: d, n: n, err: fault, with: chance(r, 30)}
		hd, err := gopdf.ImageHolderByReader(rd)
		if err == nil { // a holder may also read later
			err = gp.ImageByHolder(hd, 1, 1, &gopdf.Rect{W: 5, H: 5})
		}
		if !errors.Is(err, fault) {
			t.fail("reader fails after %d of %d bytes with %q, ImageHolderByReader and ImageByHolder return %v", n, len(d), fault, err)
			return false
		}
		t.Obs.add("generator read faults reported", 1)
	}
	return true
}

var readFaults = []error{errRead, errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EIO}
var writeFaults = []error{errWrite, errWrite, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, os.ErrDeadlineExceeded, syscall.ENOSPC, syscall.EPIPE, syscall.EAGAIN}

func faultPoint(r *rand.Rand, n int) int {
	if n < 1 {
		return 0
	}
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return n - 1
	case 2:
		if n > 1 {
			return 1
		}
		return 0
	}
	return r.Intn(n)
}

// ---- Render

type rField struct {
	render.FieldInfo
}

var fieldKeys = []string{"name", "addr", "a", "A", "", "x y", "total", "ที่อยู่", "k1", "k2", "k10", "#", "img", "sum/1"}

func genField(r *rand.Rand, g *sessGen, key string, fonts []string) render.FieldInfo {
	f := render.FieldInfo{Key: key, PageNum: g.page(), X: coord(r), Y: coord(r), W: extent(r), H: extent(r), Align: genAlign(r), Size: 1 + r.Intn(30), IsWrapText: chance(r, 40)}
	f.Font = fonts[r.Intn(len(fonts))]
	if f.IsWrapText {
		f.W += 0.00003
		if chance(r, 10) {
			f.W = []float64{0, -1, -50.5}[r.Intn(3)]
		}
	}
	if chance(r, 4) {
		f.Size = 0
	}
	return f
}

const missingFont = "never added"

func runC18(t *T) {
	r := t.R
	design := chance(r, 25)
	p := &Prof{Corpus: 10, RealFont: 10, MaxFonts: 3, NImgs: 2, Kern: 8, Rise: 5}
	if design {
		p.RealFont, p.Kern, p.Rise = 100, 0, 0
	}
	e, err := genEnv(r, p)
	must(err)
	e.Dir = t.Dir
	g := newSessGen(r, p, e)
	// the field list
	perm := r.Perm(len(fontNames))
	var fonts []string
	for i := range e.Fonts {
		fonts = append(fonts, fontNames[perm[i]])
	}
	var fields render.FieldInfos
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		f := genField(r, g, fieldKeys[r.Intn(len(fieldKeys))], fonts)
		if !design && chance(r, 6) {
			f.Font = missingFont
		}
		fields = append(fields, f)
	}
	byKey := map[string]render.FieldInfo{}
	for _, f := range fields {
		byKey[f.Key] = f
	}
	t.ops = []string{e.desc(), fmt.Sprintf("fields %+v", fields)}
	rd, err := render.NewRender(t.writeFile("tmpl.pdf", e.Tmpl), fields)
	if err != nil {
		t.fail("NewRender on a supported template: %v", err)
		return
	}
	s := &Sess{P: &rd.PDFt, E: e}
	m := g.m
	do := func(c Call) bool {
		t.ops = append(t.ops, c.String())
		if x := errMatch(m.Do(c), s.Do(c)); x != nil {
			t.fail("%s: %v", c, x)
			return false
		}
		return true
	}
	for i, f := range fonts {
		if !do(Call{K: "addfont", Font: f, FI: i}) {
			return
		}
		if chance(r, p.Kern) && !do(Call{K: "kern", Font: f, CB: r.Intn(20)}) {
			return
		}
		if chance(r, p.Rise) && !do(Call{K: "rise", Font: f, CB: r.Intn(20)}) {
			return
		}
	}
	brk := "nil"
	if chance(r, 70) {
		brk = []string{"basic", "basic", "rune", "pairs", "after", "whole"}[r.Intn(6)]
		rd.SetTextBreaker(brkFor(brk))
	}
	t.ops = append(t.ops, "breaker "+brk)
	if design {
		t.designC18(rd, s, m, byKey, fields)
		return
	}
	// the calls, and the direct calls they stand for
	direct := newModel(e)
	var dcalls []Call
	for i, f := range fonts {
		dcalls = append(dcalls, Call{K: "addfont", Font: f, FI: i})
		if k := m.Fonts[f].kern; k >= 0 {
			dcalls = append(dcalls, Call{K: "kern", Font: f, CB: k})
		}
		if k := m.Fonts[f].rise; k >= 0 {
			dcalls = append(dcalls, Call{K: "rise", Font: f, CB: k})
		}
	}
	for _, c := range dcalls {
		direct.Do(c)
	}
	add := func(c Call) error {
		dcalls = append(dcalls, c)
		return direct.Do(c)
	}
	drawn := 0
	unset := false // a failed Text may or may not have selected its font
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for k := 1 + r.Intn(12); k > 0; k-- {
		key := fieldKeys[r.Intn(len(fieldKeys))]
		if len(keys) > 0 && chance(r, 75) {
			key = keys[r.Intn(len(keys))]
		}
		f, known := byKey[key]
		switch r.Intn(12) {
		case 10, 11: // a call that cannot be drawn: the error of the direct call comes back and nothing is drawn
			if !known {
				break
			}
			switch r.Intn(4) {
			case 0:
				x := []string{"!!!", "iVBORw0KGgo*", "====", base64.StdEncoding.EncodeToString([]byte("no image at all"))}[r.Intn(4)]
				t.ops = append(t.ops, fmt.Sprintf("ImgBase64(%q,%q)", key, x))
				if rd.ImgBase64(key, x) == nil {
					t.fail("ImgBase64(%q,%q) returned no error", key, x)
					return
				}
			case 1:
				if !f.IsWrapText || f.Font == missingFont {
					break
				}
				t.ops = append(t.ops, fmt.Sprintf("Text(%q) with a failing breaker", key))
				rd.SetTextBreaker(brkFor("fail"))
				err := rd.Text(key, "some words to break")
				rd.SetTextBreaker(brkFor(brk))
				if x := errMatch(errBreak, err); x != nil {
					t.fail("Text(%q) with a failing breaker: %v", key, x)
					return
				}
				unset = true
			default:
				if f.Font == missingFont || !direct.Fonts[f.Font].textErr(astral) {
					break
				}
				text := "A" + astral
				t.ops = append(t.ops, fmt.Sprintf("Text(%q,%q)", key, text))
				if rd.Text(key, text) == nil {
					t.fail("Text(%q,%q): the font has no such character and no error was returned", key, text)
					return
				}
				unset = true
			}
			t.Obs.add("calls that cannot be drawn", 1)
		default:
			text := "abc"
			if known && f.Font == missingFont {
				t.ops = append(t.ops, fmt.Sprintf("Text(%q) in a font never added", key))
				if x := errMatch(pdft.ErrFontNameNotFound, rd.Text(key, text)); x != nil {
					t.fail("Text(%q) of a field with a font never added: %v", key, x)
					return
				}
				t.Obs.add("calls that cannot be drawn", 1)
				break
			}
			if known {
				src := direct.Fonts[f.Font]
				text = genText(r, src.src, f.IsWrapText)
				if chance(r, 4) {
					text = ""
				}
				if src.textErr(text) {
					text = "A"
				}
			}
			t.ops = append(t.ops, fmt.Sprintf("Text(%q,%q)", key, clip(text)))
			err := rd.Text(key, text)
			if err != nil {
				t.fail("Text(%q): %v", key, err)
				return
			}
			if known {
				add(Call{K: "setfont", Font: f.Font, Size: f.Size})
				c := Call{K: "insert", Text: text, Page: f.PageNum, X: f.X, Y: f.Y, W: f.W, H: f.H, Align: f.Align}
				if f.IsWrapText {
					c.K, c.Brk = "wrap", brk
				}
				add(c)
				drawn++
				unset = false
			} else {
				t.Obs.add("unknown keys", 1)
			}
			t.Obs.add("Text calls", 1)
		case 0, 1:
			im := r.Intn(len(e.Imgs))
			t.ops = append(t.ops, fmt.Sprintf("ImgBase64(%q,#%d)", key, im))
			if err := rd.ImgBase64(key, base64.StdEncoding.EncodeToString(e.Imgs[im].Data)); err != nil {
				t.fail("ImgBase64(%q): %v", key, err)
				return
			}
			if known {
				add(Call{K: "imgb64", Img: im, Page: f.PageNum, X: f.X, Y: f.Y, W: f.W, H: f.H})
				drawn++
			}
			t.Obs.add("ImgBase64 calls", 1)
		case 2: // direct call in between
			c := Call{K: "setfont", Font: fonts[r.Intn(len(fonts))], Style: "", Size: 3 + r.Intn(20)}
			if !do(c) {
				return
			}
			add(c)
			unset = false
			c = g.box(Call{K: "insert", Text: "A", Align: genAlign(r), Col: genCol(r)})
			if !do(c) {
				return
			}
			add(c)
		case 3:
			if len(direct.Pages) == 0 {
				break
			}
			a := 1 + r.Intn(len(direct.Pages))
			if len(direct.Pages) > 8 || e.Tpages[direct.Pages[a-1]].D["Contents"] == nil {
				break
			}
			c := Call{K: "dup", A: a, B: r.Intn(len(direct.Pages))}
			if !do(c) {
				return
			}
			add(c)
		case 4:
			if direct.Cur == "" || unset || !chance(r, 50) {
				break
			}
			bad := "no such key \x01"
			if err := rd.Text(bad, "zzz"); err != nil {
				t.fail("Text with an unknown key: %v", err)
				return
			}
			if err := rd.ImgBase64(bad, "not even base64"); err != nil {
				t.fail("ImgBase64 with an unknown key: %v", err)
				return
			}
			// the current font is untouched
			c := g.box(Call{K: "insert", Text: "A"})
			t.ops = append(t.ops, "unknown key, then "+c.String())
			if err := s.Do(c); err != nil {
				t.fail("%s: %v", c, err)
				return
			}
			add(c)
			t.Obs.add("unknown keys", 2)
		}
	}
	if direct.wrapEps {
		return
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	fs, view := direct.Verify(out, t.Obs)
	if msg := pick(fs, "*"); msg != "" || view == nil {
		t.fail("%s", msg)
		return
	}
	dd := t.replay(e, dcalls)
	if dd == nil {
		return
	}
	if err := sameDoc(dd, view.Doc, sameOpt{}); err != nil {
		t.fail("rendered document differs from the direct inserts: %v", err)
		return
	}
	t.Obs.add("rendered documents compared", 1)
	t.note(drawn > 0, keyOf(t.ops...), "%s | %d fields, %d drawn", e.TmplDesc, len(fields), drawn)
}

func (t *T) designC18(rd *render.Render, s *Sess, m *Model, byKey map[string]render.FieldInfo, fields render.FieldInfos) {
	t.ops = append(t.ops, "ShowDesignView")
	rd.ShowDesignView()
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	// the order of the cells on a page is free: read it from the document
	_, view := m.Verify(out, nil)
	if view == nil {
		t.fail("document unreadable")
		return
	}
	m.Do(Call{K: "border", Show: true})
	seen := map[string]bool{}
	for i, evs := range view.Events {
		fonts, err := view.Doc.res(view.Pages[i], "Font")
		if err != nil {
			t.fail("%v", err)
			return
		}
		for _, ev := range evs {
			if ev.Kind != "text" || len(ev.Glyphs) == 0 {
				continue
			}
			t0, err := view.Doc.type0memo(fonts[ev.Font])
			if err != nil {
				t.fail("page %d: %v", i+1, err)
				return
			}
			txt := ""
			for _, gl := range ev.Glyphs {
				txt += t0.ToUni[gl.Code]
			}
			// the key with these glyphs
			found := ""
			ok := false
			for k, f := range byKey {
				if seen[k] || f.PageNum != i+1 {
					continue
				}
				src := m.Fonts[f.Font].src.T
				match := true
				rs := []rune("#" + k)
				if len(rs) != len(ev.Glyphs) {
					continue
				}
				for j, ru := range rs {
					gi, _ := src.Glyph(ru)
					if gi != ev.Glyphs[j].Code {
						match = false
					}
				}
				if match && sameBase(t0.Base, f.Font) && ev.Size == float64(f.Size) {
					found, ok = k, true
				}
			}
			if !ok {
				t.fail("design view: page %d shows %q, which is not the cell of a field of that page", i+1, txt)
				return
			}
			seen[found] = true
			f := byKey[found]
			m.Do(Call{K: "setfont", Font: f.Font, Size: f.Size})
			m.Do(Call{K: "insert", Text: "#" + found, Page: f.PageNum, X: f.X, Y: f.Y, W: f.W, H: f.H, Align: f.Align})
		}
	}
	want := 0
	for k, f := range byKey {
		if f.PageNum >= 1 && f.PageNum <= len(m.Pages) {
			want++
			if !seen[k] {
				t.fail("design view: field %q (page %d) has no cell", k, f.PageNum)
				return
			}
		}
	}
	fs, view := m.Verify(out, t.Obs)
	if msg := pick(fs, "*"); msg != "" || view == nil {
		t.fail("design view: %s", msg)
		return
	}
	t.Obs.add("design view cells matched", want)
	t.note(want > 0, keyOf(t.ops...), "design view of %d fields", len(byKey))
}

// ---- text breaker

var brkAlphabet = []string{" ", "a", "é", "\xff", "\t", "\u00a0", "ก"}

func checkTokens(s string) error {
	toks, err := textbreak.BasicTextbreak{}.BreakTextToToken(s)
	if err != nil {
		return fmt.Errorf("BreakTextToToken(%q): %v", s, err)
	}
	if j := strings.Join(toks, ""); j != s {
		return fmt.Errorf("tokens %q of %q concatenate to %q", toks, s, j)
	}
	for _, k := range toks {
		if k != " " && strings.Contains(k, " ") {
			return fmt.Errorf("token %q of %q contains a space", k, s)
		}
	}
	return nil
}

func runC19(t *T) {
	r := t.R
	if t.Idx < 49 {
		// all strings whose first two symbols are the ones of this case
		pre := brkAlphabet[t.Idx/7] + brkAlphabet[t.Idx%7]
		depth := 4
		if t.Deep {
			depth = 5
		}
		n := 0
		var rec func(s string, d int) bool
		rec = func(s string, d int) bool {
			if err := checkTokens(s); err != nil {
				t.fail("%v", err)
				return false
			}
			n++
			if d == 0 {
				return true
			}
			for _, a := range brkAlphabet {
				if !rec(s+a, d-1) {
					return false
				}
			}
			return true
		}
		if t.Idx == 0 {
			for _, x := range append([]string{""}, brkAlphabet...) {
				if err := checkTokens(x); err != nil {
					t.fail("%v", err)
					return
				}
			}
		}
		rec(pre, depth)
		t.Obs.add("short strings enumerated", n)
		t.note(true, pre, "all strings starting with %q up to %d symbols (%d)", pre, depth+2, n)
		return
	}
	var last string
	for k := 0; k < 40; k++ {
		var b strings.Builder
		for n := r.Intn(1 << uint(r.Intn(12))); n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				b.WriteString(strings.Repeat(" ", 1+r.Intn(4)))
			case 1:
				b.WriteByte(byte(r.Intn(256)))
			case 2:
				b.WriteRune(rune(r.Intn(0x10ffff)))
			case 3:
				b.WriteString("\u3000\u2003")
			default:
				b.WriteByte(byte('a' + r.Intn(26)))
			}
		}
		last = b.String()
		if err := checkTokens(last); err != nil {
			t.fail("%v", err)
			return
		}
		t.Obs.add("random strings", 1)
	}
	t.note(true, keyOf(last), "%q", clip(last))
}

func init() {
	register(&Check{ID: "C17", Quick: 8750, Thorough: 40000, Level: "fault_enumeration",
		Rule: "case = history run over readers that split, dribble, or end oddly, with read and write faults injected at random and boundary offsets (also short writes without an error), impossible target paths and a full device, then retried; non-trivial when a write fault was injected",
		Run:  runC17})
	register(&Check{ID: "C18", Quick: 15000, Thorough: 60000,
		Rule: "case = field list (wrapped and plain fields, repeated keys, missing pages) + Text/ImgBase64 calls with known and unknown keys, with and without a breaker, mixed with direct calls and page operations, or the design view; non-trivial when a field was drawn",
		Run:  runC18})
	register(&Check{ID: "C19", Quick: 200000, Thorough: 800000,
		Rule: "case = all strings of up to 6 (7 thorough) symbols over a 7-symbol alphabet (space, ASCII, 2- and 3-byte characters, an invalid byte, tab, no-break space) starting with two given symbols, or 40 random strings of any bytes; every case is non-trivial",
		Run:  runC19})
}
