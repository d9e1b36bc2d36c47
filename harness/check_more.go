package main

// C05 measuring, C06 wrapping, C07 images, C08 image cache, C09 page operations.

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/signintech/pdft"
)

// fresh runs the calls in a new session and returns the parsed save.
func (t *T) fresh(e *Env, calls []Call) (*Doc, []byte) {
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return nil, nil
	}
	for i, c := range calls {
		if err := s.Do(c); err != nil {
			t.fail("call %d %s: %v", i+1, c, err)
			return nil, nil
		}
	}
	return t.saveDoc(s)
}

func (t *T) saveDoc(s *Sess) (*Doc, []byte) {
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return nil, nil
	}
	d := t.parseOut(out, s.E.Tdoc)
	return d, out
}

// parseOut reads a saved document, decrypted if need be with the empty key (unprotected only).
func (t *T) parseOut(out []byte, tmpl *Doc) *Doc {
	d, err := ParseDoc(out, false)
	if err != nil {
		t.fail("saved file: %v", err)
		return nil
	}
	d.tmpl = tmpl
	if err := d.Check(); err != nil {
		t.fail("saved file: %v", err)
		return nil
	}
	return d
}

// parseProt is parseOut for a possibly protected document.
func (t *T) parseProt(out []byte, m *Model) *Doc {
	d, err := ParseDoc(out, false)
	if err != nil {
		t.fail("saved file: %v", err)
		return nil
	}
	d.tmpl = m.E.Tdoc
	if m.Prot {
		e, err := d.EncInfo()
		if err != nil || e == nil {
			t.fail("no usable encryption dictionary: %v", err)
			return nil
		}
		key := e.authUser([]byte(m.UP))
		if key == nil {
			t.fail("user password refused")
			return nil
		}
		if err := d.Decrypt(e, key); err != nil {
			t.fail("decrypting: %v", err)
			return nil
		}
	}
	if err := d.Check(); err != nil {
		t.fail("saved file: %v", err)
		return nil
	}
	return d
}

func init() {
	register(&Check{ID: "C05", Quick: 25000, Thorough: 100000,
		Rule: "case = fonts with and without kerning callbacks, histories of measure and insert calls; each measured width is compared with the advances found in the saved document and the save is compared with the same history without measuring; non-trivial when a measured text was drawn",
		Run: func(t *T) {
			p := &Prof{Corpus: 2, MinCalls: 2, MaxCalls: 14, W: map[string]int{"setfont": 20, "insert": 60, "measure": 20, "wrap": 4},
				RealFont: 15, MaxFonts: 4, Kern: 50, Rise: 15, ReKern: true, NoMissing: true, Tmpl: tmplOpt{Plain: true, MaxPages: 2}}
			e, err := genEnv(t.R, p)
			must(err)
			e.Dir = t.Dir
			g := newSessGen(t.R, p, e)
			g.addFonts()
			g.run()
			if g.m.wrapEps {
				return
			}
			// measure every inserted text just before it is inserted
			type mw struct{ item, wid int }
			var calls []Call
			var plain []Call
			var wants []error
			for i, c := range g.calls {
				if c.K == "insert" {
					calls = append(calls, Call{K: "measure", Text: c.Text})
					wants = append(wants, nil)
				}
				calls = append(calls, c)
				wants = append(wants, g.wants[i])
				if c.K != "measure" {
					plain = append(plain, c)
				}
			}
			t.setOps(e, calls)
			m := newModel(e)
			for _, c := range calls {
				m.Do(c)
			}
			s, err := openSess(e)
			if err != nil {
				t.fail("%v", err)
				return
			}
			if msg := runCalls(s, calls, wants); msg != "" {
				t.fail("%s", msg)
				return
			}
			out, err := s.Save()
			if err != nil {
				t.fail("SaveTo: %v", err)
				return
			}
			fs, view := m.Verify(out, t.Obs)
			if msg := pick(fs, "structure", "align"); msg != "" || view == nil {
				t.fail("%s", msg+pick(fs, "structure"))
				return
			}
			// widths drawn, in call order
			per := map[int]int{} // next event per page
			k := 0
			wi := 0
			var texts [][]Event
			for i := range view.Pages {
				var tx []Event
				for _, ev := range view.Events[i] {
					if ev.Kind == "text" && len(ev.Glyphs) > 0 {
						tx = append(tx, ev)
					}
				}
				texts = append(texts, tx)
			}
			drawn := 0
			mm := newModel(e)
			for _, c := range calls {
				before := len(mm.Items)
				mm.Do(c)
				switch c.K {
				case "measure":
					wi++
					continue
				case "insert", "wrap":
				default:
					continue
				}
				for _, it := range mm.Items[before:] {
					if it.Text == "" {
						if c.K == "insert" && s.Wid[wi-1] != 0 {
							t.fail("MeasureTextWidth(\"\") = %v", s.Wid[wi-1])
							return
						}
						continue
					}
					pi := it.Page - 1
					if per[pi] >= len(texts[pi]) {
						t.fail("text %q is missing on page %d", it.Text, it.Page)
						return
					}
					ev := texts[pi][per[pi]]
					per[pi]++
					if c.K != "insert" {
						continue
					}
					fonts, err := view.Doc.res(view.Pages[pi], "Font")
					if err != nil {
						t.fail("%v", err)
						return
					}
					t0, err := view.Doc.type0memo(fonts[ev.Font])
					if err != nil {
						t.fail("font of %q: %v", it.Text, err)
						return
					}
					sum := 0.0
					for _, gl := range ev.Glyphs {
						sum += t0.width(gl.Code) - gl.Adjust
					}
					sum -= ev.Trail
					sum = sum * ev.Size / 1000
					if math.Abs(sum-s.Wid[wi-1]) > 1e-6*math.Max(1, math.Abs(sum)) {
						t.fail("MeasureTextWidth(%q) size %d font %q = %v, the text drawn is %v wide", clip(it.Text), it.Size, it.FName, s.Wid[wi-1], sum)
						return
					}
					drawn++
					t.Obs.add("measured widths compared with drawn", 1)
				}
			}
			_ = k
			d2, _ := t.fresh(e, plain)
			if d2 == nil {
				return
			}
			if err := sameDoc(d2, view.Doc, sameOpt{noUnicode: true}); err != nil {
				t.fail("measuring changed the saved document: %v", err)
				return
			}
			t.Obs.add("documents compared with and without measuring", 1)
			t.note(drawn > 0, keyOf(t.ops...), "%s | %s", e.TmplDesc, kinds(calls))
		}})

	register(fillCheck("C06", 30000, 120000,
		"case = histories of wrapped inserts with random box widths, alignments and breakers (basic, per character, groups, trailing space, whole text, none); non-trivial when a wrapped text was broken into at least two lines",
		func(t *T) *Prof {
			return &Prof{Corpus: 3, MinCalls: 1, MaxCalls: 8, W: map[string]int{"setfont": 20, "wrap": 70, "insert": 5, "measure": 5},
				RealFont: 15, MaxFonts: 3, Kern: 25, Rise: 8, Breakers: []string{"basic", "basic", "basic", "rune", "pairs", "after", "whole", "nil"}, Tmpl: tmplOpt{Plain: true, MaxPages: 3}}
		}, func(sr *sessRun) bool {
			n := map[int]int{}
			for _, it := range sr.g.m.Items {
				if it.Wrap {
					n[it.Call]++
					if n[it.Call] > 1 {
						return true
					}
				}
			}
			return false
		}, "text", "pages", "callback"))

	register(&Check{ID: "C07", Quick: 30000, Thorough: 120000,
		Rule: "case = images (every PNG colour type and bit depth, palettes, transparency, filters, chunk layouts; gray, RGB and CMYK JPEG; interlaced, 16 bit, damaged and foreign files) inserted through all three calls; non-trivial when the pixels of a placed image were compared",
		Run: func(t *T) {
			p := &Prof{Corpus: 6, MinCalls: 1, MaxCalls: 10, W: map[string]int{"img": 30, "imgb64": 20, "imgcache": 25, "insert": 5, "dup": 3, "rm": 3},
				RealFont: 0, MaxFonts: 1, NImgs: 3, Protect: 15}
			g := t.genSession(p)
			if g == nil {
				return
			}
			s, err := openSess(g.m.E)
			if err != nil {
				t.fail("%v", err)
				return
			}
			if msg := runCalls(s, g.calls, g.wants); msg != "" {
				t.fail("%s", msg)
				return
			}
			for k := 0; k < 2; k++ {
				o := genOdd(t.R)
				g.m.E.Imgs = append(g.m.E.Imgs, o)
				c := g.box(Call{K: []string{"img", "imgb64", "imgcache"}[t.R.Intn(3)], Img: len(g.m.E.Imgs) - 1})
				t.ops = append(t.ops, "odd "+o.Desc+" "+c.String())
				err := s.Do(c)
				if err == nil && !o.JPEG && o.Px == nil {
					t.fail("%s accepted %s", c.K, o.Desc)
					return
				}
				if err == nil {
					g.m.Do(c)
					t.Obs.add("odd images accepted", 1)
				} else {
					t.Obs.add("odd images refused", 1)
				}
			}
			out, err := s.Save()
			if err != nil {
				t.fail("SaveTo: %v", err)
				return
			}
			fs, view := g.m.Verify(out, t.Obs)
			if msg := pick(fs, "structure", "image", "pages", "protect"); msg != "" || view == nil {
				t.fail("%s", msg)
				return
			}
			t.note(len(view.ImgIDs) > 0, keyOf(t.ops...), "%s | %s", g.m.E.desc(), kinds(g.calls))
		}})

	register(&Check{ID: "C08", Quick: 17500, Thorough: 70000,
		Rule: "case = interleaved cached and uncached inserts of a few images (some equal, some differing in one byte), page operations, intermediate saves and a second document on the same value; image objects are counted against the same history without images; non-trivial when a cached image was placed more than once",
		Run:  runC08})

	register(&Check{ID: "C09", Quick: 20000, Thorough: 80000,
		Rule: "case = flat, nested and shared page trees + sequences of duplicate/remove/keep operations with valid, negative and impossible arguments, page counts asked in between and intermediate saves; non-trivial when at least two operations succeeded",
		Run: func(t *T) {
			p := &Prof{Corpus: 12, MinCalls: 1, MaxCalls: 14, W: map[string]int{"dup": 40, "rm": 20, "rmo": 10, "npage": 20, "save": 4, "insert": 9},
				RealFont: 0, MaxFonts: 1, BadPages: true, Protect: 5}
			g := t.genSession(p)
			if g == nil {
				return
			}
			s, err := openSess(g.m.E)
			if err != nil {
				t.fail("%v", err)
				return
			}
			m := newModel(g.m.E)
			ok := 0
			outN := 0
			for i, c := range g.calls {
				want := m.Do(c)
				err := s.Do(c)
				if e := errMatch(want, err); e != nil {
					t.fail("call %d %s with %d pages: %v", i+1, c, len(m.Pages), e)
					return
				}
				if n := s.P.GetNumberOfPage(); n != len(m.Pages) {
					t.fail("after call %d %s: GetNumberOfPage() = %d, expected %d", i+1, c, n, len(m.Pages))
					return
				}
				t.Obs.add("page counts checked", 1)
				switch c.K {
				case "dup", "rm", "rmo":
					if want == nil {
						ok++
						t.Obs.add("page operations", 1)
					} else {
						t.Obs.add("impossible page operations", 1)
					}
				case "save":
					fs, view := m.Verify(s.Outs[outN], t.Obs)
					outN++
					if msg := pick(fs, "structure", "pages", "template", "text"); msg != "" || view == nil {
						t.fail("save after call %d: %s", i+1, msg)
						return
					}
				}
			}
			out, err := s.Save()
			if err != nil {
				t.fail("SaveTo: %v", err)
				return
			}
			fs, view := m.Verify(out, t.Obs)
			if msg := pick(fs, "structure", "pages", "template", "protect", "text"); msg != "" || view == nil {
				t.fail("%s", msg)
				return
			}
			t.note(ok >= 2, keyOf(t.ops...), "%s | %s", g.m.E.TmplDesc, strings.Join(callsDesc(g.calls), " "))
		}})
}

func countImages(d *Doc) int {
	n := 0
	for id := range d.off {
		v, err := d.Obj(id)
		if err != nil {
			continue
		}
		if s, ok := v.(*Stream); ok && s.D["Subtype"] == Name("Image") {
			n++
		}
	}
	return n
}

func runC08(t *T) {
	p := &Prof{Corpus: 6, MinCalls: 3, MaxCalls: 18, W: map[string]int{"imgcache": 60, "img": 10, "imgb64": 6, "dup": 6, "rm": 4, "save": 4, "insert": 4},
		RealFont: 0, MaxFonts: 1, NImgs: 3, NoMissing: true}
	e, err := genEnv(t.R, p)
	must(err)
	e.Dir = t.Dir
	// variants: the same pixels in another file, and one differing late in the file
	src := e.Imgs[t.R.Intn(len(e.Imgs))]
	e.Imgs = append(e.Imgs, src)
	if src.JPEG {
		v := *src
		v.Data = append(append([]byte(nil), src.Data...), '\n')
		v.Desc += " +newline"
		e.Imgs = append(e.Imgs, &v)
	}
	// same size and type as the first one
	if !e.Imgs[0].JPEG {
		v := *e.Imgs[0]
		v.Data = append(append([]byte(nil), v.Data...), 0)
		v.Desc += " +byte"
		e.Imgs = append(e.Imgs, &v)
	}
	if chance(t.R, 50) { // files of equal length that differ in a few bytes only
		a, b := genLike(t.R)
		e.Imgs[1], e.Imgs[2] = a, b
	}
	g := newSessGen(t.R, p, e)
	g.addFonts()
	g.run()
	t.setOps(e, g.calls)
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	if t.R.Intn(3) == 0 { // an earlier document on the same value uses the same cache keys
		s.Do(Call{K: "imgcache", Img: 0, Page: 1, W: 5, H: 5})
		s.Do(Call{K: "imgcache", Img: 1, Page: 1, W: 5, H: 5})
		if t.R.Intn(2) == 0 {
			s.Save()
		}
		if err := s.P.OpenFrom(bytes.NewReader(e.Tmpl)); err != nil {
			t.fail("second OpenFrom: %v", err)
			return
		}
		t.ops = append([]string{"cached inserts of img#0 and img#1, then the template is opened again"}, t.ops...)
		t.Obs.add("sessions on a reused value", 1)
	}
	if msg := runCalls(s, g.calls, g.wants); msg != "" {
		t.fail("%s", msg)
		return
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	fs, view := g.m.Verify(out, t.Obs)
	if msg := pick(fs, "structure", "image", "pages"); msg != "" || view == nil {
		t.fail("%s", msg)
		return
	}
	// sharing: cached inserts of one file share one object, uncached ones share none
	byFile := map[string]int{}
	owner := map[int]string{}
	maxUse := 0
	use := map[string]int{}
	for _, it := range g.m.Items {
		id, ok := view.ImgIDs[it]
		if !ok {
			continue
		}
		who := fmt.Sprintf("call %d", it.Call)
		if it.Cached {
			who = "cached " + keyOf(string(it.Img.Data))
			use[who]++
			if use[who] > maxUse {
				maxUse = use[who]
			}
			if prev, ok := byFile[who]; ok && prev != id {
				t.fail("cached image %s is stored as objects %d and %d", it.Img.Desc, prev, id)
				return
			}
			byFile[who] = id
		}
		if o, ok := owner[id]; ok && o != who {
			t.fail("image object %d is shared by %s and %s", id, o, who)
			return
		}
		owner[id] = who
	}
	// number of image objects (every insert counts, also on pages removed later)
	lo, hi := 0, 0
	seen := map[string]bool{}
	for _, it := range g.m.Items {
		if it.Kind != "image" {
			continue
		}
		k := keyOf(string(it.Img.Data))
		if it.Cached {
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		a, b := it.Img.smasks()
		lo += 1 + a
		hi += 1 + b
	}
	var base []Call
	for _, c := range g.calls {
		if !strings.HasPrefix(c.K, "img") && c.K != "save" {
			base = append(base, c)
		}
	}
	bd, _ := t.fresh(e, base)
	if bd == nil {
		return
	}
	got := countImages(view.Doc) - countImages(bd)
	missing := false
	for _, it := range g.m.Items {
		if it.Kind == "image" && (it.Page < 1 || it.Page > len(g.m.Pages)) {
			missing = true
		}
	}
	if got > hi || (got < lo && !missing) {
		t.fail("the saved file holds %d image objects for the inserts, expected %d..%d", got, lo, hi)
		return
	}
	t.Obs.add("image objects counted", got)
	t.note(maxUse > 1, keyOf(t.ops...), "%s | %s", e.desc(), strings.Join(callsDesc(g.calls), " "))
}

var _ = pdft.Left
