package main

// C11 protection, C12 snapshots, C13 reopening, C21 callbacks, C22 caller-owned data.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
)

// replay runs the calls on a fresh value and returns the document saved then, decrypted.
func (t *T) replay(e *Env, calls []Call) *Doc {
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return nil
	}
	m := newModel(e)
	for i, c := range calls {
		if x := errMatch(m.Do(c), s.Do(c)); x != nil {
			t.fail("call %d %s: %v", i+1, c, x)
			return nil
		}
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return nil
	}
	return t.parseProt(out, m)
}

func without(calls []Call, kinds ...string) []Call {
	var out []Call
next:
	for _, c := range calls {
		for _, k := range kinds {
			if c.K == k {
				continue next
			}
		}
		out = append(out, c)
	}
	return out
}

// rawData collects the raw stream data and strings of the objects of a file as they are stored.
func rawData(d *Doc, skip int) (streams, strs map[string]bool) {
	streams, strs = map[string]bool{}, map[string]bool{}
	var visit func(v interface{})
	visit = func(v interface{}) {
		switch x := v.(type) {
		case Str:
			if len(x) >= 8 {
				strs[string(x)] = true
			}
		case Dict:
			for _, e := range x {
				visit(e)
			}
		case Arr:
			for _, e := range x {
				visit(e)
			}
		case *Stream:
			visit(x.D)
			if len(x.Raw) >= 12 {
				streams[string(x.Raw)] = true
			}
		}
	}
	for id := range d.off {
		if id == skip {
			continue
		}
		if v, err := d.Obj(id); err == nil {
			visit(v)
		}
	}
	return
}

func runC11(t *T) {
	r := t.R
	p := &Prof{Corpus: 12, MinCalls: 1, MaxCalls: 14, W: map[string]int{"setfont": 10, "insert": 35, "wrap": 4, "img": 8, "imgb64": 4, "imgcache": 10, "dup": 8, "rm": 4, "border": 4, "save": 8},
		RealFont: 5, MaxFonts: 3, NImgs: 2, Kern: 10, NoMissing: true, Tmpl: tmplOpt{HugeID: 30}}
	g := t.genSession(p)
	if g == nil {
		return
	}
	e := g.m.E
	perm := genPerm(r)
	up, op := genPass(r), genPass(r)
	if chance(r, 10) {
		op = up
	}
	prot := Call{K: "protect", Perm: perm, UP: up, OP: op}
	// where protection is asked for; sometimes twice, the last one counts
	var calls []Call
	at := r.Intn(len(g.calls) + 1)
	early := -1
	if chance(r, 30) && at > 0 {
		early = r.Intn(at)
	}
	for i := 0; i <= len(g.calls); i++ {
		if i == early {
			calls = append(calls, Call{K: "protect", Perm: genPerm(r), UP: genPass(r), OP: genPass(r)})
		}
		if i == at {
			calls = append(calls, prot)
		}
		if i < len(g.calls) {
			calls = append(calls, g.calls[i])
		}
	}
	t.setOps(e, calls)
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	m := newModel(e)
	for i, c := range calls {
		if x := errMatch(m.Do(c), s.Do(c)); x != nil {
			t.fail("call %d %s: %v", i+1, c, x)
			return
		}
	}
	plainDoc := t.replay(e, without(g.calls, "save"))
	if plainDoc == nil {
		return
	}
	pst, pss := rawData(plainDoc, -1)
	n := 1 + r.Intn(2)
	for k := 0; k < n; k++ {
		out, err := s.Save()
		if err != nil {
			t.fail("SaveTo: %v", err)
			return
		}
		if !t.checkProtected(out, e.Tdoc, plainDoc, pst, pss, perm, up, op) {
			return
		}
	}
	if op == "" && chance(r, 50) { // the owner password pdft makes up is not the same for every document
		var os [2][]byte
		for k := range os {
			s, err := openSess(e)
			if err == nil {
				err = s.Do(prot)
			}
			var out []byte
			if err == nil {
				out, err = s.Save()
			}
			if err != nil {
				t.fail("protecting an unfilled document: %v", err)
				return
			}
			d, err := ParseDoc(out, false)
			if err != nil {
				t.fail("protected file: %v", err)
				return
			}
			en, err := d.EncInfo()
			if err != nil || en == nil {
				t.fail("no usable encryption dictionary: %v", err)
				return
			}
			os[k] = en.O
		}
		if bytes.Equal(os[0], os[1]) {
			t.fail("two documents protected without an owner password have the same owner password")
			return
		}
		t.Obs.add("made-up owner passwords compared", 1)
	}
	t.note(true, keyOf(t.ops...), "%s | %s perm=%d user=%q owner=%q", e.TmplDesc, kinds(calls), perm, up, op)
}

func (t *T) checkProtected(out []byte, tmpl, plain *Doc, pst, pss map[string]bool, perm int, up, op string) bool {
	d, err := ParseDoc(out, false)
	if err != nil {
		t.fail("protected file: %v", err)
		return false
	}
	d.tmpl = tmpl
	en, err := d.EncInfo()
	if err != nil || en == nil {
		t.fail("no usable encryption dictionary: %v", err)
		return false
	}
	if int(en.P)&0x3c != perm {
		t.fail("permissions %#x asked, /P %d grants %#x", perm, en.P, int(en.P)&0x3c)
		return false
	}
	if en.P&3 != 0 || uint32(en.P)>>8 != 0xffffff {
		t.fail("/P %d: reserved bits are not as the security handler requires", en.P)
		return false
	}
	key := en.authUser([]byte(up))
	if key == nil {
		t.fail("user password %q is refused", up)
		return false
	}
	t.Obs.add("user passwords accepted", 1)
	if op != "" {
		k2 := en.authOwner([]byte(op))
		if k2 == nil || !bytes.Equal(k2, key) {
			t.fail("owner password %q does not give the key of the document", op)
			return false
		}
		t.Obs.add("owner passwords accepted", 1)
	}
	pu, po := string(padPw([]byte(up))), string(padPw([]byte(op)))
	for _, w := range wrongPasswords(t.R, up, op) {
		pw := string(padPw([]byte(w)))
		if pw != pu && en.authUser([]byte(w)) != nil {
			t.fail("password %q opens the document as user (user %q owner %q)", w, up, op)
			return false
		}
		if (op == "" || pw != po) && en.authOwner([]byte(w)) != nil {
			t.fail("password %q opens the document as owner (user %q owner %q)", w, up, op)
			return false
		}
		t.Obs.add("wrong passwords refused", 1)
	}
	st, ss := rawData(d, en.objN)
	for x := range st {
		if pst[x] {
			t.fail("stream data is stored in the clear: %q", clipN(x, 60))
			return false
		}
	}
	for x := range ss {
		if pss[x] {
			t.fail("string is stored in the clear: %q", clipN(x, 60))
			return false
		}
	}
	for x := range pst {
		if len(x) >= 24 && bytes.Contains(out, []byte(x)) {
			t.fail("stream data can be read without a password: %q", clipN(x, 60))
			return false
		}
	}
	if err := d.Decrypt(en, key); err != nil {
		t.fail("decrypting: %v", err)
		return false
	}
	if err := d.Check(); err != nil {
		t.fail("decrypted file: %v", err)
		return false
	}
	if err := sameDoc(plain, d, sameOpt{noCount: true}); err != nil {
		t.fail("decrypted document differs from the unprotected one: %v", err)
		return false
	}
	// every object of the plain file has its counterpart
	if len(d.off) < len(plain.off) {
		t.fail("protected file has %d objects, the plain one %d", len(d.off), len(plain.off))
		return false
	}
	dst, dss := rawData(d, en.objN)
	for x := range dst {
		// page contents name fonts by numbers that differ from run to run; they were compared above
		if !pst[x] && !strings.Contains(x, " Tf\n") {
			t.fail("a stream of the protected file decrypts to %q, which the plain file does not hold", clipN(x, 60))
			return false
		}
	}
	for x := range dss {
		if !pss[x] {
			t.fail("a string of the protected file decrypts to %q, which the plain file does not hold", clipN(x, 60))
			return false
		}
	}
	t.Obs.add("streams compared after decryption", len(dst))
	t.Obs.add("strings compared after decryption", len(dss))
	return true
}

func wrongPasswords(r *rand.Rand, up, op string) []string {
	out := []string{"", "x", up, op, up + "x", op + "x", genPass(r), strings.ToUpper(up), string(pwPad)}
	for _, p := range []string{up, op} {
		if len(p) > 0 {
			b := []byte(p)
			k := r.Intn(len(b))
			b[k] ^= 1 << uint(r.Intn(8))
			out = append(out, string(b), p[:len(p)-1])
			c := []byte(p)
			c[len(c)-1] ^= 1
			out = append(out, string(c))
		}
	}
	return out
}

func runC12(t *T) {
	r := t.R
	p := &Prof{Corpus: 12, MinCalls: 3, MaxCalls: 18, W: map[string]int{"setfont": 10, "insert": 30, "wrap": 4, "measure": 4, "img": 6, "imgb64": 3, "imgcache": 8, "dup": 8, "rm": 5, "rmo": 1, "border": 6, "save": 22, "npage": 2},
		RealFont: 4, MaxFonts: 3, NImgs: 2, Kern: 12, Rise: 8, Protect: 12, BadPages: true}
	g := t.genSession(p)
	if g == nil {
		return
	}
	if chance(r, 50) {
		g.do(Call{K: "save"})
		g.do(Call{K: "save", Path: true})
		t.setOps(g.m.E, g.calls)
	}
	e := g.m.E
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	if msg := runCalls(s, g.calls, g.wants); msg != "" {
		t.fail("%s", msg)
		return
	}
	// every intermediate save equals the fresh run of its prefix
	k := 0
	m := newModel(e)
	for i, c := range g.calls {
		m.Do(c)
		if c.K != "save" {
			continue
		}
		got := t.parseProt(s.Outs[k], m)
		k++
		if got == nil {
			return
		}
		want := t.replay(e, without(g.calls[:i], "save", "npage"))
		if want == nil {
			return
		}
		if err := sameDoc(want, got, sameOpt{}); err != nil {
			t.fail("save number %d (call %d) differs from a fresh run of the same calls: %v", k, i+1, err)
			return
		}
		t.Obs.add("intermediate saves compared", 1)
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	got := t.parseProt(out, g.m)
	if got == nil {
		return
	}
	want := t.replay(e, without(g.calls, "save", "npage"))
	if want == nil {
		return
	}
	if err := sameDoc(want, got, sameOpt{}); err != nil {
		t.fail("the last save differs from a fresh run without saves: %v", err)
		return
	}
	t.Obs.add("final saves compared", 1)
	// another template on the same value
	if !g.m.Prot {
		p2 := *p
		p2.Shared = e
		g2 := t.genSession2(&p2)
		if g2 != nil {
			if err := s.P.OpenFrom(bytes.NewReader(g2.m.E.Tmpl)); err != nil {
				t.fail("OpenFrom of a second template: %v", err)
				return
			}
			t.ops = append(t.ops, "OpenFrom "+g2.m.E.desc())
			t.ops = append(t.ops, callsDesc(g2.calls)...)
			s.E = g2.m.E
			if n := s.P.GetNumberOfPage(); n != len(g2.m.E.Tpages) {
				t.fail("after opening a second template: %d pages, expected %d", n, len(g2.m.E.Tpages))
				return
			}
			if err := s.P.Insert("x", 1, 1, 1, 1, 1, 0, nil); err == nil {
				t.fail("the font of the previous document is still selected after opening another template")
				return
			}
			for n := range g.m.Fonts {
				if err := s.P.SetFont(n, "", 10); err == nil {
					t.fail("font %q of the previous document is still there after opening another template", n)
					return
				}
			}
			for i, c := range g2.calls {
				if c.K == "setfont" && len(g.calls) > 0 { // fonts are there again, none is selected yet
					if err := s.P.Insert("x", 1, 1, 1, 1, 1, 0, nil); err == nil {
						t.fail("on a reused value: an insert succeeds before SetFont was called for the new document")
						return
					}
					if _, err := s.P.MeasureTextWidth("x"); err == nil {
						t.fail("on a reused value: MeasureTextWidth succeeds before SetFont was called for the new document")
						return
					}
				}
				if msg := runCalls(s, g2.calls[i:i+1], g2.wants[i:i+1]); msg != "" {
					t.fail("on a reused value: %s", msg)
					return
				}
				if c.K == "setfont" {
					if msg := runCalls(s, g2.calls[i+1:], g2.wants[i+1:]); msg != "" {
						t.fail("on a reused value: %s", msg)
						return
					}
					break
				}
			}
			out2, err := s.Save()
			if err != nil {
				t.fail("SaveTo: %v", err)
				return
			}
			got := t.parseProt(out2, g2.m)
			want := t.replay(g2.m.E, g2.calls)
			if got == nil || want == nil {
				return
			}
			if err := sameDoc(want, got, sameOpt{}); err != nil {
				t.fail("document on a reused value differs from one on a fresh value: %v", err)
				return
			}
			t.Obs.add("second documents on a reused value compared", 1)
		}
	}
	t.note(k > 0 || !g.m.Prot, keyOf(t.ops...), "%s | %s", e.TmplDesc, kinds(g.calls))
}

// genSession2 is genSession without recording the operations.
func (t *T) genSession2(p *Prof) *sessGen {
	ops := t.ops
	g := t.genSession(p)
	t.ops = ops
	return g
}

func runC13(t *T) {
	r := t.R
	p := &Prof{Corpus: 12, MinCalls: 1, MaxCalls: 10, W: map[string]int{"setfont": 12, "insert": 34, "wrap": 4, "measure": 3, "img": 8, "imgb64": 3, "imgcache": 8, "dup": 9, "rm": 5, "rmo": 1, "border": 6, "save": 3},
		RealFont: 6, MaxFonts: 3, NImgs: 2, Kern: 10, Rise: 8, Tmpl: tmplOpt{HugeID: 5}}
	rounds := 2 + r.Intn(3)
	if t.Deep {
		rounds += r.Intn(3)
	}
	var prev []byte
	var prevDoc *Doc
	var desc string
	placed := 0
	reuse := chance(r, 25)
	var s *Sess
	for k := 0; k < rounds; k++ {
		e, err := genEnv(r, p)
		must(err)
		e.Dir = t.Dir
		if k > 0 {
			e.Tmpl, e.TmplDesc = prev, fmt.Sprintf("output of round %d", k)
			e.Tdoc, e.Tpages = nil, nil
			d, err := ParseDoc(prev, false)
			if err != nil {
				t.fail("output of round %d: %v", k, err)
				return
			}
			d.tmpl = prevDoc
			e.Tdoc = d
			if e.Tpages, err = d.Pages(); err != nil {
				t.fail("output of round %d: %v", k, err)
				return
			}
		} else {
			desc = e.TmplDesc
		}
		g := newSessGen(r, p, e)
		g.addFonts()
		g.run()
		if g.m.wrapEps {
			return
		}
		t.ops = append(t.ops, fmt.Sprintf("-- round %d: %s", k+1, e.desc()))
		t.ops = append(t.ops, callsDesc(g.calls)...)
		if s != nil && reuse {
			if err := s.P.OpenFrom(bytes.NewReader(e.Tmpl)); err != nil {
				t.fail("round %d: the file saved before cannot be opened again: %v", k+1, err)
				return
			}
			s.E, s.Outs = e, nil
		} else {
			s, err = openSess(e)
			if err != nil {
				t.fail("round %d: %v", k+1, err)
				return
			}
		}
		if n := s.P.GetNumberOfPage(); n != len(e.Tpages) {
			t.fail("round %d: reopened document reports %d pages, it has %d", k+1, n, len(e.Tpages))
			return
		}
		if msg := runCalls(s, g.calls, g.wants); msg != "" {
			t.fail("round %d: %s", k+1, msg)
			return
		}
		out, err := s.Save()
		if err != nil {
			t.fail("round %d: SaveTo: %v", k+1, err)
			return
		}
		if k > 0 && dumpHook != nil {
			dumpHook(e, out)
		}
		fs, view := g.m.Verify(out, t.Obs)
		if msg := pick(fs, "*"); msg != "" || view == nil {
			t.fail("round %d: %s", k+1, msg)
			return
		}
		placed += len(g.m.Items)
		t.Obs.add("rounds verified", 1)
		prev, prevDoc = out, e.Tdoc
	}
	if chance(r, 20) { // a protected file cannot be filled: refused, not turned into a document nobody can read
		must(s.P.SetProtection(genPerm(r), []byte(genPass(r)), []byte(genPass(r))))
		var b bytes.Buffer
		if err := s.P.SaveTo(&b); err != nil {
			t.fail("protected save: %v", err)
			return
		}
		n := s.P.GetNumberOfPage()
		for _, q := range []*pdft.PDFt{new(pdft.PDFt), s.P} {
			if err := q.OpenFrom(bytes.NewReader(b.Bytes())); err == nil {
				t.fail("a protected file is opened as if it were not, what is saved then cannot be read")
				return
			}
		}
		if s.P.GetNumberOfPage() != n {
			t.fail("a document has %d pages after a protected file was refused, it had %d", s.P.GetNumberOfPage(), n)
			return
		}
		t.Obs.add("protected files refused", 1)
	}
	t.note(placed > 0 && rounds > 1, keyOf(t.ops...), "%s | %d rounds, %d items", desc, rounds, placed)
}

func runC21(t *T) {
	r := t.R
	p := &Prof{Corpus: 2, MinCalls: 2, MaxCalls: 16, W: map[string]int{"setfont": 25, "insert": 60, "wrap": 8, "measure": 7, "dup": 3},
		RealFont: 20, MaxFonts: 3, Kern: 65, Rise: 50, Tmpl: tmplOpt{Plain: true, MaxPages: 2}, NoMissing: true,
		Breakers: []string{"basic", "basic", "rune", "nil"}}
	e, err := genEnv(r, p)
	must(err)
	e.Dir = t.Dir
	g := newSessGen(r, p, e)
	g.addFonts()
	// sometimes a callback is replaced or taken away again before anything is drawn
	for _, n := range g.fontList() {
		if chance(r, 12) {
			g.do(Call{K: "kern", Font: n, CB: r.Intn(20)})
		}
		if chance(r, 8) {
			g.do(Call{K: "kern", Font: n, CB: -1})
		}
		if chance(r, 8) {
			g.do(Call{K: "rise", Font: n, CB: -1})
		}
	}
	g.run()
	if g.m.wrapEps {
		return
	}
	t.setOps(e, g.calls)
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	var rec []cbRec
	s.Rec = func(c cbRec) { rec = append(rec, c) }
	if msg := runCalls(s, g.calls, g.wants); msg != "" {
		t.fail("%s", msg)
		return
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	fs, view := g.m.Verify(out, t.Obs)
	if msg := pick(fs, "structure", "callback", "text"); msg != "" || view == nil {
		t.fail("%s", msg)
		return
	}
	// the texts each font was asked to set
	texts := map[string]map[string]bool{}
	sizes := map[string]map[int]bool{}
	m := newModel(e)
	for _, c := range g.calls {
		m.Do(c)
		switch c.K {
		case "insert", "wrap", "measure":
			if texts[m.Cur] == nil {
				texts[m.Cur], sizes[m.Cur] = map[string]bool{}, map[int]bool{}
			}
			texts[m.Cur][c.Text] = true
			sizes[m.Cur][m.Size] = true
		}
	}
	inText := func(font, s string) bool {
		for x := range texts[font] {
			if strings.Contains(x, s) {
				return true
			}
		}
		return false
	}
	type pk struct {
		f    string
		l, r rune
	}
	type rk struct {
		f, all string
		idx    int
		fs     int
	}
	gotK := map[pk]bool{}
	gotR := map[rk]bool{}
	memo := map[pk]bool{}
	for _, c := range rec {
		f := m.Fonts[c.Font]
		switch c.Kind {
		case "kern":
			lg, _ := f.src.T.Glyph(c.L)
			rg, _ := f.src.T.Glyph(c.R)
			if int(c.LP) != lg || int(c.RP) != rg {
				t.fail("kerning callback of %q for %q,%q got glyphs %d,%d, the font has %d,%d", c.Font, c.L, c.R, c.LP, c.RP, lg, rg)
				return
			}
			if pv := f.src.T.Kern[[2]int{lg, rg}]; int(c.PV) != pv {
				t.fail("kerning callback of %q for %q,%q got pair value %d, the font's is %d", c.Font, c.L, c.R, c.PV, pv)
				return
			}
			k := pk{c.Font, c.L, c.R}
			if !memo[k] {
				ok := false
				for x := range texts[c.Font] {
					rs := []rune(x)
					for i := 1; i < len(rs); i++ {
						if rs[i-1] == c.L && rs[i] == c.R {
							ok = true
						}
					}
				}
				if !ok {
					t.fail("kerning callback of %q asked for the pair %q,%q, which no text has", c.Font, c.L, c.R)
					return
				}
				memo[k] = true
			}
			gotK[k] = true
			t.Obs.add("kerning callbacks observed", 1)
		case "rise":
			rs := []rune(c.All)
			if !inText(c.Font, c.All) {
				t.fail("text rise callback of %q got the text %q, which was not set in it", c.Font, clip(c.All))
				return
			}
			if !sizes[c.Font][c.FS] {
				t.fail("text rise callback of %q got size %d", c.Font, c.FS)
				return
			}
			if c.Idx < 0 || c.Idx >= len(rs) || rs[c.Idx] != c.R || (c.Idx > 0 && rs[c.Idx-1] != c.L) || (c.Idx == 0 && c.L != 0) {
				t.fail("text rise callback of %q: index %d runes %q,%q do not fit the text %q", c.Font, c.Idx, c.L, c.R, clip(c.All))
				return
			}
			gotR[rk{c.Font, c.All, c.Idx, c.FS}] = true
			t.Obs.add("text rise callbacks observed", 1)
		}
	}
	used := 0
	for _, it := range g.m.Items {
		if it.Kind != "text" {
			continue
		}
		rs := []rune(it.Text)
		for i := range rs {
			if it.Font.kern >= 0 && i > 0 {
				used++
				if !gotK[pk{it.FName, rs[i-1], rs[i]}] {
					t.fail("the kerning callback of %q was not asked for %q,%q of %q", it.FName, rs[i-1], rs[i], clip(it.Text))
					return
				}
			}
			if it.Font.rise >= 0 {
				used++
				if utf8.ValidString(it.Text) && !gotR[rk{it.FName, it.Text, i, it.Size}] {
					t.fail("the text rise callback of %q was not asked for character %d of %q at size %d", it.FName, i, clip(it.Text), it.Size)
					return
				}
			}
		}
	}
	t.note(used > 0, keyOf(t.ops...), "%s | %d callback events", kinds(g.calls), len(rec))
}

// guarded is a buffer with spare capacity and guard bytes behind it.
type guarded struct {
	buf  []byte // what is passed
	full []byte // whole array
	orig []byte
	name string
}

func guard(r *rand.Rand, name string, b []byte) *guarded {
	spare := []int{0, 1, 8, 40, 200}[r.Intn(5)]
	full := make([]byte, len(b)+spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = byte(r.Intn(256))
	}
	return &guarded{buf: full[:len(b)], full: full, orig: append([]byte(nil), full...), name: name}
}

func (g *guarded) check() error {
	if !bytes.Equal(g.full, g.orig) {
		for i := range g.full {
			if g.full[i] != g.orig[i] {
				where := "inside"
				if i >= len(g.buf) {
					where = "in the spare capacity"
				}
				return fmt.Errorf("%s: byte %d (%s, length %d) changed from %#x to %#x", g.name, i, where, len(g.buf), g.orig[i], g.full[i])
			}
		}
	}
	return nil
}

func (g *guarded) scramble(r *rand.Rand) {
	for i := range g.full {
		g.full[i] = byte(r.Intn(256))
	}
	g.orig = append(g.orig[:0], g.full...)
}

// memReader is one of the readers over memory the caller owns.
func memReader(r *rand.Rand, b []byte) io.Reader {
	switch r.Intn(5) {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return bufio.NewReaderSize(bytes.NewBuffer(b), 16+r.Intn(5000))
	case 2:
		return io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewBuffer(b[len(b)/2:len(b):len(b)]))
	}
	return bytes.NewBuffer(b[:len(b):len(b)])
}

func runC22(t *T) {
	r := t.R
	p := &Prof{Corpus: 6, MinCalls: 2, MaxCalls: 14, W: map[string]int{"setfont": 8, "insert": 30, "wrap": 5, "img": 14, "imgb64": 3, "imgcache": 20, "dup": 5, "rm": 3, "save": 10, "border": 3},
		RealFont: 5, MaxFonts: 3, NImgs: 3, Kern: 10, Protect: 45}
	g := t.genSession(p)
	if g == nil {
		return
	}
	e := g.m.E
	s := &Sess{P: &pdft.PDFt{}, E: e}
	tm := guard(r, "template bytes", e.Tmpl)
	all := []*guarded{tm}
	if err := s.P.OpenFrom(memReader(r, tm.buf)); err != nil {
		t.fail("OpenFrom of a supported template failed: %v", err)
		return
	}
	if err := tm.check(); err != nil {
		t.fail("OpenFrom: %v", err)
		return
	}
	tm.scramble(r)
	shared := map[int]*guarded{} // image buffers the caller reuses
	passed, scrambled := 1, 1
	for i, c := range g.calls {
		var err error
		var used []*guarded
		var col *pdft.FontColor
		var colWas pdft.FontColor
		switch c.K {
		case "addfont":
			if c.Path {
				err = s.Do(c)
				break
			}
			b := guard(r, "font bytes", e.Fonts[c.FI].Data)
			used = append(used, b)
			err = s.P.AddFontFrom(c.Font, memReader(r, b.buf))
		case "img", "imgcache":
			b := shared[c.Img]
			if b == nil || chance(r, 50) {
				b = guard(r, fmt.Sprintf("image#%d bytes", c.Img), e.Imgs[c.Img].Data)
				shared[c.Img] = b
			}
			used = append(used, b)
			if c.K == "img" {
				err = s.P.InsertImg(b.buf, c.Page, c.X, c.Y, c.W, c.H)
			} else {
				err = s.P.InsertImgWithCache(b.buf, c.Page, c.X, c.Y, c.W, c.H)
			}
		case "protect":
			u, o := guard(r, "user password", []byte(c.UP)), guard(r, "owner password", []byte(c.OP))
			if chance(r, 40) { // both in one array, side by side
				both := append(append([]byte(nil), c.UP...), c.OP...)
				w := guard(r, "passwords", both)
				u = &guarded{buf: w.full[:len(c.UP)], full: w.full, orig: w.orig, name: "passwords"}
				o = &guarded{buf: w.full[len(c.UP):len(both)], full: w.full, orig: append([]byte(nil), w.orig...), name: "passwords"}
			}
			used = append(used, u, o)
			err = s.P.SetProtection(c.Perm, u.buf, o.buf)
		case "insert", "wrap":
			col = colOf(c.Col)
			if col != nil {
				colWas = *col
			}
			if c.K == "insert" {
				err = s.P.Insert(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, col)
			} else {
				err = s.P.InsertWrapText(c.Text, c.Page, c.X, c.Y, c.W, c.H, c.Align, col, brkFor(c.Brk))
			}
		default:
			err = s.Do(c)
		}
		if x := errMatch(g.wants[i], err); x != nil {
			t.fail("call %d %s: %v", i+1, c, x)
			return
		}
		if col != nil && *col != colWas {
			t.fail("call %d %s changed the colour passed in", i+1, c)
			return
		}
		passed += len(used)
		for _, b := range append(used, all...) {
			if err := b.check(); err != nil {
				t.fail("call %d %s: %v", i+1, c, err)
				return
			}
		}
		if col != nil {
			col.R, col.G, col.B = r.Intn(256), r.Intn(256), r.Intn(256)
			scrambled++
		}
		for _, b := range used {
			if chance(r, 70) {
				b.scramble(r)
				scrambled++
				for k, x := range shared {
					if x == b {
						delete(shared, k)
					}
				}
			} else {
				all = append(all, b)
			}
		}
		// passwords share one array: keep their copies in step
		if len(used) == 2 && len(used[0].full) > 0 && &used[0].full[0] == &used[1].full[0] {
			used[0].orig = append([]byte(nil), used[0].full...)
			used[1].orig = append([]byte(nil), used[1].full...)
		}
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return
	}
	for _, b := range all {
		if err := b.check(); err != nil {
			t.fail("SaveTo: %v", err)
			return
		}
	}
	got := t.parseProt(out, g.m)
	want := t.replay(e, without(g.calls, "save"))
	if got == nil || want == nil {
		return
	}
	if err := sameDoc(want, got, sameOpt{}); err != nil {
		t.fail("changing buffers after the calls returned changed the document: %v", err)
		return
	}
	t.Obs.add("caller buffers watched", passed)
	t.Obs.add("caller buffers overwritten after the call", scrambled)
	// the saved bytes belong to the caller as well
	for i := range out {
		out[i] ^= 0x55
	}
	out2, err := s.Save()
	if err != nil {
		t.fail("second SaveTo: %v", err)
		return
	}
	got2 := t.parseProt(out2, g.m)
	if got2 == nil {
		return
	}
	if err := sameDoc(want, got2, sameOpt{}); err != nil {
		t.fail("changing the bytes written by one save changed the next: %v", err)
		return
	}
	if chance(r, 20) {
		t.fieldsC22(g)
	}
	t.note(passed > 1, keyOf(t.ops...), "%s | %s, %d buffers, %d overwritten", e.TmplDesc, kinds(g.calls), passed, scrambled)
}

// fieldsC22: the field list of a Render belongs to the caller.
func (t *T) fieldsC22(g *sessGen) {
	r := t.R
	fi := render.FieldInfos{{Key: "a", PageNum: 1, X: 10, Y: 20, W: 30, H: 10, Font: "f", Size: 12}, {Key: "b", PageNum: 1, X: 50, Y: 60, W: 90, H: 10, Font: "f", Size: 9, IsWrapText: true}}
	was := append(render.FieldInfos(nil), fi...)
	path := t.writeFile("tmpl.pdf", g.m.E.Tmpl)
	mk := func(scr bool) *Doc {
		rd, err := render.NewRender(path, fi)
		if err != nil {
			t.fail("NewRender: %v", err)
			return nil
		}
		if scr {
			for i := range fi {
				fi[i].X, fi[i].Font, fi[i].PageNum, fi[i].Key = 999, "nope", 77, fmt.Sprint(r.Int())
			}
		}
		rd.SetTextBreaker(textbreak.BasicTextbreak{})
		if err := rd.AddFontFrom("f", bytes.NewReader(g.m.E.Fonts[0].Data)); err != nil {
			t.fail("AddFontFrom: %v", err)
			return nil
		}
		for _, k := range []string{"a", "b"} {
			if err := rd.Text(k, "A b c"); err != nil {
				t.fail("Text: %v", err)
				return nil
			}
		}
		var b bytes.Buffer
		if err := rd.SaveTo(&b); err != nil {
			t.fail("SaveTo: %v", err)
			return nil
		}
		return t.parseOut(b.Bytes(), g.m.E.Tdoc)
	}
	a := mk(false)
	for i := range fi {
		if fi[i] != was[i] {
			t.fail("the field list passed to NewRender was changed")
			return
		}
	}
	b := mk(true)
	if a == nil || b == nil {
		return
	}
	if err := sameDoc(a, b, sameOpt{}); err != nil {
		t.fail("changing the field list after NewRender changed the document: %v", err)
	}
	t.Obs.add("field lists overwritten after NewRender", 1)
}

func init() {
	register(&Check{ID: "C11", Quick: 10000, Thorough: 50000,
		Rule: "case = template + history, protected at a random point (sometimes twice, sometimes with intermediate saves) with random permissions and passwords (empty, short, 31/32/33 and more bytes, any byte values); non-trivial when passwords were tried and the decrypted document was compared with the unprotected save",
		Run:  runC11})
	register(&Check{ID: "C12", Quick: 3750, Thorough: 30000,
		Rule: "case = history with saves to writers and files at random points and a second template opened on the same value; every save is compared with a fresh run of the calls before it; non-trivial when a save happened before the end or the value was reused",
		Run:  runC12})
	register(&Check{ID: "C13", Quick: 7500, Thorough: 30000,
		Rule: "case = 2..4 rounds (up to 6 in the thorough tier) of opening the previous output, filling and saving, each compared with the model whose template is the previous output; non-trivial when something was inserted",
		Run:  runC13})
	register(&Check{ID: "C21", Quick: 30000, Thorough: 120000,
		Rule: "case = fonts with deterministic kerning and text rise callbacks (installed, replaced, removed) that record their arguments, inserts, wraps and measurements; non-trivial when a drawn text asked a callback",
		Run:  runC21})
	register(&Check{ID: "C22", Quick: 10000, Thorough: 40000,
		Rule: "case = history whose byte buffers (template, fonts, images, passwords) carry spare capacity, are compared after every call and then mostly overwritten, the result being compared with an untouched run; non-trivial when more than the template was passed",
		Run:  runC22})
}

var _ = base64.StdEncoding
