package main

// Checks of filled templates: structure, template preservation, text, fonts, images, decorations.

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
)

var dumpHook func(e *Env, out []byte)

func must(err error) {
	if err != nil {
		panic(harnessErr{err.Error()})
	}
}

func keyOf(parts ...string) string {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func (t *T) setOps(e *Env, calls []Call) {
	t.ops = append([]string{e.desc()}, callsDesc(calls)...)
}

func kinds(calls []Call) string {
	m := map[string]int{}
	for _, c := range calls {
		m[c.K]++
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s*%d", k, m[k]))
	}
	return strings.Join(p, " ")
}

// session generates env and calls, runs them, saves and verifies. Returns findings and more.
type sessRun struct {
	e     *Env
	g     *sessGen
	s     *Sess
	out   []byte
	fs    []Finding
	view  *savedView
	calls []Call
}

func (t *T) genSession(p *Prof) *sessGen {
	e, err := genEnv(t.R, p)
	must(err)
	e.Dir = t.Dir
	g := newSessGen(t.R, p, e)
	if p.MaxFonts >= 0 {
		g.addFonts()
	}
	g.run()
	if g.m.wrapEps {
		return nil
	}
	t.setOps(e, g.calls)
	return g
}

func (t *T) execSession(g *sessGen) *sessRun {
	sr := &sessRun{e: g.m.E, g: g, calls: g.calls}
	s, err := openSess(g.m.E)
	if err != nil {
		t.fail("%v", err)
		return nil
	}
	sr.s = s
	if msg := runCalls(s, g.calls, g.wants); msg != "" {
		t.fail("%s", msg)
		return nil
	}
	out, err := s.Save()
	if err != nil {
		t.fail("SaveTo: %v", err)
		return nil
	}
	sr.out = out
	if dumpHook != nil {
		dumpHook(sr.e, out)
	}
	sr.fs, sr.view = g.m.Verify(out, t.Obs)
	return sr
}

// fillCheck makes a check out of a profile and the aspects the property is about.
func fillCheck(id string, quick, thorough int, rule string, prof func(t *T) *Prof, nontrivial func(*sessRun) bool, aspects ...string) *Check {
	aspects = append([]string{"structure"}, aspects...)
	return &Check{ID: id, Quick: quick, Thorough: thorough, Rule: rule, Run: func(t *T) {
		p := prof(t)
		g := t.genSession(p)
		if g == nil {
			return
		}
		sr := t.execSession(g)
		if sr == nil {
			return
		}
		if msg := pick(sr.fs, aspects...); msg != "" {
			t.fail("%s", msg)
			return
		}
		if sr.view == nil {
			t.fail("document unreadable: %s", pick(sr.fs, "*"))
			return
		}
		t.note(nontrivial(sr), keyOf(append([]string{sr.e.desc()}, t.ops...)...), "%s | %s", sr.e.TmplDesc, kinds(sr.calls))
	}}
}

var wMixed = map[string]int{"setfont": 14, "insert": 30, "wrap": 5, "measure": 6, "img": 5, "imgb64": 3, "imgcache": 6, "border": 5, "dup": 6, "rm": 4, "rmo": 1, "save": 2, "npage": 2}

func hasItem(kind string) func(*sessRun) bool {
	return func(sr *sessRun) bool {
		for _, it := range sr.g.m.Items {
			if it.Kind == kind && it.Page >= 1 && it.Page <= len(sr.g.m.Pages) {
				return true
			}
		}
		return false
	}
}

func init() {
	register(fillCheck("C01", 17500, 100000,
		"case = generated or corpus template + random history of all API calls (+ protection); non-trivial when at least 3 calls changed the document; distinct by template, inputs and calls",
		func(t *T) *Prof {
			return &Prof{Fat: true, Corpus: 15, MinCalls: 1, MaxCalls: 30, W: wMixed, RealFont: 8, MaxFonts: 4, Kern: 15, Rise: 10, NImgs: 3, Protect: 20,
				Tmpl: tmplOpt{HugeID: 8}}
		}, func(sr *sessRun) bool { return len(sr.calls) >= 3 }))
	register(fillCheck("C02", 20000, 100000,
		"case = template with randomly laid out syntax, page tree, resources and contents (or a corpus file) + random history; non-trivial when the template has pages whose operators and objects were compared",
		func(t *T) *Prof {
			return &Prof{Corpus: 12, MinCalls: 0, MaxCalls: 20, W: wMixed, RealFont: 3, MaxFonts: 3, NImgs: 2, Protect: 8,
				Tmpl: tmplOpt{HugeID: 8}}
		}, func(sr *sessRun) bool { return len(sr.view.Pages) > 0 }, "template", "pages"))
	register(fillCheck("C03", 20000, 100000,
		"case = template (any page sizes, leftover graphics state) + history of text inserts with random box, alignment, colour, font, size; non-trivial when text reached a page and was matched",
		func(t *T) *Prof {
			return &Prof{Corpus: 10, MinCalls: 2, MaxCalls: 30, W: map[string]int{"setfont": 15, "insert": 60, "wrap": 6, "img": 4, "imgcache": 4, "border": 5, "dup": 4, "rm": 3, "measure": 5, "save": 2},
				RealFont: 8, MaxFonts: 4, NImgs: 1, Protect: 8, Kern: 8, Rise: 8}
		}, hasItem("text"), "text", "pages"))
	register(fillCheck("C04", 30000, 120000,
		"case = 1..5 fonts (generated TrueType: cmap 4/12, nested composites, shared glyphs, odd metrics; or real) + text inserts; non-trivial when glyphs were matched against the source font",
		func(t *T) *Prof {
			return &Prof{Corpus: 3, MinCalls: 2, MaxCalls: 22, W: map[string]int{"setfont": 25, "insert": 60, "wrap": 5, "measure": 12, "save": 3},
				RealFont: 12, MaxFonts: 5, NImgs: 0, Tmpl: tmplOpt{Plain: true, MaxPages: 2}}
		}, hasItem("text"), "font", "text"))
	register(fillCheck("C23", 22500, 100000,
		"case = history toggling cell borders and underline style between text inserts; non-trivial when an insert with border or underline reached a page",
		func(t *T) *Prof {
			return &Prof{Corpus: 8, MinCalls: 3, MaxCalls: 30, W: map[string]int{"setfont": 30, "insert": 55, "border": 18, "img": 3, "imgcache": 3, "dup": 3, "rm": 2, "save": 2},
				RealFont: 8, MaxFonts: 3, NImgs: 1}
		}, func(sr *sessRun) bool {
			for _, it := range sr.g.m.Items {
				if it.Kind == "text" && (it.Border || it.Under) {
					return true
				}
			}
			return false
		}, "decor", "text"))
	register(fillCheck("C10", 20000, 100000,
		"case = template (pages sharing contents and resources) + duplicate/remove/insert history; non-trivial when a page was duplicated and something was inserted",
		func(t *T) *Prof {
			return &Prof{Corpus: 10, MinCalls: 4, MaxCalls: 30, W: map[string]int{"setfont": 8, "insert": 35, "img": 10, "imgcache": 10, "dup": 25, "rm": 10, "rmo": 2, "save": 3},
				RealFont: 4, MaxFonts: 2, NImgs: 2, NoMissing: true}
		}, func(sr *sessRun) bool {
			k := kinds(sr.calls)
			return strings.Contains(k, "dup") && (strings.Contains(k, "insert") || strings.Contains(k, "img"))
		}, "template", "text", "image", "pages", "font"))
}
