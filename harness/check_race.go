package main

// C14: independent values used at the same time. This check is built with the race detector.
//
// The actors record what they do with wall-clock stamps of their own and share no lock, channel
// or atomic while they run: any of these would order their memory accesses and hide a race.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
)

type rOp struct {
	key, text string
	img       int
	isImg     bool
}

type actor struct {
	kind   string // pdft, render, gen, form
	id     int
	e      *Env
	calls  []Call
	m      *Model
	fields render.FieldInfos
	rops   []rOp
	b64    []string
	brk    textbreak.TextBreaker
	tmpl   string
	pw     map[string][]byte
	seed   int
	dir    string
}

type actorRes struct {
	errs  []string
	wid   []float64
	npg   []int
	outs  [][]byte
	marks []time.Time
	sub   *T
	panic string
}

// run executes the actor's calls; pause decides where it lets others run.
func (a *actor) run(pause func(i int)) (res actorRes) {
	defer func() {
		if p := recover(); p != nil {
			res.panic = fmt.Sprint(p)
		}
	}()
	mark := func(i int) {
		if pause != nil {
			pause(i)
		}
		res.marks = append(res.marks, time.Now())
	}
	es := func(err error) {
		if err == nil {
			res.errs = append(res.errs, "")
		} else {
			res.errs = append(res.errs, err.Error())
		}
	}
	switch a.kind {
	case "pdft":
		s := &Sess{P: &pdft.PDFt{}, E: a.e, Pw: a.pw}
		mark(0)
		err := s.P.OpenFrom(bytes.NewReader(a.e.Tmpl))
		es(err)
		if err != nil {
			return
		}
		for i, c := range a.calls {
			mark(i)
			es(s.Do(c))
		}
		mark(len(a.calls))
		out, err := s.Save()
		es(err)
		res.outs = append(append([][]byte{}, s.Outs...), out)
		res.wid, res.npg = s.Wid, s.NPg
	case "render":
		mark(0)
		rd, err := render.NewRender(a.tmpl, a.fields)
		es(err)
		if err != nil {
			return
		}
		s := &Sess{P: &rd.PDFt, E: a.e, Pw: a.pw}
		rd.SetTextBreaker(a.brk)
		for i, c := range a.calls {
			mark(i)
			es(s.Do(c))
		}
		for i, o := range a.rops {
			mark(i)
			if o.isImg {
				es(rd.ImgBase64(o.key, a.b64[o.img]))
			} else {
				es(rd.Text(o.key, o.text))
			}
		}
		mark(0)
		out, err := s.Save()
		es(err)
		res.outs = append(res.outs, out)
	case "gen":
		t := &T{R: rngFor("C14gen", a.seed), Dir: a.dir, Obs: Obs{}}
		t.pause = mark
		mark(0)
		runC20(t)
		mark(1)
		res.sub = t
	case "form":
		t := &T{R: rngFor("C14form", a.seed), Dir: a.dir, Obs: Obs{}}
		mark(0)
		runC18(t)
		mark(1)
		res.sub = t
	}
	return
}

func runC14(t *T) {
	r := t.R
	loadCorpus()
	p := &Prof{Corpus: 15, MinCalls: 2, MaxCalls: 10, W: wMixed, RealFont: 10, MaxFonts: 3, NImgs: 2, Kern: 15, Rise: 8, Protect: 35, NoMissing: true,
		Breakers: []string{"basic", "basic", "rune", "nil"}}
	e, err := genEnv(r, p)
	must(err)
	n := 2 + r.Intn(5)
	pw := map[string][]byte{}
	var b64 []string
	for _, im := range e.Imgs {
		b64 = append(b64, base64.StdEncoding.EncodeToString(im.Data))
	}
	tmplPath := t.writeFile("tmpl.pdf", e.Tmpl)
	var fields render.FieldInfos
	var acts []*actor
	perm := r.Perm(len(fontNames))
	var fonts []string
	for i := range e.Fonts {
		fonts = append(fonts, fontNames[perm[i]])
	}
	for i := 0; i < n; i++ {
		a := &actor{id: i, e: &Env{}, pw: pw, b64: b64, tmpl: tmplPath, brk: textbreak.BasicTextbreak{}}
		*a.e = *e
		a.dir = filepath.Join(t.Dir, fmt.Sprintf("a%d", i))
		must(os.MkdirAll(a.dir, 0755))
		a.e.Dir = a.dir
		g := newSessGen(r, p, a.e)
		switch k := r.Intn(20); {
		case k < 11:
			a.kind = "pdft"
			if i > 0 && acts[i-1].kind == "pdft" && chance(r, 30) { // the same history twice
				a.calls, a.m = acts[i-1].calls, acts[i-1].m
				break
			}
			g.addFonts()
			g.run()
			if g.m.wrapEps {
				t.note(false, "", "")
				return
			}
			a.calls, a.m = g.calls, g.m
			for _, c := range a.calls {
				if c.K == "protect" {
					for _, w := range []string{c.UP, c.OP} {
						if pw[w] == nil {
							pw[w] = append(make([]byte, 0, len(w)+40), w...)
						}
					}
				}
			}
		case k < 15:
			a.kind = "render"
			if fields == nil {
				for j := 0; j < 6; j++ {
					fields = append(fields, genField(r, g, fieldKeys[j], fonts))
				}
			}
			a.fields = fields
			for j, f := range fonts {
				a.calls = append(a.calls, Call{K: "addfont", Font: f, FI: j})
				if chance(r, 15) {
					a.calls = append(a.calls, Call{K: "kern", Font: f, CB: r.Intn(20)})
				}
			}
			for k := 1 + r.Intn(8); k > 0; k-- {
				f := fields[r.Intn(len(fields))]
				fi := 0
				for j := range fonts {
					if fonts[j] == f.Font {
						fi = j
					}
				}
				a.rops = append(a.rops, rOp{key: f.Key, text: genText(r, e.Fonts[fi], f.IsWrapText), img: r.Intn(len(e.Imgs)), isImg: chance(r, 25)})
			}
		case k < 18:
			a.kind = "gen"
			a.seed = r.Intn(1 << 30)
		default:
			a.kind = "form"
			a.seed = r.Intn(1 << 30)
		}
		acts = append(acts, a)
	}
	t.ops = []string{e.desc()}
	for _, a := range acts {
		t.ops = append(t.ops, fmt.Sprintf("-- actor %d: %s", a.id, a.kind))
		t.ops = append(t.ops, callsDesc(a.calls)...)
	}
	// concurrent run first, so that nothing is warmed up by the run alone
	conc := make([]actorRes, n)
	pauses := make([]func(int), n)
	for i := range acts {
		pr := rand.New(rand.NewSource(r.Int63()))
		mode := r.Intn(3)
		pauses[i] = func(int) {
			switch mode {
			case 1:
				if pr.Intn(3) == 0 {
					runtime.Gosched()
				}
			case 2:
				if pr.Intn(4) == 0 {
					time.Sleep(time.Duration(pr.Intn(300)) * time.Microsecond)
				}
			}
		}
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range acts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			conc[i] = acts[i].run(pauses[i])
		}(i)
	}
	close(gate)
	wg.Wait()
	// the interleaving seen
	type ev struct {
		at time.Time
		id int
	}
	var evs []ev
	for i, c := range conc {
		for _, m := range c.marks {
			evs = append(evs, ev{m, i})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at.Before(evs[j].at) })
	var tr strings.Builder
	switches := 0
	for i, x := range evs {
		fmt.Fprintf(&tr, "%d", x.id)
		if i > 0 && evs[i-1].id != x.id {
			switches++
		}
	}
	t.Obs.add("actors run concurrently", n)
	t.Obs.add("calls in concurrent actors", len(evs))
	t.Obs.add("switches between actors", switches)
	for i, a := range acts {
		c := conc[i]
		who := fmt.Sprintf("actor %d (%s) among %d concurrent ones", i, a.kind, n)
		if c.panic != "" {
			t.fail("%s: panic: %s", who, c.panic)
			return
		}
		if c.sub != nil {
			if c.sub.failed() { // alone it must fail as well to be another property's matter
				t2 := a.run(nil)
				if t2.sub != nil && !t2.sub.failed() && t2.panic == "" {
					t.ops = append(t.ops, c.sub.ops...)
					t.fail("%s: alone it is right, concurrently: %s", who, strings.Join(c.sub.viols, "; "))
					return
				}
				t.Obs.add("actors that are wrong alone as well", 1)
				continue
			}
			for k, v := range c.sub.Obs {
				t.Obs.add(k, v)
			}
			t.Obs.add("self-checking actors verified", 1)
			continue
		}
		alone := a.run(nil)
		if alone.panic != "" {
			t.Obs.add("actors that are wrong alone as well", 1)
			continue
		}
		if fmt.Sprint(alone.errs) != fmt.Sprint(c.errs) {
			t.fail("%s: errors %q, alone %q", who, c.errs, alone.errs)
			return
		}
		if fmt.Sprint(alone.wid, alone.npg) != fmt.Sprint(c.wid, c.npg) {
			t.fail("%s: measures and page counts %v %v, alone %v %v", who, c.wid, c.npg, alone.wid, alone.npg)
			return
		}
		if len(alone.outs) != len(c.outs) {
			t.fail("%s: %d outputs, alone %d", who, len(c.outs), len(alone.outs))
			return
		}
		for k := range c.outs {
			da, e1 := a.parse(alone.outs[k])
			dc, e2 := a.parse(c.outs[k])
			if e1 != nil {
				t.Obs.add("actors that are wrong alone as well", 1)
				break
			}
			if e2 != nil {
				t.fail("%s: output %d: %v", who, k, e2)
				return
			}
			if err := sameDoc(dc, da, sameOpt{}); err != nil {
				t.fail("%s: output %d differs from the one made alone: %v", who, k, err)
				return
			}
			t.Obs.add("documents compared with the run alone", 1)
		}
	}
	for w, b := range pw {
		if string(b) != w {
			t.fail("a shared password buffer was changed")
			return
		}
	}
	t.note(switches > 0, keyOf(tr.String(), keyOf(t.ops...)), "%d actors, %d calls, interleaving %s", n, len(evs), clipN(tr.String(), 60))
}

// parse reads an output, decrypting it when the actor's history protects it.
func (a *actor) parse(out []byte) (*Doc, error) {
	d, err := ParseDoc(out, false)
	if err != nil {
		return nil, err
	}
	d.tmpl = a.e.Tdoc
	en, err := d.EncInfo()
	if err != nil {
		return nil, err
	}
	if en != nil {
		var key []byte
		for _, c := range a.calls {
			if c.K == "protect" && key == nil {
				key = en.authUser([]byte(c.UP))
			}
		}
		if key == nil {
			return nil, fmt.Errorf("user password is refused")
		}
		if err := d.Decrypt(en, key); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func init() {
	register(&Check{ID: "C14", Quick: 350, Thorough: 4000, Workers: 6,
		Rule:   "case = 2-6 actors (pdft histories, render forms, generator sessions) on distinct values sharing template, font, image and password bytes, field list and breaker, started together with random yields; distinct = distinct call interleaving observed; non-trivial when actors were switched at least once between calls",
		Assume: []string{"the Go race detector sees the accesses of the schedules that occurred"},
		Run:    runC14})
}
