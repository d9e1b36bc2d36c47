package main

// Content stream tokenizer and a small graphics-state interpreter.

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type ContentOp struct {
	Args []interface{}
	Op   string
}

func fmtNum(f float64) string {
	s := strconv.FormatFloat(f, 'f', 6, 64)
	s = strings.TrimRight(s, "0")
	s = strings.TrimRight(s, ".")
	if s == "-0" || s == "" {
		s = "0"
	}
	return s
}

func canonSimple(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case int64:
		return fmtNum(float64(x))
	case float64:
		return fmtNum(x)
	case Name:
		return "/" + string(x)
	case Str:
		return fmt.Sprintf("<%x>", []byte(x))
	case Arr:
		var p []string
		for _, e := range x {
			p = append(p, canonSimple(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Dict:
		var ks []string
		for k := range x {
			ks = append(ks, string(k))
		}
		sort.Strings(ks)
		var p []string
		for _, k := range ks {
			p = append(p, "/"+k+" "+canonSimple(x[Name(k)]))
		}
		return "<<" + strings.Join(p, " ") + ">>"
	case Ref:
		return fmt.Sprintf("%d %d R", x.N, x.G)
	case Op:
		return string(x)
	case []byte:
		return fmt.Sprintf("{%x}", x)
	}
	return fmt.Sprintf("?%T", v)
}

func (o ContentOp) String() string {
	var p []string
	for _, a := range o.Args {
		p = append(p, canonSimple(a))
	}
	p = append(p, o.Op)
	return strings.Join(p, " ")
}

// ParseContent tokenizes a content stream.
func ParseContent(b []byte) ([]ContentOp, error) {
	l := &lexer{b: b}
	var ops []ContentOp
	var args []interface{}
	for {
		v, err := l.value(true, 0)
		if err == errEOF {
			if len(args) > 0 {
				return nil, fmt.Errorf("operands without operator at end of content: %v", args)
			}
			return ops, nil
		}
		if err != nil {
			return nil, err
		}
		if op, ok := v.(Op); ok {
			if op == "" {
				return nil, l.errf("empty token")
			}
			if op == "BI" {
				var ia []interface{}
				for {
					v, err := l.value(true, 0)
					if err != nil {
						return nil, err
					}
					if v == Op("ID") {
						break
					}
					ia = append(ia, v)
				}
				l.p++
				i := l.p
				for {
					j := bytes.Index(l.b[i:], []byte("EI"))
					if j < 0 {
						return nil, l.errf("BI without EI")
					}
					e := i + j
					if e > 0 && isWS(l.b[e-1]) && (e+2 >= len(l.b) || isWS(l.b[e+2])) {
						ia = append(ia, append([]byte(nil), l.b[l.p:e]...))
						l.p = e + 2
						break
					}
					i = e + 2
				}
				ops = append(ops, ContentOp{Args: ia, Op: "BI"})
				continue
			}
			ops = append(ops, ContentOp{Args: args, Op: string(op)})
			args = nil
			continue
		}
		args = append(args, v)
	}
}

type Mat [6]float64

var ident = Mat{1, 0, 0, 1, 0, 0}

// mul returns a x b (apply a first, then b).
func mul(a, b Mat) Mat {
	return Mat{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}
func (m Mat) apply(x, y float64) (float64, float64) {
	return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
}

type Color struct {
	Space string
	C     [4]float64
}

func gray(g float64) Color { return Color{"rgb", [4]float64{g, g, g}} }

type gstate struct {
	ctm          Mat
	fill, stroke Color
	font         Name
	size         float64
	rise         float64
	tc, tw, th   float64
	tr           int64
	lw           float64
	dash         string
	clip         bool
	other        string // accumulates gs etc.
}

// ShownGlyph is one glyph code shown.
type ShownGlyph struct {
	Code   int
	Rise   float64
	Adjust float64 // sum of TJ numbers immediately before this glyph (thousandths)
}

type Event struct {
	Kind   string // text, image, rect, line, path, other
	Idx    int    // operator index
	Font   Name
	Size   float64
	X, Y   float64 // origin in page space
	Flat   bool    // CTM x text matrix linear part is identity
	Fill   Color
	Stroke Color
	Glyphs []ShownGlyph
	Trail  float64 // trailing TJ adjustment
	TextSt string  // canonical extra text state (spacing, mode...)
	XName  Name
	M      Mat
	Pts    [][2]float64
	LW     float64
	Dash   string
	W, H   float64
	Clip   bool
	Other  string
	Raw    string
	NShow  int
}

// Interpret runs the operators, returning events and the final graphics stack depth.
func Interpret(ops []ContentOp) ([]Event, int, error) {
	gs := gstate{ctm: ident, fill: gray(0), stroke: gray(0), th: 100, lw: 1, dash: "[] 0"}
	var stack []gstate
	var evs []Event
	var tm, tlm Mat
	inText := false
	leading := 0.0
	var cur *Event
	var path [][2]float64
	var pathKind string
	var pathRects [][4]float64
	num := func(o ContentOp, i int) float64 {
		if i < len(o.Args) {
			f, _ := numOf(o.Args[i])
			return f
		}
		return 0
	}
	need := func(o ContentOp, n int) error {
		if len(o.Args) != n {
			return fmt.Errorf("operator %s has %d operands: %s", o.Op, len(o.Args), o)
		}
		return nil
	}
	for idx, o := range ops {
		var err error
		switch o.Op {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				return nil, 0, fmt.Errorf("Q without q at operator %d", idx)
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			if err = need(o, 6); err == nil {
				gs.ctm = mul(Mat{num(o, 0), num(o, 1), num(o, 2), num(o, 3), num(o, 4), num(o, 5)}, gs.ctm)
			}
		case "w":
			gs.lw = num(o, 0)
		case "d":
			if err = need(o, 2); err == nil {
				gs.dash = canonSimple(o.Args[0]) + " " + canonSimple(o.Args[1])
			}
		case "g":
			if err = need(o, 1); err == nil {
				gs.fill = gray(num(o, 0))
			}
		case "G":
			gs.stroke = gray(num(o, 0))
		case "rg":
			if err = need(o, 3); err == nil {
				gs.fill = Color{"rgb", [4]float64{num(o, 0), num(o, 1), num(o, 2)}}
			}
		case "RG":
			gs.stroke = Color{"rgb", [4]float64{num(o, 0), num(o, 1), num(o, 2)}}
		case "k":
			gs.fill = Color{"cmyk", [4]float64{num(o, 0), num(o, 1), num(o, 2), num(o, 3)}}
		case "K":
			gs.stroke = Color{"cmyk", [4]float64{num(o, 0), num(o, 1), num(o, 2), num(o, 3)}}
		case "cs", "sc", "scn":
			gs.fill = Color{Space: "x" + o.String()}
		case "CS", "SC", "SCN":
			gs.stroke = Color{Space: "x" + o.String()}
		case "gs", "ri", "i", "J", "j", "M":
			gs.other += o.String() + ";"
		case "BT":
			if inText {
				return nil, 0, fmt.Errorf("nested BT at operator %d", idx)
			}
			inText = true
			tm, tlm = ident, ident
			cur = nil
		case "ET":
			if !inText {
				return nil, 0, fmt.Errorf("ET without BT at operator %d", idx)
			}
			inText = false
			if cur != nil {
				evs = append(evs, *cur)
				cur = nil
			}
		case "Td", "TD":
			if err = need(o, 2); err == nil {
				tlm = mul(Mat{1, 0, 0, 1, num(o, 0), num(o, 1)}, tlm)
				tm = tlm
				if o.Op == "TD" {
					leading = -num(o, 1)
				}
				if cur != nil {
					evs = append(evs, *cur)
					cur = nil
				}
			}
		case "Tm":
			if err = need(o, 6); err == nil {
				tlm = Mat{num(o, 0), num(o, 1), num(o, 2), num(o, 3), num(o, 4), num(o, 5)}
				tm = tlm
				if cur != nil {
					evs = append(evs, *cur)
					cur = nil
				}
			}
		case "T*":
			tlm = mul(Mat{1, 0, 0, 1, 0, -leading}, tlm)
			tm = tlm
			if cur != nil {
				evs = append(evs, *cur)
				cur = nil
			}
		case "Tf":
			if err = need(o, 2); err == nil {
				n, ok := o.Args[0].(Name)
				if !ok {
					return nil, 0, fmt.Errorf("Tf operand %v", o.Args[0])
				}
				gs.font = n
				gs.size = num(o, 1)
			}
		case "Ts":
			gs.rise = num(o, 0)
		case "Tc":
			gs.tc = num(o, 0)
		case "Tw":
			gs.tw = num(o, 0)
		case "Tz":
			gs.th = num(o, 0)
		case "TL":
			leading = num(o, 0)
		case "Tr":
			gs.tr = int64(num(o, 0))
		case "Tj", "TJ", "'", "\"":
			if !inText {
				return nil, 0, fmt.Errorf("%s outside BT/ET at operator %d", o.Op, idx)
			}
			if len(o.Args) == 0 {
				return nil, 0, fmt.Errorf("%s without operand", o.Op)
			}
			if cur == nil {
				m := mul(tm, gs.ctm)
				x, y := m.apply(0, 0)
				cur = &Event{Kind: "text", Idx: idx, Font: gs.font, Size: gs.size, X: x, Y: y, Fill: gs.fill, Stroke: gs.stroke,
					Flat:   math.Abs(m[0]-1) < 1e-9 && math.Abs(m[3]-1) < 1e-9 && math.Abs(m[1]) < 1e-9 && math.Abs(m[2]) < 1e-9,
					TextSt: fmt.Sprintf("Tc%v Tw%v Tz%v Tr%v", gs.tc, gs.tw, gs.th, gs.tr), Clip: gs.clip, Other: gs.other}
			}
			if cur.Font != gs.font || cur.Size != gs.size || cur.Fill != gs.fill {
				cur.Raw += "!state changed inside text block;"
			}
			cur.NShow++
			var items []interface{}
			if a, ok := o.Args[len(o.Args)-1].(Arr); ok {
				items = a
			} else {
				items = []interface{}{o.Args[len(o.Args)-1]}
			}
			for _, it := range items {
				switch s := it.(type) {
				case Str:
					if len(s)%2 != 0 {
						cur.Raw += "!odd string;"
					}
					for i := 0; i+1 < len(s); i += 2 {
						cur.Glyphs = append(cur.Glyphs, ShownGlyph{Code: int(s[i])<<8 | int(s[i+1]), Rise: gs.rise, Adjust: cur.Trail})
						cur.Trail = 0
					}
				default:
					f, ok := numOf(it)
					if !ok {
						return nil, 0, fmt.Errorf("bad TJ element %v", it)
					}
					cur.Trail += f
				}
			}
		case "Do":
			if err = need(o, 1); err == nil {
				n, ok := o.Args[0].(Name)
				if !ok {
					return nil, 0, fmt.Errorf("Do operand %v", o.Args[0])
				}
				evs = append(evs, Event{Kind: "image", Idx: idx, XName: n, M: gs.ctm, Clip: gs.clip, Other: gs.other})
			}
		case "m":
			x, y := gs.ctm.apply(num(o, 0), num(o, 1))
			path = append(path, [2]float64{x, y})
			pathKind += "m"
		case "l":
			x, y := gs.ctm.apply(num(o, 0), num(o, 1))
			path = append(path, [2]float64{x, y})
			pathKind += "l"
		case "c":
			for k := 0; k < 6; k += 2 {
				x, y := gs.ctm.apply(num(o, k), num(o, k+1))
				path = append(path, [2]float64{x, y})
			}
			pathKind += "c"
		case "v", "y":
			for k := 0; k < 4; k += 2 {
				x, y := gs.ctm.apply(num(o, k), num(o, k+1))
				path = append(path, [2]float64{x, y})
			}
			pathKind += o.Op
		case "h":
			pathKind += "h"
		case "re":
			if err = need(o, 4); err == nil {
				x, y := gs.ctm.apply(num(o, 0), num(o, 1))
				x2, y2 := gs.ctm.apply(num(o, 0)+num(o, 2), num(o, 1)+num(o, 3))
				pathRects = append(pathRects, [4]float64{x, y, x2, y2})
				pathKind += "R"
			}
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n":
			ev := Event{Kind: "path", Idx: idx, Pts: path, Fill: gs.fill, Stroke: gs.stroke, LW: gs.lw, Dash: gs.dash, Raw: pathKind + " " + o.Op, Clip: gs.clip}
			if pathKind == "ml" && (o.Op == "s" || o.Op == "S") {
				ev.Kind = "line"
			} else if pathKind == "R" {
				ev.Kind = "rect"
				r := pathRects[0]
				ev.Pts = [][2]float64{{r[0], r[1]}, {r[2], r[3]}}
			}
			if o.Op != "n" {
				evs = append(evs, ev)
			}
			path, pathKind, pathRects = nil, "", nil
		case "W", "W*":
			gs.clip = true
		case "MP", "DP", "BMC", "BDC", "EMC", "BX", "EX":
		default:
			evs = append(evs, Event{Kind: "other", Idx: idx, Raw: o.String()})
		}
		if err != nil {
			return nil, 0, err
		}
	}
	if inText {
		return nil, 0, fmt.Errorf("BT without ET")
	}
	return evs, len(stack), nil
}

func opStrings(ops []ContentOp) []string {
	out := make([]string, len(ops))
	for i, o := range ops {
		out[i] = o.String()
	}
	return out
}

// splitInserted locates the template's operators in the page's operators.
// Returns the index of the first inserted operator.
func splitInserted(tmpl, got []string) (int, error) {
	match := func(at int) bool {
		if at+len(tmpl) > len(got) {
			return false
		}
		for i := range tmpl {
			if got[at+i] != tmpl[i] {
				return false
			}
		}
		return true
	}
	if len(got) > len(tmpl)+1 && got[0] == "q" && match(1) && got[1+len(tmpl)] == "Q" {
		return len(tmpl) + 2, nil
	}
	if match(0) {
		return len(tmpl), nil
	}
	// several wrapping levels (reopened documents)
	for k := 1; k < 12 && k < len(got); k++ {
		if got[k-1] != "q" {
			break
		}
		if match(k) && k+len(tmpl) < len(got) && got[k+len(tmpl)] == "Q" {
			return k + len(tmpl) + 1, nil
		}
	}
	i := 0
	for i < len(tmpl) && i < len(got) && tmpl[i] == got[i] {
		i++
	}
	tv, gv := "<end>", "<end>"
	if i < len(tmpl) {
		tv = tmpl[i]
	}
	if i < len(got) {
		gv = got[i]
	}
	return 0, fmt.Errorf("template drawing operators not preserved: first difference at operator %d of %d (template %q, output %q; output has %d)", i, len(tmpl), clip(tv), clip(gv), len(got))
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}
