package main

// Independent strict PDF reader. Shares no code with the library under test.

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

type Name string
type Str []byte
type Arr []interface{}
type Dict map[Name]interface{}
type Ref struct{ N, G int }
type Stream struct {
	D   Dict
	Raw []byte // as stored (still encrypted for a protected file until decrypted)
}
type Op string // content stream operator

type lexer struct {
	b   []byte
	p   int
	doc *Doc
}

func isWS(c byte) bool { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}
func isReg(c byte) bool { return !isWS(c) && !isDelim(c) }

func (l *lexer) skip() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

func (l *lexer) errf(f string, a ...interface{}) error {
	lo, hi := l.p-20, l.p+30
	if lo < 0 {
		lo = 0
	}
	if hi > len(l.b) {
		hi = len(l.b)
	}
	if lo > hi {
		lo = hi
	}
	return fmt.Errorf("%s at %d near %q", fmt.Sprintf(f, a...), l.p, l.b[lo:hi])
}

var errEOF = errors.New("eof")

func (l *lexer) word() string {
	s := l.p
	for l.p < len(l.b) && isReg(l.b[l.p]) {
		l.p++
	}
	return string(l.b[s:l.p])
}

func parseNumber(w string) (interface{}, bool) {
	if w == "" {
		return nil, false
	}
	hasDigit := false
	dot := 0
	for i := 0; i < len(w); i++ {
		c := w[i]
		switch {
		case c >= '0' && c <= '9':
			hasDigit = true
		case c == '.':
			dot++
		case (c == '+' || c == '-') && i == 0:
		default:
			return nil, false
		}
	}
	if !hasDigit || dot > 1 {
		return nil, false
	}
	if dot == 0 {
		n, err := strconv.ParseInt(w, 10, 64)
		if err != nil {
			return nil, false
		}
		return n, true
	}
	f, err := strconv.ParseFloat(w, 64)
	if err != nil {
		return nil, false
	}
	return f, true
}

// value parses one object; content=true means no references, keywords returned as Op.
func (l *lexer) value(content bool, depth int) (interface{}, error) {
	if depth > 200 {
		return nil, l.errf("too deep")
	}
	l.skip()
	if l.p >= len(l.b) {
		return nil, errEOF
	}
	c := l.b[l.p]
	switch c {
	case '/':
		l.p++
		var sb []byte
		for l.p < len(l.b) && isReg(l.b[l.p]) {
			if l.b[l.p] == '#' && l.p+2 < len(l.b) {
				if v, err := strconv.ParseUint(string(l.b[l.p+1:l.p+3]), 16, 8); err == nil {
					sb = append(sb, byte(v))
					l.p += 3
					continue
				}
				return nil, l.errf("bad # escape in name")
			}
			sb = append(sb, l.b[l.p])
			l.p++
		}
		return Name(sb), nil
	case '(':
		return l.litString()
	case '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			l.p += 2
			d := Dict{}
			for {
				l.skip()
				if l.p+1 < len(l.b) && l.b[l.p] == '>' && l.b[l.p+1] == '>' {
					l.p += 2
					return d, nil
				}
				k, err := l.value(content, depth+1)
				if err != nil {
					return nil, err
				}
				kn, ok := k.(Name)
				if !ok {
					return nil, l.errf("dictionary key is not a name: %v", k)
				}
				v, err := l.value(content, depth+1)
				if err != nil {
					return nil, err
				}
				if _, isop := v.(Op); isop {
					return nil, l.errf("keyword %v as dictionary value of /%s", v, kn)
				}
				if old, dup := d[kn]; dup && canonSimple(old) != canonSimple(v) {
					return nil, l.errf("duplicate dictionary key /%s", kn)
				}
				if v != nil { // null is the same as no entry
					d[kn] = v
				}
			}
		}
		l.p++
		var hex []byte
		for {
			if l.p >= len(l.b) {
				return nil, l.errf("unterminated hex string")
			}
			c := l.b[l.p]
			l.p++
			if c == '>' {
				break
			}
			if isWS(c) {
				continue
			}
			if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) {
				return nil, l.errf("bad hex string char %q", c)
			}
			hex = append(hex, c)
		}
		if len(hex)%2 == 1 {
			hex = append(hex, '0')
		}
		out := make([]byte, len(hex)/2)
		for i := range out {
			v, _ := strconv.ParseUint(string(hex[2*i:2*i+2]), 16, 8)
			out[i] = byte(v)
		}
		return Str(out), nil
	case '[':
		l.p++
		a := Arr{}
		for {
			l.skip()
			if l.p >= len(l.b) {
				return nil, l.errf("unterminated array")
			}
			if l.b[l.p] == ']' {
				l.p++
				return a, nil
			}
			v, err := l.value(content, depth+1)
			if err != nil {
				return nil, err
			}
			if _, isop := v.(Op); isop {
				return nil, l.errf("keyword %v in array", v)
			}
			a = append(a, v)
		}
	case ')', '>', ']', '{', '}':
		return nil, l.errf("unexpected %q", c)
	}
	start := l.p
	w := l.word()
	if n, ok := parseNumber(w); ok {
		if !content {
			if i, isInt := n.(int64); isInt && i >= 0 && w[0] != '+' {
				// reference?
				save := l.p
				l.skip()
				s2 := l.p
				w2 := l.word()
				if g, err := strconv.Atoi(w2); err == nil && g >= 0 && l.p > s2 {
					l.skip()
					s3 := l.p
					w3 := l.word()
					if w3 == "R" && l.p > s3 {
						return Ref{int(i), g}, nil
					}
				}
				l.p = save
			}
		}
		return n, nil
	}
	switch w {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "null":
		return nil, nil
	}
	if content {
		return Op(w), nil
	}
	l.p = start
	return nil, l.errf("unexpected keyword %q", w)
}

func (l *lexer) litString() (interface{}, error) {
	l.p++
	depth := 1
	var out []byte
	for {
		if l.p >= len(l.b) {
			return nil, l.errf("unterminated string")
		}
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return Str(out), nil
			}
		case '\r':
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
			continue
		case '\\':
			if l.p >= len(l.b) {
				return nil, l.errf("unterminated string")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
			continue
		}
		out = append(out, c)
	}
}

// Doc is a parsed file.
type Doc struct {
	raw     []byte
	Trailer Dict
	Size    int
	XrefOff int
	off     map[int]int // id -> offset of n entries
	free    map[int]bool
	objs    map[int]interface{}
	key     []byte // file key once authenticated (decrypted)
	lax     bool
	t0      map[int]t0res
	dang    map[int]bool
	oddRows bool // rows of image data may be wrong: a malformed image was accepted
	tmpl    *Doc // references dangling in the template may dangle here too
}

func (l *lexer) kw(s string) bool {
	if bytes.HasPrefix(l.b[l.p:], []byte(s)) {
		l.p += len(s)
		return true
	}
	return false
}

// end tells that the word just read ends here: a delimiter, white space or the end of the file follows.
func (l *lexer) end() bool {
	return l.p >= len(l.b) || isWS(l.b[l.p]) || isDelim(l.b[l.p])
}

// ParseDoc strictly parses a file with a classic single cross-reference section.
// lax permits features of foreign templates (previous sections, inexact stream lengths).
func ParseDoc(b []byte, lax bool) (*Doc, error) {
	d := &Doc{raw: b, off: map[int]int{}, free: map[int]bool{}, objs: map[int]interface{}{}, lax: lax}
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("missing %%PDF header")
	}
	i := bytes.LastIndex(b, []byte("startxref"))
	if i < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	l := &lexer{b: b, p: i + len("startxref"), doc: d}
	if l.p >= len(b) || !isWS(b[l.p]) || i == 0 || b[i-1] != '\n' && b[i-1] != '\r' {
		return nil, fmt.Errorf("startxref does not stand on its own line")
	}
	l.skip()
	w := l.word()
	xo, err := strconv.Atoi(w)
	if err != nil || xo < 0 || xo >= len(b) {
		return nil, fmt.Errorf("bad startxref value %q", w)
	}
	eol := false
	for l.p < len(b) && isWS(b[l.p]) {
		eol = b[l.p] == '\n' || b[l.p] == '\r'
		l.p++
	}
	if !l.kw("%%EOF") || !eol {
		return nil, fmt.Errorf("no %%%%EOF after startxref")
	}
	if !lax {
		for _, c := range b[l.p:] {
			if !isWS(c) {
				return nil, fmt.Errorf("data after %%%%EOF")
			}
		}
	}
	d.XrefOff = xo
	seen := map[int]bool{}
	next := xo
	for next >= 0 {
		if seen[next] {
			return nil, fmt.Errorf("xref Prev loop")
		}
		seen[next] = true
		tr, err := d.readXref(next)
		if err != nil {
			return nil, err
		}
		if d.Trailer == nil {
			d.Trailer = tr
		}
		next = -1
		if pv, ok := tr["Prev"].(int64); ok {
			if !lax {
				return nil, fmt.Errorf("unexpected /Prev in trailer")
			}
			next = int(pv)
			if next < 0 || next >= len(b) {
				return nil, fmt.Errorf("bad Prev")
			}
		}
	}
	sz, ok := d.Trailer["Size"].(int64)
	if !ok {
		return nil, fmt.Errorf("trailer /Size missing or not an integer")
	}
	d.Size = int(sz)
	if _, ok := d.Trailer["Root"].(Ref); !ok {
		return nil, fmt.Errorf("trailer /Root is not a reference")
	}
	return d, nil
}

func (d *Doc) readXref(pos int) (Dict, error) {
	b := d.raw
	l := &lexer{b: b, p: pos, doc: d}
	for d.lax && l.p < len(b) && isWS(b[l.p]) {
		l.p++
	}
	if !l.kw("xref") {
		return nil, l.errf("startxref does not point at an xref section")
	}
	maxID := -1
	first := map[int]bool{}
	next := map[int]int{}
	for {
		for l.p < len(b) && isWS(b[l.p]) {
			l.p++
		}
		if l.kw("trailer") {
			break
		}
		w1 := l.word()
		l.skip()
		w2 := l.word()
		st, e1 := strconv.Atoi(w1)
		cnt, e2 := strconv.Atoi(w2)
		if e1 != nil || e2 != nil {
			return nil, l.errf("bad xref subsection header %q %q", w1, w2)
		}
		for l.p < len(b) && (b[l.p] == ' ' || b[l.p] == '\t') {
			l.p++
		}
		if l.kw("\r\n") || l.kw("\n") || l.kw("\r") {
		} else {
			return nil, l.errf("xref subsection header not followed by EOL")
		}
		for k := 0; k < cnt; k++ {
			if l.p+20 > len(b) {
				return nil, l.errf("xref row truncated")
			}
			row := b[l.p : l.p+20]
			l.p += 20
			if d.lax && row[18] == '\n' { // 19-byte rows of sloppy writers
				row = append(append([]byte(nil), row[:18]...), " \n"...)
				l.p--
			}
			off, e1 := strconv.Atoi(string(row[0:10]))
			gen, e2 := strconv.Atoi(string(row[11:16]))
			eol := string(row[18:20])
			if e1 != nil || e2 != nil || row[10] != ' ' || row[16] != ' ' || (row[17] != 'n' && row[17] != 'f') || (eol != " \n" && eol != " \r" && eol != "\r\n") {
				return nil, fmt.Errorf("malformed xref row %q for object %d", row, st+k)
			}
			id := st + k
			if first[id] {
				return nil, fmt.Errorf("object %d listed twice in xref", id)
			}
			first[id] = true
			if id > maxID {
				maxID = id
			}
			if _, have := d.off[id]; have || d.free[id] {
				continue
			}
			if row[17] == 'f' {
				d.free[id] = true
				next[id] = off
				continue
			}
			if gen != 0 && !d.lax {
				return nil, fmt.Errorf("object %d has generation %d", id, gen)
			}
			if off >= len(b) {
				return nil, fmt.Errorf("object %d offset %d beyond end of file", id, off)
			}
			d.off[id] = off
		}
	}
	v, err := l.value(false, 0)
	if err != nil {
		return nil, fmt.Errorf("trailer: %w", err)
	}
	tr, ok := v.(Dict)
	if !ok {
		return nil, fmt.Errorf("trailer is not a dictionary")
	}
	if !d.lax {
		if sz, ok := tr["Size"].(int64); !ok || int(sz) != maxID+1 {
			return nil, fmt.Errorf("trailer /Size %v but xref covers 0..%d", tr["Size"], maxID)
		}
		if !first[0] || !d.free[0] {
			return nil, fmt.Errorf("xref entry 0 is not free")
		}
		for i := 0; i <= maxID; i++ {
			if !first[i] {
				return nil, fmt.Errorf("xref has no entry for object %d", i)
			}
		}
		reached := map[int]bool{}
		n := 0
		for !reached[n] {
			reached[n] = true
			nx := next[n]
			if !d.free[nx] {
				return nil, fmt.Errorf("free entry %d links to %d, which is not free", n, nx)
			}
			n = nx
		}
		if n != 0 {
			return nil, fmt.Errorf("the list of free entries does not lead back to entry 0 but to %d", n)
		}
		for id := range next {
			if !reached[id] {
				return nil, fmt.Errorf("free entry %d is not in the linked list of free entries", id)
			}
		}
		l.skip()
		if !l.kw("startxref") {
			return nil, l.errf("trailer not followed by startxref")
		}
	}
	return tr, nil
}

// Obj returns object id (parsed, cached).
func (d *Doc) Obj(id int) (interface{}, error) {
	if v, ok := d.objs[id]; ok {
		return v, nil
	}
	off, ok := d.off[id]
	if !ok {
		return nil, fmt.Errorf("object %d is not in the cross-reference table", id)
	}
	v, err := d.parseIndirect(id, off)
	if err != nil {
		return nil, fmt.Errorf("object %d: %w", id, err)
	}
	d.objs[id] = v
	return v, nil
}

func (d *Doc) parseIndirect(id, off int) (interface{}, error) {
	l := &lexer{b: d.raw, p: off, doc: d}
	for d.lax && l.p < len(l.b) && isWS(l.b[l.p]) {
		l.p++
	}
	w1 := l.word()
	l.skip()
	w2 := l.word()
	l.skip()
	if n, err := strconv.Atoi(w1); err != nil || n != id {
		return nil, fmt.Errorf("xref offset %d leads to %q, not to this object's header", off, snippet(d.raw, off))
	}
	if g, err := strconv.Atoi(w2); err != nil || (g != 0 && !d.lax) {
		return nil, l.errf("bad generation %q", w2)
	}
	if !l.kw("obj") || !l.end() && !d.lax {
		return nil, l.errf("no obj keyword")
	}
	v, err := l.value(false, 0)
	if err != nil {
		return nil, err
	}
	l.skip()
	if dict, ok := v.(Dict); ok && l.kw("stream") {
		if l.kw("\r\n") || l.kw("\n") {
		} else {
			return nil, l.errf("stream keyword not followed by EOL")
		}
		start := l.p
		ln := -1
		switch x := dict["Length"].(type) {
		case int64:
			ln = int(x)
		case Ref:
			lv, err := d.Obj(x.N)
			if err != nil {
				return nil, fmt.Errorf("stream /Length: %w", err)
			}
			n, ok := lv.(int64)
			if !ok {
				return nil, fmt.Errorf("indirect /Length %d is %T", x.N, lv)
			}
			ln = int(n)
		default:
			return nil, fmt.Errorf("stream without integer /Length (%v)", dict["Length"])
		}
		if ln < 0 || start+ln > len(l.b) {
			return nil, fmt.Errorf("stream /Length %d out of range", ln)
		}
		raw := l.b[start : start+ln]
		l.p = start + ln
		for l.p < len(l.b) && isWS(l.b[l.p]) {
			l.p++
		}
		if !l.kw("endstream") || !l.end() && !d.lax {
			return nil, fmt.Errorf("stream /Length %d does not lead to endstream (%q)", ln, snippet(l.b, start+ln))
		}
		v = &Stream{D: dict, Raw: append([]byte(nil), raw...)}
		l.skip()
	}
	if !l.kw("endobj") || !l.end() && !d.lax {
		return nil, l.errf("object body not followed by endobj")
	}
	return v, nil
}

func snippet(b []byte, p int) string {
	if p < 0 || p >= len(b) {
		return "<out of file>"
	}
	e := p + 40
	if e > len(b) {
		e = len(b)
	}
	return string(b[p:e])
}

func (d *Doc) mayDangle(n int) bool {
	if d.tmpl == nil {
		return false
	}
	_, ok := d.tmpl.off[n]
	return !ok
}

func (d *Doc) Resolve(v interface{}) (interface{}, error) {
	for i := 0; i < 20; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v, nil
		}
		if r.G != 0 && !d.lax {
			return nil, fmt.Errorf("reference with generation %d", r.G)
		}
		if _, ok := d.off[r.N]; !ok && (d.lax || d.mayDangle(r.N)) {
			return nil, nil
		}
		var err error
		v, err = d.Obj(r.N)
		if err != nil {
			return nil, err
		}
	}
	return nil, fmt.Errorf("reference chain too long")
}

func (d *Doc) Dict(v interface{}) (Dict, error) {
	v, err := d.Resolve(v)
	if err != nil {
		return nil, err
	}
	switch x := v.(type) {
	case Dict:
		return x, nil
	case *Stream:
		return x.D, nil
	case nil:
		return nil, nil
	}
	return nil, fmt.Errorf("expected dictionary, got %T", v)
}

// Decode applies the stream's filters; image filters (DCT) are left as they are.
func (d *Doc) Decode(s *Stream) ([]byte, error) {
	fl, err := d.Resolve(s.D["Filter"])
	if err != nil {
		return nil, err
	}
	var filters []Name
	switch x := fl.(type) {
	case nil:
	case Name:
		filters = []Name{x}
	case Arr:
		for _, f := range x {
			f, err := d.Resolve(f)
			if err != nil {
				return nil, err
			}
			n, ok := f.(Name)
			if !ok {
				return nil, fmt.Errorf("bad filter %v", f)
			}
			filters = append(filters, n)
		}
	default:
		return nil, fmt.Errorf("bad /Filter %T", fl)
	}
	pv, err := d.Resolve(s.D["DecodeParms"])
	if err != nil {
		return nil, err
	}
	data := s.Raw
	for i, f := range filters {
		var parm Dict
		switch x := pv.(type) {
		case Dict:
			if i == 0 {
				parm = x
			}
		case Arr:
			if i < len(x) {
				parm, _ = d.Dict(x[i])
			}
		}
		switch f {
		case "FlateDecode":
			zr, err := zlib.NewReader(bytes.NewReader(data))
			if err != nil {
				return nil, fmt.Errorf("flate: %w", err)
			}
			out, err := io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("flate: %w", err)
			}
			data = out
			if parm != nil {
				data, err = d.unpredict(data, parm)
				if err != nil {
					return nil, err
				}
			}
		case "ASCIIHexDecode":
			var hex []byte
			for _, c := range data {
				if c == '>' {
					break
				}
				if isWS(c) {
					continue
				}
				hex = append(hex, c)
			}
			if len(hex)%2 == 1 {
				hex = append(hex, '0')
			}
			out := make([]byte, len(hex)/2)
			for k := range out {
				v, err := strconv.ParseUint(string(hex[2*k:2*k+2]), 16, 8)
				if err != nil {
					return nil, err
				}
				out[k] = byte(v)
			}
			data = out
		case "DCTDecode", "JPXDecode", "CCITTFaxDecode":
			return data, nil
		default:
			return nil, fmt.Errorf("unsupported filter %s", f)
		}
	}
	return data, nil
}

func intOf(v interface{}, def int) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case float64:
		return int(x)
	}
	return def
}

func numOf(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func (d *Doc) unpredict(data []byte, parm Dict) ([]byte, error) {
	pr := intOf(parm["Predictor"], 1)
	if pr < 10 {
		if pr != 1 {
			return nil, fmt.Errorf("predictor %d unsupported", pr)
		}
		return data, nil
	}
	colors := intOf(parm["Colors"], 1)
	bpc := intOf(parm["BitsPerComponent"], 8)
	cols := intOf(parm["Columns"], 1)
	bpp := (colors*bpc + 7) / 8
	rowlen := (colors*bpc*cols + 7) / 8
	return unfilterPNG(data, rowlen, bpp)
}

func unfilterPNG(data []byte, rowlen, bpp int) ([]byte, error) {
	if rowlen <= 0 || len(data)%(rowlen+1) != 0 {
		return nil, fmt.Errorf("predictor data length %d not a multiple of row %d+1", len(data), rowlen)
	}
	rows := len(data) / (rowlen + 1)
	out := make([]byte, 0, rows*rowlen)
	prev := make([]byte, rowlen)
	for r := 0; r < rows; r++ {
		ft := data[r*(rowlen+1)]
		cur := append([]byte(nil), data[r*(rowlen+1)+1:(r+1)*(rowlen+1)]...)
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			switch ft {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(b)
			case 3:
				cur[i] += byte((a + b) / 2)
			case 4:
				p := a + b - c
				pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
				var q int
				if pa <= pb && pa <= pc {
					q = a
				} else if pb <= pc {
					q = b
				} else {
					q = c
				}
				cur[i] += byte(q)
			default:
				return nil, fmt.Errorf("bad row filter %d", ft)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// Page is a leaf of the page tree with inherited attributes resolved.
type Page struct {
	ID    int
	D     Dict
	Inh   Dict // effective Resources, MediaBox, CropBox, Rotate
	Path  []int
	Depth int
}

var inheritable = []Name{"Resources", "MediaBox", "CropBox", "Rotate"}

// Pages walks the page tree and checks Count / Parent / Type consistency.
func (d *Doc) Pages() ([]*Page, error) {
	root, err := d.Dict(d.Trailer["Root"])
	if err != nil {
		return nil, err
	}
	if root == nil || root["Type"] != Name("Catalog") {
		return nil, fmt.Errorf("catalog missing or of wrong type")
	}
	pr, ok := root["Pages"].(Ref)
	if !ok {
		return nil, fmt.Errorf("catalog /Pages is not a reference")
	}
	var out []*Page
	onPath := map[int]bool{}
	seenNode := map[int]bool{}
	var walk func(r Ref, parent int, inh Dict, depth int) (int, error)
	walk = func(r Ref, parent int, inh Dict, depth int) (int, error) {
		if onPath[r.N] {
			return 0, fmt.Errorf("page tree cycle at object %d", r.N)
		}
		if seenNode[r.N] && !d.lax {
			return 0, fmt.Errorf("object %d appears twice in the page tree", r.N)
		}
		seenNode[r.N] = true
		onPath[r.N] = true
		defer delete(onPath, r.N)
		nd, err := d.Dict(r)
		if err != nil {
			return 0, err
		}
		if nd == nil {
			return 0, fmt.Errorf("page tree node %d missing", r.N)
		}
		if parent != 0 {
			p, ok := nd["Parent"].(Ref)
			if !ok || p.N != parent {
				return 0, fmt.Errorf("page tree node %d: /Parent %v but listed by %d", r.N, nd["Parent"], parent)
			}
		}
		ci := Dict{}
		for k, v := range inh {
			ci[k] = v
		}
		for _, k := range inheritable {
			if v, ok := nd[k]; ok {
				ci[k] = v
			}
		}
		switch nd["Type"] {
		case Name("Page"):
			out = append(out, &Page{ID: r.N, D: nd, Inh: ci, Depth: depth})
			return 1, nil
		case Name("Pages"):
			kv, err := d.Resolve(nd["Kids"])
			if err != nil {
				return 0, err
			}
			kids, ok := kv.(Arr)
			if !ok {
				return 0, fmt.Errorf("pages node %d: /Kids is %T", r.N, kv)
			}
			total := 0
			for _, k := range kids {
				kr, ok := k.(Ref)
				if !ok {
					return 0, fmt.Errorf("pages node %d: kid %v is not a reference", r.N, k)
				}
				n, err := walk(kr, r.N, ci, depth+1)
				if err != nil {
					return 0, err
				}
				total += n
			}
			cv, err := d.Resolve(nd["Count"])
			if err != nil {
				return 0, err
			}
			if c, ok := cv.(int64); !ok || int(c) != total {
				return 0, fmt.Errorf("pages node %d: /Count %v but %d pages below", r.N, nd["Count"], total)
			}
			return total, nil
		}
		return 0, fmt.Errorf("page tree node %d has /Type %v", r.N, nd["Type"])
	}
	if _, err := walk(pr, 0, Dict{}, 0); err != nil {
		return nil, err
	}
	return out, nil
}

// Contents returns the page's decoded content streams in order.
func (d *Doc) Contents(p *Page) ([][]byte, error) {
	v, err := d.Resolve(p.D["Contents"])
	if err != nil {
		return nil, err
	}
	var list []interface{}
	switch x := v.(type) {
	case nil:
		return nil, nil
	case *Stream:
		list = []interface{}{x}
	case Arr:
		list = x
	default:
		return nil, fmt.Errorf("page %d /Contents is %T", p.ID, v)
	}
	var out [][]byte
	for _, e := range list {
		sv, err := d.Resolve(e)
		if err != nil {
			return nil, err
		}
		s, ok := sv.(*Stream)
		if !ok {
			return nil, fmt.Errorf("page %d content element is %T", p.ID, sv)
		}
		b, err := d.Decode(s)
		if err != nil {
			return nil, fmt.Errorf("page %d content: %w", p.ID, err)
		}
		out = append(out, b)
	}
	return out, nil
}

// Check verifies the whole file: every object parses, every stream decodes, every
// reachable reference resolves.
func (d *Doc) Check() error {
	ids := make([]int, 0, len(d.off))
	for id := range d.off {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	usedOff := map[int]int{}
	for _, id := range ids {
		v, err := d.Obj(id)
		if err != nil {
			return err
		}
		o := d.off[id]
		for o < len(d.raw) && isWS(d.raw[o]) {
			o++
		}
		if other, dup := usedOff[o]; dup {
			return fmt.Errorf("objects %d and %d share offset %d", other, id, o)
		}
		usedOff[o] = id
		if s, ok := v.(*Stream); ok && d.Trailer["Encrypt"] == nil || d.key != nil {
			if ok {
				if _, err := d.Decode(s); err != nil && !strings.Contains(err.Error(), "unsupported filter") && !(d.oddRows && (strings.Contains(err.Error(), "predictor data length") || strings.Contains(err.Error(), "bad row filter"))) {
					return fmt.Errorf("object %d: %w", id, err)
				}
			}
		}
	}
	// free list
	seen := map[int]bool{}
	var visit func(v interface{}, from string) error
	visit = func(v interface{}, from string) error {
		switch x := v.(type) {
		case Ref:
			if seen[x.N] {
				return nil
			}
			seen[x.N] = true
			if _, ok := d.off[x.N]; !ok && d.mayDangle(x.N) && d.tmplRefs(x.N) {
				return nil
			}
			if _, ok := d.off[x.N]; !ok {
				return fmt.Errorf("dangling reference %d %d R in %s", x.N, x.G, from)
			}
			o, err := d.Obj(x.N)
			if err != nil {
				return err
			}
			return visit(o, fmt.Sprintf("object %d", x.N))
		case Dict:
			for k, e := range x {
				if err := visit(e, from+"/"+string(k)); err != nil {
					return err
				}
			}
		case Arr:
			for _, e := range x {
				if err := visit(e, from); err != nil {
					return err
				}
			}
		case *Stream:
			return visit(x.D, from)
		}
		return nil
	}
	if err := visit(d.Trailer, "trailer"); err != nil {
		return err
	}
	_, err := d.Pages()
	return err
}

// tmplRefs tells whether the template itself refers to n (which it does not have).
func (d *Doc) tmplRefs(n int) bool {
	t := d.tmpl
	if t.dang == nil {
		t.dang = map[int]bool{}
		var visit func(v interface{})
		visit = func(v interface{}) {
			switch x := v.(type) {
			case Ref:
				if _, ok := t.off[x.N]; !ok {
					t.dang[x.N] = true
				}
			case Dict:
				for _, e := range x {
					visit(e)
				}
			case Arr:
				for _, e := range x {
					visit(e)
				}
			case *Stream:
				visit(x.D)
			}
		}
		for id := range t.off {
			if v, err := t.Obj(id); err == nil {
				visit(v)
			}
		}
	}
	return t.dang[n]
}

// ---- standard security handler, V1 R2 ----

var pwPad = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
}

func padPw(p []byte) []byte {
	o := append([]byte(nil), p...)
	o = append(o, pwPad...)
	return o[:32]
}

type encInfo struct {
	O, U []byte
	P    int32
	ID0  []byte
	objN int
}

func (d *Doc) EncInfo() (*encInfo, error) {
	ev := d.Trailer["Encrypt"]
	if ev == nil {
		return nil, nil
	}
	e := &encInfo{}
	if r, ok := ev.(Ref); ok {
		e.objN = r.N
	}
	ed, err := d.Dict(ev)
	if err != nil {
		return nil, err
	}
	if ed["Filter"] != Name("Standard") || intOf(ed["V"], 0) != 1 || intOf(ed["R"], 0) != 2 {
		return nil, fmt.Errorf("unexpected encryption dictionary %v", ed)
	}
	o, ok1 := ed["O"].(Str)
	u, ok2 := ed["U"].(Str)
	p, ok3 := ed["P"].(int64)
	if !ok1 || !ok2 || !ok3 || len(o) != 32 || len(u) != 32 {
		return nil, fmt.Errorf("encryption dictionary O/U/P malformed: O %d bytes, U %d bytes, P %v", len(o), len(u), ed["P"])
	}
	e.O, e.U, e.P = o, u, int32(p)
	if int64(e.P) != p {
		return nil, fmt.Errorf("/P %d is not a 32-bit integer", p)
	}
	id, ok := d.Trailer["ID"].(Arr)
	if !ok || len(id) != 2 {
		return nil, fmt.Errorf("encrypted file without /ID")
	}
	id0, ok := id[0].(Str)
	if !ok {
		return nil, fmt.Errorf("/ID[0] not a string")
	}
	e.ID0 = id0
	return e, nil
}

func (e *encInfo) fileKey(user []byte) []byte {
	h := md5.New()
	h.Write(padPw(user))
	h.Write(e.O)
	p := uint32(e.P)
	h.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	h.Write(e.ID0)
	return h.Sum(nil)[:5]
}

func rc4x(key, data []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func (e *encInfo) authUser(pw []byte) []byte {
	k := e.fileKey(pw)
	if bytes.Equal(rc4x(k, pwPad), e.U) {
		return k
	}
	return nil
}

func (e *encInfo) authOwner(pw []byte) []byte {
	h := md5.Sum(padPw(pw))
	user := rc4x(h[:5], e.O)
	return e.authUser(user)
}

// Decrypt decrypts every string and stream in place with the file key.
func (d *Doc) Decrypt(e *encInfo, key []byte) error {
	for id := range d.off {
		if _, err := d.Obj(id); err != nil {
			return err
		}
	}
	for id, v := range d.objs {
		if id == e.objN {
			continue
		}
		h := md5.New()
		h.Write(key)
		h.Write([]byte{byte(id), byte(id >> 8), byte(id >> 16), 0, 0})
		ok := h.Sum(nil)[:10]
		var dec func(v interface{}) interface{}
		dec = func(v interface{}) interface{} {
			switch x := v.(type) {
			case Str:
				return Str(rc4x(ok, x))
			case Dict:
				for k, e := range x {
					x[k] = dec(e)
				}
				return x
			case Arr:
				for i, e := range x {
					x[i] = dec(e)
				}
				return x
			case *Stream:
				dec(x.D)
				x.Raw = rc4x(ok, x.Raw)
				return x
			}
			return v
		}
		d.objs[id] = dec(v)
	}
	d.key = key
	delete(d.Trailer, "Encrypt")
	delete(d.Trailer, "ID")
	return nil
}
