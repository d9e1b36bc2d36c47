package main

// C15: malformed input and unusual call orders. A panic, a dead worker or a hang is the violation;
// an accepted malformed image must still leave a well-formed document.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math"
	"math/rand"
	"regexp"
	"strings"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/render"
)

var reNum = regexp.MustCompile(`[+-]?[0-9]+(\.[0-9]+)?`)
var reRef = regexp.MustCompile(`[0-9]+ [0-9]+ R\b`)
var reName = regexp.MustCompile(`/[A-Za-z0-9]+`)
var reKw = regexp.MustCompile(`endobj|endstream|stream|startxref|xref|trailer|\bobj\b|%%EOF|<<|>>|\[|\]|\(|\)|<|>`)

var oddNums = []string{"0", "-1", "1", "2", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967296", "99999999999999999999999", "0.5", "-.1", "00000000000000000000001", "1e9", "", "+", "--1"}
var oddVals = []string{"null", "[]", "<<>>", "()", "(", "true", "<4142", "<>", "/X", "[1 0 R", "<</A", "1 0 R", "99999 0 R", "0 0 R", "-5 0 R", "[[[]]]", "<</Kids 1 0 R>>", "%c\n", "12", "[null null]", "stream\nabc\nendstream", "endobj", ">>", "]"}
var hotKeys = []string{"/Kids", "/Type", "/Pages", "/Length", "/Parent", "/Contents", "/Resources", "/MediaBox", "/Font", "/XObject", "/Root", "/Count", "/Prev", "/Size", "/Page", "/Filter"}

func pickLoc(r *rand.Rand, re *regexp.Regexp, b []byte) []int {
	// look from a random place, so that big files stay cheap
	at := 0
	if len(b) > 4000 {
		at = r.Intn(len(b) - 2000)
	}
	end := at + 4000
	if end > len(b) {
		end = len(b)
	}
	ms := re.FindAllIndex(b[at:end], -1)
	if len(ms) == 0 {
		return nil
	}
	m := ms[r.Intn(len(ms))]
	return []int{m[0] + at, m[1] + at}
}

func splice(b []byte, i, j int, s string) []byte {
	out := make([]byte, 0, len(b)+len(s))
	out = append(out, b[:i]...)
	out = append(out, s...)
	return append(out, b[j:]...)
}

// mutPDF makes one change.
func mutPDF(r *rand.Rand, b []byte, other []byte) ([]byte, string) {
	if len(b) == 0 {
		return []byte("%PDF-1.4"), "empty"
	}
	switch r.Intn(16) {
	case 0, 1:
		if m := pickLoc(r, reNum, b); m != nil {
			n := oddNums[r.Intn(len(oddNums))]
			return splice(b, m[0], m[1], n), fmt.Sprintf("number %q at %d to %q", b[m[0]:m[1]], m[0], n)
		}
	case 2, 3:
		if m := pickLoc(r, reRef, b); m != nil {
			n := fmt.Sprintf("%d 0 R", r.Intn(40))
			if chance(r, 30) {
				n = oddVals[r.Intn(len(oddVals))]
			}
			return splice(b, m[0], m[1], n), fmt.Sprintf("reference %q at %d to %q", b[m[0]:m[1]], m[0], n)
		}
	case 4:
		if m := pickLoc(r, reName, b); m != nil {
			n := hotKeys[r.Intn(len(hotKeys))]
			return splice(b, m[0], m[1], n), fmt.Sprintf("name %q at %d to %q", b[m[0]:m[1]], m[0], n)
		}
	case 5, 6, 7:
		k := hotKeys[r.Intn(len(hotKeys))]
		n := bytes.Count(b, []byte(k))
		if n == 0 {
			return splice(b, 0, 0, k+" "), "leading " + k
		}
		n = r.Intn(n)
		at := -1
		for i := 0; i <= n; i++ {
			at += 1 + bytes.Index(b[at+1:], []byte(k))
		}
		end := at + len(k)
		switch r.Intn(4) {
		case 0:
			return splice(b, at, end, ""), fmt.Sprintf("%s at %d removed", k, at)
		case 1: // the value replaced
			e2 := end
			for e2 < len(b) && e2 < end+60 && b[e2] != '/' && b[e2] != '>' || e2 == end {
				e2++
				if e2 >= len(b) {
					break
				}
			}
			if e2 > len(b) {
				e2 = len(b)
			}
			v := oddVals[r.Intn(len(oddVals))]
			return splice(b, end, e2, " "+v+" "), fmt.Sprintf("value of %s at %d to %q", k, at, v)
		case 2:
			v := oddVals[r.Intn(len(oddVals))]
			return splice(b, at, at, k+" "+v+" "), fmt.Sprintf("%s at %d twice, first %q", k, at, v)
		default:
			return splice(b, at, end, k+"X"), fmt.Sprintf("%s at %d renamed", k, at)
		}
	case 8, 9:
		if m := pickLoc(r, reKw, b); m != nil {
			n := ""
			if chance(r, 40) {
				n = strings.Repeat(string(b[m[0]:m[1]])+" ", 2)
			}
			return splice(b, m[0], m[1], n), fmt.Sprintf("keyword %q at %d to %q", b[m[0]:m[1]], m[0], n)
		}
	case 10:
		n := r.Intn(len(b))
		if chance(r, 30) {
			n = r.Intn(imin(len(b), 60))
		}
		return append([]byte(nil), b[:n]...), fmt.Sprintf("cut to %d bytes", n)
	case 11:
		c := append([]byte(nil), b...)
		for k := 1 + r.Intn(4); k > 0; k-- {
			c[r.Intn(len(c))] = byte(r.Intn(256))
		}
		return c, "bytes changed"
	case 12:
		i := r.Intn(len(b))
		v := oddVals[r.Intn(len(oddVals))]
		if chance(r, 10) {
			v = strings.Repeat([]string{"[", "<<", "(", "<</A ", "<</A[", "]", ">>", "1 0 obj "}[r.Intn(8)], 1+r.Intn(3000))
		}
		return splice(b, i, i, v), fmt.Sprintf("%q put in at %d", clip(v), i)
	case 13:
		i := r.Intn(len(b))
		j := i + r.Intn(imin(len(b)-i, 400)+1)
		return splice(b, i, j, ""), fmt.Sprintf("%d bytes at %d removed", j-i, i)
	case 14:
		i := r.Intn(len(b))
		j := i + r.Intn(imin(len(b)-i, 400)+1)
		at := r.Intn(len(b))
		return splice(b, at, at, string(b[i:j])), fmt.Sprintf("%d bytes of %d repeated at %d", j-i, i, at)
	case 15:
		if len(other) > 0 && len(other) < 200000 {
			return append(append([]byte(nil), b[:r.Intn(len(b)+1)]...), other[r.Intn(len(other)):]...), "joined with another file"
		}
	}
	c := append([]byte(nil), b...)
	c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
	return c, "bit changed"
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// values of an unexpected kind or shape
var oddShapes = []string{"", "null", "[]", "[ ]", "[0]", "[0 0]", "[0 0 100]", "[0 0 100 100 100]", "[0 0 100 (x)]", "[0 0 100 5 0 R]", "[5 0 R 5 0 R 5 0 R 5 0 R]", "[100 100 0 0]", "[0 0 -5 1e3]", "[0 0 . -]",
	"[null null null null]", "5 0 R", "4 0 R", "3 0 R", "2 0 R", "1 0 R", "0 0 R", "99 0 R", "-3 0 R", "[5 0 R", "[3 0 R 3 0 R]", "[4 0 R]", "[4 0 R 4 0 R]", "[[3 0 R]]", "[3 0 R null (a) 7]", "<<>>", "<<", "<</A", "<</A 1", "<</Font 5 0 R>>", "<</Font<<>>",
	"<</Font<</F1>>>>", "<</Font<</F1 5>>>>", "<</Font[5 0 R]>>", "<</XObject 4 0 R>>", "<</XObject<</I1>>>>", "(", "()", "(a", "<", "<>", "<4", "<zz>", "/", "//", "/Pages", "/Page", "/Catalog", "/A#", "/A#2", "/A#zz", "true", "tru", "12", "-", "+", ".", "1 0", "1 0 R 2 0 R", "1 0 X", "R", "0 R", ">>", "]", ")", "%", "% x\n", "endobj", "stream", "obj", "99999999999999999999 0 R",
	"(a\\", "(\\", "(\\1", "(\\)", "<</A (b\\", "[(x\\", "[(x) (\\7", "<</A (b)/B (\\\\", "(((", "<<</A", "<</A <", "<</A /", "[<4", "[/"}
var oddNames = []string{"", "Type", "Kids", "Parent", "MediaBox", "Contents", "Resources", "Font", "XObject", "Length", "#", "#41", "A(", "A[", "A<"}

// hostilePDF builds a small file with a nasty structure.
func hostilePDF(r *rand.Rand) ([]byte, string) {
	var objs []string
	depth := []int{2, 10, 300, 3000}[r.Intn(4)]
	kind := r.Intn(30)
	cat := "<</Type/Catalog/Pages 2 0 R>>"
	page := "<</Type/Page/Parent 2 0 R/MediaBox[0 0 100 100]/Contents 4 0 R/Resources<</Font<<>>>>>>"
	cont := "<</Length 3>>\nstream\nq Q\nendstream"
	pages := "<</Type/Pages/Kids[3 0 R]/Count 1>>"
	desc := ""
	switch kind {
	case 0:
		desc, pages = "page tree that is its own kid", "<</Type/Pages/Kids[2 0 R 3 0 R]/Count 1>>"
	case 1:
		desc, pages = "page tree cycle of two", "<</Type/Pages/Kids[5 0 R]/Count 1>>"
		objs = []string{"<</Type/Pages/Kids[2 0 R 3 0 R]/Count 1/Parent 2 0 R>>"}
	case 2:
		desc, page = "page that is its own parent without boxes", "<</Type/Page/Parent 3 0 R/Contents 4 0 R>>"
	case 3:
		desc, page = "contents that is the page", "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 3 0 R/Resources 3 0 R>>"
	case 4:
		desc, cont = "length that refers to its own object", "<</Length 4 0 R>>\nstream\nq Q\nendstream"
	case 5:
		desc, cont = "length cycle", "<</Length 5 0 R>>\nstream\nq Q\nendstream"
		objs = []string{"6 0 R", "5 0 R"}
	case 6:
		desc, page = "resources cycle", "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R/Resources 5 0 R>>"
		objs = []string{"6 0 R", "5 0 R"}
	case 7:
		desc, page = "fonts that are the resources", "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R/Resources 5 0 R>>"
		objs = []string{"<</Font 5 0 R/XObject 5 0 R/F1 5 0 R>>"}
	case 8:
		desc, page = "contents array that holds itself", "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 5 0 R/Resources<<>>>>"
		objs = []string{"[5 0 R 4 0 R [5 0 R]]"}
	case 9:
		desc = fmt.Sprintf("page tree %d levels deep", depth)
		pages = "<</Type/Pages/Kids[5 0 R]/Count 1>>"
		for i := 0; i < depth; i++ {
			k := 6 + i
			if i == depth-1 {
				k = 3
			}
			objs = append(objs, fmt.Sprintf("<</Type/Pages/Count 1/Parent %d 0 R/Kids[%d 0 R]>>", imax(2, 4+i), k))
		}
	case 10:
		desc = fmt.Sprintf("array nested %d deep", depth)
		objs = []string{strings.Repeat("[", depth) + strings.Repeat("]", depth)}
	case 11:
		desc = fmt.Sprintf("dictionary nested %d deep in the page", depth)
		page = "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R/X " + strings.Repeat("<</A ", depth) + "1" + strings.Repeat(">>", depth) + "/Resources<<>>>>"
	case 12:
		desc = "page without anything"
		page = "<</Type/Page>>"
	case 13:
		desc, cat = "catalog whose page tree is the catalog", "<</Type/Catalog/Pages 1 0 R>>"
	case 14:
		desc, page = "media box that refers to itself", "<</Type/Page/Parent 2 0 R/MediaBox 5 0 R/Contents 4 0 R/Resources<<>>>>"
		objs = []string{"5 0 R"}
	case 15:
		desc, pages = "kids that refer to themselves", "<</Type/Pages/Kids 5 0 R/Count 1>>"
		objs = []string{"[5 0 R 3 0 R]"}
	case 16:
		desc, pages = "page named twice, once through null and numbers", "<</Type/Pages/Kids[3 0 R null 3 0 R 12 (x) 4 0 R]/Count 1>>"
	case 17:
		desc = fmt.Sprintf("%d kids that do not exist", depth)
		pages = "<</Type/Pages/Kids[" + strings.Repeat("77 0 R ", depth) + "3 0 R]/Count 1>>"
	case 18, 19, 20, 21, 22: // every value of the objects that matter replaced by something of another kind or shape
		vals := map[string]string{"Kids": "[3 0 R]", "Count": "1", "Pages": "2 0 R", "Parent": "2 0 R", "MediaBox": "[0 0 100 100]", "Contents": "4 0 R", "Resources": "<</Font<<>>>>", "Type": "/Page", "Font": "<</F1 5 0 R>>", "XObject": "<</I1 4 0 R>>"}
		keys := []string{"Kids", "Count", "Pages", "Parent", "MediaBox", "MediaBox", "Contents", "Resources", "Type", "Font", "XObject"}
		for n := 1 + r.Intn(2); n > 0; n-- {
			k := keys[r.Intn(len(keys))]
			vals[k] = oddShapes[r.Intn(len(oddShapes))]
			desc += fmt.Sprintf("%s is %q ", k, vals[k])
		}
		via := func(k string) string {
			if chance(r, 25) && vals[k] != "" {
				objs = append(objs, vals[k])
				return fmt.Sprintf("/%s %d 0 R", k, 5+len(objs))
			}
			return "/" + k + " " + vals[k]
		}
		objs = []string{"<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>"}
		cat = "<</Type/Catalog" + via("Pages") + ">>"
		pages = "<</Type/Pages" + via("Kids") + via("Count")
		page = "<<" + via("Type") + via("Parent") + via("Contents")
		if chance(r, 30) {
			pages += via("MediaBox")
		} else {
			page += via("MediaBox")
		}
		if strings.Contains(desc, "Font is") || strings.Contains(desc, "XObject is") {
			vals["Resources"] = "<<" + via("Font") + via("XObject") + ">>"
		}
		if chance(r, 30) {
			pages += via("Resources")
		} else {
			page += via("Resources")
		}
		pages, page = pages+">>", page+">>"
	case 23, 24, 25, 26: // streams
		ln := oddShapes[r.Intn(len(oddShapes))]
		if chance(r, 60) {
			ln = []string{"-1", "-100000", "2147483647", "9223372036854775807", "-9223372036854775808", "99999", "4", "2", "1000000000000", "3.5", "4 0 R", "5 0 R", "9 0 R"}[r.Intn(13)]
		}
		open := []string{"\nstream\n", "\nstream\r\n", "stream", "\nstream\r", "stream stream\n"}[r.Intn(5)]
		end := []string{"\nendstream", "endstream", "", "\nendstrea", "\nendstream endstream", "\nendstream\nstream\nx\nendstream"}[r.Intn(6)]
		objs = []string{oddShapes[r.Intn(len(oddShapes))]}
		cont = "<</Length " + ln + ">>" + open + "q Q" + end
		desc = fmt.Sprintf("stream %q", cont)
		if chance(r, 30) {
			objs = append(objs, cont)
		}
	case 27, 28: // generated names, strings and numbers in places the parser looks at
		page = "<</Type/Page/Parent 2 0 R/MediaBox[0 0 100 100]/Contents 4 0 R/Resources<</Font<</F1 5 0 R/" + strings.Repeat("F", 1+r.Intn(300)) + " 5 0 R>>>>/" + oddNames[r.Intn(len(oddNames))] + " " + oddShapes[r.Intn(len(oddShapes))] + ">>"
		objs = []string{oddShapes[r.Intn(len(oddShapes))]}
		desc = "page " + page
	case 29: // a cross-reference table that lies
		desc = "cross-reference table"
	}
	all := append([]string{cat, pages, page, cont}, objs...)
	sep := "\n"
	if chance(r, 30) {
		sep = ""
	}
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n")
	offs := make([]int, len(all))
	for i, o := range all {
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s%sendobj\n", i+1, o, sep)
	}
	x := b.Len()
	cnt := fmt.Sprint(len(all) + 1)
	if kind == 29 && chance(r, 40) {
		cnt = oddNums[r.Intn(len(oddNums))]
		desc += " count " + cnt
	}
	fmt.Fprintf(&b, "xref\n0 %s\n0000000000 65535 f \n", cnt)
	for i, o := range offs {
		if kind == 29 && chance(r, 40) {
			o = []int{0, x, x + 30, offs[r.Intn(len(offs))], o + 1, o - 1, 1 << 30, b.Len() + 40}[r.Intn(8)]
			desc += fmt.Sprintf(" object %d at %d", i+1, o)
		}
		if kind == 29 && chance(r, 15) {
			fmt.Fprintf(&b, "%d %d n\n", o, r.Intn(9))
			continue
		}
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	prev := ""
	if chance(r, 12) {
		prev = "/Prev " + []string{fmt.Sprint(x), fmt.Sprint(x), fmt.Sprint(x + 1), fmt.Sprint(x - 1), "0", "-1", "99999999", "(x)", "5 0 R", "[1]", fmt.Sprint(offs[0])}[r.Intn(11)]
		desc += " with " + prev
	}
	trailer := fmt.Sprintf("trailer\n<</Size %d/Root 1 0 R%s>>\n", len(all)+1, prev)
	if chance(r, 4) { // two tables that name each other
		y := b.Len() + len(fmt.Sprintf("trailer\n<</Size %d/Root 1 0 R/Prev 000000>>\n", len(all)+1))
		fmt.Fprintf(&b, "trailer\n<</Size %d/Root 1 0 R/Prev %06d>>\n", len(all)+1, y)
		fmt.Fprintf(&b, "xref\n0 1\n0000000000 65535 f \ntrailer\n<</Size %d/Root 1 0 R/Prev %d>>\nstartxref\n%d\n%%%%EOF\n", len(all)+1, x, y)
		return b.Bytes(), desc + " with two tables in a circle"
	}
	b.WriteString(trailer)
	fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", x)
	return b.Bytes(), desc
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// mutTTF changes a font file.
func mutTTF(r *rand.Rand, b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	if len(c) < 30 {
		return c, "short"
	}
	nt := int(binary.BigEndian.Uint16(c[4:]))
	odd16 := []uint16{0, 1, 2, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x100}
	odd32 := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(c)), uint32(len(c) - 1), uint32(len(c) - 4), 0x10000}
	var d []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		ti := 0
		if nt > 0 {
			ti = r.Intn(nt)
		}
		e := 12 + 16*ti
		if e+16 > len(c) {
			break
		}
		tag := string(c[e : e+4])
		off, ln := int(binary.BigEndian.Uint32(c[e+8:])), int(binary.BigEndian.Uint32(c[e+12:]))
		switch r.Intn(8) {
		case 0:
			binary.BigEndian.PutUint32(c[e+8:], odd32[r.Intn(len(odd32))])
			d = append(d, "offset of "+tag)
		case 1:
			binary.BigEndian.PutUint32(c[e+12:], []uint32{odd32[r.Intn(len(odd32))], uint32(r.Intn(ln + 1))}[r.Intn(2)])
			d = append(d, "length of "+tag)
		case 2:
			copy(c[e:], "zzzz")
			d = append(d, "table "+tag+" missing")
		case 3:
			if chance(r, 40) {
				n := r.Intn(len(c))
				c = c[:n]
				return c, fmt.Sprintf("%s; cut to %d bytes", strings.Join(d, ", "), n)
			}
			binary.BigEndian.PutUint16(c[4:], odd16[r.Intn(len(odd16))])
			d = append(d, "number of tables")
		default:
			if off < 0 || ln < 2 || off+ln > len(c) || off+ln < 0 {
				continue
			}
			lim := ln
			if chance(r, 60) && lim > 60 {
				lim = 60 // headers matter most
			}
			at := off + r.Intn(lim-1)
			if chance(r, 80) {
				at = off + (at-off)/2*2
			}
			switch r.Intn(3) {
			case 0:
				binary.BigEndian.PutUint16(c[at:], odd16[r.Intn(len(odd16))])
			case 1:
				binary.BigEndian.PutUint16(c[at:], uint16(r.Intn(65536)))
			default:
				if at+4 <= len(c) {
					binary.BigEndian.PutUint32(c[at:], odd32[r.Intn(len(odd32))])
				}
			}
			d = append(d, fmt.Sprintf("%s+%d", tag, at-off))
		}
	}
	return c, strings.Join(d, ", ")
}

// mutImg changes an image file.
func mutImg(r *rand.Rand, b []byte) ([]byte, string) {
	if !bytes.HasPrefix(b, []byte("\x89PNG")) || len(b) < 33 || chance(r, 25) {
		c := append([]byte(nil), b...)
		switch {
		case len(c) == 0:
			return []byte{0xff}, "one byte"
		case chance(r, 40):
			n := r.Intn(len(c))
			return c[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(b))
		case chance(r, 40):
			i := r.Intn(len(c))
			j := i + r.Intn(imin(len(c)-i, 40)+1)
			return append(c[:i:i], c[j:]...), fmt.Sprintf("%d bytes at %d removed", j-i, i)
		}
		lim := len(c)
		if chance(r, 60) {
			lim = imin(lim, 200)
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			c[r.Intn(lim)] = []byte{0, 1, 0xff, 0xd8, 0xc0, 0xc2, 0xda, byte(r.Intn(256))}[r.Intn(8)]
		}
		return c, "bytes changed"
	}
	type ch struct {
		typ  string
		data []byte
	}
	var chs []ch
	for i := 8; i+12 <= len(b); {
		n := int(binary.BigEndian.Uint32(b[i:]))
		if n < 0 || i+12+n > len(b) {
			break
		}
		chs = append(chs, ch{string(b[i+4 : i+8]), append([]byte(nil), b[i+8:i+8+n]...)})
		i += 12 + n
	}
	if len(chs) == 0 {
		return b, "unchanged"
	}
	var d []string
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(chs))
		if chance(r, 30) {
			i = 0
		}
		x := &chs[i]
		switch r.Intn(8) {
		case 0:
			if i > 0 || chance(r, 20) {
				chs = append(chs[:i:i], chs[i+1:]...)
				d = append(d, "chunk removed")
			}
			if len(chs) == 0 {
				return b[:8], "only the signature"
			}
		case 1:
			n := 0
			if len(x.data) > 0 {
				n = r.Intn(len(x.data))
			}
			x.data = x.data[:n]
			d = append(d, fmt.Sprintf("%s cut to %d", x.typ, n))
		case 2:
			x.data = append(x.data, make([]byte, r.Intn(30))...)
			d = append(d, x.typ+" longer")
		case 3:
			x.typ = []string{"IDAT", "PLTE", "tRNS", "IEND", "IHDR", "zzZz", "\x00\x00\x00\x00"}[r.Intn(7)]
			d = append(d, "chunk type to "+x.typ)
		case 4:
			j := r.Intn(len(chs))
			chs[i], chs[j] = chs[j], chs[i]
			d = append(d, "chunks swapped")
		default:
			if len(x.data) > 0 {
				at := r.Intn(len(x.data))
				x.data[at] = []byte{0, 1, 2, 3, 4, 6, 8, 16, 0x7f, 0x80, 0xff, byte(r.Intn(256))}[r.Intn(12)]
				d = append(d, fmt.Sprintf("%s[%d]=%d", x.typ, at, x.data[at]))
			}
		}
	}
	var o bytes.Buffer
	o.Write(b[:8])
	badLen := -1
	if chance(r, 12) {
		badLen = r.Intn(len(chs))
		d = append(d, "chunk length")
	}
	for i, x := range chs {
		n := uint32(len(x.data))
		if i == badLen {
			n = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, n + 1, n - 1}[r.Intn(7)]
		}
		binary.Write(&o, binary.BigEndian, n)
		body := append([]byte(x.typ), x.data...)
		o.Write(body)
		crc := crc32.ChecksumIEEE(body)
		if chance(r, 5) {
			crc++
		}
		binary.Write(&o, binary.BigEndian, crc)
	}
	return o.Bytes(), strings.Join(d, ", ")
}

func mutB64(r *rand.Rand, s string) string {
	b := []byte(s)
	switch r.Intn(6) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		if len(b) > 0 {
			b[r.Intn(len(b))] = "=-_ \n*\x00\xff"[r.Intn(8)]
		}
	case 2:
		b = append([]byte("data:image/png;base64,"), b...)
	case 3:
		b = append(b, "===="[:r.Intn(5)]...)
	case 4:
		return base64.StdEncoding.EncodeToString(garbage(r))
	case 5:
		return []string{"", "=", "A", "AA", "AAA", "\xff\xfe", "////"}[r.Intn(7)]
	}
	return string(b)
}

var oddFloats = []float64{0, -1, 1e300, -1e300, math.NaN(), math.Inf(1), math.Inf(-1), 1e-300, 72}

// wild makes one call with any arguments; errors do not matter.
func (w *wildSess) wild(t *T) {
	r, p := w.r, w.p
	f := func() float64 {
		if chance(r, 10) {
			return oddFloats[r.Intn(len(oddFloats))]
		}
		return coord(r)
	}
	pg := func() int {
		return []int{0, -1, 1, 1, 1, 2, 3, 1000000, -1 << 62, 1<<62 - 1}[r.Intn(10)]
	}
	txt := func() string {
		switch r.Intn(8) {
		case 0:
			return ""
		case 1:
			return "\xff\xfe\x80" + astral + "\x00\ufffd"
		case 2:
			return strings.Repeat("word กา ", 1+r.Intn(60))
		}
		return genText(r, w.fonts[r.Intn(len(w.fonts))], chance(r, 30))
	}
	name := func() string { return []string{"a", "b", "", "a b", "nosuch"}[r.Intn(5)] }
	var col *pdft.FontColor
	if chance(r, 60) {
		col = &pdft.FontColor{R: r.Intn(600) - 200, G: r.Intn(256), B: r.Intn(256)}
	}
	op := ""
	var err error
	switch r.Intn(26) {
	case 0, 1, 2:
		src := w.fonts[r.Intn(len(w.fonts))]
		data, how := src.Data, "intact"
		if chance(r, w.mutFont) {
			data, how = mutTTF(r, data)
			t.Obs.add("malformed fonts", 1)
		}
		n := name()
		op = fmt.Sprintf("AddFontFrom(%q, %s: %s)", n, src.Desc, how)
		w.log(t, op)
		err = p.AddFontFrom(n, bytes.NewReader(data))
		if err == nil && how != "intact" {
			t.Obs.add("malformed fonts accepted", 1)
			if chance(r, 80) {
				p.SetFont(n, "", 12)
			}
		}
	case 3, 4, 5:
		op = "SetFont"
		w.log(t, op)
		err = p.SetFont(name(), []string{"", "U", "B", "zz", "\xff"}[r.Intn(5)], []int{12, 0, -1, 1, 1 << 40}[r.Intn(5)])
	case 6, 7, 8, 9, 10:
		x := txt()
		op = fmt.Sprintf("Insert(%q)", clip(x))
		w.log(t, op)
		err = p.Insert(x, pg(), f(), f(), f(), f(), r.Intn(70)-3, col)
	case 11, 12:
		x := txt()
		b := []string{"nil", "basic", "rune", "pairs", "after", "whole", "fail"}[r.Intn(7)]
		op = fmt.Sprintf("InsertWrapText(%q,%s)", clip(x), b)
		w.log(t, op)
		err = p.InsertWrapText(x, pg(), f(), f(), f(), f(), r.Intn(70)-3, col, brkFor(b))
	case 13:
		op = "MeasureTextWidth"
		w.log(t, op)
		_, err = p.MeasureTextWidth(txt())
	case 14, 15, 16:
		img := w.imgs[r.Intn(len(w.imgs))]
		data, how := img.Data, "intact"
		if chance(r, w.mutImg) {
			data, how = mutImg(r, data)
			t.Obs.add("malformed images", 1)
		}
		switch r.Intn(3) {
		case 0:
			op = fmt.Sprintf("InsertImg(%s: %s)", img.Desc, how)
			w.log(t, op)
			err = p.InsertImg(data, pg(), f(), f(), f(), f())
		case 1:
			op = fmt.Sprintf("InsertImgWithCache(%s: %s)", img.Desc, how)
			w.log(t, op)
			err = p.InsertImgWithCache(data, pg(), f(), f(), f(), f())
		default:
			s := base64.StdEncoding.EncodeToString(data)
			if chance(r, w.mutImg/2) {
				s = mutB64(r, s)
			}
			op = fmt.Sprintf("InsertImgBase64(%s: %s)", img.Desc, how)
			w.log(t, op)
			err = p.InsertImgBase64(s, pg(), f(), f(), f(), f())
		}
		if err == nil && how != "intact" {
			t.Obs.add("malformed images accepted", 1)
		}
	case 17:
		op = "ShowCellBorder"
		w.log(t, op)
		p.ShowCellBorder(chance(r, 50))
	case 18:
		op = "DuplicatePageAfter"
		w.log(t, op)
		err = p.DuplicatePageAfter(pg(), pg())
	case 19:
		op = "RemovePage"
		w.log(t, op)
		err = p.RemovePage(pg())
	case 20:
		op = "RemoveOtherPages"
		w.log(t, op)
		err = p.RemoveOtherPages(pg())
	case 21:
		op = "GetNumberOfPage"
		w.log(t, op)
		p.GetNumberOfPage()
	case 22:
		op = "SetProtection"
		w.log(t, op)
		err = p.SetProtection(r.Intn(1<<16)-100, [][]byte{nil, {}, []byte("x"), bytes.Repeat([]byte("y"), 100)}[r.Intn(4)], [][]byte{nil, {}, []byte("o")}[r.Intn(3)])
	case 23:
		op = "KernOverride"
		w.log(t, op)
		err = p.KernOverride(name(), []func(l, r rune, lp, rp uint, pv int16) int16{nil, func(l, r rune, lp, rp uint, pv int16) int16 { return 32767 }}[r.Intn(2)])
		p.TextriseOverride(name(), []pdft.FuncTextriseOverride{nil, func(l, r rune, fs int, all string, i int) float32 { return float32(math.NaN()) }}[r.Intn(2)])
	case 24:
		op = "SaveTo"
		w.log(t, op)
		err = w.save(t)
	case 25:
		if !chance(r, 30) {
			return
		}
		w.open(t)
		return
	}
	w.calls++
	if err != nil {
		w.errs++
		t.Obs.add("calls that returned an error", 1)
	} else {
		t.Obs.add("calls that succeeded", 1)
	}
}

type wildSess struct {
	r       *rand.Rand
	p       *pdft.PDFt
	fonts   []*fontSrc
	imgs    []*genImage
	tmpl    []byte
	other   []byte
	tdoc    *Doc
	mutTmpl int
	mutFont int
	mutImg  int
	clean   bool // template is intact
	calls   int
	errs    int
}

func (w *wildSess) log(t *T, s string) { t.ops = append(t.ops, s) }

func (w *wildSess) open(t *T) {
	r := w.r
	data, how := w.tmpl, "intact"
	w.clean = true
	if chance(r, w.mutTmpl) {
		w.clean = false
		if chance(r, 35) {
			data, how = hostilePDF(r)
		} else {
			var hs []string
			for k := 1 + r.Intn(3); k > 0; k-- {
				var h string
				data, h = mutPDF(r, data, w.other)
				hs = append(hs, h)
			}
			how = strings.Join(hs, "; ")
		}
		t.Obs.add("malformed templates", 1)
	}
	w.log(t, "OpenFrom("+how+")")
	err := w.p.OpenFrom(bytes.NewReader(data))
	if err == nil && !w.clean {
		t.Obs.add("malformed templates accepted", 1)
	}
	if err != nil {
		w.clean = false
	}
}

func (w *wildSess) save(t *T) error {
	var b bytes.Buffer
	if err := w.p.SaveTo(&b); err != nil {
		return err
	}
	t.Obs.add("documents saved", 1)
	return nil
}

// strict is a session on an intact template in which an image may be malformed: what is accepted
// must leave a well-formed document.
func (w *wildSess) strict(t *T, e *Env) {
	r := w.r
	s, err := openSess(e)
	if err != nil {
		t.fail("%v", err)
		return
	}
	acc := 0
	for k := 1 + r.Intn(4); k > 0; k-- {
		img := w.imgs[r.Intn(len(w.imgs))]
		data, how := mutImg(r, img.Data)
		t.ops = append(t.ops, fmt.Sprintf("insert %s: %s", img.Desc, how))
		t.Obs.add("malformed images", 1)
		if chance(r, 50) {
			err = s.P.InsertImg(data, 1, 10, 10, 50, 50)
		} else {
			err = s.P.InsertImgWithCache(data, 1, 10, 10, 50, 50)
		}
		if err == nil {
			acc++
			t.Obs.add("malformed images accepted", 1)
		}
	}
	src := w.fonts[r.Intn(len(w.fonts))]
	data, how := mutTTF(r, src.Data)
	t.ops = append(t.ops, "font "+how)
	t.Obs.add("malformed fonts", 1)
	if s.P.AddFontFrom("f", bytes.NewReader(data)) == nil && s.P.SetFont("f", "", 10) == nil {
		t.Obs.add("malformed fonts accepted", 1)
		for k := 1 + r.Intn(4); k > 0; k-- {
			s.P.Insert(genText(r, src, true), 1, 10, 10, 100, 20, 0, nil)
		}
	}
	out, err := s.Save()
	if err != nil {
		t.Obs.add("saves that returned an error", 1)
		return
	}
	d, err := ParseDoc(out, false)
	if err != nil {
		t.fail("saved after malformed images or fonts were accepted: %v", err)
		return
	}
	d.tmpl = e.Tdoc
	d.oddRows = true
	if err := d.Check(); err != nil {
		t.fail("saved after malformed images or fonts were accepted: %v", err)
		return
	}
	t.Obs.add("documents with accepted malformed parts checked", 1)
}

func runC15(t *T) {
	r := t.R
	loadCorpus()
	p := &Prof{Corpus: 10, RealFont: 3, MaxFonts: 2, NImgs: 3}
	e, err := genEnv(r, p)
	must(err)
	for len(e.Tmpl) > 400000 {
		e, err = genEnv(r, p)
		must(err)
	}
	e.Dir = t.Dir
	e.Imgs = append(e.Imgs, genOdd(r))
	w := &wildSess{r: r, p: &pdft.PDFt{}, fonts: e.Fonts, imgs: e.Imgs, tmpl: e.Tmpl, tdoc: e.Tdoc}
	if chance(r, 30) {
		g := genPDF(r, tmplOpt{})
		w.other = g.Data
	}
	kind := "template"
	switch k := r.Intn(100); {
	case k < 55:
		w.mutTmpl = 100
	case k < 75:
		kind = "mixed"
		w.mutTmpl, w.mutFont, w.mutImg = 40, 50, 50
	case k < 92:
		kind = "fonts and images"
		w.mutFont, w.mutImg = 90, 90
	default:
		kind = "strict"
	}
	t.ops = []string{e.desc(), kind}
	switch kind {
	case "strict":
		w.strict(t, e)
		t.note(true, keyOf(t.ops...), "%s: %d steps", kind, len(t.ops))
		return
	}
	if kind == "template" && chance(r, 8) { // through a Render
		data, how := mutPDF(r, e.Tmpl, w.other)
		t.ops = append(t.ops, "NewRender("+how+")")
		g := newSessGen(r, p, e)
		rd, err := render.NewRender(t.writeFile("m.pdf", data), render.FieldInfos{genField(r, g, "a", []string{"a"}), genField(r, g, "b", []string{"b", "a"})})
		t.Obs.add("malformed templates", 1)
		if err == nil {
			rd.ShowDesignView()
			rd.Text("a", "x")
			rd.ImgBase64("b", mutB64(r, base64.StdEncoding.EncodeToString(e.Imgs[0].Data)))
			w.p = &rd.PDFt
			t.Obs.add("malformed templates accepted", 1)
		}
	} else if !chance(r, 12) {
		w.open(t)
	} else {
		t.Obs.add("sessions that start without a document", 1)
	}
	if chance(r, 60) { // the ordinary use of a document, on whatever was opened
		t.ops = append(t.ops, "ordinary use")
		w.p.GetNumberOfPage()
		if w.p.AddFontFrom("ordinary", bytes.NewReader(w.fonts[0].Data)) == nil && w.p.SetFont("ordinary", "U", 12) == nil {
			w.p.ShowCellBorder(true)
			for pg := 1; pg <= 2; pg++ {
				w.p.Insert("AB", pg, 10, 10, 50, 20, pdft.Middle|pdft.Right, nil)
			}
		}
		w.p.InsertImg(w.imgs[0].Data, 1, 10, 10, 20, 20)
		if chance(r, 50) {
			w.save(t)
		}
		if chance(r, 50) {
			w.p.DuplicatePageAfter(1, -1)
			w.p.InsertImgWithCache(w.imgs[0].Data, 2, 10, 10, 20, 20)
			w.save(t)
		}
	}
	n := r.Intn(14)
	for i := 0; i < n; i++ {
		w.wild(t)
	}
	t.ops = append(t.ops, "SaveTo, SaveTo")
	w.save(t)
	w.save(t)
	if chance(r, 12) {
		t.wildGen(w)
	}
	t.note(w.calls > 0, keyOf(t.ops...), "%s: %d calls, %d errors: %s", kind, w.calls, w.errs, clipN(t.ops[2], 150))
}

// wildGen gives malformed fonts and images to the generator.
func (t *T) wildGen(w *wildSess) {
	r := w.r
	gp := &gopdf.GoPdf{}
	gp.Start(gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 300, H: 300}})
	gp.AddPage()
	for k := 2 + r.Intn(6); k > 0; k-- {
		if chance(r, 50) {
			data, how := mutTTF(r, w.fonts[r.Intn(len(w.fonts))].Data)
			t.ops = append(t.ops, "generator font "+how)
			if gp.AddTTFFontByReaderWithOption("g", bytes.NewReader(data), gopdf.TtfOption{UseKerning: true}) == nil && gp.SetFont("g", "", 10) == nil {
				gp.Text(genText(r, w.fonts[0], false))
				gp.Cell(nil, "AVo กา")
			}
			continue
		}
		data, how := mutImg(r, w.imgs[r.Intn(len(w.imgs))].Data)
		t.ops = append(t.ops, "generator image "+how)
		h, err := gopdf.ImageHolderByBytes(data)
		if err == nil {
			var rect *gopdf.Rect
			if chance(r, 60) {
				rect = &gopdf.Rect{W: 10, H: 10}
			}
			gp.ImageByHolder(h, 5, 5, rect)
		}
	}
	gp.GetBytesPdfReturnErr()
	t.Obs.add("generator sessions with malformed parts", 1)
}

func init() {
	register(&Check{ID: "C15", Quick: 50000, Thorough: 600000,
		Rule: "case = session with malformed templates (byte, token and structure mutations, cycles, deep nesting), fonts (table directory and field mutations), images (chunk mutations, truncations), base64, odd arguments and call orders; a panic, a dead process or 100 s without progress is a violation, and what was accepted on an intact template must save as a well-formed file; non-trivial when at least one call was made",
		Run:  runC15})
}
