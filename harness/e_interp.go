package main

// Reference interpreter for the interpolation language of errorsWithData,
// written from the package documentation: lexer, recursive-descent parser,
// evaluator and validator over the reference errors (*em) of e_model.go.

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"unicode"
)

type ekind int

const (
	kLit ekind = iota
	kParent
	kVar
	kCond
)

// enode is a node of a parsed interpolation string.
type enode struct {
	kind   ekind
	dollar bool
	text   string // literal, verb or condition
	name   string // variable
	kids   []*enode
}

type etok struct {
	t string // "s" literal, or the special token itself
	s string
}

func eLex(s string) (toks []etok) {
	lit := func(x string) {
		if n := len(toks); n > 0 && toks[n-1].t == "s" {
			toks[n-1].s += x
			return
		}
		toks = append(toks, etok{"s", x})
	}
	for i := 0; i < len(s); {
		rest := s[i:]
		switch {
		case len(rest) >= 2 && rest[0] == '\\' && strings.IndexByte(`%${}\`, rest[1]) >= 0:
			lit(rest[1:2])
			i += 2
		case strings.HasPrefix(rest, "%%"):
			lit("%")
			i += 2
		case len(rest) >= 2 && (rest[0] == '%' || rest[0] == '$') && (rest[1] == 'w' || rest[1] == '!'):
			toks = append(toks, etok{rest[:2], ""})
			i += 2
		case strings.IndexByte("%${}", rest[0]) >= 0:
			toks = append(toks, etok{rest[:1], ""})
			i++
		default:
			lit(rest[:1])
			i++
		}
	}
	return
}

// eParse returns the parsed sequence, or ok == false on a parse error.
func eParse(s string) (seq []*enode, ok bool) {
	toks := append(eLex(s), etok{"end", ""})
	pos := 0
	good := true
	var parseSeq func(depth int) []*enode
	expect := func(t string) string {
		if !good || toks[pos].t != t {
			good = false
			return ""
		}
		pos++
		return toks[pos-1].s
	}
	parseSeq = func(depth int) (out []*enode) {
		for good {
			tk := toks[pos]
			switch tk.t {
			case "s":
				out = append(out, &enode{kind: kLit, text: tk.s})
				pos++
			case "%w", "$w":
				out = append(out, &enode{kind: kParent, dollar: tk.t[0] == '$'})
				pos++
			case "%!", "$!":
				pos++
				n := &enode{kind: kCond, dollar: tk.t[0] == '$', text: expect("s")}
				expect("{")
				n.kids = parseSeq(depth + 1)
				expect("}")
				out = append(out, n)
			case "%", "$":
				pos++
				n := &enode{kind: kVar, dollar: tk.t[0] == '$'}
				if toks[pos].t == "s" {
					n.text = expect("s")
				}
				expect("{")
				n.name = expect("s")
				expect("}")
				out = append(out, n)
			case "}":
				if depth == 0 {
					good = false
				}
				return
			case "end":
				if depth != 0 {
					good = false
				}
				return
			default:
				good = false
			}
		}
		return
	}
	seq = parseSeq(0)
	return seq, good
}

var eSpecial = map[string]bool{"!m": true, "!map": true, "!params": true, "!parameters": true}

func eValidName(s string) bool {
	for i, r := range s {
		if i == 0 {
			if !unicode.IsUpper(r) {
				return false
			}
			continue
		}
		if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return s != ""
}

// eSemOK: the syntax conditions beyond the grammar.
func eSemOK(seq []*enode) bool {
	for _, n := range seq {
		switch n.kind {
		case kVar:
			if strings.Contains(n.text, "%") || !(eSpecial[n.name] || eValidName(n.name)) {
				return false
			}
		case kCond:
			if n.text != "m>0" && n.text != "m=0" || !eSemOK(n.kids) {
				return false
			}
		}
	}
	return true
}

// eseg is a piece of an expected message: literal text, or a hole for an
// in-band problem report.
type eseg struct {
	lit  string
	hole bool
}

func eEval(seq []*enode, own, passed map[string]interface{}, base *em) (out []eseg) {
	for _, n := range seq {
		m := own
		if n.dollar {
			m = passed
		}
		switch n.kind {
		case kLit:
			out = append(out, eseg{lit: n.text})
		case kVar:
			verb := n.text
			if verb == "" {
				verb = "v"
			}
			if eSpecial[n.name] {
				out = append(out, eseg{lit: fmt.Sprintf("%"+verb, m)})
			} else if v, ok := m[n.name]; ok {
				out = append(out, eseg{lit: fmt.Sprintf("%"+verb, v)})
			} else {
				out = append(out, eseg{hole: true})
			}
		case kCond:
			if (len(m) > 0) == (n.text == "m>0") {
				out = append(out, eEval(n.kids, own, passed, base)...)
			}
		case kParent:
			switch {
			case base == nil:
				out = append(out, eseg{hole: true})
			case !n.dollar:
				out = append(out, base.message(nil)...)
			case base.interpolater():
				out = append(out, base.message(passed)...)
			default:
				out = append(out, eseg{hole: true})
			}
		}
	}
	return
}

// tri-state validity
const (
	vBad = iota
	vOpen
	vGood
)

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// eFinal: must ValidateError_Final/_Params succeed?
func eFinal(seq []*enode, own, passed map[string]interface{}, base *em) bool {
	for _, n := range seq {
		m := own
		if n.dollar {
			m = passed
		}
		switch n.kind {
		case kVar:
			if _, ok := m[n.name]; !ok && !eSpecial[n.name] {
				return false
			}
		case kCond:
			if (len(m) > 0) == (n.text == "m>0") && !eFinal(n.kids, own, passed, base) {
				return false
			}
		case kParent:
			if base == nil || n.dollar && !base.interpolater() {
				return false
			}
			if base.interpolater() {
				p := passed
				if !n.dollar {
					p = nil
				}
				if !base.validFinal(p) {
					return false
				}
			}
		}
	}
	return true
}

// eBase: ValidateError_Base, which knows nothing about passed parameters.
func eBase(seq []*enode, own map[string]interface{}, base *em) int {
	res := vGood
	for _, n := range seq {
		switch n.kind {
		case kVar:
			if n.dollar || eSpecial[n.name] {
				continue
			}
			if _, ok := own[n.name]; !ok {
				return vBad
			}
		case kCond:
			if n.dollar { // whether the branch is taken is not known: a problem inside is left open
				if eBase(n.kids, own, base) != vGood {
					res = vMin(res, vOpen)
				}
			} else if (len(own) > 0) == (n.text == "m>0") {
				res = vMin(res, eBase(n.kids, own, base))
			}
		case kParent:
			if base == nil || n.dollar && !base.interpolater() {
				return vBad
			}
			if base.interpolater() {
				if n.dollar {
					res = vMin(res, base.validBase())
				} else if !base.validFinal(nil) {
					return vBad
				}
			}
		}
		if res == vBad {
			return vBad
		}
	}
	return res
}

const eHole = `(?s:.*?(?:!<|<!|\(<nil>\)|<\$w).*?)`

// eMatch compares a message with the expected pieces.
func eMatch(msg string, segs []eseg) bool {
	hasHole := false
	var re strings.Builder
	var lit strings.Builder
	re.WriteString(`\A`)
	for _, s := range segs {
		if s.hole {
			hasHole = true
			re.WriteString(eHole)
		} else {
			lit.WriteString(s.lit)
			re.WriteString(regexp.QuoteMeta(s.lit))
		}
	}
	if !hasHole {
		return msg == lit.String()
	}
	re.WriteString(`\z`)
	x, err := regexp.Compile(re.String())
	if err != nil { // message too long for a regexp or not valid UTF-8: compare the ends only
		first, last := "", ""
		if !segs[0].hole {
			first = segs[0].lit
		}
		if s := segs[len(segs)-1]; !s.hole {
			last = s.lit
		}
		return strings.HasPrefix(msg, first) && strings.HasSuffix(msg, last) && eMarked(msg)
	}
	return x.MatchString(msg)
}

var eMarker = regexp.MustCompile(`!<|<!|\(<nil>\)|<\$w`)

func eMarked(msg string) bool { return eMarker.MatchString(msg) }

func hasHole(segs []eseg) bool {
	for _, s := range segs {
		if s.hole {
			return true
		}
	}
	return false
}

func segString(segs []eseg) string {
	var b strings.Builder
	for _, s := range segs {
		if s.hole {
			b.WriteString("⟦problem report⟧")
		} else {
			b.WriteString(s.lit)
		}
	}
	return b.String()
}

// ---- generator of interpolation strings ----

var eNames = []string{"A", "B", "Cc", "X_1", "Ünicode", "Data", "Zz9"}
var eVerbs = []string{"", "", "", "v", "+v", "#v", "d", "s", "x", "X", "q", "T", "5.1f", "-8s|", "08b", "t", "v (quoted)", " d", `\{v`, `v\}`}
var eWords = []string{"a", "error", " ", "foo bar", "w", "!", "m>0", "m=0", "\n", "ß", "日本", ":", "v", "d", "A", "\t", "\x00", "w!", "!m", "=", ">", "B", "😀", ",", "(", ")"}

func eEscape(r *rand.Rand, lit string) string {
	var b strings.Builder
	rs := []byte(lit)
	for i, c := range rs {
		switch {
		case c == '%' && r.Intn(2) == 0:
			b.WriteString("%%")
		case strings.IndexByte(`%${}`, c) >= 0:
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\\':
			// a lone backslash not before an escapable character is itself
			if i+1 < len(rs) && strings.IndexByte(`%${}\`, rs[i+1]) < 0 && r.Intn(2) == 0 {
				b.WriteByte('\\')
			} else {
				b.WriteString(`\\`)
			}
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func eGenLit(r *rand.Rand) string {
	var b strings.Builder
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(5) == 0 {
			b.WriteString([]string{"%", "$", "{", "}", `\`, "%w", "$w", "%!", `\n`, "%v{A}"}[r.Intn(10)])
		} else {
			b.WriteString(eWords[r.Intn(len(eWords))])
		}
	}
	return b.String()
}

// eGenSeq generates a well-formed sequence; used lists names to draw from.
func eGenSeq(r *rand.Rand, depth int, names []string) (seq []*enode) {
	n := r.Intn(5)
	if depth == 0 {
		n++
		switch r.Intn(100) {
		case 0: // long
			n = 10 + r.Intn(30)
		case 1: // deeply nested
			in := eGenSeq(r, 3, names)
			for k := 5 + r.Intn(40); k > 0; k-- {
				w := &enode{kind: kCond, dollar: r.Intn(2) == 0, text: []string{"m>0", "m=0"}[r.Intn(2)], kids: in}
				in = []*enode{w}
				if r.Intn(3) == 0 {
					in = append(in, &enode{kind: kLit, text: eGenLit(r)})
				}
			}
			return in
		}
	}
	for i := 0; i < n; i++ {
		d := r.Intn(2) == 0
		switch k := r.Intn(12); {
		case k < 4:
			seq = append(seq, &enode{kind: kLit, text: eGenLit(r)})
		case k < 6:
			seq = append(seq, &enode{kind: kParent, dollar: d})
		case k < 10:
			nd := &enode{kind: kVar, dollar: d, text: eVerbs[r.Intn(len(eVerbs))], name: names[r.Intn(len(names))]}
			if r.Intn(6) == 0 {
				nd.name = []string{"!m", "!map", "!params", "!parameters"}[r.Intn(4)]
			}
			seq = append(seq, nd)
		default:
			if depth >= 4 {
				continue
			}
			nd := &enode{kind: kCond, dollar: d, text: []string{"m>0", "m=0"}[r.Intn(2)]}
			nd.kids = eGenSeq(r, depth+1, names)
			seq = append(seq, nd)
		}
	}
	return
}

func pd(d bool) string {
	if d {
		return "$"
	}
	return "%"
}

// eRender prints a sequence. Verbs are stored rendered (they may hold escapes).
func eRender(r *rand.Rand, seq []*enode) string {
	var b strings.Builder
	for _, n := range seq {
		switch n.kind {
		case kLit:
			b.WriteString(eEscape(r, n.text))
		case kParent:
			b.WriteString(pd(n.dollar) + "w")
		case kVar:
			b.WriteString(pd(n.dollar) + n.text + "{" + n.name + "}")
		case kCond:
			b.WriteString(pd(n.dollar) + "!" + n.text + "{" + eRender(r, n.kids) + "}")
		}
	}
	return b.String()
}

var eSoup = []string{"%", "$", "{", "}", `\`, "%w", "$w", "%!", "$!", "%%", "m>0", "m=0", "m>1", "A", "B", "a", "v", "!m", "!map", "!foo", "{A}", "%v{A}", "$v{B}", "%!m>0{", "$!m=0{", "}", "}", " ", "1A", "_X", "ü", "Ä", "A B", "A.B", "\x00", "$$", `\\`, `\{`, `\%`}

// eMutate damages a string at a random place.
func eMutate(r *rand.Rand, s string) string {
	for k := 1 + r.Intn(3); k > 0; k-- {
		rs := []rune(s)
		p := 0
		if len(rs) > 0 {
			p = r.Intn(len(rs) + 1)
		}
		switch r.Intn(4) {
		case 0:
			if p < len(rs) {
				rs = append(rs[:p:p], rs[p+1:]...)
			}
			s = string(rs)
		case 1:
			s = string(rs[:p])
		case 2:
			s = string(rs[:p]) + eSoup[r.Intn(len(eSoup))] + string(rs[p:])
		default:
			q := r.Intn(len(rs) + 1)
			if q < p {
				p, q = q, p
			}
			s = string(rs[:q]) + string(rs[p:])
		}
	}
	return s
}

// eGenString: an interpolation string of the wanted flavour; flavour 0 is
// well-formed, 1 damaged, 2 token soup.
func eGenString(r *rand.Rand, flavour int, names []string) string {
	switch flavour {
	case 0:
		for {
			s := eRender(r, eGenSeq(r, 0, names))
			if s != "" {
				return s
			}
		}
	case 1:
		for {
			s := eMutate(r, eRender(r, eGenSeq(r, 0, names)))
			if s != "" {
				return s
			}
		}
	default:
		var b strings.Builder
		for k := 1 + r.Intn(10); k > 0; k-- {
			b.WriteString(eSoup[r.Intn(len(eSoup))])
		}
		return b.String()
	}
}
