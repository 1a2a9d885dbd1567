package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// sigRef is the signature of a function.
type sigRef struct {
	name     string // as in a dump
	params   []string
	defaults []string // as in a dump
	attr     string
}

func (s *sigRef) text() string {
	return "file{function " + s.name + "[" + strings.Join(s.params, " ") + "][" + strings.Join(s.defaults, " ") + "]" + s.attr + "{}endfunction}"
}

// exprText is the dump of an expression.
func exprText(src string) string {
	x, err := parseExpr(src)
	if err != nil {
		sym.Fail("rejected: " + src)
	}
	return dump(x)
}

func attrText(words ...string) string {
	s := ""
	for _, a := range []string{"range", "abort", "dict", "closure"} {
		for _, w := range words {
			if w == a {
				s += " " + a
				break
			}
		}
	}
	return s
}

// Signatures out of up to three parameters with default values of several
// kinds, a variadic marker, a last comma and attributes.
//
//vp:quick=90 thorough=100 reach=E989,E853,E125,E475,good
func C16_signature() {
	src := "function" + sym.Pick("bang", "", "!") + " F("
	ref := sigRef{name: "id<F>"}
	code := ""
	set := func(c string) {
		if code == "" {
			code = c
		}
	}
	n := forkOn("parameters", 4)
	variadic := forkOn("variadic", 2) == 1
	for i := 0; i < n; i++ {
		name := sym.Pick("name", "a", "b", "is", "firstline")
		for _, p := range ref.params {
			if p == name && name != "firstline" {
				set("E853")
			}
		}
		if name == "firstline" {
			set("E125")
		}
		ref.params = append(ref.params, name)
		src += name
		if d := sym.Pick("default", "", "=1", " = [2, 3]", "= f(a, b)"); d != "" {
			src += d
			ref.defaults = append(ref.defaults, exprText(d[strings.IndexByte(d, '=')+1:]))
		} else if len(ref.defaults) > 0 {
			set("E989")
		}
		if i < n-1 || variadic {
			c := ","
			if i == 0 {
				c = sym.Pick("comma", ",", ", ", " ,")
			}
			if c == " ," {
				set("E475")
			}
			src += c
		}
	}
	if variadic {
		ref.params = append(ref.params, "...")
		src += "..."
	} else if n > 0 {
		src += sym.Pick("end", "", ",", " ")
	}
	src += ")\nendfunction"
	f, err := parse(src)
	if code != "" {
		sym.Reach(code)
		eq("error", src, errCode(err), code)
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("good")
	eq("function", src, dump(f), ref.text())
}

// refParams reads a parameter list and what follows it; alphabet and limits
// are those of C16_params. The result is the signature, an error code or "-"
// for another error, and false where the property says nothing.
func refParams(s string) (*sigRef, string, bool) {
	r := &sigRef{name: "id<F>"}
	p := skipW(s, 0)
	if p < len(s) && s[p] == ')' {
		p++
	} else {
	params:
		for {
			p = skipW(s, p)
			if strings.HasPrefix(s[p:], "...") {
				r.params = append(r.params, "...")
				p = skipW(s, p+3)
				if p == len(s) || s[p] != ')' {
					return nil, "-", true
				}
				p++
				break
			}
			q := p
			for q < len(s) && (isAlphaB(s[q]) || s[q] == '_' || q > p && isDigitB(s[q])) {
				q++
			}
			if p == q {
				return nil, "-", true
			}
			name := s[p:q]
			if q < len(s) && s[q] == ':' {
				return nil, "E125", true
			}
			for _, x := range r.params {
				if x == name {
					return nil, "E853", true
				}
			}
			r.params = append(r.params, name)
			p = skipW(s, q)
			if p < len(s) && s[p] == '=' {
				p = skipW(s, p+1)
				q = p
				for q < len(s) && (isAlphaB(s[q]) || s[q] == '_' || isDigitB(s[q])) {
					q++
				}
				v := s[p:q]
				if v == "" || isDigitB(v[0]) && len(v) > 1 && !isDigitB(v[1]) {
					return nil, "-", true
				}
				if q < len(s) && (s[q] == ':' || s[q] == '.' || s[q] == '=') || v[0] == '0' {
					return nil, "", false
				}
				for i := 1; i < len(v); i++ {
					if isDigitB(v[0]) && !isDigitB(v[i]) {
						return nil, "-", true
					}
				}
				if isDigitB(v[0]) {
					r.defaults = append(r.defaults, "num<"+v+">")
				} else {
					r.defaults = append(r.defaults, "id<"+v+">")
				}
				p = q
				if w := skipW(s, p); w < len(s) && s[w] == '.' {
					return nil, "", false
				}
			} else if len(r.defaults) > 0 {
				return nil, "E989", true
			} else {
				p = q
			}
			w := skipW(s, p)
			if w == len(s) {
				return nil, "-", true
			}
			switch s[w] {
			case ',':
				if w > p {
					return nil, "E475", true
				}
				p = skipW(s, w+1)
				if p < len(s) && s[p] == ')' {
					p++
					break params
				}
			case ')':
				p = w + 1
				break params
			default:
				return nil, "-", true
			}
		}
	}
	if skipW(s, p) < len(s) {
		return nil, "-", true
	}
	return r, "", true
}

func checkParams(n int) {
	s := sym.BytesIn("parameters", n, "ab1_,=. ):") + sym.Pick("close", ")", "")
	sym.Assume(!strings.Contains(s, "==") && !strings.Contains(s, "=."))
	src := "function F(" + s + "\nendfunction"
	r, code, ok := refParams(s)
	sym.Assume(ok)
	f, err := parse(src)
	if code != "" {
		sym.Reach("error")
		if err == nil {
			sym.Fail("accepted: " + strconv.Quote(src))
		}
		if code != "-" {
			sym.Reach(code)
			eq("error", src, errCode(err), code)
		}
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("good")
	eq("function", src, dump(f), r.text())
}

// Five characters out of those of parameter lists.
//
//vp:quick=90 thorough=100 reach=good,error,E853,E125,E475
func C16_params() { checkParams(5) }

// Six characters out of those of parameter lists.
//
//vp:tier=thorough thorough=700 reach=good,error,E853,E125,E475,E989
func C16_params6() { checkParams(6) }

// Many parameters: there is no limit for a definition.
//
//vp:quick=90 thorough=100 reach=good
func C16_many() {
	n := []int{0, 1, 2, 19, 20, 21, 22, 40, 63, 64, 65, 127, 128, 257}[forkOn("parameters", 14)]
	ref := sigRef{name: "id<F>"}
	src := "function F("
	for i := 0; i < n; i++ {
		p := "a" + strconv.Itoa(i)
		ref.params = append(ref.params, p)
		src += p + ","
	}
	if n > 0 && forkOn("again", 2) == 1 {
		src += ref.params[[]int{0, n / 2, n - 1}[forkOn("which", 3)]]
		_, err := parse(src + ")\nendfunction")
		eq("error", src, errCode(err), "E853")
		return
	}
	src += "...)\nendfunction"
	ref.params = append(ref.params, "...")
	sym.Reach("good")
	eq("function", src, dump(mustParse(src)), ref.text())
}

// Names: every kind of a name, with a symbolic first or last character.
//
//vp:quick=90 thorough=100 reach=good,E128,bad
func C16_name() {
	c := sym.BytesIn("character", 1, "aAzZ0_:#.-(\xc3$&@")
	name := sym.Pick("before", "", "F", "s:", "g:", "a#", "d.", "<SID>", "d['k'].") + c + sym.Pick("after", "", "F", "#x", ":x", "[1]", ".x", "{'x'}")
	src := "function! " + name + sym.Pick("blank", "", " ") + "(a)\nendfunction"
	x, e2 := parseExpr(name)
	f, err := parse(src)
	q := strconv.Quote(src)
	if i := strings.IndexAny(name, "$&@"); i > 0 || strings.Contains(name, "..") || strings.Contains(name, ".") && strings.HasSuffix(name, "}") {
		sym.Truncate() // the name ends there: a listing
	}
	if e2 != nil || sym.Or(c == "(", c == "-") {
		if err == nil && c != "(" {
			if sym.Or(c == "-", len(name) > 1 && name[0] != c[0]) {
				sym.Truncate() // :function with a name lists it
			}
			sym.Fail("accepted: " + q)
		}
		sym.Reach("bad")
		return
	}
	d := dump(x)
	switch {
	case strings.HasPrefix(d, "id<"):
		p := name[0]
		if p != '<' && p != '_' && !isUpperB(p) && strings.IndexByte(name, ':') < 0 && strings.IndexByte(name, '#') < 0 {
			sym.Reach("E128")
			eq("error", src, errCode(err), "E128")
			return
		}
	case strings.HasPrefix(d, "(dot"), strings.HasPrefix(d, "(sub"), strings.HasPrefix(d, "(curly"):
		if strings.Contains(d, "num<0") && strings.HasPrefix(d, "(dot") || strings.Contains(d, "(env<") || strings.Contains(d, "(opt<") || strings.Contains(d, "(reg<") || strings.HasPrefix(d, "(sub num") {
			sym.Truncate()
		}
	default:
		sym.Reach("bad")
		if err == nil {
			sym.Fail("accepted: " + q)
		}
		return
	}
	if err != nil {
		sym.Fail("rejected: " + q + ": " + err.Error())
	}
	sym.Reach("good")
	r := sigRef{name: d, params: []string{"a"}}
	eq("function", src, dump(f), r.text())
}

// Attributes in every order.
//
//vp:quick=90 thorough=100 reach=good
func C16_attributes() {
	src := "function F()"
	var l []string
	n := forkOn("attributes", 4)
	for i := 0; i < n; i++ {
		a := sym.Pick("attribute", "range", "abort", "dict", "closure")
		l = append(l, a)
		b := " "
		if i == 0 {
			b = sym.Pick("blank", "", " ", "\t")
		}
		src += b + a
	}
	src += sym.Pick("end", "", " ", "\"c", " \"c")
	f := mustParse(src + "\nendfunction")
	r := sigRef{name: "id<F>", attr: attrText(l...)}
	want := r.text()
	if strings.HasSuffix(src, "\"c") {
		want = strings.Replace(want, "{}", "{comment<c>}", 1)
	}
	sym.Reach("good")
	eq("function", src, dump(f), want)
}

// What is no attribute: a word that differs by one letter from one, and other
// characters.
//
//vp:quick=90 thorough=100 reach=rejected
func C16_noattribute() {
	a := sym.Concrete(sym.Pick("attribute", "range", "abort", "dict", "closure"))
	i := forkOn("place", len(a)+1)
	c := sym.BytesIn("character", 1, "abcdegklnorstuxRD1,.()[:=_'")
	k := 0
	if i < len(a) {
		k = forkOn("for one", 2)
	}
	w := a[:i] + c + a[i+k:]
	sym.Assume(w != a)
	src := "function F()" + sym.Pick("before", " ", " abort ", "") + w + "\nendfunction"
	_, err := parse(src)
	if err == nil {
		sym.Fail("accepted: " + strconv.Quote(src))
	}
	sym.Reach("rejected")
}

// The name of a function without parameters, or none: the command lists
// functions.
//
//vp:quick=90 thorough=100 reach=listed
func C16_list() {
	src := "function" + sym.Pick("argument", "", " F", " s:f", " /F.*", " /a(b)/", " d.f", "! F", " <SID>f", " {\"x\"}y") + sym.Pick("end", "", " ", "|echo 1")
	f := mustParse(src)
	if len(f.Body) == 0 || !strings.HasPrefix(dump(f.Body[0]), "excmd<function") {
		sym.Fail("not a listing of functions: " + strconv.Quote(src))
	}
	sym.Reach("listed")
}

// The name after :delfunction.
//
//vp:quick=90 thorough=100 reach=deleted,rejected
func C16_delete() {
	name := sym.Pick("name", "F", "s:f", "a#b", "d.f", "d['f']", "<SID>f", "{'x'}y", "f", "$F", "&F", "@a", "1", "(F)", "d[1:2]", "F()", "'F'", "[F]", "d.f()")
	src := "delfunction" + sym.Pick("bang", "", "!") + " " + name + sym.Pick("end", "", " ", "|let x = 1", " \"c", " x")
	f, err := parse(src)
	d := ""
	if x, e2 := parseExpr(name); e2 == nil {
		d = dump(x)
	}
	good := false
	for _, p := range []string{"id<", "(dot", "(sub ", "(curly"} {
		good = good || strings.HasPrefix(d, p)
	}
	if !good || strings.HasSuffix(src, " x") {
		if err == nil {
			sym.Fail("accepted: " + strconv.Quote(src))
		}
		sym.Reach("rejected")
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	eq("command", src, dump(f.Body[0]), "delfunction "+d)
	if exArgOf(f.Body[0]).Forceit != strings.HasPrefix(src, "delfunction!") {
		sym.Fail("a bang or not: " + strconv.Quote(src))
	}
	sym.Reach("deleted")
}
