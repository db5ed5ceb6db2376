package main

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Near misses: changes that leave something similar behind, and several changes of one element.
// They act on a whole document and are kept only if the document is still well formed.

// nearName draws a name that resembles s.
func (g *gen) nearName(s string) string {
	var r []string
	add := func(x string) {
		if x != s && validName(x) && x != "true" && x != "false" && x != "null" {
			r = append(r, x)
		}
	}
	flip := func(c byte) byte {
		if unicode.IsUpper(rune(c)) {
			return byte(unicode.ToLower(rune(c)))
		}
		return byte(unicode.ToUpper(rune(c)))
	}
	add(string(flip(s[0])) + s[1:])
	add(strings.ToLower(s))
	add(strings.ToUpper(s))
	add(s + "s")
	add(s + "2")
	add(s + "_")
	add("_" + s)
	add("x" + s)
	add(s[:len(s)-1])
	add(s[1:])
	if len(s) > 1 {
		k := len(s) / 2
		add(s[:k] + string(flip(s[k])) + s[k+1:])
		b := []byte(s)
		b[0], b[len(b)-1] = b[len(b)-1], b[0]
		add(string(b))
	}
	add(s + s)
	return rapid.SampledFrom(r).Draw(g.t, "nearName")
}

func validName(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

func (g *gen) nearText(s string) string {
	var r []string
	add := func(x string) {
		if x != s {
			r = append(r, x)
		}
	}
	add(s + ".")
	add("x" + s)
	add(s + "\nx")
	if i := strings.LastIndexByte(s, ' '); i >= 0 {
		add(s[:i] + "x" + s[i:])
	}
	add(strings.ToUpper(s))
	add(strings.ToLower(s))
	add(strings.ReplaceAll(s, " ", "  "))
	add(strings.ReplaceAll(s, " ", ""))
	add(strings.ReplaceAll(s, "\n", " "))
	add(strings.TrimSpace(s + s))
	if len(s) > 1 && s[len(s)-1] < 0x80 {
		add(s[:len(s)-1])
	}
	return rapid.SampledFrom(r).Draw(g.t, "nearText")
}

// nearValue draws another value that resembles v.
func (g *gen) nearValue(v *Value) *Value {
	var r []*Value
	add := func(x *Value) {
		if x.Canon() != v.Canon() {
			r = append(r, x)
		}
	}
	num := func(s string) string {
		if s != "" && strings.Trim(s, "0123456789") == "" && (len(s) == 1 || s[0] != '0') {
			return s
		}
		return "7"
	}
	switch v.K {
	case "list":
		for i := range v.L {
			l := append([]*Value(nil), v.L...)
			l[i] = g.nearValue(v.L[i])
			add(&Value{K: "list", L: l})
			add(&Value{K: "list", L: append(append([]*Value(nil), v.L[:i]...), v.L[i+1:]...)})
		}
		if len(v.L) > 1 {
			l := append([]*Value(nil), v.L...)
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
			add(&Value{K: "list", L: l})
		}
		if len(v.L) == 1 {
			add(v.L[0])
		}
		add(&Value{K: "list", L: append(append([]*Value(nil), v.L...), &Value{K: "null", S: "null"})})
		add(&Value{K: "object"})
	case "object":
		for i := range v.O {
			o := append([]ObjField(nil), v.O...)
			o[i].V = g.nearValue(o[i].V)
			add(&Value{K: "object", O: o})
			o = append([]ObjField(nil), v.O...)
			o[i].Name = g.nearName(o[i].Name)
			add(&Value{K: "object", O: o})
			add(&Value{K: "object", O: append(append([]ObjField(nil), v.O[:i]...), v.O[i+1:]...)})
		}
		add(&Value{K: "object", O: append(append([]ObjField(nil), v.O...), ObjField{"zz", &Value{K: "int", S: "1"}})})
		add(&Value{K: "list"})
	case "string":
		add(&Value{K: "string", S: g.nearText(v.S)})
		if validName(v.S) && v.S != "true" && v.S != "false" && v.S != "null" {
			add(&Value{K: "enum", S: v.S})
		}
		if v.S == "null" || v.S == "true" {
			add(&Value{K: map[string]string{"null": "null", "true": "bool"}[v.S], S: v.S})
		}
		add(&Value{K: "int", S: num(v.S)})
	case "int":
		add(&Value{K: "string", S: v.S})
		add(&Value{K: "float", S: v.S + ".0"})
		add(&Value{K: "int", S: num(v.S + "0")})
		if v.S[0] == '-' {
			add(&Value{K: "int", S: v.S[1:]})
		} else {
			add(&Value{K: "int", S: "-" + v.S})
		}
	case "enum":
		add(&Value{K: "string", S: v.S})
		add(&Value{K: "enum", S: g.nearName(v.S)})
	case "bool":
		add(&Value{K: "string", S: v.S})
		add(&Value{K: "bool", S: map[string]string{"true": "false", "false": "true"}[v.S]})
	case "null":
		add(&Value{K: "string", S: "null"})
		add(&Value{K: "list"})
	default:
		add(&Value{K: "string", S: v.S})
		add(&Value{K: "int", S: "1"})
	}
	add(&Value{K: "list", L: []*Value{v}})
	return rapid.SampledFrom(r).Draw(g.t, "nearValue")
}

// walk visits everything a document has of one sort.
type walker struct {
	name func(get func() string, set func(string)) // declared names of members, arguments, values, definitions
	ref  func(get func() string, set func(string)) // references: base types, interfaces, members, root types
	val  func(v **Value)
	text func(p *string)
	uses func(ds *[]DirUse)
	args func(as *[]*Arg)
}

func walkDoc(d *Doc, w walker) {
	str := func(f func(func() string, func(string)), p *string) {
		if f != nil {
			f(func() string { return *p }, func(s string) { *p = s })
		}
	}
	text := func(p *string) {
		if w.text != nil && *p != "" {
			w.text(p)
		}
	}
	val := func(p **Value) {
		if w.val != nil && *p != nil {
			w.val(p)
		}
	}
	uses := func(ds *[]DirUse) {
		if w.uses != nil && len(*ds) > 0 {
			w.uses(ds)
		}
		for i := range *ds {
			for k := range (*ds)[i].Args {
				val(&(*ds)[i].Args[k].V)
				if (*ds)[i].Name != "deprecated" {
					str(w.name, &(*ds)[i].Args[k].Name)
				}
			}
			if (*ds)[i].Name != "deprecated" {
				str(w.name, &(*ds)[i].Name)
			}
		}
	}
	base := func(t *TypeRef) {
		for t.Elem != nil {
			t = t.Elem
		}
		str(w.ref, &t.Name)
	}
	args := func(as *[]*Arg) {
		if w.args != nil && len(*as) > 0 {
			w.args(as)
		}
		for _, a := range *as {
			str(w.name, &a.Name)
			base(a.Type)
			text(&a.Desc)
			val(&a.Default)
			uses(&a.Dirs)
		}
	}
	for _, t := range d.Types {
		str(w.name, &t.Name)
		text(&t.Desc)
		for i := range t.Ifaces {
			str(w.ref, &t.Ifaces[i])
		}
		for i := range t.Members {
			str(w.ref, &t.Members[i])
		}
		uses(&t.Dirs)
		for _, f := range t.Fields {
			str(w.name, &f.Name)
			base(f.Type)
			text(&f.Desc)
			val(&f.Default)
			uses(&f.Dirs)
			args(&f.Args)
		}
		for _, v := range t.Vals {
			str(w.name, &v.Name)
			text(&v.Desc)
			uses(&v.Dirs)
		}
	}
	for _, x := range d.Dirs {
		str(w.name, &x.Name)
		text(&x.Desc)
		args(&x.Args)
	}
	for _, s := range d.Schemas {
		text(&s.Desc)
		uses(&s.Dirs)
		for i := range s.Ops {
			str(w.ref, &s.Ops[i].Type)
		}
	}
}

// wellFormed says whether the names of a document are as unique as GraphQL requires, the blocks of
// one type have one kind and no extension is empty.
func wellFormed(d *Doc) bool {
	kinds := map[string]string{}
	defs := map[string]bool{}
	members := map[string]bool{}
	ok := true
	once := func(k string) {
		ok = ok && !members[k]
		members[k] = true
	}
	args := func(k string, as []*Arg) {
		for _, a := range as {
			once(k + "\x00arg " + a.Name)
		}
	}
	uses := func(ds []DirUse) {
		dep := 0
		for _, u := range ds {
			if u.Name == "deprecated" {
				dep++
			}
			seen := map[string]bool{}
			for _, a := range u.Args {
				ok = ok && !seen[a.Name]
				seen[a.Name] = true
			}
		}
		ok = ok && dep < 2
	}
	for _, t := range d.Types {
		if !t.Ext {
			ok = ok && !defs[t.Name]
			defs[t.Name] = true
		} else {
			ok = ok && !t.empty()
		}
		if k, found := kinds[t.Name]; found && k != t.Kind {
			ok = false
		}
		kinds[t.Name] = t.Kind
		k := t.key()
		for _, x := range t.Ifaces {
			once(k + "\x00i " + x)
		}
		for _, x := range t.Members {
			once(k + "\x00m " + x)
		}
		uses(t.Dirs)
		for _, f := range t.Fields {
			once(k + "\x00f " + f.Name)
			args(k+"\x00f "+f.Name, f.Args)
			uses(f.Dirs)
			for _, a := range f.Args {
				uses(a.Dirs)
			}
		}
		for _, v := range t.Vals {
			once(k + "\x00v " + v.Name)
			ok = ok && v.Name != "true" && v.Name != "false" && v.Name != "null"
			uses(v.Dirs)
		}
	}
	for _, x := range d.Dirs {
		once("@" + x.Name)
		ok = ok && x.Name != "deprecated"
		args("@"+x.Name, x.Args)
	}
	ops := map[string]bool{}
	blk := 0
	for _, s := range d.Schemas {
		if !s.Ext {
			blk++
		}
		for _, o := range s.Ops {
			ok = ok && !ops[o.Op]
			ops[o.Op] = true
		}
	}
	return ok && blk < 2
}

// wild applies one near miss to a copy of the document.
func (g *gen) wild(d *Doc) *Doc {
	n := d.Clone()
	switch g.n(0, 9, "wild") {
	case 0, 1:
		g.several(n)
	case 2:
		var l []func(string)
		var cur []string
		walkDoc(n, walker{name: func(get func() string, set func(string)) { cur = append(cur, get()); l = append(l, set) }})
		if len(l) > 0 {
			i := g.n(0, len(l)-1, "nameIdx")
			l[i](g.nearName(cur[i]))
		}
	case 3, 4:
		var l []func(string)
		var cur []string
		walkDoc(n, walker{ref: func(get func() string, set func(string)) { cur = append(cur, get()); l = append(l, set) }})
		if len(l) > 0 {
			i := g.n(0, len(l)-1, "refIdx")
			if g.n(0, 2, "refLast") == 2 { // the root types come last
				i = len(l) - 1
			}
			l[i](g.nearName(cur[i]))
		}
	case 5, 6:
		var l []**Value
		walkDoc(n, walker{val: func(v **Value) { l = append(l, v) }})
		if len(l) > 0 {
			v := rapid.SampledFrom(l).Draw(g.t, "valSlot")
			x := g.nearValue(*v)
			*v = x
		}
	case 7:
		var l []*string
		walkDoc(n, walker{text: func(p *string) { l = append(l, p) }})
		if len(l) > 0 {
			p := rapid.SampledFrom(l).Draw(g.t, "textSlot")
			*p = g.nearText(*p)
		}
	case 8:
		g.swap(n)
	default:
		g.dropMany(n)
	}
	dropEmptyExts(n)
	if !wellFormed(n) {
		return d
	}
	return n
}

// several edits one field, argument or enum value in more than one way.
func (g *gen) several(d *Doc) {
	arg := func(a *Arg) {
		if g.n(0, 1, "sType") == 1 {
			a.Type = g.otherType(a.Type)
		}
		if g.n(0, 1, "sDefault") == 1 {
			a.Default = g.otherDefault(a.Default)
		}
		if g.n(0, 1, "sDesc") == 1 {
			a.Desc = g.otherDesc(a.Desc)
		}
	}
	if len(d.Dirs) > 0 && (len(d.Types) == 0 || g.n(0, 3, "sDir") == 3) {
		x := rapid.SampledFrom(d.Dirs).Draw(g.t, "sDirDef")
		if g.n(0, 1, "sDesc") == 1 {
			x.Desc = g.otherDesc(x.Desc)
		}
		if g.n(0, 1, "sRep") == 1 {
			x.Repeatable = !x.Repeatable
		}
		if g.n(0, 1, "sLocs") == 1 {
			x.Locs = pickLocs(g)
		}
		for _, a := range x.Args {
			arg(a)
		}
		return
	}
	var ts []*Type
	for _, t := range d.Types {
		if len(t.Fields)+len(t.Vals)+len(t.Members) > 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return
	}
	t := rapid.SampledFrom(ts).Draw(g.t, "sType")
	switch {
	case len(t.Fields) > 0:
		f := rapid.SampledFrom(t.Fields).Draw(g.t, "sField")
		if g.n(0, 1, "sType") == 1 {
			f.Type = g.otherType(f.Type)
		}
		if g.n(0, 1, "sDesc") == 1 {
			f.Desc = g.otherDesc(f.Desc)
		}
		if g.n(0, 1, "sDep") == 1 {
			f.Dirs = g.otherDeprecation(f.Dirs)
		}
		if g.n(0, 1, "sUses") == 1 {
			f.Dirs = g.otherUses(f.Dirs)
		}
		if t.Kind == kInput {
			if g.n(0, 1, "sDefault") == 1 {
				f.Default = g.otherDefault(f.Default)
			}
			return
		}
		for _, a := range f.Args {
			if g.n(0, 1, "sArg") == 1 {
				arg(a)
			}
		}
		if g.n(0, 2, "sArgAdd") == 2 {
			taken := map[string]bool{}
			for _, a := range f.Args {
				taken[a.Name] = true
			}
			f.Args = append(f.Args, g.args(0)...)
			f.Args = append(f.Args, g.arg(g.distinct(namePool, 1, "newArg", taken)[0]))
		}
	case len(t.Vals) > 0:
		v := rapid.SampledFrom(t.Vals).Draw(g.t, "sVal")
		if g.n(0, 1, "sDesc") == 1 {
			v.Desc = g.otherDesc(v.Desc)
		}
		if g.n(0, 1, "sDep") == 1 {
			v.Dirs = g.otherDeprecation(v.Dirs)
		}
		if g.n(0, 1, "sUses") == 1 {
			v.Dirs = g.otherUses(v.Dirs)
		}
	default:
		// exchange members for as many others
		taken := map[string]bool{}
		for _, m := range t.Members {
			taken[m] = true
		}
		for i := range t.Members {
			if g.n(0, 1, "sMember") == 1 {
				t.Members[i] = g.distinct(g.cfg.Types, 1, "member", taken)[0]
			}
		}
	}
	if len(t.Ifaces) > 0 && g.n(0, 1, "sIfaces") == 1 {
		taken := map[string]bool{}
		for _, m := range t.Ifaces {
			taken[m] = true
		}
		i := g.n(0, len(t.Ifaces)-1, "sIface")
		t.Ifaces[i] = g.distinct(g.cfg.Types, 1, "iface", taken)[0]
	}
}

// swap exchanges what two siblings hold, but not their names.
func (g *gen) swap(d *Doc) {
	two := func(n int) (int, int) {
		i := g.n(0, n-1, "swapA")
		j := g.n(0, n-2, "swapB")
		if j >= i {
			j++
		}
		return i, j
	}
	var opts []func()
	args := func(as []*Arg) {
		if len(as) > 1 {
			opts = append(opts, func() {
				i, j := two(len(as))
				*as[i], *as[j] = *as[j], *as[i]
				as[i].Name, as[j].Name = as[j].Name, as[i].Name
			})
		}
	}
	for _, t := range d.Types {
		t := t
		if len(t.Fields) > 1 {
			opts = append(opts, func() {
				i, j := two(len(t.Fields))
				*t.Fields[i], *t.Fields[j] = *t.Fields[j], *t.Fields[i]
				t.Fields[i].Name, t.Fields[j].Name = t.Fields[j].Name, t.Fields[i].Name
			})
		}
		if len(t.Vals) > 1 {
			opts = append(opts, func() {
				i, j := two(len(t.Vals))
				*t.Vals[i], *t.Vals[j] = *t.Vals[j], *t.Vals[i]
				t.Vals[i].Name, t.Vals[j].Name = t.Vals[j].Name, t.Vals[i].Name
			})
		}
		for _, f := range t.Fields {
			args(f.Args)
		}
	}
	for _, x := range d.Dirs {
		args(x.Args)
	}
	for _, s := range d.Schemas {
		s := s
		if len(s.Ops) > 1 {
			opts = append(opts, func() {
				i, j := two(len(s.Ops))
				s.Ops[i].Type, s.Ops[j].Type = s.Ops[j].Type, s.Ops[i].Type
			})
		}
	}
	if len(opts) > 0 {
		opts[g.n(0, len(opts)-1, "swapWhat")]()
	}
}

// dropMany drops a random part, perhaps all, of one list.
func (g *gen) dropMany(d *Doc) {
	var opts []func()
	all := g.n(0, 1, "dropAll") == 1
	drop := func() bool { return all || g.n(0, 1, "drop") == 1 }
	args := func(p *[]*Arg) {
		if len(*p) > 0 {
			opts = append(opts, func() { *p = some(*p, drop) })
		}
	}
	for _, t := range d.Types {
		t := t
		if len(t.Fields) > 0 {
			opts = append(opts, func() { t.Fields = some(t.Fields, drop) })
		}
		if len(t.Vals) > 0 {
			opts = append(opts, func() { t.Vals = some(t.Vals, drop) })
		}
		if len(t.Members) > 0 {
			opts = append(opts, func() { t.Members = some(t.Members, drop) })
		}
		if len(t.Ifaces) > 0 {
			opts = append(opts, func() { t.Ifaces = some(t.Ifaces, drop) })
		}
		if len(t.Dirs) > 0 {
			opts = append(opts, func() { t.Dirs = some(t.Dirs, drop) })
		}
		for _, f := range t.Fields {
			f := f
			args(&f.Args)
			if len(f.Dirs) > 0 {
				opts = append(opts, func() { f.Dirs = some(f.Dirs, drop) })
			}
		}
	}
	for _, x := range d.Dirs {
		x := x
		args(&x.Args)
		if len(x.Locs) > 1 {
			opts = append(opts, func() {
				l := some(x.Locs, drop)
				if len(l) == 0 {
					l = x.Locs[:1]
				}
				x.Locs = l
			})
		}
	}
	if len(opts) > 0 {
		opts[g.n(0, len(opts)-1, "dropWhat")]()
	}
}

func some[T any](l []T, drop func() bool) []T {
	var r []T
	for _, x := range l {
		if !drop() {
			r = append(r, x)
		}
	}
	return r
}
