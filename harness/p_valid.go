package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/vektah/gqlparser/v2"
	"github.com/vektah/gqlparser/v2/ast"
	"pgregory.net/rapid"
)

// C09: when no breaking change is reported, every operation valid on the old schema is valid on
// the new one. The oracle is a GraphQL operation validator run on both schemas.

var (
	vTypes  = []string{"Query", "User", "Node", "Pet", "Role", "Filter", "Mutation", "Dog", "Named", "Date", "Item", "Kind", "Users"}
	vOutFor = "String"
	vInFor  = "Int"
	builtin = map[string]bool{"Int": true, "String": true, "ID": true, "Boolean": true, "Float": true}
)

func vCfg() GenCfg {
	return GenCfg{MaxTypes: 8, Kinds: []string{kObject, kObject, kObject, kInterface, kInterface, kInput, kInput, kEnum, kUnion, kScalar},
		DirDefs: true, Deprec: true, Descs: 8, Types: vTypes}
}

func isIn(k string) bool  { return k == kInput || k == kEnum || k == kScalar }
func isOut(k string) bool { return k != kInput }

// repair turns a document of plain definitions into a valid schema with as few changes as it can.
// It makes no random choices, so equal parts of two documents are repaired alike.
func repair(d *Doc) {
	d.Schemas = nil
	by := map[string]*Type{}
	var ts []*Type
	for _, t := range d.Types {
		if t.Ext || by[t.Name] != nil {
			continue
		}
		if (t.Name == "Query" || t.Name == "Mutation") && t.Kind != kObject {
			*t = Type{Kind: kObject, Name: t.Name, Desc: t.Desc}
		}
		by[t.Name] = t
		ts = append(ts, t)
	}
	if by["Query"] == nil {
		q := &Type{Kind: kObject, Name: "Query"}
		by["Query"] = q
		ts = append(ts, q)
	}
	d.Types = ts
	kind := func(n string) string {
		if builtin[n] {
			return kScalar
		}
		if by[n] == nil {
			return ""
		}
		return by[n].Kind
	}
	fix := func(t *TypeRef, ok func(string) bool, alt string) {
		for t.Elem != nil {
			t = t.Elem
		}
		if k := kind(t.Name); k == "" || !ok(k) {
			t.Name = alt
		}
	}
	fixArgs := func(as []*Arg) {
		for _, a := range as {
			fix(a.Type, isIn, vInFor)
			a.Dirs = nil
		}
	}
	for _, x := range d.Dirs {
		fixArgs(x.Args)
	}
	for _, t := range ts {
		t.Dirs = nil
		switch t.Kind {
		case kObject, kInterface:
			if len(t.Fields) == 0 {
				t.Fields = []*Field{{Name: "id", Type: &TypeRef{Name: "ID"}}}
			}
			for _, f := range t.Fields {
				fix(f.Type, isOut, vOutFor)
				fixArgs(f.Args)
				f.Dirs = onlyDeprecated(f.Dirs)
			}
			if t.Kind == kInterface {
				t.Ifaces = nil
			}
		case kInput:
			if len(t.Fields) == 0 {
				t.Fields = []*Field{{Name: "x", Type: &TypeRef{Name: "Int"}}}
			}
			for _, f := range t.Fields {
				fix(f.Type, isIn, vInFor)
				f.Dirs = nil
			}
		case kEnum:
			if len(t.Vals) == 0 {
				t.Vals = []*EnumVal{{Name: "A"}}
			}
			for _, v := range t.Vals {
				v.Dirs = onlyDeprecated(v.Dirs)
			}
		}
	}
	// no input type needs itself
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] || by[from] == nil || by[from].Kind != kInput {
			return false
		}
		seen[from] = true
		for _, f := range by[from].Fields {
			if f.Type.Elem == nil && f.Type.NonNull && reach(f.Type.Name, to, seen) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if t.Kind != kInput {
			continue
		}
		for _, f := range t.Fields {
			if f.Type.Elem == nil && f.Type.NonNull && kind(f.Type.Name) == kInput && reach(f.Type.Name, t.Name, map[string]bool{}) {
				f.Type.NonNull = false
			}
		}
	}
	for _, t := range ts {
		if t.Kind != kUnion {
			continue
		}
		var keep []string
		for _, m := range t.Members {
			if kind(m) == kObject && !hasStr(keep, m) {
				keep = append(keep, m)
			}
		}
		if len(keep) == 0 {
			keep = []string{"Query"}
		}
		t.Members = keep
	}
	v := view{by}
	for _, t := range ts {
		if t.Kind != kObject {
			continue
		}
		var keep []string
		for _, i := range t.Ifaces {
			if kind(i) == kInterface && !hasStr(keep, i) {
				keep = append(keep, i)
			}
		}
		var ok []string
		for _, i := range keep {
			good := true
			for _, j := range ok {
				for _, f := range by[i].Fields {
					if g := by[j].field(f.Name); g != nil && !sameShape(f, g) {
						good = false
					}
				}
			}
			if good {
				ok = append(ok, i)
			}
		}
		t.Ifaces = ok
		for _, i := range ok {
			for _, f := range by[i].Fields {
				g := t.field(f.Name)
				if g == nil {
					c := f.Clone()
					c.Dirs, c.Desc = nil, ""
					t.Fields = append(t.Fields, c)
					continue
				}
				if !v.covariant(f.Type, g.Type) {
					g.Type = f.Type.Clone()
				}
				for _, a := range f.Args {
					b := findArg(g.Args, a.Name)
					if b == nil {
						c := a.Clone()
						c.Desc = ""
						g.Args = append(g.Args, c)
					} else if b.Type.String() != a.Type.String() {
						b.Type = a.Type.Clone()
					}
				}
				for _, b := range g.Args {
					if b.Type.NonNull && findArg(f.Args, b.Name) == nil {
						b.Type.NonNull = false
					}
				}
			}
		}
	}
	def := func(t *TypeRef, val *Value) *Value {
		if val == nil || v.conforms(t, val) {
			return val
		}
		return v.plainValue(t, 3)
	}
	for _, t := range ts {
		for _, f := range t.Fields {
			f.Default = def(f.Type, f.Default)
			for _, a := range f.Args {
				a.Default = def(a.Type, a.Default)
			}
		}
	}
	for _, x := range d.Dirs {
		for _, a := range x.Args {
			a.Default = def(a.Type, a.Default)
		}
	}
}

// sameShape: one field can implement both.
func sameShape(a, b *Field) bool {
	if a.Type.String() != b.Type.String() {
		return false
	}
	for _, x := range a.Args {
		y := findArg(b.Args, x.Name)
		if y == nil && x.Type.NonNull || y != nil && x.Type.String() != y.Type.String() {
			return false
		}
	}
	for _, y := range b.Args {
		if findArg(a.Args, y.Name) == nil && y.Type.NonNull {
			return false
		}
	}
	return true
}

func onlyDeprecated(ds []DirUse) []DirUse {
	var r []DirUse
	for _, d := range ds {
		if d.Name == "deprecated" && len(r) == 0 {
			r = append(r, d)
		}
	}
	return r
}

// view answers questions about the types of a schema.
type view struct{ by map[string]*Type }

func (v view) kind(n string) string {
	if builtin[n] {
		return kScalar
	}
	if t := v.by[n]; t != nil {
		return t.Kind
	}
	return ""
}

// possible lists the object types a composite type stands for.
func (v view) possible(n string) map[string]bool {
	r := map[string]bool{}
	t := v.by[n]
	if t == nil {
		return r
	}
	switch t.Kind {
	case kObject:
		r[n] = true
	case kUnion:
		for _, m := range t.Members {
			r[m] = true
		}
	case kInterface:
		for _, x := range v.by {
			if x.Kind == kObject && hasStr(x.Ifaces, n) {
				r[x.Name] = true
			}
		}
	}
	return r
}

func (v view) covariant(want, got *TypeRef) bool {
	if want.NonNull && !got.NonNull {
		return false
	}
	if (want.Elem == nil) != (got.Elem == nil) {
		return false
	}
	if want.Elem != nil {
		return v.covariant(want.Elem, got.Elem)
	}
	if want.Name == got.Name {
		return true
	}
	if k := v.kind(want.Name); k != kInterface && k != kUnion {
		return false
	}
	return v.kind(got.Name) == kObject && v.possible(want.Name)[got.Name]
}

func (v view) conforms(t *TypeRef, x *Value) bool {
	if x.K == "null" {
		return !t.NonNull
	}
	if t.Elem != nil {
		if x.K != "list" {
			return false
		}
		for _, e := range x.L {
			if !v.conforms(t.Elem, e) {
				return false
			}
		}
		return true
	}
	switch t.Name {
	case "Int":
		return x.K == "int"
	case "Float":
		return x.K == "int" || x.K == "float"
	case "String":
		return x.K == "string"
	case "ID":
		return x.K == "string" || x.K == "int"
	case "Boolean":
		return x.K == "bool"
	}
	d := v.by[t.Name]
	switch d.Kind {
	case kEnum:
		return x.K == "enum" && d.val(x.S) != nil
	case kInput:
		if x.K != "object" {
			return false
		}
		for _, f := range x.O {
			g := d.field(f.Name)
			if g == nil || !v.conforms(g.Type, f.V) {
				return false
			}
		}
		for _, g := range d.Fields {
			if required(g.Type, g.Default) {
				found := false
				for _, f := range x.O {
					found = found || f.Name == g.Name
				}
				if !found {
					return false
				}
			}
		}
		return true
	}
	return x.K == "int" || x.K == "string" || x.K == "bool" || x.K == "float"
}

// plainValue is one fixed value of the type, or nil when it would nest too deeply.
func (v view) plainValue(t *TypeRef, depth int) *Value {
	if t.Elem != nil {
		return &Value{K: "list"}
	}
	switch t.Name {
	case "Int", "Float":
		return &Value{K: "int", S: "7"}
	case "String", "ID":
		return &Value{K: "string", S: "q"}
	case "Boolean":
		return &Value{K: "bool", S: "true"}
	}
	d := v.by[t.Name]
	switch d.Kind {
	case kEnum:
		return &Value{K: "enum", S: d.Vals[0].Name}
	case kInput:
		o := &Value{K: "object"}
		for _, f := range d.Fields {
			if f.Type.NonNull {
				if depth == 0 {
					return nil
				}
				x := v.plainValue(f.Type, depth-1)
				if x == nil {
					return nil
				}
				o.O = append(o.O, ObjField{f.Name, x})
			}
		}
		return o
	}
	return &Value{K: "string", S: "q"}
}

// ---------------------------------------------------------------- operations

type opGen struct {
	*gen
	v      view
	dirs   []*DirDef
	vars   []string
	nAlias int
	frags  []string
	nFrag  int
	size   int
	focus  string // a type to look at through fragments wherever one can
}

// val draws a value of the type, as GraphQL text.
func (o *opGen) val(t *TypeRef, depth int, vars bool) string {
	if vars && o.n(0, 4, "useVar") == 4 {
		o.nAlias++
		n := fmt.Sprintf("v%d", o.nAlias)
		vt := t.Clone()
		if !vt.NonNull && o.n(0, 2, "stricter") == 2 {
			vt.NonNull = true
		}
		s := "$" + n + ": " + vt.String()
		if !vt.NonNull && o.n(0, 3, "varDefault") == 3 {
			s += " = " + o.val(vt, 1, false)
		}
		o.vars = append(o.vars, s+o.use("VARIABLE_DEFINITION", false))
		return "$" + n
	}
	if !t.NonNull && o.n(0, 6, "null") == 6 {
		return "null"
	}
	if t.Elem != nil {
		if o.n(0, 4, "single") == 4 {
			e := t.Elem.Clone()
			e.NonNull = true
			return o.val(e, depth, false)
		}
		var p []string
		for i := o.n(0, 2, "len"); i > 0; i-- {
			p = append(p, o.val(t.Elem, depth, vars))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	switch t.Name {
	case "Int":
		return o.pick([]string{"0", "3", "-4"}, "int")
	case "Float":
		return o.pick([]string{"1", "2.5"}, "float")
	case "String":
		return o.pick([]string{`"s"`, `""`}, "string")
	case "ID":
		return o.pick([]string{`"i"`, "12"}, "id")
	case "Boolean":
		return o.pick([]string{"true", "false"}, "bool")
	}
	d := o.v.by[t.Name]
	switch d.Kind {
	case kEnum:
		return d.Vals[o.n(0, len(d.Vals)-1, "enumVal")].Name
	case kInput:
		var p []string
		for _, f := range d.Fields {
			need := required(f.Type, f.Default)
			if need || depth > 0 && o.n(0, 2, "optField") > 0 {
				if depth < -4 {
					return "{}"
				}
				p = append(p, f.Name+": "+o.val(f.Type, depth-1, vars))
			}
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return `"custom"`
}

func (o *opGen) argText(as []*Arg, vars bool) string {
	var p []string
	for _, a := range as {
		if required(a.Type, a.Default) || o.n(0, 4, "optArg") > 1 {
			p = append(p, a.Name+": "+o.val(a.Type, 2, vars))
		}
	}
	if len(p) == 0 {
		return ""
	}
	return "(" + strings.Join(p, ", ") + ")"
}

// use draws applied directives for an executable location.
func (o *opGen) use(loc string, vars bool) string {
	s := ""
	for _, d := range o.dirs {
		if !hasStr(d.Locs, loc) || o.n(0, 2, "useDir") > 0 {
			continue
		}
		// the validator knows no repeatable directives, so each is used once
		s += " @" + d.Name + o.argText(d.Args, vars)
	}
	return s
}

func (o *opGen) alias() string {
	o.nAlias++
	return fmt.Sprintf("r%d", o.nAlias)
}

// sel draws a selection set on a composite type.
func (o *opGen) sel(tn string, depth int) string {
	var p []string
	t := o.v.by[tn]
	if t.Kind == kUnion || o.n(0, 5, "typename") == 5 {
		p = append(p, o.alias()+": __typename")
	}
	for _, f := range t.Fields {
		o.size++
		if o.size > 60 || o.n(0, 3, "skip") == 3 {
			continue
		}
		base := f.Type.Base()
		k := o.v.kind(base)
		comp := k == kObject || k == kInterface || k == kUnion
		if comp && depth == 0 {
			continue
		}
		s := o.alias() + ": " + f.Name + o.argText(f.Args, true) + o.use("FIELD", true)
		if comp {
			s += " " + o.sel(base, depth-1)
		}
		p = append(p, s)
	}
	mine := o.v.possible(tn)
	if depth > 0 && (mine[o.focus] && tn != o.focus || o.n(0, 2, "frag") > 0) {
		for _, n := range sortedKeys(o.v.by) {
			if k := o.v.by[n].Kind; k != kObject && k != kInterface && k != kUnion {
				continue
			}
			meet := false
			for m := range o.v.possible(n) {
				meet = meet || mine[m]
			}
			if n == o.focus && n != tn && meet && o.size <= 60 {
				// not left out
			} else if !meet || n == tn && o.n(0, 3, "selfFrag") > 0 || o.size > 60 || o.n(0, 2, "noFrag") == 2 {
				continue
			}
			if o.n(0, 2, "named") == 2 {
				o.nFrag++
				fn := fmt.Sprintf("F%d", o.nFrag)
				o.frags = append(o.frags, "fragment "+fn+" on "+n+o.use("FRAGMENT_DEFINITION", false)+" "+o.sel(n, depth-1))
				p = append(p, "..."+fn+o.use("FRAGMENT_SPREAD", true))
			} else {
				p = append(p, "... on "+n+o.use("INLINE_FRAGMENT", true)+" "+o.sel(n, depth-1))
			}
		}
	}
	if len(p) == 0 {
		p = append(p, o.alias()+": __typename")
	}
	return "{ " + strings.Join(p, " ") + " }"
}

func (o *opGen) operation() string {
	o.vars, o.frags, o.nFrag, o.nAlias, o.size = nil, nil, 0, 0, 0
	kind, root := "query", "Query"
	if o.v.by["Mutation"] != nil && o.n(0, 2, "mutation") == 2 {
		kind, root = "mutation", "Mutation"
	}
	dirs := o.use(strings.ToUpper(kind), false)
	body := o.sel(root, 4)
	s := kind + " Op"
	if len(o.vars) > 0 {
		s += "(" + strings.Join(o.vars, ", ") + ")"
	}
	s += dirs + " " + body
	for _, f := range o.frags {
		s += "\n" + f
	}
	return s
}

// ---------------------------------------------------------------- the case

type validCase struct {
	Old, New []SrcFile
	Ops      []string
	Broken   int // operations that are not valid on the new schema
	Brk      int // breaking changes by the reference comparison
	Dang     int
	Non      int
	Sole     string // the kind of the only breaking change
}

func loadValid(fs []SrcFile) (*ast.Schema, error) {
	var src []*ast.Source
	for _, f := range fs {
		src = append(src, &ast.Source{Name: f.Name, Input: f.Text})
	}
	return gqlparser.LoadSchema(src...)
}

func validOn(s *ast.Schema, op string) string {
	if _, errs := gqlparser.LoadQuery(s, op); len(errs) > 0 {
		return errs.Error()
	}
	return ""
}

func (c *validCase) Check(e *Env) string {
	got := compareFiles(c.Old, c.New)
	for _, g := range got {
		if g.Sev == sevBrk {
			return ""
		}
	}
	n, err := loadValid(c.New)
	if err != nil {
		hfail("new schema is not valid: %v", err)
	}
	for _, op := range c.Ops {
		if m := validOn(n, op); m != "" {
			return fmt.Sprintf("no breaking change is reported (reported: %v), but the operation\n%s\nis valid on the old schema and not on the new one: %s\n%s%s", got, op, m, showFiles("old", c.Old), showFiles("new", c.New))
		}
	}
	return ""
}

func (c *validCase) Info() (bool, []string) {
	var cls []string
	switch {
	case c.Brk+c.Dang+c.Non == 0:
		cls = append(cls, "no-change")
	case c.Broken > 0 && c.Brk == 1:
		cls = append(cls, "single-breaking-change-with-broken-operation", "broken-by:"+c.Sole)
	case c.Broken > 0:
		cls = append(cls, "breaking-with-broken-operation")
	case c.Brk > 0:
		cls = append(cls, "breaking-no-broken-operation")
	case c.Dang > 0:
		cls = append(cls, "dangerous-only")
	default:
		cls = append(cls, "nonbreaking-only")
	}
	return len(c.Ops) > 0 && (c.Broken > 0 || c.Brk == 0 && c.Dang+c.Non > 0), cls
}

// cut splits definitions into a definition and extension blocks; equal members of two documents
// go to equal places.
func cut(d *Doc, salt int) *Doc {
	c := d.Clone()
	h := func(parts ...string) int {
		f := fnv.New32a()
		for _, p := range parts {
			_, _ = f.Write([]byte(p + "\x00"))
		}
		return int((f.Sum32() ^ uint32(salt)*2654435761) >> 7 % 5)
	}
	var ts []*Type
	for _, t := range c.Types {
		if h(t.Name) > 1 {
			ts = append(ts, t)
			continue
		}
		parts := []*Type{t.Clone(), {Ext: true, Kind: t.Kind, Name: t.Name}, {Ext: true, Kind: t.Kind, Name: t.Name}}
		parts[0].Fields, parts[0].Vals, parts[0].Members, parts[0].Ifaces = nil, nil, nil, nil
		at := func(n string) *Type {
			switch h(t.Name, n) {
			case 3:
				return parts[1]
			case 4:
				return parts[2]
			}
			return parts[0]
		}
		for _, f := range t.Fields {
			b := at(f.Name)
			b.Fields = append(b.Fields, f)
		}
		for _, f := range t.Vals {
			b := at(f.Name)
			b.Vals = append(b.Vals, f)
		}
		for _, f := range t.Members {
			b := at(f)
			b.Members = append(b.Members, f)
		}
		for _, f := range t.Ifaces {
			b := at("i " + f)
			b.Ifaces = append(b.Ifaces, f)
		}
		ts = append(ts, parts[0])
		for _, b := range parts[1:] {
			if !b.empty() {
				ts = append(ts, b)
			}
		}
	}
	c.Types = ts
	return c
}

// execLocs makes most directives usable in operations.
func (g *gen) execLocs(d *Doc) {
	ex := allLocs[:8]
	for _, x := range d.Dirs {
		for i := range x.Locs {
			if g.n(0, 3, "exec") > 0 {
				x.Locs[i] = ex[g.n(0, len(ex)-1, "execLoc")]
			}
		}
		var keep []string
		for _, l := range x.Locs {
			if !hasStr(keep, l) {
				keep = append(keep, l)
			}
		}
		x.Locs = keep
	}
}

// vRef makes type references point to the right kinds more often than chance.
func (g *gen) vRef(d *Doc) {
	pick := func(ok func(string) bool, t *TypeRef) {
		for t.Elem != nil {
			t = t.Elem
		}
		var c []string
		for _, x := range d.Types {
			if ok(x.Kind) {
				c = append(c, x.Name)
			}
		}
		if len(c) > 0 && g.n(0, 1, "ref") == 1 {
			t.Name = c[g.n(0, len(c)-1, "refTo")]
		}
	}
	for _, t := range d.Types {
		for _, f := range t.Fields {
			if t.Kind == kInput {
				pick(isIn, f.Type)
			} else {
				pick(isOut, f.Type)
			}
			for _, a := range f.Args {
				pick(isIn, a.Type)
			}
		}
		switch t.Kind {
		case kObject:
			for _, x := range d.Types {
				if x.Kind == kInterface && g.n(0, 2, "impl") == 2 {
					t.Ifaces = append(t.Ifaces, x.Name)
				}
			}
		case kUnion:
			for _, x := range d.Types {
				if x.Kind == kObject && g.n(0, 1, "mem") == 1 {
					t.Members = append(t.Members, x.Name)
				}
			}
		}
	}
}

// sharp makes one change that takes something away from clients, with every kind of such change
// that the document has room for drawn equally often.
// It returns the type to look at when the change is one of what stands for what.
func (g *gen) sharp(d *Doc) (focus string, ok bool) {
	by := map[string][]func(){}
	add := func(k string, f func()) { by[k] = append(by[k], f) }
	drop := func(k string, l *[]string) {
		if len(*l) < 2 {
			return
		}
		for _, x := range *l {
			add(k, func() { *l, focus = without(*l, x), x })
		}
	}
	strict := func(k string, t *TypeRef, to bool) {
		for x := t; x != nil; x = x.Elem {
			if x.NonNull != to {
				add(k, func() { x.NonNull = to })
			}
		}
	}
	args := func(k string, l *[]*Arg) {
		for _, a := range *l {
			add(k+" arg removed", func() {
				var r []*Arg
				for _, b := range *l {
					if b != a {
						r = append(r, b)
					}
				}
				*l = r
			})
			strict(k+" arg stricter", a.Type, true)
			if a.Default != nil && a.Type.NonNull {
				add(k+" arg default removed", func() { a.Default = nil })
			}
			add(k+" arg listed", func() { a.Type = &TypeRef{Elem: a.Type} })
			if a.Type.Elem != nil {
				add(k+" arg unlisted", func() { a.Type = a.Type.Elem })
			}
			if !a.Type.NonNull && findArg(*l, "must") == nil {
				add(k+" arg added", func() { *l = append(*l, &Arg{Name: "must", Type: &TypeRef{Name: "Int", NonNull: true}}) })
			}
		}
	}
	for _, x := range d.Dirs {
		drop("location", &x.Locs)
		args("directive", &x.Args)
	}
	for _, t := range d.Types {
		for _, i := range t.Ifaces {
			add("interface", func() { t.Ifaces, focus = without(t.Ifaces, i), t.Name })
		}
		drop("member", &t.Members)
		if len(t.Vals) > 1 {
			for _, v := range t.Vals {
				add("enum value", func() {
					var r []*EnumVal
					for _, w := range t.Vals {
						if w != v {
							r = append(r, w)
						}
					}
					t.Vals = r
				})
			}
		}
		for _, f := range t.Fields {
			if len(t.Fields) > 1 {
				add("field of "+t.Kind, func() {
					var r []*Field
					for _, h := range t.Fields {
						if h != f {
							r = append(r, h)
						}
					}
					t.Fields = r
				})
			}
			if t.Kind == kInput {
				strict("input field stricter", f.Type, true)
				if f.Default != nil && f.Type.NonNull {
					add("input field default removed", func() { f.Default = nil })
				}
				add("input field listed", func() { f.Type = &TypeRef{Elem: f.Type} })
				if f.Type.Elem != nil {
					add("input field unlisted", func() { f.Type = f.Type.Elem })
				}
				if !f.Type.NonNull && t.field("must") == nil {
					add("input field added", func() {
						t.Fields = append(t.Fields, &Field{Name: "must", Type: &TypeRef{Name: "Int", NonNull: true}})
					})
				}
				continue
			}
			strict("field looser", f.Type, false)
			args(t.Kind, &f.Args)
		}
	}
	if len(by) == 0 {
		return "", false
	}
	k := g.pick(sortedKeys(by), "sharpKind")
	by[k][g.n(0, len(by[k])-1, "sharpAt")]()
	return focus, true
}

func (d *Doc) view() view { return view{d.merged(false)} }

func genValid(t *rapid.T) Case {
	g := &gen{t: t, cfg: vCfg()}
	if g.n(0, 3, "abstract") == 3 {
		// mostly interfaces, which the objects implement several of
		g.cfg.Kinds = []string{kInterface, kInterface, kInterface, kObject, kObject, kUnion}
	}
	old := g.doc()
	if old.find(false, "Query") == nil {
		old.Types = append(old.Types, &Type{Kind: kObject, Name: "Query"})
	}
	q := old.find(false, "Query")
	q.Kind, q.Fields, q.Vals, q.Members = kObject, nil, nil, nil
	for i, x := range old.Types {
		if x != q && isOut(x.Kind) && len(q.Fields) < 8 {
			f := g.field(kObject, fmt.Sprintf("q%d", i))
			f.Type = &TypeRef{Name: x.Name, NonNull: g.n(0, 1, "qNN") == 1}
			q.Fields = append(q.Fields, f)
		}
	}
	q.Fields = append(q.Fields, g.field(kObject, "qx"))
	g.vRef(old)
	g.execLocs(old)
	repair(old)
	nw := old.Clone()
	if g.bulk != nil && g.n(0, 2, "bulkDiffers") > 0 {
		g.bulkDiffer(g.bulk, nw)
	}
	focus, sharp := "", false
	if g.n(0, 1, "sharp") == 1 {
		focus, sharp = g.sharp(nw)
	}
	if !sharp {
		for i := g.n(1, 3, "nEdits"); i > 0; i-- {
			e := g.edit(nw)
			e.Do(nw)
		}
	}
	repair(nw)
	if g.n(0, 9, "reverse") >= 8 {
		old, nw = nw, old
	}
	o := &opGen{gen: g, v: old.view(), dirs: old.Dirs, focus: focus}
	var ops []string
	for i := g.n(1, 6, "nOps"); i > 0; i-- {
		ops = append(ops, o.operation())
	}
	if g.n(0, 1, "cut") == 1 {
		salt := g.n(0, 255, "salt")
		old, nw = cut(old, salt), cut(nw, salt)
	}
	if g.n(0, 1, "reorder") == 1 {
		nw = g.shuffleDoc(nw)
	}
	c := &validCase{}
	ro, rn := presentPair(t, old, nw)
	if ro == nil || rn == nil {
		return nil
	}
	c.Old, c.New = ro.Files, rn.Files
	so, err := loadValid(c.Old)
	if err != nil {
		return nil
	}
	sn, err := loadValid(c.New)
	if err != nil {
		return nil
	}
	for _, op := range ops {
		if validOn(so, op) != "" {
			continue
		}
		c.Ops = append(c.Ops, op)
		if validOn(sn, op) != "" {
			c.Broken++
		}
	}
	if len(c.Ops) == 0 {
		return nil
	}
	for _, x := range refDiff(old, nw) {
		switch x.Sev {
		case sevBrk:
			c.Brk++
			c.Sole = x.T
		case sevDang:
			c.Dang++
		default:
			c.Non++
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID:    "C09",
		Rule:  "a case is a pair of valid schemas with operations valid on the old one; it is non-trivial when some operation is no longer valid on the new schema, or when the schemas differ by changes none of which is breaking",
		New:   func() Case { return &validCase{} },
		Gen:   genValid,
		Quick: 120000, Thorough: 1200000,
		Assumptions: []string{"gqlparser v2.5.1's operation validator decides whether an operation is valid", "operations use every response name once; schemas have no interface that implements another and no applied directives but @deprecated"},
	})
}
