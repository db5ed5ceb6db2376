package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Documents with very many elements of one kind: code that works in portions, counts in small
// numbers, switches algorithm or gives up by size is only wrong here.

var bulkSizes = []int{31, 32, 33, 47, 48, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 250, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500}

type bulk struct {
	kind string
	n    int
	fmt  string
}

func (b *bulk) name(i int) string { return fmt.Sprintf(b.fmt, i) }

// index tells which filler element a name belongs to.
func (b *bulk) index(name string) (int, bool) {
	var i int
	if !strings.HasPrefix(name, b.fmt[:2]) {
		return 0, false
	}
	if k, err := fmt.Sscanf(name[2:], "%d", &i); k != 1 || err != nil || b.name(i) != name {
		return 0, false
	}
	return i, true
}

var bulkTypes = []*TypeRef{{Name: "Int"}, {Name: "String", NonNull: true}, {Elem: &TypeRef{Name: "Int", NonNull: true}}, {Name: "A"}, {Elem: &TypeRef{Name: "ID"}, NonNull: true}}

func (g *gen) bulkArg(b *bulk, i int) *Arg {
	a := &Arg{Name: b.name(i), Type: bulkTypes[i%len(bulkTypes)].Clone()}
	if i%7 == 3 {
		a.Desc = "d"
	}
	if i%5 == 0 {
		a.Default = &Value{K: "int", S: itoa(i)}
	}
	return a
}

func (g *gen) bulkField(b *bulk, kind string, i int) *Field {
	f := &Field{Name: b.name(i), Type: bulkTypes[i%len(bulkTypes)].Clone()}
	if i%7 == 3 {
		f.Desc = "d"
	}
	if kind == kInput && i%5 == 0 {
		f.Default = &Value{K: "int", S: itoa(i)}
	}
	if g.cfg.Deprec && i%6 == 2 {
		f.Dirs = []DirUse{{Name: "deprecated"}}
	}
	if kind != kInput && i%4 == 1 {
		f.Args = []*Arg{{Name: "a", Type: &TypeRef{Name: "Int"}}}
	}
	return f
}

func (g *gen) bulkType(b *bulk, kind string, ext bool, i int) *Type {
	t := &Type{Kind: kind, Name: strings.ToUpper(b.name(i)[:1]) + b.name(i)[1:], Ext: ext}
	if !ext && i%7 == 3 {
		t.Desc = "d"
	}
	switch kind {
	case kObject, kInterface, kInput:
		t.Fields = []*Field{{Name: "a", Type: bulkTypes[i%len(bulkTypes)].Clone()}}
	case kEnum:
		t.Vals = []*EnumVal{{Name: "A"}, {Name: "B"}}
	case kUnion:
		t.Members = []string{"A", "B"}
	case kScalar:
		if ext {
			t.Dirs = []DirUse{{Name: "key"}}
		}
	}
	return t
}

// inflate adds very many elements of a drawn kind to the document.
func (g *gen) inflate(d *Doc) *bulk {
	b := &bulk{n: bulkSizes[g.n(0, len(bulkSizes)-1, "bulkSize")], fmt: "bk%d"}
	if g.n(0, 2, "bulkPadded") == 2 {
		b.fmt = "bk%04d"
	}
	var ks []string
	has := func(k string) bool { return hasStr(g.cfg.Kinds, k) }
	if has(kObject) || has(kInterface) {
		ks = append(ks, "fields", "args")
	}
	if has(kObject) {
		ks = append(ks, "ifaces")
	}
	if has(kInput) {
		ks = append(ks, "input fields")
	}
	if has(kEnum) {
		ks = append(ks, "vals")
	}
	if has(kUnion) {
		ks = append(ks, "members")
	}
	ks = append(ks, "types")
	if g.cfg.Exts {
		ks = append(ks, "exts", "ext blocks")
	}
	if g.cfg.Dirs {
		ks = append(ks, "uses", "use args")
	}
	if g.cfg.DirDefs {
		ks = append(ks, "dir defs", "dir args")
	}
	if g.cfg.Schemas {
		ks = append(ks, "schema exts")
	}
	b.kind = g.pick(ks, "bulkKind")
	front := g.n(0, 2, "bulkFront") == 2
	// target finds or makes a type of one of the kinds
	target := func(kinds ...string) *Type {
		var c []*Type
		for _, t := range d.Types {
			if hasStr(kinds, t.Kind) {
				c = append(c, t)
			}
		}
		if len(c) > 0 {
			return c[g.n(0, len(c)-1, "bulkTarget")]
		}
		var kk []string
		for _, k := range kinds {
			if has(k) {
				kk = append(kk, k)
			}
		}
		if len(kk) == 0 {
			kk = kinds
		}
		t := &Type{Kind: g.pick(kk, "bulkNewKind"), Name: "Bulk"}
		d.Types = append(d.Types, t)
		return t
	}
	fieldOf := func(t *Type) *Field {
		if len(t.Fields) == 0 {
			t.Fields = append(t.Fields, &Field{Name: "bulkOwner", Type: &TypeRef{Name: "Int"}})
		}
		return t.Fields[g.n(0, len(t.Fields)-1, "bulkField")]
	}
	switch b.kind {
	case "fields", "input fields":
		t := target(kInput)
		if b.kind == "fields" {
			if t.Name == "Bulk" && len(t.Fields) == 0 {
				d.Types = d.Types[:len(d.Types)-1]
			}
			t = target(kObject, kInterface)
		}
		t.Fields = fill(t.Fields, b.n, front, func(i int) *Field { return g.bulkField(b, t.Kind, i) })
	case "args":
		f := fieldOf(target(kObject, kInterface))
		f.Args = fill(f.Args, b.n, front, func(i int) *Arg { return g.bulkArg(b, i) })
	case "ifaces":
		t := target(kObject)
		t.Ifaces = fill(t.Ifaces, b.n, front, b.name)
	case "vals":
		t := target(kEnum)
		t.Vals = fill(t.Vals, b.n, front, func(i int) *EnumVal {
			v := &EnumVal{Name: b.name(i)}
			if i%7 == 3 {
				v.Desc = "d"
			}
			if g.cfg.Deprec && i%6 == 2 {
				v.Dirs = []DirUse{{Name: "deprecated"}}
			}
			return v
		})
	case "members":
		t := target(kUnion)
		t.Members = fill(t.Members, b.n, front, b.name)
	case "types", "exts":
		d.Types = fill(d.Types, b.n, front, func(i int) *Type {
			return g.bulkType(b, g.cfg.Kinds[i%len(g.cfg.Kinds)], b.kind == "exts", i)
		})
	case "ext blocks":
		// very many extensions of one type
		k := g.pick(g.cfg.Kinds, "bulkExtKind")
		name := g.pick(g.cfg.Types, "bulkExtName")
		for _, ext := range []bool{true, false} {
			if x := d.find(ext, name); x != nil {
				k = x.Kind
			}
		}
		d.Types = fill(d.Types, b.n, front, func(i int) *Type {
			t := &Type{Ext: true, Kind: k, Name: name}
			switch k {
			case kObject, kInterface, kInput:
				t.Fields = []*Field{g.bulkField(b, k, i)}
			case kEnum:
				t.Vals = []*EnumVal{{Name: b.name(i)}}
			case kUnion:
				t.Members = []string{b.name(i)}
			default:
				t.Dirs = []DirUse{{Name: b.name(i)}}
			}
			return t
		})
	case "uses":
		t := target(kObject, kInterface, kInput)
		again := g.n(0, 1, "bulkRepeat") == 1
		if again && b.n > 129 {
			b.n = 129 // which instance became which is for all of them to find out
		}
		use := func(i int) DirUse {
			return DirUse{Name: b.name(i), Args: []ObjField{{"x", &Value{K: "int", S: itoa(i % 3)}}}}
		}
		if g.n(0, 1, "bulkUseOnField") == 1 {
			f := fieldOf(t)
			f.Dirs = fill(f.Dirs, b.n, front, use)
		} else {
			t.Dirs = fill(t.Dirs, b.n, front, use)
		}
		if again {
			// the same directive again and again
			b.kind = "repeated uses"
			ds := &t.Dirs
			if t.Fields != nil && len(t.Dirs) < b.n {
				for _, f := range t.Fields {
					if len(f.Dirs) >= b.n {
						ds = &f.Dirs
					}
				}
			}
			for j := range *ds {
				if i, ok := b.index((*ds)[j].Name); ok {
					(*ds)[j] = DirUse{Name: "tag", Args: []ObjField{{"x", &Value{K: "int", S: itoa(i)}}}}
				}
			}
		}
	case "use args":
		t := target(kObject, kInterface, kInput)
		u := DirUse{Name: "foo"}
		for i := 0; i < b.n; i++ {
			u.Args = append(u.Args, ObjField{b.name(i), &Value{K: "int", S: itoa(i % 3)}})
		}
		for _, x := range t.Dirs {
			if x.Name == "foo" {
				return b
			}
		}
		t.Dirs = append(t.Dirs, u)
	case "dir defs":
		d.Dirs = fill(d.Dirs, b.n, front, func(i int) *DirDef {
			return &DirDef{Name: b.name(i), Locs: []string{"FIELD", "OBJECT"}, Repeatable: i%5 == 4}
		})
	case "dir args":
		var x *DirDef
		if len(d.Dirs) > 0 {
			x = d.Dirs[g.n(0, len(d.Dirs)-1, "bulkDir")]
		} else {
			x = &DirDef{Name: "foo", Locs: []string{"FIELD"}}
			d.Dirs = append(d.Dirs, x)
		}
		x.Args = fill(x.Args, b.n, front, func(i int) *Arg { return g.bulkArg(b, i) })
	case "schema exts":
		d.Schemas = fill(d.Schemas, b.n, front, func(i int) *SchemaBlk {
			return &SchemaBlk{Ext: true, Dirs: []DirUse{{Name: b.name(i)}}}
		})
	}
	return b
}

func fill[T any](l []T, n int, front bool, f func(int) T) []T {
	var r []T
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	if front {
		return append(r, l...)
	}
	return append(l[:len(l):len(l)], r...)
}

// differ makes some of the filler elements of the document differ: one at a drawn place, all from
// a place on, every so manieth, or all.
func (g *gen) bulkDiffer(b *bulk, d *Doc) {
	at := g.n(0, b.n-1, "bulkAt")
	switch g.n(0, 3, "bulkEdge") {
	case 0:
		at = b.n - 1
	case 1:
		at = 0
	}
	step := 0
	switch g.n(0, 5, "bulkWhich") {
	case 0, 1, 2:
	case 3:
		step = 1
	case 4:
		step = g.n(2, 100, "bulkStep")
	case 5:
		at, step = 0, 1
	}
	in := func(name string) bool {
		i, ok := b.index(strings.ToLower(name))
		if !ok {
			return false
		}
		return i == at || step > 0 && i > at && (i-at)%step == 0
	}
	op := g.n(0, 5, "bulkOp")
	mixed := op == 5
	next := func() int {
		if mixed {
			op++
		}
		return op % 5
	}
	arg := func(a *Arg, o int) {
		switch o {
		case 1:
			a.Desc += "other"
		case 2:
			a.Type = &TypeRef{Elem: a.Type.Clone(), NonNull: a.Type.NonNull}
		case 3:
			if a.Default == nil {
				a.Default = &Value{K: "int", S: "7"}
			} else {
				a.Default = nil
			}
		case 4:
			a.Type = a.Type.Clone()
			a.Type.NonNull = !a.Type.NonNull
		}
	}
	uses := func(ds []DirUse) []DirUse {
		var r []DirUse
		for _, u := range ds {
			hit := in(u.Name)
			if b.kind == "repeated uses" && u.Name == "tag" && len(u.Args) == 1 && u.Args[0].Name == "x" && u.Args[0].V.K == "int" {
				i, err := strconv.Atoi(u.Args[0].V.S)
				hit = err == nil && in(b.name(i))
			}
			if hit {
				if next()%2 == 0 {
					continue
				}
				u.Args = append(append([]ObjField(nil), u.Args...), ObjField{"y", &Value{K: "int", S: "1"}})
			} else if b.kind == "use args" && u.Name == "foo" {
				var as []ObjField
				for _, a := range u.Args {
					if in(a.Name) {
						if next()%2 == 0 {
							continue
						}
						a.V = &Value{K: "int", S: "9"}
					}
					as = append(as, a)
				}
				u.Args = as
			}
			r = append(r, u)
		}
		return r
	}
	args := func(l []*Arg) []*Arg {
		var r []*Arg
		for _, a := range l {
			if in(a.Name) {
				o := next()
				if o == 0 {
					continue
				}
				arg(a, o)
			}
			r = append(r, a)
		}
		return r
	}
	names := func(l []string) []string {
		var r []string
		for _, a := range l {
			if in(a) {
				if next()%2 == 0 {
					continue
				}
				a += "x"
			}
			r = append(r, a)
		}
		return r
	}
	var ts []*Type
	for _, t := range d.Types {
		if in(t.Name) {
			switch o := next(); {
			case o == 0:
				continue
			case o == 1 && !t.Ext:
				t.Desc += "other"
			case o == 2 && len(t.Fields) > 0:
				t.Fields = append(t.Fields, &Field{Name: "new", Type: &TypeRef{Name: "Int"}})
			case o == 3 && len(t.Fields) > 0:
				t.Fields[0].Type = &TypeRef{Name: "Other"}
			default:
				t.Name += "x"
			}
		}
		t.Ifaces = names(t.Ifaces)
		t.Members = names(t.Members)
		t.Dirs = uses(t.Dirs)
		var fs []*Field
		for _, f := range t.Fields {
			if in(f.Name) {
				o := next()
				if o == 0 {
					continue
				}
				if o == 4 && g.cfg.Deprec && len(f.Dirs) == 0 {
					f.Dirs = []DirUse{{Name: "deprecated"}}
				} else if o == 3 && t.Kind != kInput {
					f.Args = append(args(f.Args), &Arg{Name: "new", Type: &TypeRef{Name: "Int"}})
				} else {
					a := &Arg{Desc: f.Desc, Type: f.Type, Default: f.Default}
					arg(a, o)
					f.Desc, f.Type, f.Default = a.Desc, a.Type, a.Default
				}
			}
			f.Args = args(f.Args)
			f.Dirs = uses(f.Dirs)
			fs = append(fs, f)
		}
		t.Fields = fs
		var vs []*EnumVal
		for _, v := range t.Vals {
			if in(v.Name) {
				switch o := next(); {
				case o == 0:
					continue
				case o == 1:
					v.Desc += "other"
				case o == 2 && g.cfg.Deprec:
					if len(v.Dirs) == 0 {
						v.Dirs = []DirUse{{Name: "deprecated"}}
					} else {
						v.Dirs = nil
					}
				default:
					v.Name += "x"
				}
			}
			vs = append(vs, v)
		}
		t.Vals = vs
		if !t.Ext || !t.empty() {
			ts = append(ts, t)
		}
	}
	d.Types = ts
	var dd []*DirDef
	for _, x := range d.Dirs {
		if in(x.Name) {
			switch next() {
			case 0:
				continue
			case 1:
				x.Desc += "other"
			case 2:
				x.Repeatable = !x.Repeatable
			case 3:
				x.Locs = []string{"OBJECT"}
			default:
				x.Args = append(x.Args, &Arg{Name: "new", Type: &TypeRef{Name: "Int"}})
			}
		}
		x.Args = args(x.Args)
		dd = append(dd, x)
	}
	d.Dirs = dd
}

// inflateLint adds very many elements of one kind, nearly all alike: with no finding, or with some;
// one, or some from a place on, are otherwise.
func (g *lintGen) inflateLint(d *Doc, relay bool) {
	n := bulkSizes[g.n(0, len(bulkSizes)-1, "bulkSize")]
	at := g.n(0, n-1, "bulkAt")
	switch g.n(0, 3, "bulkEdge") {
	case 0:
		at = n - 1
	case 1:
		at = 0
	}
	step := 0
	switch g.n(0, 4, "bulkWhich") {
	case 3:
		step = 1
	case 4:
		step = g.n(2, 100, "bulkStep")
	}
	look := g.n(0, 3, "bulkLook")
	other := g.n(0, 3, "bulkOther")
	// what element i is like: described or not, well named or not
	like := func(i int) (string, bool) {
		k := look
		if i == at || step > 0 && i > at && (i-at)%step == 0 {
			k = other
		}
		desc := ""
		if k&1 == 0 {
			desc = "d"
		}
		return desc, k&2 == 0
	}
	front := g.n(0, 2, "bulkFront") == 2
	of := func(kinds ...string) *Type {
		for _, t := range d.Types {
			if hasStr(kinds, t.Kind) && g.n(0, 1, "bulkHere") == 0 {
				return t
			}
		}
		t := &Type{Kind: g.pick(kinds, "bulkKind"), Name: "Bulk", Desc: g.desc("bulkDesc"), Ext: g.n(0, 3, "bulkExt") == 3}
		d.Types = append(d.Types, t)
		return t
	}
	arg := func(i int) *Arg {
		desc, _ := like(i)
		return &Arg{Name: "bk" + itoa(i), Desc: desc, Type: &TypeRef{Name: "Int"}}
	}
	field := func(t *Type) func(int) *Field {
		return func(i int) *Field {
			desc, ok := like(i)
			f := &Field{Name: "bk" + itoa(i), Desc: desc, Type: &TypeRef{Name: "Int"}}
			if !ok {
				f.Name = "bk_" + itoa(i)
			}
			if t.Kind != kInput && relay {
				f.Type = &TypeRef{Name: "UserConnection"}
				f.Args = []*Arg{{Name: "first", Desc: "d", Type: &TypeRef{Name: "Int"}}, {Name: "after", Desc: "d", Type: &TypeRef{Name: "String"}}}
				if !ok {
					f.Name = "bk" + itoa(i)
					f.Args[0].Type = &TypeRef{Name: "Float"}
				}
			} else if t.Kind != kInput && i%3 == 0 {
				f.Args = []*Arg{{Name: "a", Desc: desc, Type: &TypeRef{Name: "Int"}}}
			}
			return f
		}
	}
	switch g.n(0, 4, "bulkWhat") {
	case 0:
		t := of(kObject, kInterface, kInput)
		t.Fields = fill(t.Fields, n, front, field(t))
	case 1:
		t := of(kObject, kInterface)
		if len(t.Fields) == 0 {
			t.Fields = []*Field{{Name: "bulkOwner", Desc: g.desc("bulkFieldDesc"), Type: g.wrap(&TypeRef{Name: "UserConnection"}, 1)}}
		}
		f := t.Fields[g.n(0, len(t.Fields)-1, "bulkField")]
		f.Args = fill(f.Args, n, front, arg)
	case 2:
		t := of(kEnum)
		t.Vals = fill(t.Vals, n, front, func(i int) *EnumVal {
			desc, ok := like(i)
			v := &EnumVal{Name: "BK" + itoa(i), Desc: desc}
			if !ok {
				v.Name = "Bk" + itoa(i)
			}
			return v
		})
	default:
		ext := g.n(0, 3, "bulkExts") == 3
		kinds := []string{kObject, kEnum, kInput, kInterface, kUnion, kScalar}
		k0 := g.n(0, len(kinds), "bulkKinds")
		d.Types = fill(d.Types, n, front, func(i int) *Type {
			desc, ok := like(i)
			t := &Type{Ext: ext, Kind: kinds[i%len(kinds)], Name: "Bk" + itoa(i), Desc: desc}
			if k0 < len(kinds) {
				t.Kind = kinds[k0]
			}
			if ext {
				t.Desc = ""
			}
			if relay {
				t.Name += "Connection"
				if t.Kind == kObject {
					t.Fields = append(t.Fields, &Field{Name: "edges", Desc: "d", Type: &TypeRef{Elem: &TypeRef{Name: "E"}}})
					if ok {
						t.Fields = append(t.Fields, &Field{Name: "pageInfo", Desc: "d", Type: &TypeRef{Name: "PageInfo", NonNull: true}})
					}
					return t
				}
			}
			if !ok {
				t.Name = "b" + t.Name[1:]
			}
			switch t.Kind {
			case kObject, kInterface, kInput:
				t.Fields = []*Field{{Name: "a", Desc: "d", Type: &TypeRef{Name: "Int"}}}
			case kEnum:
				t.Vals = []*EnumVal{{Name: "A", Desc: "d"}}
			case kUnion:
				t.Members = []string{"A"}
			default:
				t.Dirs = []DirUse{{Name: "key"}}
			}
			return t
		})
	}
}
