package main

import (
	"pgregory.net/rapid"
)

// Edit changes a document in place; it finds what it changes by name, so it can be applied to any
// document that contains the target.
type Edit struct {
	Target string // element it touches; edits of different targets are independent
	What   string
	Do     func(d *Doc)
}

func blocksOf(d *Doc, ext bool, name string) []*Type {
	var r []*Type
	for _, t := range d.Types {
		if t.Ext == ext && t.Name == name {
			r = append(r, t)
		}
	}
	return r
}

// dropEmptyExts removes extension blocks that no longer extend anything.
func dropEmptyExts(d *Doc) {
	var r []*Type
	for _, t := range d.Types {
		if !(t.Ext && t.empty()) {
			r = append(r, t)
		}
	}
	d.Types = r
}

func (g *gen) otherDesc(cur string) string {
	if cur != "" && g.n(0, 2, "dropDesc") == 0 {
		return ""
	}
	if cur != "" && !g.cfg.ASCII && g.n(0, 1, "nearDesc") == 1 {
		return g.nearText(cur)
	}
	s := g.pick(descPool, "newDesc")
	if s == cur {
		s = "another text"
	}
	return s
}

// editType draws a small change of a type reference.
func (g *gen) otherType(t *TypeRef) *TypeRef {
	n := t.Clone()
	switch g.n(0, 5, "typeEdit") {
	case 0:
		n.NonNull = !n.NonNull
	case 1: // toggle an inner non-null
		x := n
		for x.Elem != nil && g.n(0, 1, "inner") == 1 {
			x = x.Elem
		}
		x.NonNull = !x.NonNull
	case 2:
		n = &TypeRef{Elem: n, NonNull: g.n(0, 1, "wrapNN") == 1}
	case 3:
		if n.Elem != nil {
			n = n.Elem
		} else {
			n.Name = g.pick(g.cfg.Types, "typeName")
		}
	case 4:
		x := n
		for x.Elem != nil {
			x = x.Elem
		}
		x.Name = g.pick(append(append([]string{}, scalars...), g.cfg.Types...), "typeName")
	case 5:
		n = g.typeRef(3)
	}
	return n
}

func (g *gen) otherDefault(v *Value) *Value {
	if v != nil && g.n(0, 2, "dropDefault") == 0 {
		return nil
	}
	return g.otherValue(v, 2)
}

// otherValue draws a value, often one close to v.
func (g *gen) otherValue(v *Value, depth int) *Value {
	if v != nil && g.n(0, 1, "nearValue") == 1 {
		return g.nearValue(v)
	}
	return g.value(depth)
}

// otherUses edits a list of directive applications, leaving the deprecation alone.
func (g *gen) otherUses(ds []DirUse) []DirUse {
	r := cloneDirs(ds)
	switch g.n(0, 5, "useEdit") {
	case 0:
		r = append(r, g.dirUse(g.pick(dirPool[:6], "dir")))
	case 1: // remove one
		if i := g.pickUse(r); i >= 0 {
			r = append(r[:i], r[i+1:]...)
		}
	case 2: // duplicate one, with other arguments perhaps
		if i := g.pickUse(r); i >= 0 {
			c := cloneDirs(r[i : i+1])[0]
			if g.n(0, 1, "dupChanged") == 1 {
				c = g.dirUse(c.Name)
			}
			r = append(r, c)
		}
	case 3: // other value of an argument
		if i := g.pickUse(r); i >= 0 && len(r[i].Args) > 0 {
			k := g.n(0, len(r[i].Args)-1, "useArg")
			r[i].Args[k].V = g.otherValue(r[i].Args[k].V, 1)
		}
	case 4: // add or drop an argument
		if i := g.pickUse(r); i >= 0 {
			if len(r[i].Args) > 0 && g.n(0, 1, "dropArg") == 1 {
				r[i].Args = r[i].Args[1:]
			} else {
				n := g.pick(dargPool, "newUseArg")
				if r[i].arg(n) == nil {
					r[i].Args = append(r[i].Args, ObjField{n, g.value(1)})
				}
			}
		}
	case 5: // reorder
		if len(r) > 1 {
			r = rapid.Permutation(r).Draw(g.t, "useOrder")
		}
	}
	return r
}

func (g *gen) pickUse(ds []DirUse) int {
	var idx []int
	for i, d := range ds {
		if d.Name != "deprecated" {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return -1
	}
	return rapid.SampledFrom(idx).Draw(g.t, "useIdx")
}

// otherDeprecation toggles or alters the deprecation in a list of applications.
func (g *gen) otherDeprecation(ds []DirUse) []DirUse {
	r := cloneDirs(ds)
	for i := range r {
		if r[i].Name == "deprecated" {
			if g.n(0, 1, "dropDep") == 0 {
				return append(r[:i], r[i+1:]...)
			}
			if x := r[i].arg("reason"); x != nil && x.K == "string" && g.n(0, 1, "nearReason") == 1 {
				r[i].Args = []ObjField{{"reason", &Value{K: "string", S: g.nearText(x.S)}}}
				return r
			}
			r[i] = g.deprecated()
			return r
		}
	}
	return append(r, g.deprecated())
}

// edit draws one edit of a document.
func (g *gen) edit(d *Doc) Edit {
	var tops []string
	if len(d.Types) > 0 {
		tops = append(tops, "type", "type", "type", "type", "type", "member", "member", "member", "member", "member", "member")
	}
	tops = append(tops, "addType")
	if g.cfg.DirDefs {
		tops = append(tops, "dir", "dir")
	}
	if g.cfg.Schemas {
		tops = append(tops, "root")
	}
	if g.cfg.DirHeavy && len(d.Types) > 0 {
		tops = append(tops, "uses", "uses", "uses", "uses", "uses", "uses", "uses", "dir", "dir", "dir")
	}
	if g.cfg.RootHeavy {
		tops = append(tops, "root", "root", "root", "root", "root", "rootOp", "rootOp", "rootOp", "rootOp", "rootOp")
	}
	switch g.pick(tops, "editTop") {
	case "uses":
		return g.editUses(d)
	case "rootOp":
		return g.editRootOp(d)
	case "type":
		return g.editTypeLevel(d)
	case "member":
		return g.editMember(d)
	case "dir":
		return g.editDir(d)
	case "root":
		return g.editRoot()
	}
	return g.editAddType(d)
}

func (g *gen) editAddType(d *Doc) Edit {
	ext := g.cfg.Exts && g.n(0, 2, "addExt") == 2
	taken := map[string]bool{}
	for _, t := range d.Types {
		if t.Ext == ext {
			taken[t.Name] = true
		}
	}
	name := g.distinct(g.cfg.Types, 1, "newType", taken)[0]
	var add []*Type
	if ext {
		kind := g.pick(g.cfg.Kinds, "extKind")
		if t := d.find(false, name); t != nil {
			kind = t.Kind
		}
		add = g.extBlocks(name, kind)
	} else {
		x := g.typ(name)
		if t := d.find(true, name); t != nil && t.Kind != x.Kind {
			x = &Type{Kind: t.Kind, Name: name}
			g.body(x, map[string]bool{})
		}
		add = []*Type{x}
	}
	return Edit{add[0].key(), "add " + add[0].key(), func(d *Doc) {
		if d.find(ext, name) != nil {
			return
		}
		for _, t := range add {
			d.Types = append(d.Types, t.Clone())
		}
	}}
}

func (g *gen) editTypeLevel(d *Doc) Edit {
	t := d.Types[g.where(0, len(d.Types), "typeIdx")]
	ext, name, kind := t.Ext, t.Name, t.Kind
	key := t.key()
	on := func(what, facet string, f func(b *Type)) Edit {
		return Edit{key + "#" + facet, what + " " + key, func(d *Doc) {
			if bs := blocksOf(d, ext, name); len(bs) > 0 && bs[0].Kind == kind {
				f(bs[0])
				dropEmptyExts(d)
			}
		}}
	}
	switch g.n(0, 8, "typeOp") {
	case 0:
		return Edit{key, "remove " + key, func(d *Doc) {
			var r []*Type
			for _, x := range d.Types {
				if x.Ext != ext || x.Name != name {
					r = append(r, x)
				}
			}
			d.Types = r
		}}
	case 1:
		n := g.otherDesc(t.Desc)
		if ext {
			n = ""
		}
		return on("describe", "desc", func(b *Type) { b.Desc = n })
	case 2: // another kind
		if ext && d.find(false, name) != nil || !ext && d.find(true, name) != nil {
			n := g.otherDesc(t.Desc)
			if ext {
				n = ""
			}
			return on("describe", "desc", func(b *Type) { b.Desc = n })
		}
		x := &Type{Ext: ext, Kind: g.pick(g.cfg.Kinds, "newKind"), Name: name, Desc: t.Desc}
		if g.n(0, 1, "keepFields") == 1 && (x.Kind == kObject || x.Kind == kInterface) && (kind == kObject || kind == kInterface) {
			c := t.Clone()
			x.Fields, x.Dirs = c.Fields, c.Dirs
			if x.empty() && ext {
				g.body(x, map[string]bool{})
			}
		} else {
			g.body(x, map[string]bool{})
		}
		return Edit{key, "kind " + key, func(d *Doc) {
			var r []*Type
			done := false
			for _, y := range d.Types {
				if y.Ext == ext && y.Name == name {
					if !done {
						c := x.Clone()
						c.File = y.File
						r = append(r, c)
					}
					done = true
					continue
				}
				r = append(r, y)
			}
			d.Types = r
		}}
	case 3:
		n := g.otherUses(t.Dirs)
		return on("directives", "dirs", func(b *Type) {
			b.Dirs = cloneDirs(n)
			if b.Ext && b.empty() {
				b.Dirs = cloneDirs(t.Dirs)
			}
		})
	case 4:
		if kind == kObject || kind == kInterface && !ext {
			taken := map[string]bool{}
			for _, b := range blocksOf(d, ext, name) {
				for _, x := range b.Ifaces {
					taken[x] = true
				}
			}
			if len(t.Ifaces) > 0 && g.n(0, 1, "dropIface") == 1 {
				x := g.pick(t.Ifaces, "iface")
				return on("drop interface", "iface."+x, func(b *Type) { b.Ifaces = without(b.Ifaces, x) })
			}
			x := g.distinct(g.cfg.Types, 1, "newIface", taken)[0]
			at := g.n(0, len(t.Ifaces), "ifaceAt")
			return on("add interface", "iface."+x, func(b *Type) {
				if at > len(b.Ifaces) {
					at = len(b.Ifaces)
				}
				l := append([]string(nil), b.Ifaces[:at]...)
				b.Ifaces = append(append(l, x), b.Ifaces[at:]...)
			})
		}
		fallthrough
	default:
		return g.editAddMember(d, t)
	}
}

func (g *gen) editAddMember(d *Doc, t *Type) Edit {
	ext, name := t.Ext, t.Name
	taken := map[string]bool{}
	for _, b := range blocksOf(d, ext, name) {
		for _, f := range b.Fields {
			taken[f.Name] = true
		}
		for _, f := range b.Vals {
			taken[f.Name] = true
		}
		for _, f := range b.Members {
			taken[f] = true
		}
	}
	x := &Type{Kind: t.Kind}
	g.addMember(x, taken)
	at := g.n(0, 9, "memberAt")
	target := t.key()
	for _, f := range x.Fields {
		target += "." + f.Name
	}
	for _, f := range x.Vals {
		target += "." + f.Name
	}
	for _, f := range x.Members {
		target += "." + f
	}
	return Edit{target, "add member " + target, func(d *Doc) {
		bs := blocksOf(d, ext, name)
		if len(bs) == 0 || bs[0].Kind != x.Kind {
			return
		}
		b := bs[0]
		c := x.Clone()
		for _, f := range c.Fields {
			k := at
			if k > len(b.Fields) {
				k = len(b.Fields)
			}
			l := append([]*Field(nil), b.Fields[:k]...)
			b.Fields = append(append(l, f), b.Fields[k:]...)
		}
		b.Vals = append(b.Vals, c.Vals...)
		b.Members = append(b.Members, c.Members...)
		b.Dirs = append(b.Dirs, c.Dirs...)
	}}
}

// editMember changes or removes one member of a type.
func (g *gen) editMember(d *Doc) Edit {
	t := d.Types[g.where(0, len(d.Types), "typeIdx")]
	ext, name := t.Ext, t.Name
	key := t.key()
	switch {
	case len(t.Fields) > 0:
		f := t.Fields[g.where(1, len(t.Fields), "fieldIdx")]
		fn := f.Name
		target := key + "." + fn
		on := func(what, facet string, do func(f *Field)) Edit {
			return Edit{target + "#" + facet, what + " " + target, func(d *Doc) {
				for _, b := range blocksOf(d, ext, name) {
					if x := b.field(fn); x != nil {
						do(x)
					}
				}
			}}
		}
		op := g.n(0, 12, "fieldOp")
		if g.args3 && op < 8 && g.n(0, 3, "toArgs") > 0 {
			op = 8
		}
		switch op {
		case 0, 1:
			return Edit{target, "remove " + target, func(d *Doc) {
				for _, b := range blocksOf(d, ext, name) {
					var r []*Field
					for _, x := range b.Fields {
						if x.Name != fn {
							r = append(r, x)
						}
					}
					b.Fields = r
				}
				dropEmptyExts(d)
			}}
		case 2, 3:
			n := g.otherType(f.Type)
			return on("type", "value", func(f *Field) { f.Type = n.Clone() })
		case 4:
			n := g.otherDesc(f.Desc)
			return on("describe", "desc", func(f *Field) { f.Desc = n })
		case 5:
			n := g.otherDeprecation(f.Dirs)
			return on("deprecation", "dirs", func(f *Field) { f.Dirs = cloneDirs(n) })
		case 6, 7:
			n := g.otherUses(f.Dirs)
			return on("directives", "dirs", func(f *Field) { f.Dirs = cloneDirs(n) })
		default:
			if t.Kind == kInput {
				n := g.otherDefault(f.Default)
				return on("default", "value", func(f *Field) { f.Default = n })
			}
			if len(f.Args) == 0 || g.n(0, 3, "addArg") == 3 {
				taken := map[string]bool{}
				for _, a := range f.Args {
					taken[a.Name] = true
				}
				a := g.arg(g.distinct(namePool, 1, "newArg", taken)[0])
				front := g.n(0, 1, "argFront") == 1
				return on("add arg", "arg."+a.Name, func(f *Field) {
					if front {
						f.Args = append([]*Arg{a.Clone()}, f.Args...)
					} else {
						f.Args = append(f.Args, a.Clone())
					}
				})
			}
			a := f.Args[g.n(0, len(f.Args)-1, "argIdx")]
			an := a.Name
			ed := g.editArg(a)
			return on("arg", "arg."+an, func(f *Field) { f.Args = ed(f.Args, an) })
		}
	case len(t.Vals) > 0:
		v := t.Vals[g.where(1, len(t.Vals), "valIdx")]
		vn := v.Name
		target := key + "." + vn
		on := func(what, facet string, do func(v *EnumVal)) Edit {
			return Edit{target + "#" + facet, what + " " + target, func(d *Doc) {
				for _, b := range blocksOf(d, ext, name) {
					if x := b.val(vn); x != nil {
						do(x)
					}
				}
			}}
		}
		switch g.n(0, 4, "valOp") {
		case 0:
			return Edit{target, "remove " + target, func(d *Doc) {
				for _, b := range blocksOf(d, ext, name) {
					var r []*EnumVal
					for _, x := range b.Vals {
						if x.Name != vn {
							r = append(r, x)
						}
					}
					b.Vals = r
				}
				dropEmptyExts(d)
			}}
		case 1:
			n := g.otherDesc(v.Desc)
			return on("describe", "desc", func(v *EnumVal) { v.Desc = n })
		case 2, 3:
			n := g.otherDeprecation(v.Dirs)
			return on("deprecation", "dirs", func(v *EnumVal) { v.Dirs = cloneDirs(n) })
		default:
			n := g.otherUses(v.Dirs)
			return on("directives", "dirs", func(v *EnumVal) { v.Dirs = cloneDirs(n) })
		}
	case len(t.Members) > 0:
		m := g.pick(t.Members, "member")
		target := key + "." + m
		return Edit{target, "remove " + target, func(d *Doc) {
			for _, b := range blocksOf(d, ext, name) {
				b.Members = without(b.Members, m)
			}
			dropEmptyExts(d)
		}}
	}
	return g.editAddMember(d, t)
}

// editArg draws an edit of one argument in a list of arguments.
func (g *gen) editArg(a *Arg) func(as []*Arg, name string) []*Arg {
	upd := func(f func(a *Arg)) func(as []*Arg, name string) []*Arg {
		return func(as []*Arg, name string) []*Arg {
			if x := findArg(as, name); x != nil {
				f(x)
			}
			return as
		}
	}
	switch g.n(0, 5, "argOp") {
	case 0:
		return func(as []*Arg, name string) []*Arg {
			var r []*Arg
			for _, x := range as {
				if x.Name != name {
					r = append(r, x)
				}
			}
			return r
		}
	case 1, 2:
		n := g.otherType(a.Type)
		return upd(func(a *Arg) { a.Type = n.Clone() })
	case 3:
		n := g.otherDesc(a.Desc)
		return upd(func(a *Arg) { a.Desc = n })
	default:
		n := g.otherDefault(a.Default)
		return upd(func(a *Arg) { a.Default = n })
	}
}

func (g *gen) editDir(d *Doc) Edit {
	if len(d.Dirs) == 0 || g.n(0, 4, "addDir") == 4 {
		taken := map[string]bool{}
		for _, x := range d.Dirs {
			taken[x.Name] = true
		}
		n := g.dirDef(g.distinct(dirPool, 1, "newDir", taken)[0])
		return Edit{"dir:" + n.Name, "add directive", func(d *Doc) {
			if d.dir(n.Name) == nil {
				d.Dirs = append(d.Dirs, n.Clone())
			}
		}}
	}
	x := d.Dirs[g.where(2, len(d.Dirs), "dirIdx")]
	name := x.Name
	target := "dir:" + name
	on := func(what, facet string, do func(x *DirDef)) Edit {
		return Edit{target + "#" + facet, what + " " + target, func(d *Doc) {
			if y := d.dir(name); y != nil {
				do(y)
			}
		}}
	}
	switch g.n(0, 8, "dirOp") {
	case 0:
		return Edit{target, "remove " + target, func(d *Doc) {
			var r []*DirDef
			for _, y := range d.Dirs {
				if y.Name != name {
					r = append(r, y)
				}
			}
			d.Dirs = r
		}}
	case 1:
		n := g.otherDesc(x.Desc)
		return on("describe", "desc", func(x *DirDef) { x.Desc = n })
	case 2:
		return on("repeatable", "repeatable", func(x *DirDef) { x.Repeatable = !x.Repeatable })
	case 3, 4:
		l := pickLocs(g)
		keep := g.n(0, 1, "keepLocs") == 1
		return on("locations", "locs", func(x *DirDef) {
			if keep {
				for _, s := range l {
					if !hasStr(x.Locs, s) {
						x.Locs = append(x.Locs, s)
					}
				}
			} else {
				x.Locs = append([]string(nil), l...)
			}
		})
	default:
		if len(x.Args) == 0 || g.n(0, 2, "addDirArg") == 2 {
			taken := map[string]bool{}
			for _, a := range x.Args {
				taken[a.Name] = true
			}
			a := g.arg(g.distinct(namePool, 1, "newArg", taken)[0])
			return on("add arg", "arg."+a.Name, func(x *DirDef) { x.Args = append(x.Args, a.Clone()) })
		}
		a := x.Args[g.n(0, len(x.Args)-1, "argIdx")]
		an := a.Name
		ed := g.editArg(a)
		return on("arg", "arg."+an, func(x *DirDef) { x.Args = ed(x.Args, an) })
	}
}

// editRoot replaces all schema blocks.
func (g *gen) editRoot() Edit {
	n := g.schemaBlocks()
	return Edit{"schema", "schema", func(d *Doc) {
		d.Schemas = nil
		for _, s := range n {
			d.Schemas = append(d.Schemas, s.Clone())
		}
	}}
}

// pair draws an old and a new document: mostly a base and some edits, sometimes two of their own.
func genPair(t *rapid.T, cfg GenCfg) (*Doc, *Doc, string) {
	g := &gen{t: t, cfg: cfg}
	old := g.doc()
	mode := g.n(0, 9, "pairMode")
	if mode == 9 {
		other := g.doc()
		if g.n(0, 7, "rename") == 7 {
			g.renamed(old, other)
		}
		return old, other, "independent"
	}
	nw := old.Clone()
	k := g.n(1, 6, "nEdits")
	edited := "edited"
	if b := g.bulk; b != nil {
		edited = "bulk " + b.kind
		if g.n(0, 3, "bulkDiffers") > 0 {
			g.bulkDiffer(b, nw)
			k = g.n(0, 2, "nEditsToo")
		}
	}
	for i := 0; i < k; i++ {
		if g.n(0, 3, "wildEdit") == 3 {
			nw = g.wild(nw)
			continue
		}
		e := g.edit(nw)
		e.Do(nw)
	}
	if mode >= 7 {
		nw = g.shuffleDoc(nw)
	}
	if g.n(0, 7, "rename") == 7 {
		g.renamed(old, nw)
	}
	if mode == 8 {
		if edited == "edited" {
			edited = "edited-reverse"
		}
		return nw, old, edited
	}
	return old, nw, edited
}

func perm[T any](t *rapid.T, l []T, label string) []T {
	if len(l) < 2 {
		return l
	}
	return rapid.Permutation(l).Draw(t, label)
}

// shuffleDoc reorders everything whose order has no meaning.
func (g *gen) shuffleDoc(d *Doc) *Doc {
	d = d.Clone()
	t := g.t
	d.Types = perm(t, d.Types, "oTypes")
	d.Dirs = perm(t, d.Dirs, "oDirs")
	d.Schemas = perm(t, d.Schemas, "oSchemas")
	for _, x := range d.Types {
		x.Ifaces = perm(t, x.Ifaces, "oIfaces")
		x.Members = perm(t, x.Members, "oMembers")
		x.Fields = perm(t, x.Fields, "oFields")
		x.Vals = perm(t, x.Vals, "oVals")
		x.Dirs = g.shuffleUses(x.Dirs)
		for _, f := range x.Fields {
			f.Args = perm(t, f.Args, "oArgs")
			f.Dirs = g.shuffleUses(f.Dirs)
		}
		for _, f := range x.Vals {
			f.Dirs = g.shuffleUses(f.Dirs)
		}
	}
	for _, x := range d.Dirs {
		x.Args = perm(t, x.Args, "oArgs")
		x.Locs = perm(t, x.Locs, "oLocs")
	}
	for _, x := range d.Schemas {
		x.Ops = perm(t, x.Ops, "oOps")
	}
	return d
}

func (g *gen) shuffleUses(ds []DirUse) []DirUse {
	ds = perm(g.t, ds, "oUses")
	for i := range ds {
		ds[i].Args = perm(g.t, ds[i].Args, "oUseArgs")
	}
	return ds
}

// editUses edits the directives applied to one type or one of its fields.
func (g *gen) editUses(d *Doc) Edit {
	t := d.Types[g.where(0, len(d.Types), "typeIdx")]
	ext, name := t.Ext, t.Name
	key := t.key()
	if len(t.Fields) > 0 && g.n(0, 3, "onField") > 0 {
		f := t.Fields[g.where(1, len(t.Fields), "fieldIdx")]
		fn := f.Name
		n := g.otherUses(f.Dirs)
		return Edit{key + "." + fn + "#dirs", "directives " + key + "." + fn, func(d *Doc) {
			for _, b := range blocksOf(d, ext, name) {
				if x := b.field(fn); x != nil {
					x.Dirs = cloneDirs(n)
				}
			}
		}}
	}
	n := g.otherUses(t.Dirs)
	return Edit{key + "#dirs", "directives " + key, func(d *Doc) {
		bs := blocksOf(d, ext, name)
		if len(bs) == 0 {
			return
		}
		b := bs[0]
		old := b.Dirs
		b.Dirs = cloneDirs(n)
		if b.Ext && b.empty() {
			b.Dirs = old
		}
	}}
}

// editRootOp changes, removes, adds or moves one root operation, or drops or adds a schema block.
func (g *gen) editRootOp(d *Doc) Edit {
	n := &Doc{}
	for _, s := range d.Schemas {
		n.Schemas = append(n.Schemas, s.Clone())
	}
	op := g.pick(rootOps, "op")
	var at *SchemaBlk
	idx := -1
	for _, s := range n.Schemas {
		for i, o := range s.Ops {
			if o.Op == op {
				at, idx = s, i
			}
		}
	}
	switch {
	case at == nil:
		if len(n.Schemas) > 0 && g.n(0, 2, "newBlk") > 0 {
			s := n.Schemas[g.n(0, len(n.Schemas)-1, "blk")]
			s.Ops = append(s.Ops, RootOp{op, g.rootType(op)})
		} else {
			hasDef := false
			for _, s := range n.Schemas {
				hasDef = hasDef || !s.Ext
			}
			n.Schemas = append(n.Schemas, &SchemaBlk{Ext: hasDef || g.n(0, 1, "ext") == 1, Ops: []RootOp{{op, g.rootType(op)}}})
		}
	case g.n(0, 2, "rootEdit") == 0:
		at.Ops[idx].Type = g.rootType(op)
	case g.n(0, 1, "drop") == 0:
		at.Ops = append(at.Ops[:idx], at.Ops[idx+1:]...)
	default: // move to another block
		o := at.Ops[idx]
		at.Ops = append(at.Ops[:idx], at.Ops[idx+1:]...)
		n.Schemas = append(n.Schemas, &SchemaBlk{Ext: true, Ops: []RootOp{o}})
	}
	var keep []*SchemaBlk
	for _, s := range n.Schemas {
		if len(s.Ops) > 0 || s.Ext && len(s.Dirs) > 0 {
			keep = append(keep, s)
		}
	}
	return Edit{"schema", "schema", func(d *Doc) {
		d.Schemas = nil
		for _, s := range keep {
			d.Schemas = append(d.Schemas, s.Clone())
		}
	}}
}
