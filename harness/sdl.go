package main

import (
	"sort"
	"strings"
)

// The SDL model the generators produce, the printer renders and the reference oracles interpret.
// It is independent of gqlparser's ast package.

type Value struct {
	K string // int float string bool null enum list object
	S string // decoded text (string) or literal text
	L []*Value
	O []ObjField
}

type ObjField struct {
	Name string
	V    *Value
}

// Canon is a canonical text: two values are the same value exactly when their canons are equal.
func (v *Value) Canon() string {
	if v == nil {
		return "absent"
	}
	switch v.K {
	case "list":
		var p []string
		for _, e := range v.L {
			p = append(p, e.Canon())
		}
		return "[" + strings.Join(p, ",") + "]"
	case "object":
		var p []string
		for _, e := range v.O {
			p = append(p, e.Name+":"+e.V.Canon())
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return v.K + "(" + v.S + ")"
}

type TypeRef struct {
	Name    string
	Elem    *TypeRef
	NonNull bool
}

func (t *TypeRef) String() string {
	s := t.Name
	if t.Elem != nil {
		s = "[" + t.Elem.String() + "]"
	}
	if t.NonNull {
		s += "!"
	}
	return s
}

func (t *TypeRef) Base() string {
	for t.Elem != nil {
		t = t.Elem
	}
	return t.Name
}

func (t *TypeRef) Clone() *TypeRef {
	if t == nil {
		return nil
	}
	c := *t
	c.Elem = t.Elem.Clone()
	return &c
}

type DirUse struct {
	Name string
	Args []ObjField
}

func (d DirUse) arg(n string) *Value {
	for _, a := range d.Args {
		if a.Name == n {
			return a.V
		}
	}
	return nil
}

// canonArgs is independent of the order of the arguments.
func (d DirUse) canonArgs() string {
	var p []string
	for _, a := range d.Args {
		p = append(p, a.Name+":"+a.V.Canon())
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

type Arg struct {
	Name    string
	Desc    string
	Type    *TypeRef
	Default *Value
	Dirs    []DirUse
}

type Field struct {
	Name    string
	Desc    string
	Args    []*Arg
	Type    *TypeRef
	Default *Value // input fields
	Dirs    []DirUse
}

type EnumVal struct {
	Name string
	Desc string
	Dirs []DirUse
}

// Kinds of types.
const (
	kScalar    = "scalar"
	kObject    = "type"
	kInterface = "interface"
	kUnion     = "union"
	kEnum      = "enum"
	kInput     = "input"
)

var allKinds = []string{kObject, kInput, kEnum, kInterface, kUnion, kScalar}

type Type struct {
	Ext     bool
	Kind    string
	Name    string
	Desc    string
	Ifaces  []string
	Fields  []*Field
	Vals    []*EnumVal
	Members []string
	Dirs    []DirUse
	File    int // index of the file it is printed in
}

type DirDef struct {
	Name       string
	Desc       string
	Args       []*Arg
	Repeatable bool
	Locs       []string
	File       int
}

type RootOp struct{ Op, Type string }

type SchemaBlk struct {
	Ext  bool
	Desc string
	Dirs []DirUse
	Ops  []RootOp
	File int
}

type Doc struct {
	Types   []*Type
	Dirs    []*DirDef
	Schemas []*SchemaBlk
}

func cloneDirs(d []DirUse) []DirUse {
	var r []DirUse
	for _, x := range d {
		r = append(r, DirUse{x.Name, append([]ObjField(nil), x.Args...)})
	}
	return r
}

func (a *Arg) Clone() *Arg {
	c := *a
	c.Type = a.Type.Clone()
	c.Dirs = cloneDirs(a.Dirs)
	return &c
}

func cloneArgs(as []*Arg) []*Arg {
	var r []*Arg
	for _, a := range as {
		r = append(r, a.Clone())
	}
	return r
}

func (f *Field) Clone() *Field {
	c := *f
	c.Args = cloneArgs(f.Args)
	c.Type = f.Type.Clone()
	c.Dirs = cloneDirs(f.Dirs)
	return &c
}

func (t *Type) Clone() *Type {
	c := *t
	c.Ifaces = append([]string(nil), t.Ifaces...)
	c.Members = append([]string(nil), t.Members...)
	c.Dirs = cloneDirs(t.Dirs)
	c.Fields = nil
	for _, f := range t.Fields {
		c.Fields = append(c.Fields, f.Clone())
	}
	c.Vals = nil
	for _, v := range t.Vals {
		x := *v
		x.Dirs = cloneDirs(v.Dirs)
		c.Vals = append(c.Vals, &x)
	}
	return &c
}

func (d *DirDef) Clone() *DirDef {
	c := *d
	c.Args = cloneArgs(d.Args)
	c.Locs = append([]string(nil), d.Locs...)
	return &c
}

func (s *SchemaBlk) Clone() *SchemaBlk {
	c := *s
	c.Dirs = cloneDirs(s.Dirs)
	c.Ops = append([]RootOp(nil), s.Ops...)
	return &c
}

func (d *Doc) Clone() *Doc {
	c := &Doc{}
	for _, t := range d.Types {
		c.Types = append(c.Types, t.Clone())
	}
	for _, t := range d.Dirs {
		c.Dirs = append(c.Dirs, t.Clone())
	}
	for _, t := range d.Schemas {
		c.Schemas = append(c.Schemas, t.Clone())
	}
	return c
}

// merged returns the definitions (ext false) or the extensions (ext true) by name, the blocks of
// one name combined into one.
func (d *Doc) merged(ext bool) map[string]*Type {
	m := map[string]*Type{}
	for _, t := range d.Types {
		if t.Ext != ext {
			continue
		}
		x := m[t.Name]
		if x == nil {
			m[t.Name] = t.Clone()
			continue
		}
		c := t.Clone()
		x.Ifaces = append(x.Ifaces, c.Ifaces...)
		x.Fields = append(x.Fields, c.Fields...)
		x.Vals = append(x.Vals, c.Vals...)
		x.Members = append(x.Members, c.Members...)
		x.Dirs = append(x.Dirs, c.Dirs...)
	}
	return m
}

func (d *Doc) find(ext bool, name string) *Type {
	for _, t := range d.Types {
		if t.Ext == ext && t.Name == name {
			return t
		}
	}
	return nil
}

func (t *Type) field(n string) *Field {
	for _, f := range t.Fields {
		if f.Name == n {
			return f
		}
	}
	return nil
}

func (t *Type) val(n string) *EnumVal {
	for _, f := range t.Vals {
		if f.Name == n {
			return f
		}
	}
	return nil
}

func findArg(as []*Arg, n string) *Arg {
	for _, a := range as {
		if a.Name == n {
			return a
		}
	}
	return nil
}

func (d *Doc) dir(n string) *DirDef {
	for _, x := range d.Dirs {
		if x.Name == n {
			return x
		}
	}
	return nil
}

func usesNamed(ds []DirUse, n string) []DirUse {
	var r []DirUse
	for _, d := range ds {
		if d.Name == n {
			r = append(r, d)
		}
	}
	return r
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// empty says whether an extension block would extend nothing, which the grammar forbids.
func (t *Type) empty() bool {
	return len(t.Ifaces) == 0 && len(t.Fields) == 0 && len(t.Vals) == 0 && len(t.Members) == 0 && len(t.Dirs) == 0
}
