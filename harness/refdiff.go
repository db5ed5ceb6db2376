package main

import (
	"fmt"
	"sort"
	"strings"
)

// The reference comparison: what the properties say must be reported, computed on the model.

const (
	sevNon  = 0
	sevDang = 1
	sevBrk  = 2
)

var sevName = []string{"NonBreaking", "Dangerous", "Breaking"}

// Exp is one expected change.
type Exp struct {
	T    string   // change type
	Sev  int      // severity
	Path string   // path; "*" when any
	Who  []string // names the message must contain (used to tell changes of one path apart)
	Also []string // further names and values the message must contain (judged by C12 only)
	Old  []string // span keys in the old rendering acceptable as position
	New  []string // span keys in the new rendering acceptable as position
	From string   // old text the message must quote, followed closely by To; "" when not judged
	To   string
	Dep  int // the removed element was deprecated: 1, was not: 2, not judged: 0
}

func (e Exp) String() string {
	return fmt.Sprintf("%s %s path=%q mentioning %v", sevName[e.Sev], e.T, e.Path, e.Who)
}

func (e Exp) key() string {
	return fmt.Sprintf("%s|%d|%s|%s", e.T, e.Sev, e.Path, strings.Join(e.Who, "|"))
}

// valuesOf enumerates the values of a type over a small universe: null, one atom per named type,
// and lists of at most one element (two-element lists add nothing to inclusion).
func valuesOf(t *TypeRef) map[string]bool {
	m := map[string]bool{}
	if t.Elem == nil {
		m["atom:"+t.Name] = true
	} else {
		m["[]"] = true
		for v := range valuesOf(t.Elem) {
			m["["+v+"]"] = true
		}
	}
	if !t.NonNull {
		m["null"] = true
	}
	return m
}

func included(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// outputSafe: every value of the new type is a value of the old type.
func outputSafe(o, n *TypeRef) bool { return included(valuesOf(n), valuesOf(o)) }

// inputSafe: every value the old type accepted is accepted by the new type.
func inputSafe(o, n *TypeRef) bool { return included(valuesOf(o), valuesOf(n)) }

func required(t *TypeRef, def *Value) bool { return t.NonNull && def == nil }

func reasonOf(d DirUse) string {
	if v := d.arg("reason"); v != nil {
		return v.Canon()
	}
	return (&Value{K: "string", S: "No longer supported"}).Canon()
}

func depOf(ds []DirUse) *DirUse {
	for i := range ds {
		if ds[i].Name == "deprecated" {
			return &ds[i]
		}
	}
	return nil
}

type differ struct {
	out []Exp
}

func (x *differ) add(e Exp) { x.out = append(x.out, e) }

func sevIf(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// simpleValue gives the text a message must show for a value, when that text is beyond doubt.
func simpleValue(v *Value) []string {
	if v == nil {
		return nil
	}
	switch v.K {
	case "int", "float", "bool", "enum", "null":
		return []string{v.S}
	}
	return nil
}

var kindName = map[string]string{kObject: "OBJECT", kInterface: "INTERFACE", kUnion: "UNION", kEnum: "ENUM", kInput: "INPUT_OBJECT", kScalar: "SCALAR"}

// quotable is the text of a value when every way of printing it contains that text, else "".
func quotable(v *Value) string {
	if v == nil || v.S == "" || v.K == "list" || v.K == "object" {
		return ""
	}
	for i := 0; i < len(v.S); i++ {
		if !isNameByte(v.S[i]) && v.S[i] != '.' && v.S[i] != '-' {
			return ""
		}
	}
	return v.S
}

// bothText is the text of a when both values are quotable.
func bothText(a, b *Value) string {
	if quotable(b) == "" {
		return ""
	}
	return quotable(a)
}

// refDiff computes the expected changes between two documents.
func refDiff(o, n *Doc) []Exp {
	x := &differ{}
	x.roots(o, n)
	for _, ext := range []bool{false, true} {
		x.types(o.merged(ext), n.merged(ext), o.merged(false), ext)
	}
	x.dirDefs(o, n)
	return x.out
}

// effectiveRoots gives the root type of each operation, and whether any is declared.
func effectiveRoots(d *Doc) (map[string]string, map[string][]string, bool) {
	roots := map[string]string{}
	where := map[string][]string{}
	explicit, block := false, false
	for _, s := range d.Schemas {
		if !s.Ext {
			block = true
		}
		for _, o := range s.Ops {
			explicit = true
			roots[o.Op] = o.Type
			where[o.Op] = []string{"root:" + o.Op}
		}
	}
	if !block {
		for op, tn := range map[string]string{"query": "Query", "mutation": "Mutation", "subscription": "Subscription"} {
			if roots[op] != "" {
				continue
			}
			for _, t := range d.Types {
				if t.Name == tn && t.Kind == kObject {
					roots[op] = tn
					where[op] = append(where[op], t.key())
				}
			}
		}
	}
	return roots, where, explicit
}

func (x *differ) roots(o, n *Doc) {
	or, ow, oe := effectiveRoots(o)
	nr, nw, ne := effectiveRoots(n)
	if !oe && !ne {
		return
	}
	for _, op := range rootOps {
		a, b := or[op], nr[op]
		if a == b {
			continue
		}
		e := Exp{T: "SCHEMA_" + strings.ToUpper(op) + "_TYPE_CHANGED", Sev: sevIf(a == "", sevNon, sevBrk), Path: "*", Also: []string{op}}
		if b == "" {
			e.Old = append(ow[op], "schema")
			e.New = []string{"schema"}
		} else {
			e.New = nw[op]
		}
		if a != "" && b != "" {
			e.From, e.To = a, b
		}
		x.add(e)
	}
}

// needed: the extension e adds fields that users of the input type d must supply.
func needed(d, e *Type) bool {
	if d == nil || d.Kind != kInput || e.Kind != kInput {
		return false
	}
	for _, f := range e.Fields {
		if required(f.Type, f.Default) && d.field(f.Name) == nil {
			return true
		}
	}
	return false
}

func (x *differ) types(o, n, defs map[string]*Type, ext bool) {
	for _, name := range sortedKeys(o) {
		ot, nt := o[name], n[name]
		if nt == nil {
			x.add(Exp{T: "TYPE_REMOVED", Sev: sevBrk, Path: name, Who: []string{name}, Old: []string{ot.key()}})
			continue
		}
		x.typ(ot, nt)
	}
	for _, name := range sortedKeys(n) {
		if o[name] == nil {
			x.add(Exp{T: "TYPE_ADDED", Sev: sevIf(ext && needed(defs[name], n[name]), sevBrk, sevNon), Path: name, Who: []string{name}, New: []string{n[name].key()}})
		}
	}
}

func (x *differ) typ(o, n *Type) {
	key := []string{n.key()}
	if o.Kind != n.Kind {
		x.add(Exp{T: "TYPE_KIND_CHANGED", Sev: sevBrk, Path: n.Name, Who: []string{n.Name}, From: kindName[o.Kind], To: kindName[n.Kind], New: key})
	}
	if o.Desc != n.Desc {
		x.add(Exp{T: "TYPE_DESCRIPTION_CHANGED", Sev: sevNon, Path: n.Name, Who: []string{n.Name}, New: key})
	}
	if o.Kind != n.Kind {
		return
	}
	switch o.Kind {
	case kEnum:
		x.enum(o, n)
	case kInput:
		x.input(o, n)
	case kUnion:
		for _, m := range o.Members {
			if !hasStr(n.Members, m) {
				x.add(Exp{T: "UNION_MEMBER_REMOVED", Sev: sevBrk, Path: n.Name, Who: []string{m, n.Name}, Old: []string{o.key()}, New: key})
			}
		}
		for _, m := range n.Members {
			if !hasStr(o.Members, m) {
				x.add(Exp{T: "UNION_MEMBER_ADDED", Sev: sevDang, Path: n.Name, Who: []string{m, n.Name}, New: key})
			}
		}
	case kObject, kInterface:
		if o.Kind == kObject {
			for _, m := range o.Ifaces {
				if !hasStr(n.Ifaces, m) {
					x.add(Exp{T: "OBJECT_TYPE_INTERFACE_REMOVED", Sev: sevBrk, Path: n.Name, Who: []string{m, n.Name}, Old: []string{o.key()}, New: key})
				}
			}
			for _, m := range n.Ifaces {
				if !hasStr(o.Ifaces, m) {
					x.add(Exp{T: "OBJECT_TYPE_INTERFACE_ADDED", Sev: sevDang, Path: n.Name, Who: []string{m, n.Name}, New: key})
				}
			}
		}
		x.uses(o.Dirs, n.Dirs, n.Name, n.key(), o.key())
		x.fields(o, n)
	}
}

func (x *differ) enum(o, n *Type) {
	for _, ov := range o.Vals {
		path := o.Name + "." + ov.Name
		k := o.key() + "." + ov.Name
		nv := n.val(ov.Name)
		who := []string{ov.Name, o.Name}
		if nv == nil {
			x.add(Exp{T: "ENUM_VALUE_REMOVED", Sev: sevBrk, Path: path, Who: who, Old: []string{k}, New: []string{n.key()}, Dep: depKind(ov.Dirs)})
			continue
		}
		nk := []string{n.key() + "." + nv.Name}
		if ov.Desc != nv.Desc {
			x.add(Exp{T: "ENUM_VALUE_DESCRIPTION_CHANGED", Sev: sevNon, Path: path, Who: who, New: nk})
		}
		x.deprecation("ENUM_VALUE", ov.Dirs, nv.Dirs, path, who, nk)
	}
	for _, nv := range n.Vals {
		if o.val(nv.Name) == nil {
			x.add(Exp{T: "ENUM_VALUE_ADDED", Sev: sevDang, Path: o.Name + "." + nv.Name, Who: []string{nv.Name, o.Name}, New: []string{n.key() + "." + nv.Name}})
		}
	}
}

func depKind(d []DirUse) int {
	if depOf(d) != nil {
		return 1
	}
	return 2
}

func (x *differ) deprecation(prefix string, od, nd []DirUse, path string, who, nk []string) {
	a, b := depOf(od), depOf(nd)
	switch {
	case a == nil && b != nil:
		x.add(Exp{T: prefix + "_DEPRECATION_ADDED", Sev: sevDang, Path: path, Who: who, New: nk})
	case a != nil && b == nil:
		x.add(Exp{T: prefix + "_DEPRECATION_REMOVED", Sev: sevDang, Path: path, Who: who, New: nk})
	case a != nil && b != nil && reasonOf(*a) != reasonOf(*b):
		x.add(Exp{T: prefix + "_DEPRECATION_REASON_CHANGED", Sev: sevNon, Path: path, Who: who, New: nk})
	}
}

func (x *differ) fields(o, n *Type) {
	for _, of := range o.Fields {
		path := o.Name + "." + of.Name
		nf := n.field(of.Name)
		who := []string{of.Name, o.Name}
		if nf == nil {
			x.add(Exp{T: "FIELD_REMOVED", Sev: sevBrk, Path: path, Who: who, Old: []string{o.key() + "." + of.Name}, New: []string{n.key()}, Dep: depKind(of.Dirs)})
			continue
		}
		k := n.key() + "." + nf.Name
		if of.Type.String() != nf.Type.String() {
			x.add(Exp{T: "FIELD_TYPE_CHANGED", Sev: sevIf(outputSafe(of.Type, nf.Type), sevNon, sevBrk), Path: path, Who: who, From: of.Type.String(), To: nf.Type.String(), New: []string{k}})
		}
		if of.Desc != nf.Desc {
			x.add(Exp{T: "FIELD_DESCRIPTION_CHANGED", Sev: sevNon, Path: path, Who: who, New: []string{k}})
		}
		x.deprecation("FIELD", of.Dirs, nf.Dirs, path, who, []string{k})
		for _, oa := range of.Args {
			na := findArg(nf.Args, oa.Name)
			apath := path + "." + oa.Name
			awho := []string{oa.Name, of.Name, o.Name}
			if na == nil {
				x.add(Exp{T: "FIELD_ARGUMENT_REMOVED", Sev: sevBrk, Path: apath, Who: awho, Also: []string{oa.Type.String()}, Old: []string{o.key() + "." + of.Name + "." + oa.Name}, New: []string{k}})
				continue
			}
			ak := []string{k + "." + na.Name}
			if oa.Type.String() != na.Type.String() {
				x.add(Exp{T: "FIELD_ARGUMENT_TYPE_CHANGED", Sev: sevIf(inputSafe(oa.Type, na.Type), sevNon, sevBrk), Path: apath, Who: awho, From: oa.Type.String(), To: na.Type.String(), New: ak})
			}
			if oa.Default.Canon() != na.Default.Canon() {
				x.add(Exp{T: "FIELD_ARGUMENT_DEFAULT_CHANGED", Sev: x.defaultSev(oa.Type, na.Type, oa.Default, na.Default), Path: apath, Who: awho, Also: append(simpleValue(oa.Default), simpleValue(na.Default)...), From: bothText(oa.Default, na.Default), To: bothText(na.Default, oa.Default), New: ak})
			}
			if oa.Desc != na.Desc {
				x.add(Exp{T: "FIELD_ARGUMENT_DESCRIPTION_CHANGED", Sev: sevNon, Path: apath, Who: awho, New: ak})
			}
		}
		for _, na := range nf.Args {
			if findArg(of.Args, na.Name) == nil {
				x.add(Exp{T: "FIELD_ARGUMENT_ADDED", Sev: sevIf(required(na.Type, na.Default), sevBrk, sevDang), Path: path + "." + na.Name, Who: []string{na.Name, of.Name, o.Name}, Also: []string{na.Type.String()}, New: []string{k + "." + na.Name}})
			}
		}
		x.uses(of.Dirs, nf.Dirs, path, k, o.key()+"."+of.Name)
	}
	for _, nf := range n.Fields {
		if o.field(nf.Name) == nil {
			x.add(Exp{T: "FIELD_ADDED", Sev: sevNon, Path: o.Name + "." + nf.Name, Who: []string{nf.Name, o.Name}, New: []string{n.key() + "." + nf.Name}})
		}
	}
}

// defaultSev: losing the default of a non-null element obliges callers to supply it.
func (x *differ) defaultSev(ot, nt *TypeRef, od, nd *Value) int {
	if required(nt, nd) && od != nil {
		return sevBrk
	}
	return sevDang
}

func (x *differ) input(o, n *Type) {
	for _, of := range o.Fields {
		path := o.Name + "." + of.Name
		nf := n.field(of.Name)
		who := []string{of.Name, o.Name}
		if nf == nil {
			x.add(Exp{T: "INPUT_FIELD_REMOVED", Sev: sevBrk, Path: path, Who: who, Old: []string{o.key() + "." + of.Name}, New: []string{n.key()}, Dep: depKind(of.Dirs)})
			continue
		}
		k := n.key() + "." + nf.Name
		nk := []string{k}
		if of.Type.String() != nf.Type.String() {
			x.add(Exp{T: "INPUT_FIELD_TYPE_CHANGED", Sev: sevIf(inputSafe(of.Type, nf.Type), sevNon, sevBrk), Path: path, Who: who, From: of.Type.String(), To: nf.Type.String(), New: nk})
		}
		if of.Default.Canon() != nf.Default.Canon() {
			x.add(Exp{T: "INPUT_FIELD_DEFAULT_VALUE_CHANGED", Sev: x.defaultSev(of.Type, nf.Type, of.Default, nf.Default), Path: path, Who: who, Also: append(simpleValue(of.Default), simpleValue(nf.Default)...), From: bothText(of.Default, nf.Default), To: bothText(nf.Default, of.Default), New: nk})
		}
		if of.Desc != nf.Desc {
			x.add(Exp{T: "INPUT_FIELD_DESCRIPTION_CHANGED", Sev: sevNon, Path: path, Who: who, New: nk})
		}
		x.deprecation("INPUT_FIELD", of.Dirs, nf.Dirs, path, who, nk)
		x.uses(of.Dirs, nf.Dirs, path, k, o.key()+"."+of.Name)
	}
	for _, nf := range n.Fields {
		if o.field(nf.Name) == nil {
			x.add(Exp{T: "INPUT_FIELD_ADDED", Sev: sevIf(required(nf.Type, nf.Default), sevBrk, sevDang), Path: o.Name + "." + nf.Name, Who: []string{nf.Name, o.Name}, New: []string{n.key() + "." + nf.Name}})
		}
	}
}

// uses compares the directives applied to one element.
func (x *differ) uses(od, nd []DirUse, path, nkey, okey string) {
	seen := map[string]bool{}
	var names []string
	for _, l := range [][]DirUse{od, nd} {
		for _, d := range l {
			if d.Name != "deprecated" && !seen[d.Name] {
				seen[d.Name] = true
				names = append(names, d.Name)
			}
		}
	}
	owner := strings.Split(path, ".")
	for _, name := range names {
		o, n := usesNamed(od, name), usesNamed(nd, name)
		who := append([]string{name}, owner...)
		el := []string{nkey}
		useKey := append([]string{nkey + "@" + name}, el...)
		switch {
		case len(n) == 0:
			for range o {
				x.add(Exp{T: "DIRECTIVE_REMOVED", Sev: sevDang, Path: path, Who: who, Old: []string{okey}, New: el})
			}
		case len(o) == 0:
			for range n {
				x.add(Exp{T: "DIRECTIVE_ADDED", Sev: sevNon, Path: path, Who: who, New: useKey})
			}
		case len(o) == 1 && len(n) == 1:
			for _, a := range o[0].Args {
				b := n[0].arg(a.Name)
				awho := append([]string{a.Name}, who...)
				if b == nil {
					x.add(Exp{T: "DIRECTIVE_ARGUMENT_REMOVED", Sev: sevDang, Path: "@" + name + "." + a.Name, Who: awho, Old: []string{okey}, New: useKey})
				} else if a.V.Canon() != b.Canon() {
					x.add(Exp{T: "DIRECTIVE_ARGUMENT_VALUE_CHANGED", Sev: sevDang, Path: "@" + name + "." + a.Name, Who: awho, Also: append(simpleValue(a.V), simpleValue(b)...), From: bothText(a.V, b), To: bothText(b, a.V), New: useKey})
				}
			}
			for _, b := range n[0].Args {
				if o[0].arg(b.Name) == nil {
					x.add(Exp{T: "DIRECTIVE_ARGUMENT_ADDED", Sev: sevNon, Path: path + ".@" + name, Who: append([]string{b.Name}, who...), New: useKey})
				}
			}
		default:
			oc, nc := map[string]bool{}, map[string]bool{}
			for _, d := range o {
				oc[d.canonArgs()] = true
			}
			for _, d := range n {
				nc[d.canonArgs()] = true
			}
			lostO, lostN := 0, 0
			for _, d := range o {
				if !nc[d.canonArgs()] {
					lostO++
					x.add(Exp{T: "DIRECTIVE_CHANGED", Sev: sevDang, Path: path, Who: who, New: useKey, Old: []string{okey}})
				}
			}
			for _, d := range n {
				if !oc[d.canonArgs()] {
					lostN++
				}
			}
			// instances beyond those that replace a lost one are additions
			for i := lostO; i < lostN; i++ {
				x.add(Exp{T: "DIRECTIVE_ADDED", Sev: sevNon, Path: path, Who: who, New: useKey})
			}
		}
	}
}

func (x *differ) dirDefs(o, n *Doc) {
	for _, od := range o.Dirs {
		path := "@" + od.Name
		nd := n.dir(od.Name)
		if nd == nil {
			x.add(Exp{T: "DIRECTIVE_REMOVED", Sev: sevBrk, Path: path, Who: []string{od.Name}, Old: []string{"dir:" + od.Name}})
			continue
		}
		k := "dir:" + nd.Name
		nk := []string{k}
		who := []string{od.Name}
		if od.Desc != nd.Desc {
			x.add(Exp{T: "DIRECTIVE_DESCRIPTION_CHANGED", Sev: sevNon, Path: path, Who: who, New: nk})
		}
		for _, l := range od.Locs {
			if !hasStr(nd.Locs, l) {
				x.add(Exp{T: "DIRECTIVE_LOCATION_REMOVED", Sev: sevBrk, Path: path, Who: []string{l, od.Name}, New: nk, Old: []string{"dir:" + od.Name}})
			}
		}
		for _, l := range nd.Locs {
			if !hasStr(od.Locs, l) {
				x.add(Exp{T: "DIRECTIVE_LOCATION_ADDED", Sev: sevNon, Path: path, Who: []string{l, od.Name}, New: nk})
			}
		}
		if od.Repeatable && !nd.Repeatable {
			x.add(Exp{T: "DIRECTIVE_REPEATABLE_REMOVED", Sev: sevBrk, Path: path, Who: who, New: nk})
		}
		if !od.Repeatable && nd.Repeatable {
			x.add(Exp{T: "DIRECTIVE_REPEATABLE_ADDED", Sev: sevNon, Path: path, Who: who, New: nk})
		}
		for _, oa := range od.Args {
			na := findArg(nd.Args, oa.Name)
			apath := path + "." + oa.Name
			awho := []string{oa.Name, od.Name}
			if na == nil {
				x.add(Exp{T: "DIRECTIVE_ARGUMENT_REMOVED", Sev: sevBrk, Path: apath, Who: awho, New: nk, Old: []string{"dir:" + od.Name + "." + oa.Name}})
				continue
			}
			ak := []string{k + "." + na.Name}
			if oa.Type.String() != na.Type.String() {
				x.add(Exp{T: "DIRECTIVE_ARGUMENT_TYPE_CHANGED", Sev: sevIf(inputSafe(oa.Type, na.Type), sevNon, sevBrk), Path: apath, Who: awho, From: oa.Type.String(), To: na.Type.String(), New: ak})
			}
			if oa.Default.Canon() != na.Default.Canon() {
				x.add(Exp{T: "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", Sev: x.defaultSev(oa.Type, na.Type, oa.Default, na.Default), Path: apath, Who: awho, Also: append(simpleValue(oa.Default), simpleValue(na.Default)...), From: bothText(oa.Default, na.Default), To: bothText(na.Default, oa.Default), New: ak})
			}
			if oa.Desc != na.Desc {
				x.add(Exp{T: "DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED", Sev: sevNon, Path: apath, Who: awho, New: ak})
			}
		}
		for _, na := range nd.Args {
			if findArg(od.Args, na.Name) == nil {
				x.add(Exp{T: "DIRECTIVE_ARGUMENT_ADDED", Sev: sevIf(required(na.Type, na.Default), sevBrk, sevNon), Path: path + "." + na.Name, Who: []string{na.Name, od.Name}, Also: []string{na.Type.String()}, New: []string{k + "." + na.Name}})
			}
		}
	}
	for _, nd := range n.Dirs {
		if o.dir(nd.Name) == nil {
			x.add(Exp{T: "DIRECTIVE_ADDED", Sev: sevNon, Path: "@" + nd.Name, Who: []string{nd.Name}, New: []string{"dir:" + nd.Name}})
		}
	}
}
