package main

import "strings"

// Code may treat names by how they look: reserved prefixes, built-in names, case, length, digits.
// renamed gives the names of documents, all of one class alike, other looks.

var oddNames = []string{"__Type", "__typename", "__schema", "_", "__", "Int", "String", "Boolean", "ID", "DateTime", "null", "true", "on", "schema", "extend", "directive", "implements", "repeatable", "fragment", "deprecated", "skip", "include", "specifiedBy", "oneOf", "Deprecated", "query", "Query", "mutation", "QUERY", "id", "Id", "iD", "ID_", "node", "Nodes", "UserInput", "InputUser", "EnumRole", "_Entity", "_Any", "Connection", "Edge", "constructor", "toString", "x0", "x00", "x10", "x9"}

func (g *gen) renamed(docs ...*Doc) {
	class := func(label string, never ...string) func(string) string {
		m := map[string]string{}
		used := map[string]bool{}
		for _, n := range never {
			used[n] = true
		}
		return func(s string) string {
			if n, ok := m[s]; ok {
				return n
			}
			n := s
			switch g.n(0, 5, label+"Look") {
			case 0, 1:
			case 2:
				n = g.pick([]string{"_", "__", "___", "_0", "Z", "z", "__Z"}, label+"Lead") + s
			case 3:
				n = strings.Repeat(g.pick([]string{"n", "Long", "a_"}, label+"Part"), g.n(10, 150, label+"Len")) + s
			case 4:
				n = g.pick(oddNames, label+"Odd")
			case 5:
				n = s + g.pick([]string{"0", "00", "1", "_", "__", "s", "Type", "Input", "_v2"}, label+"Trail")
			}
			for used[n] || hasStr(never, n) {
				n += "_"
			}
			used[n] = true
			m[s] = n
			return n
		}
	}
	types, fields, vals := class("type"), class("field"), class("val", "true", "false", "null")
	args, dirs, dargs := class("arg"), class("dir", "deprecated"), class("darg")
	var ref func(t *TypeRef)
	ref = func(t *TypeRef) {
		if t.Elem != nil {
			ref(t.Elem)
			return
		}
		if !hasStr(scalars, t.Name) {
			t.Name = types(t.Name)
		}
	}
	uses := func(ds []DirUse) {
		for i := range ds {
			if ds[i].Name == "deprecated" {
				continue
			}
			ds[i].Name = dirs(ds[i].Name)
			for j := range ds[i].Args {
				ds[i].Args[j].Name = dargs(ds[i].Args[j].Name)
			}
		}
	}
	list := func(l []*Arg, f func(string) string) {
		for _, a := range l {
			a.Name = f(a.Name)
			ref(a.Type)
			uses(a.Dirs)
		}
	}
	for _, d := range docs {
		for _, t := range d.Types {
			t.Name = types(t.Name)
			for i := range t.Ifaces {
				t.Ifaces[i] = types(t.Ifaces[i])
			}
			for i := range t.Members {
				t.Members[i] = types(t.Members[i])
			}
			uses(t.Dirs)
			for _, f := range t.Fields {
				f.Name = fields(f.Name)
				ref(f.Type)
				uses(f.Dirs)
				list(f.Args, args)
			}
			for _, v := range t.Vals {
				v.Name = vals(v.Name)
				uses(v.Dirs)
			}
		}
		for _, x := range d.Dirs {
			x.Name = dirs(x.Name)
			list(x.Args, dargs)
		}
		for _, s := range d.Schemas {
			uses(s.Dirs)
			for i := range s.Ops {
				s.Ops[i].Type = types(s.Ops[i].Type)
			}
		}
	}
}
