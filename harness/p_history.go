package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C18

// histCase is a history of versions of one schema.
type histCase struct {
	Versions [][]SrcFile
	Whats    []string
	overall  int
	silent   int
	worst    string
}

// within says whether a change at path p is of the element at path q or of something inside it.
func within(p, q string) bool {
	if p == q {
		return true
	}
	if !strings.HasPrefix(p, q) {
		return false
	}
	return p[len(q)] == '.' || p[len(q)] == '@'
}

func (c *histCase) Check(e *Env) string {
	n := len(c.Versions)
	all := compareFiles(c.Versions[0], c.Versions[n-1])
	c.overall = len(all)
	c.silent = 0
	var steps [][]Chg
	for i := 1; i < n; i++ {
		l := compareFiles(c.Versions[i-1], c.Versions[i])
		if len(l) == 0 {
			c.silent++
		}
		steps = append(steps, l)
	}
	c.worst = "unchanged"
	for _, x := range all {
		if x.Sev == sevBrk {
			c.worst = "breaking"
		} else if x.Sev == sevDang && c.worst != "breaking" {
			c.worst = "dangerous"
		} else if c.worst == "unchanged" {
			c.worst = "non-breaking"
		}
		// the report of a use of a directive does not say in its path which element it is of
		found := strings.HasPrefix(x.T, "DIRECTIVE_") && x.Sev != sevBrk
		for _, l := range steps {
			for _, y := range l {
				// an extension that brings required fields to an input type may get these later, or
				// repeat a field of the definition (no valid schema does)
				if x.T == "TYPE_ADDED" && within(y.Path, x.Path) {
					found = true
				}
				// several members, interfaces or locations have the path of what they belong to
				if listed[x.T] && (listed[y.T] && y.Msg != x.Msg) {
					continue
				}
				// a root operation type is had by its declaration or by the default name of a type
				if y.Sev >= x.Sev && (within(x.Path, y.Path) || strings.HasPrefix(x.T, "SCHEMA_") && strings.HasPrefix(y.T, "TYPE_")) {
					found = true
				}
			}
		}
		if !found {
			var b strings.Builder
			fmt.Fprintf(&b, "between the first and the last version: %v\nbut no step between them reports a change as severe of it or of what it belongs to\n", x)
			for i, l := range steps {
				fmt.Fprintf(&b, "step %d: %v\n", i+1, l)
			}
			for i, v := range c.Versions {
				b.WriteString(showFiles(fmt.Sprintf("version %d", i), v))
			}
			return b.String()
		}
	}
	return ""
}

func (c *histCase) Info() (bool, []string) {
	cls := []string{fmt.Sprintf("versions:%d", len(c.Versions)), "overall:" + c.worst}
	if c.silent > 0 {
		cls = append(cls, "with-a-step-that-changes-nothing")
	}
	return len(c.Versions) > 2 && c.overall > 0, cls
}

// listed are the changes whose path is that of the element they belong to; their message tells them apart.
var listed = map[string]bool{"OBJECT_TYPE_INTERFACE_ADDED": true, "OBJECT_TYPE_INTERFACE_REMOVED": true, "UNION_MEMBER_ADDED": true, "UNION_MEMBER_REMOVED": true,
	"DIRECTIVE_LOCATION_ADDED": true, "DIRECTIVE_LOCATION_REMOVED": true}

// slot is a typed element of a document.
type slot struct {
	t   **TypeRef
	v   **Value
	del func()
}

// typedSlots lists the elements of a document that have a type.
func typedSlots(d *Doc) []slot {
	var l []slot
	args := func(as *[]*Arg) {
		for i := range *as {
			a := (*as)[i]
			l = append(l, slot{&a.Type, &a.Default, func() { *as = append(append([]*Arg{}, (*as)[:i]...), (*as)[i+1:]...) }})
		}
	}
	for _, x := range d.Types {
		for i := range x.Fields {
			f := x.Fields[i]
			s := slot{&f.Type, nil, func() { x.Fields = append(append([]*Field{}, x.Fields[:i]...), x.Fields[i+1:]...) }}
			if x.Kind == kInput {
				s.v = &f.Default
			}
			l = append(l, s)
			args(&f.Args)
		}
	}
	for _, x := range d.Dirs {
		args(&x.Args)
	}
	return l
}

// walkType changes the type or the default value of one element of the document.
func (g *gen) walkType(s slot) {
	for i := g.n(1, 2, "nWalk"); i > 0; i-- {
		t := (*s.t).Clone()
		x := t
		for x.Elem != nil && g.n(0, 1, "inner") == 1 {
			x = x.Elem
		}
		switch k := g.n(0, 9, "walk"); {
		case k < 3:
			x.NonNull = !x.NonNull
		case k < 5:
			t = &TypeRef{Elem: t, NonNull: g.n(0, 3, "wrapNN") == 3}
		case k < 7:
			if t.Elem != nil {
				t = t.Elem
			}
		case k < 9:
			if s.v != nil {
				if *s.v != nil {
					*s.v = nil
				} else {
					*s.v = g.value(1)
				}
			}
		default:
			for x.Elem != nil {
				x = x.Elem
			}
			x.Name = g.pick([]string{"Int", "String", "A", "B"}, "base")
		}
		*s.t = t
	}
}

// walkList changes what one union, enum, object or directive lists; at says which.
func (g *gen) walkList(d *Doc, at int) {
	var l []func()
	some := func(pool []string, min int) []string {
		return rapid.Permutation(pool).Draw(g.t, "listed")[:g.n(min, len(pool), "nListed")]
	}
	for _, x := range d.Types {
		min := 0
		others := map[string]bool{}
		for _, y := range d.Types {
			if y != x && y.Name == x.Name {
				for _, v := range y.Vals {
					others[v.Name] = true
				}
				for _, m := range append(append([]string{}, y.Members...), y.Ifaces...) {
					others[m] = true
				}
			}
		}
		free := func(pool ...string) []string {
			var r []string
			for _, p := range pool {
				if !others[p] {
					r = append(r, p)
				}
			}
			return r
		}
		if x.Ext {
			min = 1
		}
		switch x.Kind {
		case kUnion:
			l = append(l, func() {
				if p := free("A", "B", "C"); len(p) > 0 {
					x.Members = append([]string{}, some(p, min)...)
				}
			})
		case kObject:
			l = append(l, func() {
				if p := free("I", "J", "K"); len(p) > 0 {
					x.Ifaces = append([]string{}, some(p, min)...)
				}
			})
		case kEnum:
			l = append(l, func() {
				p := free("RED", "GREEN", "BLUE")
				if len(p) == 0 {
					return
				}
				had := map[string]*EnumVal{}
				for _, v := range x.Vals {
					had[v.Name] = v
				}
				x.Vals = nil
				for _, n := range some(p, min) {
					v := had[n]
					if v == nil || g.n(0, 2, "again") == 2 {
						v = g.enumVal(n)
					}
					x.Vals = append(x.Vals, v)
				}
			})
		}
	}
	for _, x := range d.Dirs {
		l = append(l, func() { x.Locs = some([]string{"OBJECT", "FIELD_DEFINITION", "FIELD", "ENUM"}, 1) })
	}
	if len(l) > 0 {
		l[at%len(l)]()
	}
}

func genHistory(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.MaxTypes = 3
	switch rapid.IntRange(0, 5).Draw(t, "flavour") {
	case 1:
		cfg.DirHeavy = true
	case 2:
		cfg.RootHeavy = true
	case 3:
		cfg.Kinds = []string{kObject, kInterface}
	case 4:
		cfg.Kinds = []string{kInput}
	}
	g := &gen{t: t, cfg: cfg}
	d := g.doc()
	bulk := g.bulk
	if g.n(0, 3, "focus") > 0 {
		g.focus = true
		g.at = [3]int{g.n(0, 1, "focusType"), g.n(0, 3, "focusField"), g.n(0, 2, "focusDir")}
	}
	walk, at := g.n(0, 5, "walk"), g.n(0, 30, "walkAt")
	c := &histCase{}
	put := func() bool {
		r := render(t, d, []string{fmt.Sprintf("v%d.graphql", len(c.Versions))}, []Style{plainStyle}, false)
		if !faithful(d, r) {
			return false
		}
		c.Versions = append(c.Versions, r.Files)
		return true
	}
	n := g.n(2, 5, "nSteps")
	if l := typedSlots(d); (walk == 3 || walk == 4) && len(l) > 0 {
		// one element of a type changes in every version, and may be missing from some
		for n++; n > 0; n-- {
			d = d.Clone()
			l := typedSlots(d)
			g.walkType(l[at%len(l)])
			full := d
			if g.n(0, 3, "missing") == 3 {
				d = d.Clone()
				l := typedSlots(d)
				l[at%len(l)].del()
			}
			if !put() {
				return nil
			}
			d = full
		}
		return c
	}
	if !put() {
		return nil
	}
	for ; n > 0; n-- {
		d = d.Clone()
		for k := g.n(1, 2, "nEdits"); k > 0; k-- {
			if bulk != nil && g.n(0, 1, "bulkStep") == 0 {
				g.bulkDiffer(bulk, d)
				continue
			}
			if walk == 5 {
				g.walkList(d, at)
				continue
			}
			if g.n(0, 5, "wildEdit") == 5 {
				d = g.wild(d)
				continue
			}
			e := g.edit(d)
			e.Do(d)
			c.Whats = append(c.Whats, fmt.Sprintf("%d: %s", len(c.Versions), e.What))
		}
		if g.n(0, 5, "shuffle") == 5 {
			d = g.shuffleDoc(d)
		}
		if !put() {
			return nil
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "C18", Gen: genHistory, New: func() Case { return &histCase{} }, Quick: 150000, Thorough: 1500000,
		Rule: "a case is a history of three to six versions of a generated schema, each made from the one before by a few edits; non-trivial when the last version differs from the first"})
}
