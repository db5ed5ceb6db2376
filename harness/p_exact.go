package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C02 to C07: the reported changes of one family are exactly the real ones.

type exactCase struct {
	Fam  string
	Old  []SrcFile
	New  []SrcFile
	Want []Exp
	Mode string
}

func famOf(t string) string {
	switch {
	case strings.HasPrefix(t, "FIELD_"):
		return "C03"
	case strings.HasPrefix(t, "INPUT_FIELD_"):
		return "C04"
	case strings.HasPrefix(t, "ENUM_"), strings.HasPrefix(t, "UNION_"), strings.HasPrefix(t, "OBJECT_TYPE_INTERFACE_"):
		return "C05"
	case strings.HasPrefix(t, "DIRECTIVE_"):
		return "C06"
	case strings.HasPrefix(t, "SCHEMA_"):
		return "C07"
	}
	return "C02"
}

func (c *exactCase) Check(e *Env) string {
	got := compareFiles(c.Old, c.New)
	m := compareExact(got, c.Want, func(t string) bool { return famOf(t) == c.Fam })
	if m == "" {
		return ""
	}
	return m + showFiles("old", c.Old) + showFiles("new", c.New)
}

func (c *exactCase) Info() (bool, []string) {
	seen := map[string]bool{}
	cls := []string{"mode:" + c.Mode}
	n := 0
	for _, e := range c.Want {
		if famOf(e.T) != c.Fam {
			continue
		}
		n++
		k := "expect:" + e.T + "/" + sevName[e.Sev]
		if !seen[k] {
			seen[k] = true
			cls = append(cls, k)
		}
	}
	if n > 1 {
		cls = append(cls, "several-expected")
	}
	return n > 0, cls
}

func exactProp(id string, cfg GenCfg, quick, thorough int) *Prop {
	return &Prop{
		ID:    id,
		Rule:  "a case is a generated pair of schema documents; it is non-trivial when the reference comparison expects at least one change of this property's family",
		New:   func() Case { return &exactCase{} },
		Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) Case {
			o, n, mode := genPair(t, cfg)
			ro, rn := presentPair(t, o, n)
			if ro == nil || rn == nil {
				return nil
			}
			return &exactCase{id, ro.Files, rn.Files, refDiff(o, n), mode}
		},
	}
}

func init() {
	c := fullCfg()
	register(exactProp("C02", c, 100000, 1500000))

	c = fullCfg()
	c.Kinds = []string{kObject, kObject, kInterface}
	c.DirDefs, c.Schemas = false, false
	c.MaxTypes = 3
	register(exactProp("C03", c, 100000, 1500000))

	c = fullCfg()
	c.Kinds = []string{kInput, kInput, kInput, kObject}
	c.DirDefs, c.Schemas = false, false
	c.MaxTypes = 3
	register(exactProp("C04", c, 120000, 1500000))

	c = fullCfg()
	c.Kinds = []string{kEnum, kUnion, kObject, kEnum}
	c.DirDefs, c.Schemas = false, false
	c.MaxTypes = 3
	register(exactProp("C05", c, 150000, 2000000))

	c = fullCfg()
	c.Kinds = []string{kObject, kInput, kInterface}
	c.Schemas = false
	c.MaxTypes = 2
	c.DirHeavy = true
	register(exactProp("C06", c, 100000, 1500000))

	c = fullCfg()
	c.Kinds = []string{kObject, kObject, kObject, kInterface, kScalar}
	c.DirDefs, c.Dirs = false, false
	c.MaxTypes = 3
	c.Types = []string{"Query", "Mutation", "Subscription", "Query2", "User", "A"}
	c.RootHeavy = true
	register(exactProp("C07", c, 120000, 1500000))
}

// C08: type changes are rated by the values they admit.

type typeCase struct {
	Place string
	Old   string
	New   string
	Safe  bool
	Same  bool
}

var places = []string{"object field", "interface field", "object field argument", "interface field argument", "input field", "directive argument", "extended object field", "extended input field"}

func placeSDL(place, typ string) (string, string) {
	switch place {
	case "object field":
		return "type T { f: " + typ + " }", "FIELD_TYPE_CHANGED"
	case "interface field":
		return "interface T { f: " + typ + " }", "FIELD_TYPE_CHANGED"
	case "object field argument":
		return "type T { f(a: " + typ + "): Int }", "FIELD_ARGUMENT_TYPE_CHANGED"
	case "interface field argument":
		return "interface T { f(a: " + typ + "): Int }", "FIELD_ARGUMENT_TYPE_CHANGED"
	case "input field":
		return "input T { f: " + typ + " }", "INPUT_FIELD_TYPE_CHANGED"
	case "directive argument":
		return "directive @d(a: " + typ + ") on FIELD", "DIRECTIVE_ARGUMENT_TYPE_CHANGED"
	case "extended object field":
		return "extend type T { f: " + typ + " }", "FIELD_TYPE_CHANGED"
	}
	return "extend input T { f: " + typ + " }", "INPUT_FIELD_TYPE_CHANGED"
}

func isOutputPlace(p string) bool {
	return strings.HasSuffix(p, "object field") || p == "interface field"
}

func newTypeCase(place string, o, n *TypeRef) *typeCase {
	c := &typeCase{Place: place, Old: o.String(), New: n.String(), Same: o.String() == n.String()}
	if isOutputPlace(place) {
		c.Safe = outputSafe(o, n)
	} else {
		c.Safe = inputSafe(o, n)
	}
	return c
}

func (c *typeCase) Check(e *Env) string {
	o, ct := placeSDL(c.Place, c.Old)
	n, _ := placeSDL(c.Place, c.New)
	got := compareFiles([]SrcFile{{"o", o}}, []SrcFile{{"n", n}})
	var mine []Chg
	for _, g := range got {
		if g.T == ct {
			mine = append(mine, g)
		}
	}
	where := fmt.Sprintf("%s: type changed from %s to %s", c.Place, c.Old, c.New)
	if c.Same {
		if len(got) != 0 {
			return fmt.Sprintf("%s (the same type), yet changes are reported: %v", where, got)
		}
		return ""
	}
	if len(mine) != 1 {
		return fmt.Sprintf("%s: reported %d times: %v", where, len(mine), got)
	}
	want := sevBrk
	if c.Safe {
		want = sevNon
	}
	if mine[0].Sev != want {
		return fmt.Sprintf("%s: rated %s, values say %s", where, sevText(mine[0].Sev), sevName[want])
	}
	return ""
}

func (c *typeCase) Info() (bool, []string) {
	r := "breaking"
	if c.Safe {
		r = "safe"
	}
	return !c.Same, []string{c.Place + "/" + r}
}

func allTypes(depth int, names []string) []*TypeRef {
	var r []*TypeRef
	for _, nn := range []bool{false, true} {
		for _, n := range names {
			r = append(r, &TypeRef{Name: n, NonNull: nn})
		}
		if depth > 0 {
			for _, e := range allTypes(depth-1, names) {
				r = append(r, &TypeRef{Elem: e, NonNull: nn})
			}
		}
	}
	return r
}

func init() {
	register(&Prop{
		ID:         "C08",
		Rule:       "a case is a place and a pair of types; non-trivial when the two types differ",
		New:        func() Case { return &typeCase{} },
		Quick:      400000,
		Thorough:   8000000,
		EnumIsFull: true,
		Enum: func(tier string, emit func(Case)) {
			d := 3
			if tier == "thorough" {
				d = 4
			}
			ts := allTypes(d, []string{"Int", "String"})
			for _, p := range places {
				for _, o := range ts {
					for _, n := range ts {
						emit(newTypeCase(p, o, n))
					}
				}
			}
		},
		Gen: func(t *rapid.T) Case {
			c := fullCfg()
			c.Types = []string{"Int", "A", "AB", "a"}
			g := &gen{t: t, cfg: c}
			var deep func(d int) *TypeRef
			deep = func(d int) *TypeRef {
				if d == 0 {
					return g.typeRef(0)
				}
				return &TypeRef{Elem: deep(d - 1), NonNull: g.n(0, 1, "nn") == 1}
			}
			o := deep(g.n(0, 7, "depth"))
			n := o
			if g.n(0, 3, "indep") == 0 {
				n = deep(g.n(0, 7, "depth"))
			} else {
				for i := g.n(1, 3, "edits"); i > 0; i-- {
					n = g.otherType(n)
				}
			}
			return newTypeCase(g.pick(places, "place"), o, n)
		},
	})
}
