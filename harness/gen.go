package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Name pools are small, so that independent draws collide, and full of near-collisions.
var (
	typePool   = []string{"Query", "User", "Mutation", "A", "Ab", "B", "Subscription", "Users", "user", "Node", "UserInput", "Role", "type", "FooConnection", "_T", "X1", "PageInfo", "input", "a", "USER", "Query2", "Zz_9"}
	namePool   = []string{"id", "name", "a", "ab", "x", "ID", "Name", "names", "type", "first", "after", "fooBar", "foo_bar", "_x", "x1", "input", "reason", "enum", "b", "query", "interface", "on", "nam", "A"}
	enumPool   = []string{"RED", "GREEN", "BLUE", "Red", "REDD", "A", "B", "AB", "X_1", "red", "_V", "type", "DEPRECATED"}
	dirPool    = []string{"key", "auth", "tag", "keys", "Key", "a", "external", "shareable", "on", "foo", "requires", "deprecated", "specifiedBy", "skip"}
	dargPool   = []string{"fields", "x", "y", "role", "reason", "if", "X", "xs"}
	scalars    = []string{"Int", "String", "ID", "Boolean", "Float"}
	descPool   = []string{"d", "Some text.", "line one\nline two", `with "quotes" inside`, "#lint-disable type-desc", "# hash", "{ type Fake }", "back\\slash", "a\n\n  indented\nb", `has """ three`, "0", "D", "d ", "caf\u00e9 \u2603", "tab\there", "x, y", "text\u0020\u0020two", "text two", "line one line two", "line one\n\nline two", "\u00e9", "e\u0301", longText + "1", longText + "2", "100% of %d", "%s"}
	allLocs    = []string{"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"}
	rootOps    = []string{"query", "mutation", "subscription"}
	reasonPool = []string{"No longer supported", "use x", "use y", "", "Use x", "use \"x\"", "use  x", "use x ", longText + "1", longText + "2", "100% of %d", "%s"}
)

// GenCfg steers the document generator.
type GenCfg struct {
	MaxTypes  int
	Kinds     []string
	Exts      bool // extensions
	Schemas   bool // schema blocks
	DirDefs   bool
	Dirs      bool // applied directives
	Deprec    bool
	Descs     int // percentage of described elements
	Types     []string
	ASCII     bool
	BigChance int  // percentage of documents with large lists
	DirHeavy  bool // many applied directives, edits of them preferred
	RootHeavy bool // schema blocks almost always, edits of them preferred
	Bulk      int  // documents per thousand with very many elements of one kind
}

func fullCfg() GenCfg {
	return GenCfg{MaxTypes: 5, Kinds: allKinds, Exts: true, Schemas: true, DirDefs: true, Dirs: true, Deprec: true, Descs: 35, Types: typePool, BigChance: 4, Bulk: 4}
}

type gen struct {
	t     *rapid.T
	cfg   GenCfg
	big   bool
	bulk  *bulk // what there are very many of in the last document drawn
	focus bool  // edits keep to one type, one field and one directive
	args3 bool  // with focus: fields have several arguments, and edits keep to these
	at    [3]int
}

// where draws the index of what an edit touches; with focus it is the same nearly every time.
func (g *gen) where(slot, n int, l string) int {
	if g.focus && g.at[slot] < n && g.n(0, 7, "stay") > 0 {
		return g.at[slot]
	}
	return g.n(0, n-1, l)
}

func (g *gen) pct(p int, l string) bool {
	if p <= 0 {
		return false
	}
	// the simplest draw (0) means "no"
	return rapid.IntRange(0, 99).Draw(g.t, l) >= 100-p
}

func (g *gen) n(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(g.t, l) }

func (g *gen) pick(pool []string, l string) string { return rapid.SampledFrom(pool).Draw(g.t, l) }

// distinct draws n different names from the pool, with numbered names beyond it.
func (g *gen) distinct(pool []string, n int, l string, taken map[string]bool) []string {
	var r []string
	if taken == nil {
		taken = map[string]bool{}
	}
	for i := 0; i < n; i++ {
		s := g.pick(pool, l)
		for k := 0; taken[s]; k++ {
			s = fmt.Sprintf("%s%d", s, k)
		}
		taken[s] = true
		r = append(r, s)
	}
	return r
}

func (g *gen) descText(l string) string {
	if !g.pct(g.cfg.Descs, l) {
		return ""
	}
	s := g.pick(descPool, l+"Text")
	if g.cfg.ASCII {
		for _, r := range s {
			if r > 0x7e || r < 0x20 {
				return "ascii text"
			}
		}
	}
	return s
}

func (g *gen) count(small, large int, l string) int {
	if g.big && g.pct(40, l+"Big") {
		return g.n(small, large, l+"N")
	}
	return g.n(0, small, l)
}

func (g *gen) typeRef(depth int) *TypeRef {
	t := &TypeRef{}
	if depth > 0 && g.n(0, 3, "wrap") == 3 {
		t.Elem = g.typeRef(depth - 1)
	} else if g.n(0, 1, "baseKind") == 0 {
		t.Name = g.pick(scalars, "scalar")
	} else {
		t.Name = g.pick(g.cfg.Types, "typeName")
	}
	t.NonNull = g.n(0, 2, "nonNull") == 2
	return t
}

var valuePool = []Value{
	{K: "int", S: "1"}, {K: "int", S: "0"}, {K: "int", S: "-1"}, {K: "int", S: "10"}, {K: "float", S: "1.0"}, {K: "float", S: "1e3"}, {K: "float", S: "2.5"},
	{K: "string", S: "1"}, {K: "string", S: "A"}, {K: "string", S: ""}, {K: "string", S: "a b"}, {K: "string", S: "null"}, {K: "string", S: "<nil>"}, {K: "string", S: "x\"y"}, {K: "string", S: "A "}, {K: "string", S: "l1\nl2"}, {K: "string", S: "#lint-disable x"},
	{K: "enum", S: "A"}, {K: "enum", S: "RED"}, {K: "enum", S: "a"}, {K: "bool", S: "true"}, {K: "bool", S: "false"}, {K: "null", S: "null"}, {K: "string", S: "true"},
	{K: "int", S: "9007199254740992"}, {K: "int", S: "9007199254740993"}, {K: "int", S: "100000000000000000000"}, {K: "int", S: "100000000000000000001"}, {K: "float", S: "0.1"}, {K: "float", S: "0.10000000000000001"}, {K: "string", S: "a"}, {K: "string", S: longText + "1"}, {K: "string", S: longText + "2"}, {K: "string", S: "\u00e9"}, {K: "string", S: "e\u0301"}, {K: "string", S: "[1]"}, {K: "string", S: "50%"}, {K: "string", S: "%d %s"}, {K: "enum", S: "B"},
}

// longText makes texts that differ only far from their beginning.
var longText = strings.Repeat("lorem ipsum ", 30)

func (g *gen) value(depth int) *Value {
	if depth > 0 {
		switch g.n(0, 7, "valueKind") {
		case 6:
			v := &Value{K: "list"}
			for i := g.n(0, 3, "listLen"); i > 0; i-- {
				v.L = append(v.L, g.value(depth-1))
			}
			return v
		case 7:
			v := &Value{K: "object"}
			for _, n := range g.distinct(dargPool, g.n(0, 3, "objLen"), "objKey", nil) {
				v.O = append(v.O, ObjField{n, g.value(depth - 1)})
			}
			return v
		}
	}
	v := rapid.SampledFrom(valuePool).Draw(g.t, "value")
	return &v
}

func (g *gen) deprecated() DirUse {
	d := DirUse{Name: "deprecated"}
	if g.n(0, 2, "hasReason") > 0 {
		d.Args = []ObjField{{"reason", &Value{K: "string", S: g.pick(reasonPool, "reason")}}}
	}
	return d
}

func (g *gen) dirUse(name string) DirUse {
	d := DirUse{Name: name}
	for _, n := range g.distinct(dargPool[:4], g.n(0, 2, "nDirArgs"), "dirArg", nil) {
		d.Args = append(d.Args, ObjField{n, g.value(1)})
	}
	return d
}

// uses draws directive applications: names may repeat.
func (g *gen) uses(deprec bool, l string) []DirUse {
	var r []DirUse
	chance := 30
	if g.cfg.DirHeavy {
		chance = 65
	}
	if g.cfg.Dirs && g.pct(chance, l+"Dirs") {
		k := g.n(1, 3, l+"NDirs")
		for i := 0; i < k; i++ {
			r = append(r, g.dirUse(g.pick(dirPool[:6], l+"Dir")))
		}
	}
	if deprec && g.cfg.Deprec && g.pct(20, l+"Dep") {
		d := g.deprecated()
		pos := g.n(0, len(r), l+"DepPos")
		r = append(r[:pos], append([]DirUse{d}, r[pos:]...)...)
	}
	return r
}

func (g *gen) arg(name string) *Arg {
	a := &Arg{Name: name, Desc: g.descText("argDesc"), Type: g.typeRef(2)}
	if g.pct(30, "hasDefault") {
		a.Default = g.value(1)
	}
	if g.pct(8, "argDirs") {
		a.Dirs = g.uses(true, "arg")
	}
	return a
}

func (g *gen) args(n int) []*Arg {
	var r []*Arg
	for _, s := range g.distinct(namePool, n, "argName", nil) {
		r = append(r, g.arg(s))
	}
	return r
}

func (g *gen) field(kind, name string) *Field {
	f := &Field{Name: name, Desc: g.descText("fieldDesc"), Type: g.typeRef(2)}
	if kind == kInput {
		if g.pct(30, "hasDefault") {
			f.Default = g.value(1)
		}
	} else {
		if g.args3 {
			f.Args = g.args(g.n(2, 5, "nArgs"))
		} else {
			f.Args = g.args(g.count(2, 18, "nArgs"))
		}
	}
	f.Dirs = g.uses(true, "field")
	return f
}

func (g *gen) enumVal(name string) *EnumVal {
	return &EnumVal{Name: name, Desc: g.descText("valDesc"), Dirs: g.uses(true, "val")}
}

// body fills a type with members; taken holds the member names other blocks of the type use.
func (g *gen) body(t *Type, taken map[string]bool) {
	switch t.Kind {
	case kObject, kInterface:
		if t.Kind == kObject || !t.Ext {
			k := 0
			if g.pct(35, "implements") {
				k = g.n(1, 3, "nIfaces")
			}
			if t.Kind == kInterface && !g.pct(20, "ifaceImpl") {
				k = 0
			}
			t.Ifaces = g.distinct(g.cfg.Types, k, "iface", taken2(taken, "i"))
		}
		for _, n := range g.distinct(namePool, g.count(4, 30, "nFields"), "fieldName", taken) {
			t.Fields = append(t.Fields, g.field(t.Kind, n))
		}
	case kInput:
		for _, n := range g.distinct(namePool, g.count(4, 30, "nFields"), "fieldName", taken) {
			t.Fields = append(t.Fields, g.field(t.Kind, n))
		}
	case kEnum:
		for _, n := range g.distinct(enumPool, g.count(4, 30, "nVals"), "valName", taken) {
			t.Vals = append(t.Vals, g.enumVal(n))
		}
	case kUnion:
		t.Members = g.distinct(g.cfg.Types, g.count(4, 30, "nMembers"), "member", taken)
	}
	t.Dirs = g.uses(false, "type")
	if t.Ext && t.empty() {
		if t.Kind == kScalar || !g.pct(90, "fill") {
			t.Dirs = []DirUse{g.dirUse(g.pick(dirPool[:6], "dir"))}
		} else {
			g.addMember(t, taken)
		}
	}
}

// taken2 keeps a separate name space inside the same bookkeeping map.
func taken2(m map[string]bool, prefix string) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if len(k) > 2 && k[:2] == prefix+"\x00" {
			r[k[2:]] = true
		}
	}
	return r
}

// addMember adds one member of the sort the kind has.
func (g *gen) addMember(t *Type, taken map[string]bool) {
	switch t.Kind {
	case kObject, kInterface, kInput:
		t.Fields = append(t.Fields, g.field(t.Kind, g.distinct(namePool, 1, "fieldName", taken)[0]))
	case kEnum:
		t.Vals = append(t.Vals, g.enumVal(g.distinct(enumPool, 1, "valName", taken)[0]))
	case kUnion:
		t.Members = append(t.Members, g.distinct(g.cfg.Types, 1, "member", taken)[0])
	case kScalar:
		t.Dirs = append(t.Dirs, g.dirUse(g.pick(dirPool[:6], "dir")))
	}
}

func (g *gen) typ(name string) *Type {
	t := &Type{Kind: g.pick(g.cfg.Kinds, "kind"), Name: name, Desc: g.descText("typeDesc")}
	g.body(t, map[string]bool{})
	return t
}

func (g *gen) dirDef(name string) *DirDef {
	d := &DirDef{Name: name, Desc: g.descText("dirDesc"), Args: g.args(g.count(2, 12, "nDirDefArgs")), Repeatable: g.pct(30, "repeatable")}
	d.Locs = pickLocs(g)
	return d
}

func pickLocs(g *gen) []string {
	var r []string
	n := g.n(1, 4, "nLocs")
	start := g.n(0, len(allLocs)-1, "locStart")
	step := rapid.SampledFrom([]int{1, 2, 3, 5, 7}).Draw(g.t, "locStep")
	for i := 0; i < n; i++ {
		l := allLocs[(start+i*step)%len(allLocs)]
		if !hasStr(r, l) {
			r = append(r, l)
		}
	}
	return r
}

// extBlocks draws between one and three extension blocks of one type.
func (g *gen) extBlocks(name, kind string) []*Type {
	var r []*Type
	taken := map[string]bool{}
	ifaces := map[string]bool{}
	for i := g.n(1, 3, "nExtBlocks"); i > 0; i-- {
		t := &Type{Ext: true, Kind: kind, Name: name}
		g.body(t, taken)
		var keep []string
		for _, x := range t.Ifaces {
			if !ifaces[x] {
				keep = append(keep, x)
				ifaces[x] = true
			}
		}
		t.Ifaces = keep
		if t.empty() {
			g.addMember(t, taken)
		}
		r = append(r, t)
	}
	return r
}

func (g *gen) schemaBlocks() []*SchemaBlk {
	var r []*SchemaBlk
	ops := append([]string(nil), rootOps...)
	if g.n(0, 2, "hasSchema") == 2 || g.cfg.RootHeavy && g.n(0, 1, "hasSchema2") == 1 {
		s := &SchemaBlk{}
		for _, o := range rootOps {
			if g.pct(50, "rootIn") {
				s.Ops = append(s.Ops, RootOp{o, g.rootType(o)})
				ops = without(ops, o)
			}
		}
		if len(s.Ops) > 0 {
			s.Desc = g.descText("schemaDesc")
			if g.cfg.Dirs && g.pct(20, "schemaDirs") {
				s.Dirs = []DirUse{g.dirUse("link")}
			}
			r = append(r, s)
		}
	}
	if g.n(0, 3, "hasSchemaExt") == 3 {
		for i := g.n(1, 3, "nSchemaExts"); i > 0; i-- {
			s := &SchemaBlk{Ext: true}
			for _, o := range append([]string(nil), ops...) {
				if g.pct(35, "extRootIn") {
					s.Ops = append(s.Ops, RootOp{o, g.rootType(o)})
					ops = without(ops, o)
				}
			}
			if len(s.Ops) == 0 {
				s.Dirs = []DirUse{g.dirUse("link")}
			}
			r = append(r, s)
		}
	}
	return r
}

func (g *gen) rootType(op string) string {
	def := map[string]string{"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}[op]
	if g.n(0, 1, "rootDefault") == 0 {
		return def
	}
	return g.pick([]string{"Query", "Query2", "Mutation", "User", "A", "Subscription"}, "rootType")
}

func without(l []string, s string) []string {
	var r []string
	for _, x := range l {
		if x != s {
			r = append(r, x)
		}
	}
	return r
}

// doc draws a document: within one document names are unique, as GraphQL requires.
func (g *gen) doc() *Doc {
	d := &Doc{}
	g.big = g.pct(g.cfg.BigChance, "big")
	max := g.cfg.MaxTypes
	if g.big && g.pct(30, "manyTypes") {
		max = 20
	}
	for _, n := range g.distinct(g.cfg.Types, g.n(0, max, "nTypes"), "defName", nil) {
		d.Types = append(d.Types, g.typ(n))
	}
	if g.cfg.Exts && g.n(0, 1, "hasExts") == 1 {
		for _, n := range g.distinct(g.cfg.Types, g.n(1, 3, "nExtNames"), "extName", nil) {
			kind := g.pick(g.cfg.Kinds, "extKind")
			if t := d.find(false, n); t != nil {
				kind = t.Kind
			}
			d.Types = append(d.Types, g.extBlocks(n, kind)...)
		}
	}
	if g.cfg.DirDefs {
		for _, n := range g.distinct(dirPool, g.n(0, 3, "nDirDefs"), "dirName", nil) {
			d.Dirs = append(d.Dirs, g.dirDef(n))
		}
	}
	if g.cfg.Schemas {
		d.Schemas = g.schemaBlocks()
	}
	g.bulk = nil
	if g.cfg.Bulk > 0 && g.n(0, 999, "bulk") >= 1000-g.cfg.Bulk {
		g.bulk = g.inflate(d)
	}
	return d
}

func genDoc(t *rapid.T, cfg GenCfg) *Doc {
	g := &gen{t: t, cfg: cfg}
	return g.doc()
}
