package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- U02

type parseCase struct {
	Files []SrcFile
	Bad   []string // names of the files that do not parse
	items int
}

// part is the doc's items that come from one file, in order, of each list.
func partOf(d *ast.SchemaDocument, name string) *ast.SchemaDocument {
	r := &ast.SchemaDocument{}
	for _, x := range d.Schema {
		if x.Position.Src.Name == name {
			r.Schema = append(r.Schema, x)
		}
	}
	for _, x := range d.SchemaExtension {
		if x.Position.Src.Name == name {
			r.SchemaExtension = append(r.SchemaExtension, x)
		}
	}
	for _, x := range d.Directives {
		if x.Position.Src.Name == name {
			r.Directives = append(r.Directives, x)
		}
	}
	for _, x := range d.Definitions {
		if x.Position.Src.Name == name {
			r.Definitions = append(r.Definitions, x)
		}
	}
	for _, x := range d.Extensions {
		if x.Position.Src.Name == name {
			r.Extensions = append(r.Extensions, x)
		}
	}
	return r
}

func docSize(d *ast.SchemaDocument) int {
	return len(d.Schema) + len(d.SchemaExtension) + len(d.Directives) + len(d.Definitions) + len(d.Extensions)
}

func (c *parseCase) Check(e *Env) string {
	m := map[string][]byte{}
	for _, f := range c.Files {
		m[f.Name] = []byte(f.Text)
	}
	d, err := utils.ParseSchema(m)
	about := func() string { return "\n" + showFiles("files", c.Files) }
	for _, f := range c.Files {
		if string(m[f.Name]) != f.Text || len(m) != len(c.Files) {
			return fmt.Sprintf("the contents passed in were modified: %s%s", f.Name, about())
		}
	}
	if len(c.Bad) > 0 {
		if err == nil {
			return fmt.Sprintf("no error, though these files do not parse: %q%s", c.Bad, about())
		}
		if d != nil {
			return fmt.Sprintf("a schema is returned besides the error %v%s", err, about())
		}
		named := false
		for _, b := range c.Bad {
			named = named || strings.Contains(err.Error(), b)
		}
		if !named {
			return fmt.Sprintf("the error %q does not name any file that does not parse: %q%s", err, c.Bad, about())
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v, though every file parses%s", err, about())
	}
	c.items = 0
	for _, f := range c.Files {
		alone, aerr := parseOne(f.Name, f.Text)
		if aerr != nil {
			hfail("case does not parse: %v", aerr)
		}
		c.items += docSize(alone)
		part := partOf(d, f.Name)
		alone.Position, part.Position = nil, nil
		if docSize(alone) != docSize(part) {
			return fmt.Sprintf("file %s has %d items, of which the schema has %d%s", f.Name, docSize(alone), docSize(part), about())
		}
		alone = partOf(alone, f.Name)
		if !reflect.DeepEqual(alone, part) {
			return fmt.Sprintf("what the schema has of file %s differs from the file: %s%s", f.Name, diffDocs(alone, part), about())
		}
	}
	if docSize(d) != c.items {
		return fmt.Sprintf("the files have %d items, the schema has %d%s", c.items, docSize(d), about())
	}
	// the order of the schema does not change from one reading to the next
	for i := 0; i < 3; i++ {
		m2 := map[string][]byte{}
		for j := range c.Files {
			f := c.Files[(j*(i+1)+i)%len(c.Files)]
			m2[f.Name] = []byte(f.Text)
		}
		for _, f := range c.Files {
			m2[f.Name] = []byte(f.Text)
		}
		d2, err := utils.ParseSchema(m2)
		if err != nil {
			return fmt.Sprintf("parsed again: %v%s", err, about())
		}
		if !reflect.DeepEqual(d, d2) {
			return "parsing the same files again gives another schema" + about()
		}
	}
	return ""
}

func diffDocs(a, b *ast.SchemaDocument) string {
	x, y := dumpAST(a), dumpAST(b)
	if x == y {
		return "positions or order"
	}
	return "\n" + x + "\nand\n" + y
}

func (c *parseCase) Info() (bool, []string) {
	cls := []string{"files:" + itoa(len(c.Files))}
	if len(c.Bad) > 0 {
		cls = append(cls, "with-faults")
	}
	for _, f := range c.Files {
		if strings.TrimSpace(f.Text) == "" {
			cls = append(cls, "with-an-empty-file")
			break
		}
	}
	return len(c.Files) > 1 && (c.items > 1 || len(c.Bad) > 0), cls
}

var parseNames = []string{"a.graphql", "b.graphql", "a.b.graphql", "dir/a.graphql", "dir/b.graphql", "A.graphql", "a", "10.graphql", "9.graphql", "é.graphql", "a b.graphql", "z/y/x.gql", "%s.graphql", "a.graphql.bak"}

func genParse(t *rapid.T) Case {
	g := &gen{t: t, cfg: fullCfg()}
	d := g.doc()
	names := rapid.Permutation(parseNames).Draw(t, "names")[:g.n(1, 6, "nFiles")]
	styles := make([]Style, len(names))
	for i := range styles {
		styles[i] = plainStyle
		if rapid.Bool().Draw(t, "styled") {
			styles[i] = genStyle(t, "s")
		}
	}
	r := render(t, d, names, styles, false)
	if !faithful(d, r) {
		return nil
	}
	c := &parseCase{Files: r.Files}
	switch g.n(0, 5, "more") {
	case 0:
		c.Files = append(c.Files, SrcFile{"empty.graphql", []string{"", "\n", "# nothing\n", "\ufeff", " ,"}[g.n(0, 4, "empty")]})
	case 1:
		// the same text again
		c.Files = append(c.Files, SrcFile{"again.graphql", c.Files[0].Text})
	}
	if g.n(0, 3, "fault") == 3 {
		for k := g.n(1, 2, "nFaults"); k > 0; k-- {
			f := &c.Files[g.n(0, len(c.Files)-1, "badFile")]
			bad := []string{"type {", "}", "type A { a }", "\"open", "type A { a: Int", "enum E { A", "union U = ", "query { a }", "'", "type A @", "extend"}[g.n(0, 10, "bad")]
			if rapid.Bool().Draw(t, "front") {
				f.Text = bad + "\n" + f.Text
			} else {
				f.Text += "\n" + bad
			}
		}
		for _, f := range c.Files {
			if _, err := parseOne(f.Name, f.Text); err != nil {
				c.Bad = append(c.Bad, f.Name)
			}
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "U02", Gen: genParse, New: func() Case { return &parseCase{} }, Quick: 150000, Thorough: 1500000,
		Rule: "a case is a generated schema spread over one to seven named files, some empty, repeated or broken; non-trivial when there are several files and at least two items or a broken file"})
}
