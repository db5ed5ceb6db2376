package main

import (
	"encoding/json"
	"sort"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

// parseOne parses a text with gqlparser directly, not through the code under test.
func parseOne(name, text string) (*ast.SchemaDocument, error) {
	d, err := parser.ParseSchema(&ast.Source{Name: name, Input: text})
	if err != nil {
		return nil, err
	}
	return d, nil
}

func parseFiles(fs []SrcFile) (*ast.SchemaDocument, error) {
	doc := &ast.SchemaDocument{}
	for _, f := range fs {
		d, err := parseOne(f.Name, f.Text)
		if err != nil {
			return nil, err
		}
		doc.Merge(d)
	}
	return doc, nil
}

func fromValue(v *ast.Value) *Value {
	if v == nil {
		return nil
	}
	switch v.Kind {
	case ast.IntValue:
		return &Value{K: "int", S: v.Raw}
	case ast.FloatValue:
		return &Value{K: "float", S: v.Raw}
	case ast.StringValue, ast.BlockValue:
		return &Value{K: "string", S: v.Raw}
	case ast.BooleanValue:
		return &Value{K: "bool", S: v.Raw}
	case ast.NullValue:
		return &Value{K: "null", S: "null"}
	case ast.EnumValue:
		return &Value{K: "enum", S: v.Raw}
	case ast.ListValue:
		r := &Value{K: "list"}
		for _, c := range v.Children {
			r.L = append(r.L, fromValue(c.Value))
		}
		return r
	case ast.ObjectValue:
		r := &Value{K: "object"}
		for _, c := range v.Children {
			r.O = append(r.O, ObjField{c.Name, fromValue(c.Value)})
		}
		return r
	}
	return &Value{K: "?"}
}

func fromType(t *ast.Type) *TypeRef {
	if t == nil {
		return nil
	}
	return &TypeRef{Name: t.NamedType, Elem: fromType(t.Elem), NonNull: t.NonNull}
}

func fromDirs(ds ast.DirectiveList) []DirUse {
	var r []DirUse
	for _, d := range ds {
		u := DirUse{Name: d.Name}
		for _, a := range d.Arguments {
			u.Args = append(u.Args, ObjField{a.Name, fromValue(a.Value)})
		}
		r = append(r, u)
	}
	return r
}

func fromArgs(as ast.ArgumentDefinitionList) []*Arg {
	var r []*Arg
	for _, a := range as {
		r = append(r, &Arg{a.Name, a.Description, fromType(a.Type), fromValue(a.DefaultValue), fromDirs(a.Directives)})
	}
	return r
}

var kindOf = map[ast.DefinitionKind]string{ast.Scalar: kScalar, ast.Object: kObject, ast.Interface: kInterface, ast.Union: kUnion, ast.Enum: kEnum, ast.InputObject: kInput}

func fromDef(d *ast.Definition, ext bool) *Type {
	t := &Type{Ext: ext, Kind: kindOf[d.Kind], Name: d.Name, Desc: d.Description, Ifaces: d.Interfaces, Members: d.Types, Dirs: fromDirs(d.Directives)}
	for _, f := range d.Fields {
		t.Fields = append(t.Fields, &Field{f.Name, f.Description, fromArgs(f.Arguments), fromType(f.Type), fromValue(f.DefaultValue), fromDirs(f.Directives)})
	}
	for _, v := range d.EnumValues {
		t.Vals = append(t.Vals, &EnumVal{v.Name, v.Description, fromDirs(v.Directives)})
	}
	return t
}

func fromAST(d *ast.SchemaDocument) *Doc {
	r := &Doc{}
	for _, x := range d.Definitions {
		r.Types = append(r.Types, fromDef(x, false))
	}
	for _, x := range d.Extensions {
		r.Types = append(r.Types, fromDef(x, true))
	}
	for _, x := range d.Directives {
		y := &DirDef{Name: x.Name, Desc: x.Description, Args: fromArgs(x.Arguments), Repeatable: x.IsRepeatable}
		for _, l := range x.Locations {
			y.Locs = append(y.Locs, string(l))
		}
		r.Dirs = append(r.Dirs, y)
	}
	add := func(l ast.SchemaDefinitionList, ext bool) {
		for _, x := range l {
			y := &SchemaBlk{Ext: ext, Desc: x.Description, Dirs: fromDirs(x.Directives)}
			for _, o := range x.OperationTypes {
				y.Ops = append(y.Ops, RootOp{string(o.Operation), o.Type})
			}
			r.Schemas = append(r.Schemas, y)
		}
	}
	add(d.Schema, false)
	add(d.SchemaExtension, true)
	return r
}

// dumpDoc is a text of the document that does not depend on the order of its items.
func dumpDoc(d *Doc) string {
	var p []string
	d = d.Clone()
	for _, t := range d.Types {
		t.File = 0
		b, _ := json.Marshal(t)
		p = append(p, "T"+string(b))
	}
	for _, t := range d.Dirs {
		t.File = 0
		b, _ := json.Marshal(t)
		p = append(p, "D"+string(b))
	}
	for _, t := range d.Schemas {
		t.File = 0
		b, _ := json.Marshal(t)
		p = append(p, "S"+string(b))
	}
	sort.Strings(p)
	return strings.ReplaceAll(strings.ReplaceAll(strings.Join(p, "\n"), ":[]", ":null"), "\\r\\n", "\\n")
}

// faithful says whether the parser reads the rendering back as the document it was printed from.
func faithful(d *Doc, r *Rendered) bool {
	a, err := parseFiles(r.Files)
	if err != nil {
		return false
	}
	return dumpDoc(fromAST(a)) == dumpDoc(d)
}
