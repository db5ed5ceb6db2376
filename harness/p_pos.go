package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C12: every change names and locates the element that changed.

type LineRange struct {
	File string
	A, B int
}

type PosExp struct {
	E  Exp
	At []LineRange
}

type posCase struct {
	Old, New []SrcFile
	Want     []PosExp
	Mode     string
}

// nearPair says whether the text quotes from, followed closely by to.
func nearPair(text, from, to string) bool {
	for i := 0; i+len(from) <= len(text); i++ {
		j := strings.Index(text[i:], from)
		if j < 0 {
			return false
		}
		i += j
		if i > 0 && isNameByte(text[i-1]) && isNameByte(from[0]) {
			continue
		}
		e := i + len(from)
		if e < len(text) && isNameByte(text[e]) && isNameByte(from[len(from)-1]) {
			continue
		}
		rest := text[e:]
		if len(rest) > len(to)+14 {
			rest = rest[:len(to)+14]
		}
		if mentions(rest, to) {
			return true
		}
	}
	return false
}

var (
	roleBefore = regexp.MustCompile(`(?i)\b(argument|directive|enum value|enum|member|type|field|location|interface|value) '@?([^':]+)[':]`)
	roleAfter  = regexp.MustCompile(`(?i)'@?([A-Za-z0-9_.]+)' (object type|interface|directive)`)
	dotted     = regexp.MustCompile(`'([A-Za-z_][A-Za-z0-9_]*)\.([A-Za-z_][A-Za-z0-9_]*)'`)
	quoted     = regexp.MustCompile(`'[^']*'`)
)

// roles gives the name of each kind of thing a change is about.
func roles(e Exp) map[string]string {
	r := map[string]string{}
	set := func(kinds ...string) {
		for i, k := range kinds {
			if i < len(e.Who) {
				r[k] = e.Who[i]
			}
		}
	}
	switch {
	case strings.HasPrefix(e.T, "TYPE_"):
		set("type")
	case strings.HasPrefix(e.T, "UNION_MEMBER_"):
		set("member", "type")
	case strings.HasPrefix(e.T, "OBJECT_TYPE_INTERFACE_"):
		set("interface", "type")
	case strings.HasPrefix(e.T, "ENUM_VALUE_"):
		set("value", "type")
	case strings.HasPrefix(e.T, "FIELD_ARGUMENT_"):
		set("argument", "field", "type")
	case strings.HasPrefix(e.T, "FIELD_"), strings.HasPrefix(e.T, "INPUT_FIELD_"):
		set("field", "type")
	case strings.HasPrefix(e.T, "DIRECTIVE_LOCATION_"):
		set("location", "directive")
	case strings.HasPrefix(e.T, "DIRECTIVE_ARGUMENT_"):
		set("argument", "directive")
	case strings.HasPrefix(e.T, "DIRECTIVE_"):
		set("directive")
	}
	return r
}

// misnamed says how a message calls something by another thing's name, or speaks of another kind of
// change than the one it belongs to.
func misnamed(msg string, e Exp) string {
	r := roles(e)
	wrong := func(kind, name string) string {
		kind = strings.ToLower(kind)
		switch kind {
		case "object type", "enum":
			kind = "type"
		case "enum value":
			kind = "value"
		}
		want, ok := r[kind]
		if !ok {
			return ""
		}
		if kind == "field" && strings.Contains(name, ".") && r["type"] != "" {
			want = r["type"] + "." + want
		}
		if name != want {
			return fmt.Sprintf("the message calls %q the %s, which is %q", name, kind, want)
		}
		return ""
	}
	for _, m := range roleBefore.FindAllStringSubmatch(msg, -1) {
		if x := wrong(m[1], m[2]); x != "" {
			return x
		}
	}
	for _, m := range roleAfter.FindAllStringSubmatch(msg, -1) {
		if x := wrong(m[2], m[1]); x != "" {
			return x
		}
	}
	if r["field"] != "" {
		for _, m := range dotted.FindAllStringSubmatch(msg, -1) {
			if m[1] != r["type"] || m[2] != r["field"] {
				return fmt.Sprintf("the message names %s.%s, which is %s.%s", m[1], m[2], r["type"], r["field"])
			}
		}
	}
	said := strings.ToLower(quoted.ReplaceAllString(msg, ""))
	has := func(w string) bool { return strings.Contains(said, w) }
	// the text of a value may hold anything
	values := strings.Contains(e.T, "_DEFAULT_") || strings.Contains(e.T, "_VALUE_CHANGED")
	for _, x := range [][2]string{{"_DESCRIPTION_", "description"}, {"_DEFAULT_", "default"}, {"_KIND_", "kind"}, {"_DEPRECATION_", "deprecat"}, {"_REASON_", "reason"}, {"_REPEATABLE_", "repeatable"}, {"_LOCATION_", "location"}, {"_INTERFACE_", "interface"}, {"_ARGUMENT_", "argument"}} {
		if strings.Contains(e.T, x[0]) && !has(x[1]) {
			return fmt.Sprintf("the message does not say what changed (%s)", x[1])
		}
	}
	for _, x := range [][2]string{{"_DESCRIPTION_", "description"}, {"_DEFAULT_", "default"}, {"_KIND_", "kind"}} {
		if !values && !strings.Contains(e.T, x[0]) && has(x[1]) {
			return fmt.Sprintf("the message speaks of a %s, which is not what changed", x[1])
		}
	}
	if !values && (strings.HasSuffix(e.T, "_REMOVED") && has("added") || strings.HasSuffix(e.T, "_ADDED") && has("removed")) {
		return "the message says the opposite of what changed"
	}
	if e.T == "TYPE_ADDED" || e.T == "TYPE_REMOVED" {
		if ext := strings.HasPrefix(append(append([]string{}, e.Old...), e.New...)[0], "ext:"); ext != has("exten") {
			return fmt.Sprintf("the message does not tell a type from an extension (extension: %v)", ext)
		}
	}
	if e.Dep != 0 && (e.Dep == 1) != has("deprecated") {
		return fmt.Sprintf("the message does not tell whether what was removed was deprecated (%v)", e.Dep == 1)
	}
	return ""
}

func (c *posCase) Check(e *Env) string {
	got := compareFiles(c.Old, c.New)
	ctx := func() string { return "\n" + showFiles("old", c.Old) + showFiles("new", c.New) }
	nGot, nWant := map[string]int{}, map[string]int{}
	for _, g := range got {
		nGot[g.T]++
	}
	for _, w := range c.Want {
		nWant[w.E.T]++
	}
	ok := func(i, k int) bool {
		g, w := got[i], c.Want[k]
		if g.T != w.E.T || (w.E.Path != "*" && g.Path != w.E.Path) {
			return false
		}
		for _, x := range w.E.Who {
			if !mentions(g.Msg, x) {
				return false
			}
		}
		return true
	}
	placed := func(g Chg, w PosExp) bool {
		if !g.Pos {
			return false
		}
		for _, r := range w.At {
			if g.File == r.File && g.Line >= r.A && g.Line <= r.B {
				return true
			}
		}
		return false
	}
	told := func(g Chg, w PosExp) string {
		for _, x := range w.E.Also {
			if !mentions(g.Msg, x) {
				return fmt.Sprintf("the message does not mention %q", x)
			}
		}
		if w.E.From != "" && w.E.To != "" && !nearPair(g.Msg, w.E.From, w.E.To) {
			return fmt.Sprintf("the message does not quote %q and then %q", w.E.From, w.E.To)
		}
		return misnamed(g.Msg, w.E)
	}
	full := func(i, k int) bool { return ok(i, k) && placed(got[i], c.Want[k]) && told(got[i], c.Want[k]) == "" }
	extra, missing, _ := matchAll(len(got), len(c.Want), full)
	if len(extra) == 0 {
		return ""
	}
	// Each leftover is judged against the leftover expectations of its type. A change that nothing
	// calls for, and one that is not reported, are other properties' business.
	for _, i := range extra {
		g := got[i]
		if !g.Pos {
			return fmt.Sprintf("a change without a position: %v%s", g, ctx())
		}
		inFiles := false
		for _, f := range append(append([]SrcFile{}, c.Old...), c.New...) {
			inFiles = inFiles || f.Name == g.File
		}
		if !inFiles {
			return fmt.Sprintf("a change located in a file that is not compared: %v%s", g, ctx())
		}
		for _, k := range missing {
			if !ok(i, k) {
				continue
			}
			if m := told(g, c.Want[k]); m != "" {
				return fmt.Sprintf("%s: %v%s", m, g, ctx())
			}
			if !placed(g, c.Want[k]) {
				return fmt.Sprintf("located off the element it is about (want one of %v): %v%s", c.Want[k].At, g, ctx())
			}
		}
		if nGot[g.T] == nWant[g.T] {
			return fmt.Sprintf("the path or message names another element than the one that changed: %v; expected %v%s", g, leftover(c.Want, missing, g.T), ctx())
		}
	}
	return ""
}

func leftover(w []PosExp, missing []int, t string) string {
	var r []string
	for _, k := range missing {
		if w[k].E.T == t {
			r = append(r, w[k].E.String())
		}
	}
	return strings.Join(r, "; ")
}

func (c *posCase) Info() (bool, []string) {
	cls := []string{"mode:" + c.Mode}
	seen := map[string]bool{}
	for _, w := range c.Want {
		if !seen[w.E.T] {
			seen[w.E.T] = true
			cls = append(cls, w.E.T)
		}
	}
	if len(c.Old)+len(c.New) > 2 {
		cls = append(cls, "several-files")
	}
	return len(c.Want) > 0, cls
}

func spanLines(r *Rendered, keys []string) []LineRange {
	var out []LineRange
	for _, k := range keys {
		for _, s := range r.Spans[k] {
			text := r.text(s.File)
			a, _ := lineCol(text, s.Start)
			b, _ := lineCol(text, s.End-1)
			if n := len(out) - 1; len(r.Spans[k]) > 50 && n >= 0 && out[n].File == s.File && out[n].A <= a && a <= out[n].B+2 {
				// very many blocks of one type, one after the other
				if b > out[n].B {
					out[n].B = b
				}
				continue
			}
			out = append(out, LineRange{s.File, a, b})
		}
	}
	return out
}

func genPos(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.MaxTypes = 4
	switch rapid.IntRange(0, 4).Draw(t, "flavour") {
	case 1:
		cfg.DirHeavy = true
	case 2:
		cfg.RootHeavy = true
	}
	o, n, mode := genPair(t, cfg)
	ro, rn := presentPair(t, o, n)
	if ro == nil || rn == nil {
		return nil
	}
	c := &posCase{Old: ro.Files, New: rn.Files, Mode: mode}
	for _, e := range refDiff(o, n) {
		at := append(spanLines(ro, e.Old), spanLines(rn, e.New)...)
		c.Want = append(c.Want, PosExp{e, at})
	}
	return c
}

func init() {
	register(&Prop{ID: "C12", Gen: genPos, New: func() Case { return &posCase{} }, Quick: 240000, Thorough: 1500000,
		Rule: "a case is a generated pair of documents in drawn layouts, with the lines each element's declaration spans; non-trivial when the reference comparison expects a change"})
}
