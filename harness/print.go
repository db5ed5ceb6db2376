package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Style is the drawn layout of one rendering.
type Style struct {
	Min       bool   // no optional white space
	NL        string // line terminator
	Noise     int    // 0: none, 1: some, 2: much extra separators and comments
	Block     int    // 0: quoted descriptions, 1: block strings where possible, 2: mixed
	BOM       bool
	Lead      bool // leading | and &
	Commas    bool // commas between list items
	Comments  bool
	Inline    bool // no line breaks between fields
	Indent    string
	Escapes   bool // needless escapes in quoted strings
	TrailNL   bool
	OpenLast  bool // the last line may be a comment without line end
	ASCIIOnly bool
	Empty     bool // now and then an empty string where a description may stand
}

var plainStyle = Style{NL: "\n", Indent: "  ", TrailNL: true, Block: 1}

// genStyle draws a layout.
func genStyle(t *rapid.T, label string) Style {
	s := Style{NL: "\n", Indent: "  ", TrailNL: true}
	switch rapid.IntRange(0, 9).Draw(t, label+"Base") {
	case 0, 1, 2:
	case 3:
		s.Min = true
		s.TrailNL = false
	case 4, 5:
		s.Noise = 1
	case 6:
		s.Noise = 2
	case 7:
		s.Inline = true
	case 8:
		s.Indent = "\t"
		s.Commas = true
	case 9:
		s.Noise = 1
		s.Commas = true
		s.Inline = true
	}
	s.Block = rapid.IntRange(0, 2).Draw(t, label+"Block")
	s.NL = rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n", "\r"}).Draw(t, label+"NL")
	s.BOM = rapid.IntRange(0, 11).Draw(t, label+"BOM") == 11
	s.Lead = rapid.Bool().Draw(t, label+"Lead")
	s.Comments = rapid.Bool().Draw(t, label+"Comments")
	s.Escapes = rapid.IntRange(0, 4).Draw(t, label+"Esc") == 4
	s.OpenLast = rapid.IntRange(0, 5).Draw(t, label+"Open") == 5
	s.Empty = rapid.IntRange(0, 5).Draw(t, label+"Empty") == 5
	return s
}

type Span struct {
	File  string
	Start int // first byte of the declaration, description included
	Decl  int // first byte after the description
	Name  int // first byte of the name
	NameE int
	Type  int // first byte of the type reference, if any
	End   int // one past the last byte
}

type SrcFile struct {
	Name string
	Text string
}

type Rendered struct {
	Files []SrcFile
	Spans map[string][]Span
	// EOLs lists, per file, the offsets of line ends that are not inside a string or comment.
	EOLs map[string][]int
}

func (r *Rendered) text(file string) string {
	for _, f := range r.Files {
		if f.Name == file {
			return f.Text
		}
	}
	return ""
}

// lineCol gives the 1-based line and byte column of an offset; \r\n, \n and \r end lines.
func lineCol(text string, off int) (int, int) {
	if text != lcText {
		lcText, lcStarts = text, []int{0}
		for i := 0; i < len(text); i++ {
			if text[i] == '\n' || text[i] == '\r' && (i+1 == len(text) || text[i+1] != '\n') {
				lcStarts = append(lcStarts, i+1)
			}
		}
	}
	line := sort.Search(len(lcStarts), func(k int) bool { return lcStarts[k] > off })
	return line, off - lcStarts[line-1] + 1
}

// the line starts of the text lineCol was last asked about
var (
	lcText   string
	lcStarts = []int{0}
)

const (
	tkStart = iota
	tkPunct
	tkWord
	tkString
)

const (
	hNone = iota
	hSpace
	hLine
	hBlank
)

type printer struct {
	t     *rapid.T
	st    Style
	buf   strings.Builder
	prev  int
	file  string
	spans map[string][]Span
	eols  []int
	ngap  int
	depth int
}

var plainComments = []string{"# plain", "#", "# type Fake { a: Int }", "#!x", "# it's \"quoted\"", "# \"\"\" block", "#lint", "##", "#\ttab", "# é☃", "#,}", "#lintdisable type-desc", "# \\"}

func (p *printer) comment() string {
	if p.ngap >= 800 {
		return "# plain"
	}
	c := rapid.SampledFrom(plainComments).Draw(p.t, "comment")
	if p.st.ASCIIOnly {
		c = "# plain"
	}
	return c
}

func (p *printer) nl() {
	p.eols = append(p.eols, p.buf.Len())
	p.buf.WriteString(p.st.NL)
}

// gap writes what separates the previous token from the next one.
func (p *printer) gap(kind, hint int) {
	must := (p.prev == tkWord && kind == tkWord) || (p.prev == tkString && kind == tkString)
	n0 := p.buf.Len()
	if p.st.Min {
		if must {
			p.buf.WriteString(" ")
		}
	} else if p.prev != tkStart {
		h := hint
		if p.st.Inline && (h == hLine) {
			h = hSpace
		}
		switch h {
		case hSpace:
			p.buf.WriteString(" ")
		case hLine, hBlank:
			p.nl()
			if hint == hBlank && !p.st.Inline {
				p.nl()
			}
			p.buf.WriteString(strings.Repeat(p.st.Indent, p.depth))
		}
	}
	if p.st.Noise > 0 {
		lim := 30
		if p.st.Noise > 1 {
			lim = 9
		}
		k := 0
		if p.ngap++; p.ngap < 800 {
			k = rapid.IntRange(0, lim).Draw(p.t, "noise")
		} else {
			// in very long texts the rest of the noise is a function of what was drawn
			k = int(hash64([]byte(itoa(p.ngap)+p.file)) % uint64(lim+1))
		}
		switch k {
		case 1:
			p.buf.WriteString("  ")
		case 2:
			p.buf.WriteString(",")
		case 3:
			p.nl()
		case 4:
			if p.st.Comments {
				p.buf.WriteString(" " + p.comment())
				p.nl()
			}
		case 5:
			p.buf.WriteString("\t")
		case 6:
			p.nl()
			if p.st.Comments {
				p.buf.WriteString(p.comment())
				p.nl()
			}
		case 7:
			p.buf.WriteString(" , ,")
		}
	}
	if must && p.buf.Len() == n0 {
		p.buf.WriteString(" ")
	}
}

func (p *printer) tok(text string, kind, hint int) int {
	p.gap(kind, hint)
	off := p.buf.Len()
	p.buf.WriteString(text)
	p.prev = kind
	return off
}

func (p *printer) word(s string, hint int) int  { return p.tok(s, tkWord, hint) }
func (p *printer) punct(s string, hint int) int { return p.tok(s, tkPunct, hint) }

func (p *printer) sep(i int) {
	if i > 0 && p.st.Commas {
		p.punct(",", hNone)
	}
}

func (p *printer) add(key string, sp Span) {
	sp.File = p.file
	p.spans[key] = append(p.spans[key], sp)
}

func canBlock(s string) bool {
	if s == "" || strings.ContainsAny(s, "\r\x00\t") || strings.HasSuffix(s, "\"") || strings.HasSuffix(s, "\\") {
		return false
	}
	flush := false
	for i, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			if l != "" {
				return false
			}
			continue
		}
		if l[0] != ' ' {
			flush = true
		} else if i == 0 {
			return false
		}
	}
	if !flush || strings.HasPrefix(s, "\n") || strings.HasSuffix(s, "\n") {
		return false
	}
	return !strings.HasPrefix(s, "\"")
}

func quoteString(s string, escapes bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '/':
			if escapes {
				b.WriteString(`\/`)
			} else {
				b.WriteRune(r)
			}
		default:
			if r < 0x20 || (escapes && r < 0x10000 && (r == 'e' || r > 0x7e)) {
				fmt.Fprintf(&b, `\u%04X`, r)
			} else {
				b.WriteRune(r)
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

// str writes a string token, quoted or block.
func (p *printer) str(s string, hint int) int {
	block := p.st.Block == 1 || (p.st.Block == 2 && rapid.Bool().Draw(p.t, "asBlock"))
	if !block || !canBlock(s) {
		return p.tok(quoteString(s, p.st.Escapes), tkString, hint)
	}
	p.gap(tkString, hint)
	off := p.buf.Len()
	esc := strings.ReplaceAll(s, `"""`, `\"""`)
	multi := strings.Contains(s, "\n") || (p.st.Block == 2 && rapid.Bool().Draw(p.t, "multiBlock"))
	if !multi {
		p.buf.WriteString(`"""` + esc + `"""`)
	} else {
		ind := strings.Repeat(" ", p.depth*2)
		p.buf.WriteString(`"""` + p.st.NL)
		for _, l := range strings.Split(esc, "\n") {
			if l != "" {
				p.buf.WriteString(ind + l)
			}
			p.buf.WriteString(p.st.NL)
		}
		p.buf.WriteString(ind + `"""`)
	}
	p.prev = tkString
	return off
}

func (p *printer) value(v *Value, hint int) {
	switch v.K {
	case "string":
		p.str(v.S, hint)
	case "list":
		p.punct("[", hint)
		for i, e := range v.L {
			p.sep(i)
			h := hNone
			if i > 0 {
				h = hSpace
			}
			p.value(e, h)
		}
		p.punct("]", hNone)
	case "object":
		p.punct("{", hint)
		for i, e := range v.O {
			p.sep(i)
			h := hNone
			if i > 0 {
				h = hSpace
			}
			p.word(e.Name, h)
			p.punct(":", hNone)
			p.value(e.V, hSpace)
		}
		p.punct("}", hNone)
	default:
		p.word(v.S, hint)
	}
}

func (p *printer) typeRef(t *TypeRef, hint int) int {
	var off int
	if t.Elem != nil {
		off = p.punct("[", hint)
		p.typeRef(t.Elem, hNone)
		p.punct("]", hNone)
	} else {
		off = p.word(t.Name, hint)
	}
	if t.NonNull {
		p.punct("!", hNone)
	}
	return off
}

func (p *printer) dirs(ds []DirUse, owner string) {
	for _, d := range ds {
		off := p.punct("@", hSpace)
		n := p.word(d.Name, hNone)
		argSpan := map[string]Span{}
		if len(d.Args) > 0 {
			p.punct("(", hNone)
			for i, a := range d.Args {
				p.sep(i)
				h := hNone
				if i > 0 {
					h = hSpace
				}
				an := p.word(a.Name, h)
				ae := p.buf.Len()
				p.punct(":", hNone)
				p.value(a.V, hSpace)
				argSpan[a.Name] = Span{Start: an, Decl: an, Name: an, NameE: ae, End: p.buf.Len()}
			}
			p.punct(")", hNone)
		}
		p.add(owner+"@"+d.Name, Span{Start: off, Decl: off, Name: n, NameE: n + len(d.Name), End: p.buf.Len()})
		for a, s := range argSpan {
			p.add(owner+"@"+d.Name+"("+a+")", s)
		}
	}
}

func (p *printer) desc(d string, hint int) (int, int) {
	var off int
	if d == "" {
		k := 0
		if p.st.Empty {
			k = rapid.IntRange(0, 5).Draw(p.t, "emptyDesc")
		}
		if k < 4 {
			return -1, hint
		}
		off = p.tok([]string{`""`, `""""""`}[k-4], tkString, hint)
	} else {
		off = p.str(d, hint)
	}
	if hint == hNone || hint == hSpace {
		return off, hSpace
	}
	return off, hLine
}

func (p *printer) args(as []*Arg, owner string) {
	if len(as) == 0 {
		return
	}
	p.punct("(", hNone)
	for i, a := range as {
		p.sep(i)
		h := hNone
		if i > 0 {
			h = hSpace
		}
		st, h2 := p.desc(a.Desc, h)
		n := p.word(a.Name, h2)
		ne := p.buf.Len()
		if st < 0 {
			st = n
		}
		p.punct(":", hNone)
		ty := p.typeRef(a.Type, hSpace)
		if a.Default != nil {
			p.punct("=", hSpace)
			p.value(a.Default, hSpace)
		}
		p.dirs(a.Dirs, owner+"."+a.Name)
		p.add(owner+"."+a.Name, Span{Start: st, Decl: n, Name: n, NameE: ne, Type: ty, End: p.buf.Len()})
	}
	p.punct(")", hNone)
}

func (t *Type) key() string {
	if t.Ext {
		return "ext:" + t.Name
	}
	return "def:" + t.Name
}

func (p *printer) typ(t *Type) {
	st, h := -1, hBlank
	var kw int
	if !t.Ext {
		st, h = p.desc(t.Desc, hBlank)
	}
	if t.Ext {
		kw = p.word("extend", h)
		p.word(t.Kind, hSpace)
	} else {
		kw = p.word(t.Kind, h)
	}
	if st < 0 {
		st = kw
	}
	n := p.word(t.Name, hSpace)
	key := t.key()
	ne := p.buf.Len()
	if len(t.Ifaces) > 0 {
		p.word("implements", hSpace)
		if p.st.Lead {
			p.punct("&", hSpace)
		}
		for i, x := range t.Ifaces {
			if i > 0 {
				p.punct("&", hSpace)
			}
			p.word(x, hSpace)
		}
	}
	p.dirs(t.Dirs, key)
	if len(t.Members) > 0 {
		p.punct("=", hSpace)
		if p.st.Lead {
			p.punct("|", hSpace)
		}
		for i, x := range t.Members {
			if i > 0 {
				p.punct("|", hSpace)
			}
			p.word(x, hSpace)
		}
	}
	if len(t.Fields) > 0 || len(t.Vals) > 0 {
		p.punct("{", hSpace)
		p.depth++
		for i, f := range t.Fields {
			p.sep(i)
			fs, h := p.desc(f.Desc, hLine)
			fn := p.word(f.Name, h)
			fe := p.buf.Len()
			if fs < 0 {
				fs = fn
			}
			p.args(f.Args, key+"."+f.Name)
			p.punct(":", hNone)
			ty := p.typeRef(f.Type, hSpace)
			if f.Default != nil {
				p.punct("=", hSpace)
				p.value(f.Default, hSpace)
			}
			p.dirs(f.Dirs, key+"."+f.Name)
			p.add(key+"."+f.Name, Span{Start: fs, Decl: fn, Name: fn, NameE: fe, Type: ty, End: p.buf.Len()})
		}
		for i, v := range t.Vals {
			p.sep(i)
			fs, h := p.desc(v.Desc, hLine)
			fn := p.word(v.Name, h)
			fe := p.buf.Len()
			if fs < 0 {
				fs = fn
			}
			p.dirs(v.Dirs, key+"."+v.Name)
			p.add(key+"."+v.Name, Span{Start: fs, Decl: fn, Name: fn, NameE: fe, End: p.buf.Len()})
		}
		p.depth--
		p.punct("}", hLine)
	}
	p.add(key, Span{Start: st, Decl: kw, Name: n, NameE: ne, End: p.buf.Len()})
}

func (p *printer) dirDef(d *DirDef) {
	st, h := p.desc(d.Desc, hBlank)
	kw := p.word("directive", h)
	if st < 0 {
		st = kw
	}
	p.punct("@", hSpace)
	n := p.word(d.Name, hNone)
	ne := p.buf.Len()
	p.args(d.Args, "dir:"+d.Name)
	if d.Repeatable {
		p.word("repeatable", hSpace)
	}
	p.word("on", hSpace)
	if p.st.Lead {
		p.punct("|", hSpace)
	}
	for i, l := range d.Locs {
		if i > 0 {
			p.punct("|", hSpace)
		}
		p.word(l, hSpace)
	}
	p.add("dir:"+d.Name, Span{Start: st, Decl: kw, Name: n, NameE: ne, End: p.buf.Len()})
}

func (p *printer) schema(s *SchemaBlk) {
	st, h := -1, hBlank
	var kw int
	if !s.Ext {
		st, h = p.desc(s.Desc, hBlank)
	}
	if s.Ext {
		kw = p.word("extend", h)
		p.word("schema", hSpace)
	} else {
		kw = p.word("schema", h)
	}
	if st < 0 {
		st = kw
	}
	p.dirs(s.Dirs, "schema")
	if len(s.Ops) > 0 {
		p.punct("{", hSpace)
		p.depth++
		for i, o := range s.Ops {
			p.sep(i)
			n := p.word(o.Op, hLine)
			ne := p.buf.Len()
			p.punct(":", hNone)
			ty := p.word(o.Type, hSpace)
			p.add("root:"+o.Op, Span{Start: n, Decl: n, Name: n, NameE: ne, Type: ty, End: p.buf.Len()})
		}
		p.depth--
		p.punct("}", hLine)
	}
	p.add("schema", Span{Start: st, Decl: kw, Name: kw, End: p.buf.Len()})
}

type item struct {
	t *Type
	d *DirDef
	s *SchemaBlk
}

func (it item) file() int {
	switch {
	case it.t != nil:
		return it.t.File
	case it.d != nil:
		return it.d.File
	}
	return it.s.File
}

func (d *Doc) items() []item {
	var r []item
	for _, s := range d.Schemas {
		r = append(r, item{s: s})
	}
	for _, x := range d.Dirs {
		r = append(r, item{d: x})
	}
	for _, x := range d.Types {
		r = append(r, item{t: x})
	}
	return r
}

// render prints the document into the named files; items go to the file of their File index.
// With shuffle the order of the items is drawn.
func render(t *rapid.T, d *Doc, names []string, styles []Style, shuffle bool) *Rendered {
	r := &Rendered{Spans: map[string][]Span{}, EOLs: map[string][]int{}}
	its := d.items()
	if shuffle && len(its) > 1 {
		its = rapid.Permutation(its).Draw(t, "itemOrder")
	}
	for i, name := range names {
		st := styles[i%len(styles)]
		p := &printer{t: t, st: st, file: name, spans: r.Spans}
		if st.BOM {
			p.buf.WriteString("\uFEFF")
		}
		for _, it := range its {
			if it.file()%len(names) != i {
				continue
			}
			switch {
			case it.t != nil:
				p.typ(it.t)
			case it.d != nil:
				p.dirDef(it.d)
			default:
				p.schema(it.s)
			}
		}
		if st.Noise > 0 && st.Comments && st.OpenLast {
			p.buf.WriteString(" " + p.comment())
		} else {
			p.eols = append(p.eols, p.buf.Len())
		}
		if st.TrailNL {
			p.buf.WriteString(st.NL)
		}
		r.Files = append(r.Files, SrcFile{name, p.buf.String()})
		r.EOLs[name] = p.eols
	}
	return r
}

// renderPlain prints the document in one file in the plain style.
func renderPlain(d *Doc, name string) string {
	return render(nil, d, []string{name}, []Style{plainStyle}, false).Files[0].Text
}
