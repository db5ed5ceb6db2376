package main

import (
	"strings"
	"unicode/utf8"
)

// A small scanner of the lexical grammar, independent of gqlparser and of the code under test: it
// finds the comments of a text and the lines on which a string of several lines ends.

type Comment struct {
	Line int
	Off  int
	Text string // from the # on, line end excluded
}

func scanText(text string) (cs []Comment, multiEnd map[int]bool) {
	cs, multiEnd, _ = scan(text)
	return
}

// scanStrings finds the line ends that are inside block strings.
func scanStrings(text string) ([]Comment, map[int]bool) {
	cs, _, in := scan(text)
	return cs, in
}

func scan(text string) (cs []Comment, multiEnd, inside map[int]bool) {
	multiEnd, inside = map[int]bool{}, map[int]bool{}
	line := 1
	i := 0
	eol := func() { // at a line terminator
		if text[i] == '\r' && i+1 < len(text) && text[i+1] == '\n' {
			i++
		}
		i++
		line++
	}
	for i < len(text) {
		switch c := text[i]; {
		case c == '\n' || c == '\r':
			eol()
		case c == '#':
			s := i
			for i < len(text) && text[i] != '\n' && text[i] != '\r' {
				i++
			}
			cs = append(cs, Comment{line, s, text[s:i]})
		case strings.HasPrefix(text[i:], `"""`):
			i += 3
			l0 := line
			for i < len(text) {
				if strings.HasPrefix(text[i:], `\"""`) {
					i += 4
				} else if strings.HasPrefix(text[i:], `"""`) {
					i += 3
					break
				} else if text[i] == '\n' || text[i] == '\r' {
					inside[i] = true
					eol()
				} else {
					i++
				}
			}
			if line != l0 {
				multiEnd[line] = true
			}
		case c == '"':
			i++
			for i < len(text) && text[i] != '"' && text[i] != '\n' && text[i] != '\r' {
				if text[i] == '\\' {
					i++
				}
				i++
			}
			i++
		default:
			i++
		}
	}
	return
}

// Directive is a lint comment as the documentation describes it.
type Directive struct {
	Line  int
	Cmd   string
	Rules []string
}

func directives(text string) []Directive {
	cs, _ := scanText(text)
	var r []Directive
	for _, c := range cs {
		body, ok := strings.CutPrefix(c.Text, "#lint-")
		if !ok {
			continue
		}
		cmd, rest := body, ""
		if k := strings.IndexAny(body, " \t"); k >= 0 {
			cmd, rest = body[:k], body[k:]
		}
		switch cmd {
		case "disable", "enable", "disable-line":
		default:
			continue
		}
		d := Directive{Line: c.Line, Cmd: cmd}
		for _, n := range strings.Split(rest, ",") {
			if n = strings.ToLower(strings.Trim(n, " \t")); n != "" {
				d.Rules = append(d.Rules, n)
			}
		}
		r = append(r, d)
	}
	return r
}

// suppressed says whether the directives suppress an error of a rule on a line.
func suppressed(ds []Directive, rule string, line int) bool {
	off := false
	for _, d := range ds {
		if !hasStr(d.Rules, strings.ToLower(rule)) {
			continue
		}
		switch d.Cmd {
		case "disable-line":
			if d.Line == line {
				return true
			}
		case "disable":
			if d.Line < line {
				off = true
			}
		case "enable":
			if d.Line < line {
				off = false
			}
		}
	}
	return off
}

// neutral is the text with its lint comments made ordinary, every position kept.
func neutral(text string) string {
	cs, _ := scanText(text)
	b := []byte(text)
	for _, c := range cs {
		if strings.HasPrefix(c.Text, "#lint-") {
			b[c.Off+1] = 'x'
		}
	}
	return string(b)
}

// lineStarts lists the byte offset at which every line starts.
func lineStarts(text string) []int {
	r := []int{0}
	for i := 0; i < len(text); i++ {
		if text[i] == '\r' && i+1 < len(text) && text[i+1] == '\n' {
			continue
		}
		if text[i] == '\n' || text[i] == '\r' {
			r = append(r, i+1)
		}
	}
	return r
}

// offsetOf converts a line and a column counted in characters to a byte offset; -1 if outside.
func offsetOf(text string, starts []int, line, col int) int {
	if line < 1 || line > len(starts) || col < 1 {
		return -1
	}
	i := starts[line-1]
	end := len(text)
	if line < len(starts) {
		end = starts[line]
	}
	for ; col > 1; col-- {
		if i >= end {
			return -1
		}
		_, w := utf8.DecodeRuneInString(text[i:])
		i += w
	}
	if i >= end {
		return -1
	}
	return i
}
