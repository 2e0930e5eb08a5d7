//go:build go1.22

// Package jn spells known values as jsonnet programs.
package jn

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

// M is an object
type M = map[string]interface{}

// L is a list
type L = []interface{}

// Writer spells values; files that are imported are created in Dir.
type Writer struct {
	R     *rand.Rand
	Dir   string
	Sugar int // percentage of values which aren't spelled like in JSON
	files int
	loops int
	// Decoys is a directory for files of the same names, which must not be used
	Decoys string
	From   string // directory of the file being written, relative to Dir
}

// Plain spells a value as JSON.
func Plain(v interface{}) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

// Expr spells a value as an expression.
func (w *Writer) Expr(v interface{}) string {
	if w.R.Intn(100) < w.Sugar {
		switch w.R.Intn(9) {
		case 0:
			return "(local x = " + w.Expr(v) + "; x)"
		case 1:
			return "(if true then " + w.Expr(v) + " else error 'unreachable')"
		case 2:
			return "(function(x=1) x)(" + w.Expr(v) + ")"
		case 3:
			return "[" + w.Expr(v) + "][0]"
		case 4:
			return "{ a: " + w.Expr(v) + ", b: error 'unused' }.a"
		case 5:
			if w.Dir != "" && w.files < 6 {
				return w.importFile(v)
			}
		case 6:
			return "(" + w.Expr(v) + ") /* comment */"
		case 7: // deep recursion, within what go-jsonnet supports
			if w.loops++; w.loops == 1 {
				return fmt.Sprintf("(local v = %s, f(n) = if n == 0 then v else [f(n - 1)][0]; f(%d))", w.Expr(v), 1+w.R.Intn(150))
			}
		}
	}
	switch x := v.(type) {
	case string:
		if w.R.Intn(100) < w.Sugar {
			return w.text(x)
		}
		if w.R.Intn(100) < w.Sugar {
			if w.Dir != "" && w.files < 6 && w.R.Intn(3) == 0 && !strings.Contains(x, "\r") {
				return w.importStr(x)
			}
			r := []rune(x)
			if len(r) > 1 {
				i := 1 + w.R.Intn(len(r)-1)
				return Plain(string(r[:i])) + " + " + Plain(string(r[i:]))
			}
		}
		return Plain(x)
	case int:
		if w.R.Intn(100) < w.Sugar {
			return fmt.Sprintf("(%d + 3)", x-3)
		}
		return Plain(x)
	case L:
		if w.R.Intn(100) < w.Sugar && len(x) > 0 {
			i := w.R.Intn(len(x) + 1)
			return "(" + w.list(x[:i]) + " + " + w.list(x[i:]) + ")"
		}
		return w.list(x)
	case M:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		w.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if w.R.Intn(100) < w.Sugar && len(keys) > 0 {
			i := w.R.Intn(len(keys) + 1)
			return "(" + w.object(x, keys[:i]) + " + " + w.object(x, keys[i:]) + ")"
		}
		return w.object(x, keys)
	}
	return Plain(v)
}

func (w *Writer) list(l L) string {
	s := make([]string, len(l))
	for i, x := range l {
		s[i] = w.Expr(x)
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func (w *Writer) object(m M, keys []string) string {
	var s []string
	for _, k := range keys {
		if w.R.Intn(100) < w.Sugar {
			s = append(s, "["+w.key(k)+"]: "+w.Expr(m[k]))
		} else {
			s = append(s, Plain(k)+": "+w.Expr(m[k]))
		}
	}
	if w.R.Intn(100) < w.Sugar {
		s = append(s, `"hidden field":: "not part of the object"`)
	}
	return "{" + strings.Join(s, ", ") + "}"
}

func (w *Writer) key(k string) string {
	r := []rune(k)
	if len(r) > 1 {
		i := 1 + w.R.Intn(len(r)-1)
		return Plain(string(r[:i])) + " + " + Plain(string(r[i:]))
	}
	return Plain(k)
}

func (w *Writer) create(ext string, content func() string) string {
	w.files++
	name := fmt.Sprintf("part%d%s", w.files, ext)
	dir := []string{"", "lib", "lib/deep"}[w.R.Intn(3)]
	from := w.From
	path := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Join(w.Dir, dir), 0755); err != nil {
		panic(err)
	}
	w.From = dir
	text := content()
	w.From = from
	if err := os.WriteFile(filepath.Join(w.Dir, path), []byte(text), 0644); err != nil {
		panic(err)
	}
	use := path
	defer func() { w.decoy(use) }()
	if w.R.Intn(2) == 0 {
		// files are also found relative to the runbook's directory
		return use
	}
	rel, err := filepath.Rel(filepath.Join("/", from), filepath.Join("/", path))
	if err != nil {
		panic(err)
	}
	use = rel
	return use
}

// decoy creates a file where the working directory has one of the same name
func (w *Writer) decoy(path string) {
	if w.Decoys == "" || w.Decoys == w.Dir || strings.HasPrefix(path, "..") || w.R.Intn(2) == 0 {
		return
	}
	path = filepath.Join(w.Decoys, path)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte("error 'the wrong file'"), 0644); err != nil {
		panic(err)
	}
}

// Text spells a string in one of the many ways there are
func (w *Writer) text(s string) string {
	if !utf8.ValidString(s) {
		return Plain(s)
	}
	quote := []string{`"`, "'"}[w.R.Intn(2)]
	switch w.R.Intn(4) {
	case 0: // as it is
		return "@" + quote + strings.Replace(s, quote, quote+quote, -1) + quote
	case 1: // with as few escapes as possible
		return quote + strings.NewReplacer(`\`, `\\`, quote, `\`+quote).Replace(s) + quote
	case 2: // with as many escapes as possible
		var b strings.Builder
		for _, c := range s {
			if c > 0xffff { // go-jsonnet doesn't know surrogates
				b.WriteRune(c)
			} else {
				fmt.Fprintf(&b, `\u%04X`, c)
			}
		}
		return quote + b.String() + quote
	}
	if !strings.HasSuffix(s, "\n") || strings.Contains(s, "\r") || s[0] == ' ' || s[0] == '\t' || s[0] == '\n' {
		return Plain(s)
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := range lines {
		if lines[i] != "" || i == 0 {
			lines[i] = "  " + lines[i]
		}
	}
	return "|||\n" + strings.Join(lines, "\n") + "\n|||"
}

func (w *Writer) importFile(v interface{}) string {
	p := w.create(".libsonnet", func() string { return w.Expr(v) + "\n" })
	return "(import " + Plain(p) + ")"
}

func (w *Writer) importStr(s string) string {
	p := w.create(".txt", func() string { return s })
	return "(importstr " + Plain(p) + ")"
}
