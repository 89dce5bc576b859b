package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

// What code does for most values says nothing about those that it singles out.
// The constants in the code of the package say which those may be, so the ones
// that occur more often than in baseline.go (in thorough runs, all of them) are
// used often in the generated calendars and texts. They change only what is tried, not how it is judged.

// constants counts the constants in the source of the package.
func constants() map[string]int {
	dir := os.Getenv("ICSVERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}

	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	counts := make(map[string]int)

	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}

		a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}

		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					n.Tag = nil
				}
			case ast.Expr:
				if v := fold(n); v.Kind() != constant.Unknown {
					counts[v.ExactString()]++

					if _, ok := n.(*ast.BasicLit); ok {
						return false
					}
				}
			}

			return true
		})
	}

	return counts
}

// fold gives the value of an expression of literals.
func fold(e ast.Expr) (v constant.Value) {
	v = constant.MakeUnknown()

	defer func() {
		if recover() != nil {
			v = constant.MakeUnknown()
		}
	}()

	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.SUB {
			return constant.UnaryOp(e.Op, fold(e.X), 0)
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)

		switch e.Op {
		case token.SHL:
			if s, ok := constant.Uint64Val(y); ok && s < 64 {
				return constant.Shift(x, e.Op, uint(s))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(x, e.Op, y)
		}
	}

	return v
}

// useConstants has the constants ready before anything is at the same time.
func useConstants(tier string) {
	if tier == "thorough" {
		os.Setenv("ICSVERIF_CONSTANTS", "all")
	}

	hints()
}

type hintSet struct {
	texts  []string
	names  []string // made of the characters of names
	zones  []string
	ints   []int64
	floats []float64
	times  []time.Time
}

var hints = sync.OnceValue(func() *hintSet {
	h := new(hintSet)
	all := os.Getenv("ICSVERIF_CONSTANTS") == "all"

	var novel []string

	for k, n := range constants() {
		if n > baseline[k] || all {
			novel = append(novel, k)
		}
	}

	sort.Strings(novel)

	for _, k := range novel {
		if strings.HasPrefix(k, `"`) {
			h.text(constant.StringVal(constant.MakeFromLiteral(k, token.STRING, 0)))

			continue
		}

		v := constant.MakeFromLiteral(strings.TrimPrefix(k, "-"), token.INT, 0)

		if v.Kind() != constant.Int {
			var a, b float64

			if n, _ := fmt.Sscanf(k, "%g/%g", &a, &b); n == 2 && b != 0 {
				h.floats = append(h.floats, a/b)
			}

			continue
		}

		n, ok := constant.Int64Val(v)
		if !ok {
			continue
		}

		if strings.HasPrefix(k, "-") {
			n = -n
		}

		h.ints = append(h.ints, n)
		h.floats = append(h.floats, float64(n))

		if n > 0 && n < utf8.MaxRune && allowedText(string(rune(n))) && n != '\t' && n != '\n' {
			h.texts = append(h.texts, string(rune(n)))
		}

		if n > 100000000 && n < 253402300800 {
			h.times = append(h.times, time.Unix(n, 0).UTC())
		}

		if t, err := time.Parse("20060102", fmt.Sprint(n)); err == nil {
			h.times = append(h.times, t)
		}
	}

	return h
})

// knownName tells whether this is the name of anything known.
func knownName(s string) bool {
	s = strings.ToUpper(s)

	switch s {
	case "BEGIN", "END", "VALUE", "TZID", "ENCODING", "STATUS", "VALARM", "ACTION":
		return true
	}

	return props[s] != nil || params[s] != nil || comps[s] != nil
}

func allowedText(s string) bool {
	for _, r := range s {
		if r < 0x20 && r != '\t' && r != '\n' || r == 0x7f {
			return false
		}
	}

	return s != "" && utf8.ValidString(s)
}

func (h *hintSet) text(s string) {
	if len(s) > 200 {
		return
	}

	parts := append([]string{s}, strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(";:=,\r\n\"/% ", r) })...)

	for i, p := range parts {
		if !allowedText(p) || i > 0 && (p == s || len(p) < 2) {
			continue
		}

		h.texts = append(h.texts, p)

		if strings.IndexFunc(p, func(r rune) bool { return r != '-' && (r > 0x7f || !unicode.IsLetter(r) && !unicode.IsDigit(r)) }) < 0 {
			h.names = append(h.names, p)
		}

		for _, f := range []string{"20060102", "20060102T150405", "20060102T150405Z", "2006-01-02"} {
			if t, err := time.Parse(f, p); err == nil {
				h.times = append(h.times, t)
			}
		}
	}

	if strings.Contains(s, "/") && utf8.ValidString(s) {
		if _, err := loadLocation(s); err == nil {
			h.zones = append(h.zones, s)
		}
	}

	h.ints = append(h.ints, int64(len(s)))
}

// hintText gives texts with one of the constants in it, or of such a length.
func (g *gen) hintText(s string) string {
	h := hints()

	if len(h.texts) > 0 && (len(h.ints) == 0 || g.n(2) == 0) {
		t := pick(g, h.texts)

		switch g.n(8) {
		case 0:
			t = strings.ToUpper(t)
		case 1:
			t = strings.ToLower(t)
		case 2:
			t += t
		}

		switch g.n(4) {
		case 0:
			return t
		case 1:
			return t + s
		case 2:
			return s + t
		default:
			return g.insert(s, t)
		}
	}

	if len(h.ints) == 0 {
		return s
	}

	n := int(pick(g, h.ints)) + g.n(3) - 1

	switch {
	case g.n(3) == 0:
		return g.insert(s, fmt.Sprint(n))
	case n < 0 || n > 100000 || n > 1000 && g.n(n/500) != 0:
		return s
	}

	unit := pick(g, []string{"x", "é", "中", ",", "\n", "\\", "😀"})

	if g.n(2) == 0 { // in bytes
		return strings.Repeat(unit, n/len(unit)) + strings.Repeat("y", n%len(unit))
	}

	return strings.Repeat(unit, n)
}

// hintInt gives one of the constants, or a number next to it, if there is one in
// the range.
func (g *gen) hintInt(lo, hi int64) (int64, bool) {
	l := hints().ints

	if len(l) == 0 || g.n(4) != 0 {
		return 0, false
	}

	n := pick(g, l)

	switch g.n(4) {
	case 0:
		n++
	case 1:
		n--
	}

	if g.n(8) == 0 {
		n = -n
	}

	return n, n >= lo && n <= hi
}

// hintVal changes a value that was made, to one of the constants.
func (g *gen) hintVal(v *Val) {
	h := hints()

	if len(h.texts)+len(h.ints)+len(h.times)+len(h.zones)+len(h.floats) == 0 || g.n(3) != 0 {
		return
	}

	switch v.Kind {
	case KMText:
		if n, ok := g.hintInt(1, 300); ok && len(v.L) > 0 && g.n(4) == 0 {
			for int64(len(v.L)) < n {
				v.L = append(v.L, fmt.Sprint(len(v.L)))
			}

			v.L = v.L[:n]
		}
	case KInteger:
		if n, ok := g.hintInt(math.MinInt32, math.MaxInt32); ok {
			v.I = n
		}
	case KFloats:
		if len(h.floats) > 0 {
			v.F[g.n(2)] = pick(g, h.floats)
		}
	case KOffset:
		if n, ok := g.hintInt(-100*3600+1, 100*3600-1); ok {
			for _, u := range []int64{3600, 60} {
				if m := n * u; g.n(2) == 0 && m > -100*3600 && m < 100*3600 {
					n = m
				}
			}

			v.I = n
		}
	case KBinary:
		if n, ok := g.hintInt(0, 5000); ok && g.n(2) == 0 {
			v.Bytes = make([]byte, n)

			for i := range v.Bytes {
				v.Bytes[i] = byte(g.n(256))
			}
		} else if n, ok := g.hintInt(0, 255); ok {
			v.Bytes = append(v.Bytes, byte(n))
		} else if len(h.texts) > 0 {
			v.Bytes = append(v.Bytes, pick(g, h.texts)...)
		}
	}
}
