package sim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Own JSON writer, independent of the code under test.

type obj = map[string]any
type arr = []any

// canonical JSON (OLPC): sorted keys, no white space, only \" and \\ escaped.
func canon(v any) []byte {
	var b strings.Builder
	wr(&b, v, -1, 0, true)
	return []byte(b.String())
}

// pretty JSON, indent<0 means compact.
func plainJSON(v any, indent int) []byte {
	var b strings.Builder
	wr(&b, v, indent, 0, false)
	return []byte(b.String())
}

func wrStr(b *strings.Builder, s string, canonical bool) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20 && !canonical:
			fmt.Fprintf(b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func nl(b *strings.Builder, indent, depth int) {
	if indent >= 0 {
		b.WriteByte('\n')
		b.WriteString(strings.Repeat(" ", indent*depth))
	}
}

func wr(b *strings.Builder, v any, indent, d int, canonical bool) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case string:
		wrStr(b, x, canonical)
	case rawJSON:
		b.WriteString(string(x))
	case []string:
		a := make(arr, len(x))
		for i := range x {
			a[i] = x[i]
		}
		wr(b, a, indent, d, canonical)
	case arr:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(b, indent, d+1)
			wr(b, e, indent, d+1, canonical)
		}
		if len(x) > 0 {
			nl(b, indent, d)
		}
		b.WriteByte(']')
	case obj:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(b, indent, d+1)
			wrStr(b, k, canonical)
			b.WriteByte(':')
			if indent >= 0 {
				b.WriteByte(' ')
			}
			wr(b, x[k], indent, d+1, canonical)
		}
		if len(keys) > 0 {
			nl(b, indent, d)
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("sim: cannot encode %T", v))
	}
}

// rawJSON is inserted as it is (used to build malformed documents).
type rawJSON string

func clone(v any) any {
	switch x := v.(type) {
	case obj:
		c := obj{}
		for k, e := range x {
			c[k] = clone(e)
		}
		return c
	case arr:
		c := make(arr, len(x))
		for i, e := range x {
			c[i] = clone(e)
		}
		return c
	case []string:
		return append([]string(nil), x...)
	}
	return v
}
