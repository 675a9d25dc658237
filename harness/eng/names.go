package eng

import (
	"fmt"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
)

// Faults of a domain name text.
type Faults struct {
	Escape, Empty, Label, Many, Long bool
}

// Any tells if there is a fault.
func (f Faults) Any() bool { return f.Escape || f.Empty || f.Label || f.Many || f.Long }

// Match tells if err names one of the faults.
func (f Faults) Match(err error) bool {
	switch err {
	case domain.ErrInvalidEscape:
		return f.Escape
	case domain.ErrEmptyLabel:
		return f.Empty
	case domain.ErrLabelTooLong:
		return f.Label
	case domain.ErrTooManyLabels:
		return f.Many
	case domain.ErrNameTooLong:
		return f.Long
	}
	return false
}

func (f Faults) String() string {
	var l []string
	for _, x := range []struct {
		b bool
		s string
	}{{f.Escape, "invalid escape"}, {f.Empty, "empty label"}, {f.Label, "label too long"}, {f.Many, "too many labels"}, {f.Long, "name too long"}} {
		if x.b {
			l = append(l, x.s)
		}
	}
	return strings.Join(l, ", ")
}

func up(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

// token is a decoded character, an unescaped dot or a broken escape.
type token struct {
	c   byte
	dot bool
	bad bool
	end int // offset of the next token
}

// tokenize decodes escapes; it is the documented grammar written down naively.
func tokenize(s string) []token {
	var l []token
	for i := 0; i < len(s); {
		if s[i] == '.' {
			i++
			l = append(l, token{dot: true, end: i})
			continue
		}
		if s[i] != '\\' {
			l = append(l, token{c: up(s[i]), end: i + 1})
			i++
			continue
		}
		// escape
		if i+1 >= len(s) {
			l = append(l, token{bad: true, end: i + 1})
			i++
			continue
		}
		if d := s[i+1]; d < '0' || d > '9' {
			l = append(l, token{c: up(d), end: i + 2})
			i += 2
			continue
		}
		n, k := 0, 0
		for k < 3 && i+1+k < len(s) && s[i+1+k] >= '0' && s[i+1+k] <= '9' {
			n = n*10 + int(s[i+1+k]-'0')
			k++
		}
		if k == 3 && n <= 255 {
			l = append(l, token{c: up(byte(n)), end: i + 4})
			i += 4
			continue
		}
		l = append(l, token{bad: true, end: i + 1})
		i++
	}
	return l
}

// ParseName is the reference parser: labels in order of the text or faults.
func ParseName(s string) ([]string, Faults) {
	var f Faults
	if s == "" || s == "." {
		return nil, f
	}
	toks := tokenize(s)
	var labels []string
	var cur []byte
	open := false // something was seen since the last dot
	for i, t := range toks {
		switch {
		case t.bad:
			f.Escape = true
			open = true
		case t.dot:
			if !open {
				f.Empty = true
			}
			labels = append(labels, string(cur))
			cur = cur[:0]
			open = false
			_ = i
		default:
			cur = append(cur, t.c)
			open = true
		}
	}
	if open {
		labels = append(labels, string(cur))
	}
	total := 0
	for _, l := range labels {
		if len(l) > 63 {
			f.Label = true
		}
		total += len(l) + 1
	}
	if len(labels) > 127 {
		f.Many = true
	}
	if total > 255 {
		f.Long = true
	}
	if f.Any() {
		return nil, f
	}
	return labels, f
}

// ParseLabel is the reference parser of labels (one ending dot allowed).
func ParseLabel(s string) (label string, f Faults, innerDot bool) {
	toks := tokenize(s)
	var cur []byte
	for i, t := range toks {
		switch {
		case t.bad:
			f.Escape = true
		case t.dot:
			if i != len(toks)-1 {
				innerDot = true
			}
		default:
			cur = append(cur, t.c)
		}
	}
	if len(cur) > 63 {
		f.Label = true
	}
	return string(cur), f, innerDot
}

// CanonName is an unambiguous text for a list of labels.
func CanonName(labels []string) string {
	var b strings.Builder
	for _, l := range labels {
		fmt.Fprintf(&b, "%d:%s,", len(l), l)
	}
	return b.String()
}

// CanonText parses text of a name and returns its canonical form.
func CanonText(s string) string {
	l, f := ParseName(s)
	if f.Any() {
		return "invalid name " + s
	}
	return CanonName(l)
}

// HumanLabel is the reference rendering of a label.
func HumanLabel(l string) string {
	var b strings.Builder
	for i := 0; i < len(l); i++ {
		c := l[i]
		switch {
		case c == '.' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < '!' || c > '~':
			fmt.Fprintf(&b, "\\%03d", c)
		case c >= 'A' && c <= 'Z':
			b.WriteByte(c + 32)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// rawLabel escapes only dots and backslashes.
func rawLabel(l string) string {
	var b strings.Builder
	for i := 0; i < len(l); i++ {
		c := l[i]
		if c == '.' || c == '\\' {
			b.WriteByte('\\')
		} else if c >= 'A' && c <= 'Z' {
			c += 32
		}
		b.WriteByte(c)
	}
	return b.String()
}

// LabelSpellings returns texts of a label: plain, upper case, all characters escaped by
// numbers, escaped by characters, mixed, raw bytes.
func LabelSpellings(l string) []string {
	add := func(out []string, s string) []string {
		for _, x := range out {
			if x == s {
				return out
			}
		}
		return append(out, s)
	}
	out := []string{HumanLabel(l)}
	out = add(out, upperPlain(HumanLabel(l)))
	var num, chr, mix strings.Builder
	for i := 0; i < len(l); i++ {
		c := l[i]
		fmt.Fprintf(&num, "\\%03d", c)
		lc := c
		if c >= 'A' && c <= 'Z' && i%2 == 0 {
			lc = c + 32
		}
		if c >= '0' && c <= '9' {
			chr.WriteByte(c)
		} else {
			chr.WriteByte('\\')
			chr.WriteByte(lc)
		}
		if i%2 == 0 {
			fmt.Fprintf(&mix, "\\%03d", lc)
		} else if c == '.' || c == '\\' {
			mix.WriteByte('\\')
			mix.WriteByte(c)
		} else {
			mix.WriteByte(lc)
		}
	}
	out = add(out, num.String())
	out = add(out, chr.String())
	out = add(out, mix.String())
	out = add(out, rawLabel(l))
	return out
}

// upperPlain turns letters into upper case (escapes have no letters in renderings).
func upperPlain(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = up(b[i])
	}
	return string(b)
}

// NameSpellings returns texts of a name.
func NameSpellings(labels []string, max int) []string {
	if len(labels) == 0 {
		return []string{"", "."}[:min(2, max)]
	}
	var out []string
	for i := 0; i < 6; i++ {
		var p []string
		for _, l := range labels {
			sp := LabelSpellings(l)
			p = append(p, sp[i%len(sp)])
		}
		t := strings.Join(p, ".")
		if i%2 == 1 {
			t += "."
		}
		dup := false
		for _, o := range out {
			dup = dup || o == t
		}
		if !dup {
			out = append(out, t)
		}
		if len(out) >= max {
			break
		}
	}
	return out
}

// ShortLex is the order of labels.
func ShortLex(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return strings.Compare(a, b)
}

// NameLess is the order of names: from the top label down, parents first.
func NameLess(a, b []string) bool {
	i, j := len(a)-1, len(b)-1
	for i >= 0 && j >= 0 {
		if c := ShortLex(a[i], b[j]); c != 0 {
			return c < 0
		}
		i--
		j--
	}
	return i < 0 && j >= 0
}

// IsSub tells if name a equals to b or is below it.
func IsSub(a, b []string) bool {
	if len(a) < len(b) {
		return false
	}
	a = a[len(a)-len(b):]
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
