// Package ref holds reference models written from the BEP texts, independent
// of the code under test.
package ref

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strconv"
)

// Value is a bencode value: Int (int), string, List ([]Value) or Dict (map).
type Value interface{}
type List []Value
type Dict map[string]Value

// Keys are the keys of d in order.
func Keys(d Dict) []string {
	var r []string
	for k := range d {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Encode writes canonical bencode (sorted keys).
func Encode(v Value) []byte {
	var b bytes.Buffer
	enc(&b, v, nil)
	return b.Bytes()
}

// EncodeOrder writes bencode with dictionary keys permuted by perm(keys).
func EncodeOrder(v Value, perm func([]string) []string) []byte {
	var b bytes.Buffer
	enc(&b, v, perm)
	return b.Bytes()
}

func enc(b *bytes.Buffer, v Value, perm func([]string) []string) {
	switch x := v.(type) {
	case int:
		b.WriteString("i" + strconv.Itoa(x) + "e")
	case string:
		b.WriteString(strconv.Itoa(len(x)) + ":" + x)
	case List:
		b.WriteByte('l')
		for _, e := range x {
			enc(b, e, perm)
		}
		b.WriteByte('e')
	case Dict:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if perm != nil {
			keys = perm(keys)
		}
		b.WriteByte('d')
		for _, k := range keys {
			enc(b, k, perm)
			enc(b, x[k], perm)
		}
		b.WriteByte('e')
	default:
		panic(fmt.Sprintf("ref.Encode: %T", v))
	}
}

// Verdict of the reference parser.
type Verdict int

const (
	Bad   Verdict = iota // not bencode
	Good                 // well-formed, value unambiguous
	Murky                // accepted or not is a matter of taste (zero-padded string lengths, duplicate keys)
)

func (v Verdict) String() string { return [...]string{"malformed", "well-formed", "unspecified"}[v] }

type parser struct {
	s     []byte
	murky bool
}

// Parse reads one value at the start of s; next is the index behind it.
func Parse(s []byte) (v Value, next int, verdict Verdict) {
	p := &parser{s: s}
	v, next, ok := p.item(0)
	if !ok {
		return nil, -1, Bad
	}
	if p.murky {
		return v, next, Murky
	}
	return v, next, Good
}

// ParseAll reads a value that must fill s.
func ParseAll(s []byte) (Value, Verdict) {
	v, n, verdict := Parse(s)
	if verdict == Bad || n != len(s) {
		return nil, Bad
	}
	return v, verdict
}

func (p *parser) item(i int) (Value, int, bool) {
	if i >= len(p.s) {
		return nil, 0, false
	}
	switch c := p.s[i]; {
	case c == 'i':
		return p.integer(i)
	case c == 'l':
		l := List{}
		i++
		for {
			if i >= len(p.s) {
				return nil, 0, false
			}
			if p.s[i] == 'e' {
				return l, i + 1, true
			}
			v, n, ok := p.item(i)
			if !ok {
				return nil, 0, false
			}
			l = append(l, v)
			i = n
		}
	case c == 'd':
		d := Dict{}
		i++
		for {
			if i >= len(p.s) {
				return nil, 0, false
			}
			if p.s[i] == 'e' {
				return d, i + 1, true
			}
			if p.s[i] < '0' || p.s[i] > '9' {
				return nil, 0, false
			}
			k, n, ok := p.str(i)
			if !ok {
				return nil, 0, false
			}
			v, n2, ok := p.item(n)
			if !ok {
				return nil, 0, false
			}
			ks := k.(string)
			if _, dup := d[ks]; dup {
				p.murky = true
			}
			d[ks] = v
			i = n2
		}
	case c >= '0' && c <= '9':
		return p.str(i)
	}
	return nil, 0, false
}

func (p *parser) integer(i int) (Value, int, bool) {
	j := bytes.IndexByte(p.s[i:], 'e')
	if j < 0 {
		return nil, 0, false
	}
	t := string(p.s[i+1 : i+j])
	d := t
	neg := false
	if len(d) > 0 && d[0] == '-' {
		neg = true
		d = d[1:]
	}
	if d == "" || (d[0] == '0' && (len(d) > 1 || neg)) {
		return nil, 0, false
	}
	for k := 0; k < len(d); k++ {
		if d[k] < '0' || d[k] > '9' {
			return nil, 0, false
		}
	}
	n, _ := new(big.Int).SetString(t, 10)
	if !n.IsInt64() {
		return nil, 0, false
	}
	return int(n.Int64()), i + j + 1, true
}

func (p *parser) str(i int) (Value, int, bool) {
	j := i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == i || j >= len(p.s) || p.s[j] != ':' {
		return nil, 0, false
	}
	d := string(p.s[i:j])
	if len(d) > 1 && d[0] == '0' {
		p.murky = true
	}
	n, _ := new(big.Int).SetString(d, 10)
	if n.Cmp(big.NewInt(int64(len(p.s)-j-1))) > 0 {
		return nil, 0, false
	}
	l := int(n.Int64())
	return string(p.s[j+1 : j+1+l]), j + 1 + l, true
}

// Equal compares two values.
func Equal(a, b Value) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case List:
		y, ok := b.(List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := b.(Dict)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			w, ok := y[k]
			if !ok || !Equal(x[k], w) {
				return false
			}
		}
		return true
	}
	return false
}
