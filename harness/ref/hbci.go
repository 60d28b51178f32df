// Package ref is an independent, deliberately simple model of the HBCI wire
// syntax. Nothing in it calls go-hbci.
package ref

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// Latin1 encodes s as ISO 8859-1; every rune must be below 256.
func Latin1(s string) []byte {
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			panic(fmt.Sprintf("harness: rune %q is not in ISO 8859-1", r))
		}
		out = append(out, byte(r))
	}
	return out
}

// UTF8 decodes ISO 8859-1.
func UTF8(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

// Escape escapes the syntax characters of b.
func Escape(b []byte) []byte {
	var out []byte
	for _, c := range b {
		switch c {
		case '+', ':', '\'', '?', '@':
			out = append(out, '?')
		}
		out = append(out, c)
	}
	return out
}

// Text is the wire form of a text.
func Text(s string) []byte { return Escape(Latin1(s)) }

// Bin is the wire form of binary data.
func Bin(b []byte) []byte {
	return append([]byte("@"+strconv.Itoa(len(b))+"@"), b...)
}

// Num is the wire form of a number.
func Num(n int) []byte { return []byte(strconv.Itoa(n)) }

// Digits is a zero padded number.
func Digits(n, width int) []byte {
	s := strconv.Itoa(n)
	for len(s) < width {
		s = "0" + s
	}
	return []byte(s)
}

// Amount is the wire form of an amount of hundredths, without trailing zeros.
func Amount(cents int64) []byte {
	if cents < 0 {
		panic("harness: negative amount")
	}
	whole, frac := cents/100, cents%100
	s := strconv.FormatInt(whole, 10) + ","
	switch {
	case frac == 0:
	case frac%10 == 0:
		s += strconv.FormatInt(frac/10, 10)
	default:
		s += string([]byte{byte('0' + frac/10), byte('0' + frac%10)})
	}
	return []byte(s)
}

// Bool is the wire form of a yes/no value.
func Bool(b bool) []byte {
	if b {
		return []byte("J")
	}
	return []byte("N")
}

// Group joins group elements; trailing empty ones are dropped.
func Group(elems ...[]byte) []byte {
	for len(elems) > 0 && len(elems[len(elems)-1]) == 0 {
		elems = elems[:len(elems)-1]
	}
	return bytes.Join(elems, []byte(":"))
}

// Segment joins data elements; trailing empty ones are dropped.
func Segment(elems ...[]byte) []byte {
	for len(elems) > 0 && len(elems[len(elems)-1]) == 0 {
		elems = elems[:len(elems)-1]
	}
	return append(bytes.Join(elems, []byte("+")), '\'')
}

// Header is the wire form of a segment header; ref < 0 leaves the reference out.
func Header(id string, pos, version, ref int) []byte {
	h := Group([]byte(id), Num(pos), Num(version))
	if ref >= 0 {
		h = append(h, ':')
		h = append(h, Num(ref)...)
	}
	return h
}

// GDE is one group data element of a parsed message.
type GDE struct {
	// Val is the unescaped text or the content of the binary.
	Val    []byte
	Binary bool
}

// DE is a data element: one or more group data elements.
type DE []GDE

// Seg is a parsed segment.
type Seg struct {
	Elems []DE
	// Raw is the segment as it was on the wire, with its terminator.
	Raw []byte
	// Off is where it starts in the message.
	Off int
}

// Parse splits a message according to the HBCI syntax rules.
func Parse(msg []byte) ([]Seg, error) {
	var segs []Seg
	i, start := 0, 0
	var elems []DE
	var de DE
	var cur []byte
	bin := false
	endGDE := func() { de = append(de, GDE{Val: cur, Binary: bin}); cur, bin = nil, false }
	endDE := func() { endGDE(); elems = append(elems, de); de = nil }
	fresh := true // at the start of a group data element
	for i < len(msg) {
		c := msg[i]
		switch {
		case c == '@' && fresh:
			j := i + 1
			for j < len(msg) && msg[j] >= '0' && msg[j] <= '9' {
				j++
			}
			if j == i+1 || j >= len(msg) || msg[j] != '@' {
				return nil, fmt.Errorf("malformed binary header at %d", i)
			}
			n, err := strconv.Atoi(string(msg[i+1 : j]))
			if err != nil || n > len(msg)-j-1 {
				return nil, fmt.Errorf("binary too long at %d", i)
			}
			cur = append([]byte{}, msg[j+1:j+1+n]...)
			bin = true
			i = j + 1 + n
			if i >= len(msg) || (msg[i] != '+' && msg[i] != ':' && msg[i] != '\'') {
				return nil, fmt.Errorf("no delimiter after binary at %d", i)
			}
			fresh = false
		case c == '?':
			if i+1 >= len(msg) || !strings.ContainsRune("+:'?@", rune(msg[i+1])) {
				return nil, fmt.Errorf("stray escape at %d", i)
			}
			cur = append(cur, msg[i+1])
			i += 2
			fresh = false
		case c == ':':
			endGDE()
			i++
			fresh = true
		case c == '+':
			endDE()
			i++
			fresh = true
		case c == '\'':
			endDE()
			i++
			segs = append(segs, Seg{Elems: elems, Raw: append([]byte{}, msg[start:i]...), Off: start})
			elems = nil
			start = i
			fresh = true
		default:
			cur = append(cur, c)
			i++
			fresh = false
		}
	}
	if start != len(msg) {
		return nil, fmt.Errorf("unterminated segment at %d", start)
	}
	return segs, nil
}

// ID, Pos and Version read the segment header.
func (s Seg) ID() string   { return s.G(0, 0) }
func (s Seg) Pos() int     { return atoi(s.G(0, 1)) }
func (s Seg) Version() int { return atoi(s.G(0, 2)) }

// G returns group element j of element i as text, "" when absent.
func (s Seg) G(i, j int) string {
	if i >= len(s.Elems) || j >= len(s.Elems[i]) {
		return ""
	}
	return UTF8(s.Elems[i][j].Val)
}

// B returns group element j of element i as bytes.
func (s Seg) B(i, j int) []byte {
	if i >= len(s.Elems) || j >= len(s.Elems[i]) {
		return nil
	}
	return s.Elems[i][j].Val
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// Shape is a comparable rendering of the structure and content of segments.
func Shape(segs []Seg) string {
	var sb strings.Builder
	for _, s := range segs {
		for _, d := range s.Elems {
			sb.WriteString("{")
			for _, g := range d {
				if g.Binary {
					sb.WriteString("b")
				}
				sb.WriteString(strconv.Quote(string(g.Val)))
				sb.WriteString(" ")
			}
			sb.WriteString("}")
		}
		sb.WriteString("|")
	}
	return sb.String()
}
