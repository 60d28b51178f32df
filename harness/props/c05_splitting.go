package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// A freeSeg is a segment of arbitrary elements.
type freeSeg struct {
	ID           string
	Pos, Version int
	Ref          int
	Elems        [][]freeGDE
}

type freeGDE struct {
	Bin  bool   `json:",omitempty"`
	Text string `json:",omitempty"`
	Data pbt.B  `json:",omitempty"`
	Big  int    `json:",omitempty"` // bytes after the data
}

func (g freeGDE) wire() []byte {
	if g.Bin {
		return ref.Bin(append(append([]byte{}, g.Data...), bigBytes(g.Big)...))
	}
	return txt(g.Text)
}

func (s freeSeg) elems() [][]byte {
	els := [][]byte{ref.Header(s.ID, s.Pos, s.Version, s.Ref)}
	for _, e := range s.Elems {
		var gs [][]byte
		for _, g := range e {
			gs = append(gs, g.wire())
		}
		els = append(els, bytes.Join(gs, []byte(":")))
	}
	return els
}

func (s freeSeg) wire() []byte { return append(bytes.Join(s.elems(), []byte("+")), '\'') }

func genFreeSeg(t *rapid.T, ids []string) freeSeg {
	s := freeSeg{Pos: rapid.IntRange(1, 99).Draw(t, "pos"), Version: rapid.IntRange(1, 9).Draw(t, "ver"), Ref: -1}
	if len(ids) > 0 && rapid.IntRange(0, 2).Draw(t, "known") > 0 {
		s.ID = rapid.SampledFrom(ids).Draw(t, "id")
	} else {
		s.ID = upperID(1, 10).Draw(t, "id")
	}
	if rapid.Bool().Draw(t, "ref") {
		s.Ref = rapid.IntRange(0, 99).Draw(t, "refnum")
	}
	gde := rapid.Custom(func(t *rapid.T) freeGDE {
		switch rapid.IntRange(0, 5).Draw(t, "gde") {
		case 0:
			return freeGDE{}
		case 1:
			g := freeGDE{Bin: true, Data: binary(30).Draw(t, "data")}
			if rapid.IntRange(0, 299).Draw(t, "large") == 0 {
				g.Big = bigSize().Draw(t, "big")
			}
			return g
		case 2:
			return freeGDE{Text: multiline(12).Draw(t, "txt")}
		case 3:
			return freeGDE{Text: fmt.Sprint(rapid.IntRange(0, 1e9).Draw(t, "num"))}
		default:
			return freeGDE{Text: anyText(12).Draw(t, "an")}
		}
	})
	s.Elems = rapid.SliceOfN(rapid.SliceOfN(gde, 1, 4), 0, 5).Draw(t, "elems")
	return s
}

func trimEmpty(b [][]byte) [][]byte {
	for len(b) > 0 && len(b[len(b)-1]) == 0 {
		b = b[:len(b)-1]
	}
	return b
}

func sameParts(what string, got, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: got %d parts %q, want %d %q", what, len(got), got, len(want), want)
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("%s, part %d: got %q, want %q", what, i, got[i], want[i])
		}
	}
	return nil
}

func freeLabels(segs []freeSeg) []string {
	var texts []string
	set := map[string]bool{}
	for _, s := range segs {
		for _, e := range s.Elems {
			for _, g := range e {
				if g.Bin {
					set["binary"] = true
					if g.Big > 65535 {
						set["binary-over-64k"] = true
					}
					if strings.ContainsAny(string(g.Data), "'+:") {
						set["binary-with-delimiters"] = true
					}
				} else if g.Text == "" {
					set["empty-element"] = true
				}
				texts = append(texts, g.Text)
			}
		}
	}
	l := textLabels(texts...)
	for k := range set {
		l = append(l, k)
	}
	return l
}

func init() {
	pbt.Add(pbt.Spec[[]freeSeg]{
		Prop: "C05", Name: "messages", Quick: 180000, Thorough: 3600000,
		Rule: "1-6 segments of arbitrary elements (text, numbers, binary, empty) under ids that are prefixes of each other; segments, elements and group elements are compared with how the message was put together; non-trivial when an element is binary, empty or holds syntax characters or line breaks",
		Gen: func(t *rapid.T) []freeSeg {
			ids := []string{"HIRMG", "HIUPD", "HISAL", "HISALS", "HISA", "HI", "H", "HISALSX", "HIUPDATE"}
			return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) freeSeg { return genFreeSeg(t, ids) }), 1, 6).Draw(t, "segs")
		},
		Classify: freeLabels,
		Check: func(c []freeSeg) error {
			var msg []byte
			var want [][]byte
			for _, s := range c {
				want = append(want, s.wire())
				msg = append(msg, s.wire()...)
			}
			orig := append([]byte{}, msg...)
			x := message.NewSegmentExtractor(msg)
			got, err := x.Extract()
			if err != nil {
				return fmt.Errorf("extract: %v", err)
			}
			if err := sameParts("segments", got, want); err != nil {
				return err
			}
			if err := bytesEq("input after extract", msg, orig); err != nil {
				return err
			}
			for i := range got { // the caller's own
				got[i] = nil
			}
			if len(c)%2 == 0 {
				again, err := x.Extract()
				if err != nil {
					return fmt.Errorf("extract again: %v", err)
				}
				if err := sameParts("segments extracted again", again, want); err != nil {
					return err
				}
			}
			if err := sameParts("collected segments", x.Segments(), want); err != nil {
				return err
			}
			for _, s := range c {
				var all [][]byte
				for _, o := range c {
					if o.ID == s.ID {
						all = append(all, o.wire())
					}
				}
				if err := first(bytesEq("first "+s.ID, x.FindSegment(s.ID), all[0]), sameParts("all "+s.ID, x.FindSegments(s.ID), all)); err != nil {
					return err
				}
			}
			if x.FindSegment("NOPE") != nil || len(x.FindSegments("NOPE")) != 0 {
				return fmt.Errorf("found a segment that is not there")
			}
			for _, s := range c {
				wire := s.wire()
				els, err := segment.ExtractElements(wire)
				if err != nil {
					return fmt.Errorf("elements of %q: %v", wire, err)
				}
				if err := sameParts("elements of "+string(wire), trimEmpty(els), trimEmpty(s.elems())); err != nil {
					return err
				}
				for i, e := range s.Elems {
					var gs [][]byte
					for _, g := range e {
						gs = append(gs, g.wire())
					}
					w := s.elems()[i+1]
					got, err := element.ExtractElements(append([]byte{}, w...))
					if err != nil {
						return fmt.Errorf("group elements of %q: %v", w, err)
					}
					if err := sameParts("group elements of "+string(w), trimEmpty(got), trimEmpty(gs)); err != nil {
						return err
					}
				}
			}
			return nil
		},
	})

	pbt.Add(pbt.Spec[struct{ Msg pbt.B }]{
		Prop: "C05", Name: "damaged", Quick: 360000, Thorough: 7200000,
		Rule: "messages with 0-3 byte edits or truncation against an independent parser: the same messages are accepted and split at the same places; non-trivial when the message was damaged into one the parser rejects, or was split",
		Gen: func(t *rapid.T) (c struct{ Msg pbt.B }) {
			var msg []byte
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "segs"); i < n; i++ {
				msg = append(msg, genFreeSeg(t, nil).wire()...)
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "edits"); i < n; i++ {
				at := rapid.IntRange(0, len(msg)).Draw(t, "at")
				b := rapid.SampledFrom([]byte("+:'?@0123456789,AZaz\n\xe4")).Draw(t, "b")
				switch rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4}).Draw(t, "op") {
				case 4: // a length no message has
					n := rapid.SampledFrom([]string{"100", "2147483647", "4294967296", "9223372036854775000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999999"}).Draw(t, "length")
					msg = append(msg[:at:at], append([]byte("@"+n+"@"), msg[at:]...)...)
				case 0:
					msg = append(msg[:at:at], append([]byte{b}, msg[at:]...)...)
				case 1:
					if at < len(msg) {
						msg = append(msg[:at:at], msg[at+1:]...)
					}
				case 2:
					if at < len(msg) {
						msg = append(msg[:at:at], append([]byte{b}, msg[at+1:]...)...)
					}
				case 3:
					msg = msg[:at:at]
				}
			}
			c.Msg = msg
			return
		},
		Classify: func(c struct{ Msg pbt.B }) []string {
			segs, err := ref.Parse(c.Msg)
			if err != nil {
				return []string{"malformed"}
			}
			if len(segs) > 0 {
				return []string{"wellformed"}
			}
			return nil
		},
		Check: func(c struct{ Msg pbt.B }) error {
			segs, perr := ref.Parse(c.Msg)
			for _, s := range segs {
				for _, e := range s.Elems {
					for _, g := range e {
						if !g.Binary && zeroFloat.Match(g.Val) {
							return nil // see known-findings.txt
						}
						if !g.Binary && bytes.IndexByte(g.Val, 0) >= 0 {
							return nil // NUL is no character of the HBCI character set
						}
					}
				}
			}
			got, err := message.NewSegmentExtractor(append([]byte{}, c.Msg...)).Extract()
			if (err == nil) != (perr == nil) {
				return fmt.Errorf("%q: reference says %v, library says %v", c.Msg, perr, err)
			}
			if err != nil {
				return nil
			}
			var want [][]byte
			for _, s := range segs {
				want = append(want, s.Raw)
			}
			return sameParts("segments", got, want)
		},
	})
}
