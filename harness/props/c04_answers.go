package props

import (
	"fmt"

	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// bankSeg is a segment of an answer: a known one or one the library does not
// know.
type bankSeg struct {
	Known *segCase `json:",omitempty"`
	Free  *freeSeg `json:",omitempty"`
}

func (s bankSeg) id() (string, int) {
	if s.Known != nil {
		return splitSeg(s.Known.Seg)
	}
	return s.Free.ID, s.Free.Version
}

func (s bankSeg) wire() []byte {
	if s.Known != nil {
		return s.Known.wire()
	}
	return s.Free.wire()
}

func (s bankSeg) pos() int {
	if s.Known != nil {
		return s.Known.Pos
	}
	return s.Free.Pos
}

// unknown ids start and end like known ones.
var unknownIDs = []string{"HISALS", "HIKAZS", "HIPROS", "HISA", "HIUPDS", "HI", "HIRM", "HIRMGX", "DKPSAS", "HIUEBS", "IUPD", "XHIUPD"}

func init() {
	pbt.Add(pbt.Spec[[]bankSeg]{
		Prop: "C04", Name: "answers", Quick: 45000, Thorough: 1000000,
		Rule: "an answer of up to eight segments, known ones of any kind and version, several of a kind, and unknown ones whose ids resemble known ids: each is found by its id, in order, with its values, bytes, position and version; non-trivial: more than one segment",
		Gen: func(t *rapid.T) []bankSeg {
			return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bankSeg {
				if rapid.IntRange(0, 3).Draw(t, "unknown") == 0 {
					s := genFreeSeg(t, nil)
					s.ID = rapid.SampledFrom(unknownIDs).Draw(t, "id")
					return bankSeg{Free: &s}
				}
				spec := rapid.SampledFrom(segSpecs).Draw(t, "segment")
				if rapid.IntRange(0, 2).Draw(t, "few") == 0 {
					spec = segByName[rapid.SampledFrom([]string{"HIUPD:4", "HIUPD:6", "HISAL:5", "HISAL:7", "HIKAZ:5", "HIRMS:2"}).Draw(t, "one of few")]
				}
				c := genSegment(t, spec)
				return bankSeg{Known: &c}
			}), 1, 8).Draw(t, "segments")
		},
		Classify: func(c []bankSeg) []string {
			if len(c) < 2 {
				return nil
			}
			l := []string{fmt.Sprintf("segments-%d", len(c))}
			seen := map[string]bool{}
			for _, s := range c {
				id, _ := s.id()
				if seen[id] {
					return append(l, "several-of-a-kind")
				}
				seen[id] = true
			}
			return l
		},
		Check: func(c []bankSeg) error {
			var wire []byte
			byID := map[string][]bankSeg{}
			var ids []string
			var offers []segment.VersionedSegment
			for _, s := range c {
				if s.Free != nil {
					for _, e := range s.Free.Elems {
						for _, g := range e {
							if !g.Bin && zeroFloat.MatchString(g.Text) {
								return nil // see known-findings.txt
							}
						}
					}
				}
				wire = append(wire, s.wire()...)
				id, v := s.id()
				if byID[id] == nil {
					ids = append(ids, id)
				}
				byID[id] = append(byID[id], s)
				if len(id) > 5 {
					offers = append(offers, segment.VersionedSegment{ID: id, Version: v})
				}
			}
			head := &segment.MessageHeaderSegment{}
			if err := head.UnmarshalHBCI(ref.Segment(ref.Header("HNHBK", 1, 3, -1), []byte("000000000123"), []byte("220"), txt("dlg"), []byte("2"), []byte("dlg:3"))); err != nil {
				return err
			}
			m, err := message.NewDecryptedMessage(head, nil, append([]byte{}, wire...))
			if err != nil {
				return fmt.Errorf("%q: %w", wire, err)
			}
			for _, id := range append(ids, "HIXXX", "") {
				var raw [][]byte
				var known []bankSeg
				for _, s := range byID[id] {
					raw = append(raw, s.wire())
					if s.Known != nil {
						known = append(known, s)
					}
				}
				pos := -1
				var one []byte
				if len(raw) > 0 {
					one, pos = raw[0], byID[id][0].pos()
				}
				if err := first(sameParts("segments "+id, m.FindMarshaledSegments(id), raw), bytesEq("segment "+id, m.FindMarshaledSegment(id), one), eq("position of "+id, m.SegmentPosition(id), pos)); err != nil {
					return err
				}
				segs := m.FindSegments(id)
				if err := first(eq("decoded segments "+id, len(segs), len(known)), eq("decoded segment "+id, m.FindSegment(id) != nil, len(known) > 0)); err != nil {
					return err
				}
				for i, k := range known {
					spec := segByName[k.Known.Seg]
					_, v := k.id()
					h := segs[i].Header()
					if err := first(eq("version", h.Version.Val(), v), eq("position", h.Position.Val(), k.Known.Pos)); err != nil {
						return fmt.Errorf("segment %d of %s: %w", i, id, err)
					}
					if spec.value != nil {
						if err := spec.value(segs[i], *k.Known); err != nil {
							return fmt.Errorf("segment %d of %s: %w", i, id, err)
						}
					}
				}
				if len(segs) > 0 && m.FindSegment(id) != segs[0] {
					return fmt.Errorf("%s: the segment found is not the first one", id)
				}
			}
			got := m.SupportedSegments()
			if err := eq("offered jobs", fmt.Sprint(got), fmt.Sprint(offers)); err != nil {
				return err
			}
			return eq("message number", m.MessageHeader().Number.Val(), 2)
		},
	})
}
