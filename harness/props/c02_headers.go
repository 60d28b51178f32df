package props

import (
	"fmt"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// A segment header that is written, numbered, given a reference and read again
// any number of times.
type headerCase struct {
	ID           string
	Pos, Version int
	Ref          int // -1: none
	Steps        []headerStep
}

type headerStep struct {
	Op string
	N  int `json:",omitempty"`
}

func (c headerCase) check() error {
	h := element.NewSegmentHeader(c.ID, c.Pos, c.Version)
	if c.Ref >= 0 {
		h = element.NewReferencingSegmentHeader(c.ID, c.Pos, c.Version, c.Ref)
	}
	pos, r := c.Pos, c.Ref
	same := func(when string) error {
		want := ref.Header(c.ID, pos, c.Version, r)
		got, err := h.MarshalHBCI()
		if err != nil {
			return fmt.Errorf("%s: %v", when, err)
		}
		return first(bytesEq(when, got, want), eq(when+": id", h.ID.Val(), c.ID), eq(when+": position", h.Position.Val(), pos),
			eq(when+": version", h.Version.Val(), c.Version), eq(when+": reference", h.ReferencingSegment(), r), eq(when+": valid", h.IsValid(), true))
	}
	if err := same("new"); err != nil {
		return err
	}
	for i, s := range c.Steps {
		switch s.Op {
		case "position":
			h.SetPosition(s.N)
			pos = s.N
		case "reference":
			h.SetReference(s.N)
			r = s.N
		case "read":
			next := &element.SegmentHeader{}
			if s.N%2 == 1 { // into a header that held something else
				next = element.NewReferencingSegmentHeader("HNHBK", 1, 3, 2)
				if r < 0 {
					next = element.NewSegmentHeader("HNHBK", 1, 3)
				}
			}
			if err := next.UnmarshalHBCI(ref.Header(c.ID, pos, c.Version, r)); err != nil {
				return err
			}
			h = next
		}
		if err := same(fmt.Sprintf("step %d (%s)", i, s.Op)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[headerCase]{
		Prop: "C02", Name: "headers", Quick: 60000, Thorough: 3000000,
		Rule: "a segment header, with or without a reference, that is given positions and references and read again up to six times; bytes and accessors are compared with a model after each step; non-trivial: at least one step",
		Gen: func(t *rapid.T) headerCase {
			c := headerCase{ID: rapid.StringMatching("[A-Z]{5,6}").Draw(t, "id"), Pos: rapid.IntRange(0, 999).Draw(t, "pos"), Version: rapid.IntRange(1, 999).Draw(t, "version"), Ref: rapid.IntRange(-1, 999).Draw(t, "ref")}
			if rapid.Bool().Draw(t, "none") {
				c.Ref = -1
			}
			c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) headerStep {
				return headerStep{rapid.SampledFrom([]string{"position", "reference", "reference", "read"}).Draw(t, "op"), rapid.IntRange(0, 999).Draw(t, "n")}
			}), 0, 6).Draw(t, "steps")
			return c
		},
		Classify: func(c headerCase) []string {
			var out []string
			for _, s := range c.Steps {
				out = append(out, s.Op)
			}
			return out
		},
		Check: headerCase.check,
	})
}
