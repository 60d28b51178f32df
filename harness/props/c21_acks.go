package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

type (
	ackCode struct {
		Code int
		Kind string
	}
	// answer is a decrypted answer of the bank and the header of its envelope.
	answer struct {
		Version int
		Dialog  string
		Number  int
		Ref     *struct {
			Dialog string
			Number int
		} `json:",omitempty"`
		Segs []segCase
	}
	ackText struct {
		A   fv
		Seg int
		Msg string
		Num int
	}
)

func (a answer) header() []byte {
	els := [][]byte{ref.Header("HNHBK", 1, 3, -1), []byte("000000000123"), []byte(strconv.Itoa(a.Version)), txt(a.Dialog), []byte(strconv.Itoa(a.Number))}
	if a.Ref != nil {
		els = append(els, ref.Group(txt(a.Ref.Dialog), []byte(strconv.Itoa(a.Ref.Number))))
	}
	return ref.Segment(els...)
}

func (a answer) wire() []byte {
	var out []byte
	for _, s := range a.Segs {
		out = append(out, s.wire()...)
	}
	return out
}

func init() {
	pbt.AddEnum(pbt.EnumSpec[ackCode]{
		Prop: "C21", Name: "codes",
		Rule: "all codes 0000-9999 for both kinds of acknowledgement: success below 1000, warning for 3xxx, error for 9xxx; non-trivial: all",
		Enum: func(thorough bool, yield func(ackCode) bool) {
			for _, k := range []string{domain.MessageAcknowledgement, domain.SegmentAcknowledgement} {
				for c := 0; c <= 9999; c++ {
					if !yield(ackCode{c, k}) {
						return
					}
				}
			}
		},
		Classify: func(c ackCode) []string { return []string{fmt.Sprintf("%dxxx", c.Code/1000)} },
		Check: func(c ackCode) error {
			a := domain.NewMessageAcknowledgement(c.Code, "", "text", nil)
			if c.Kind == domain.SegmentAcknowledgement {
				a = domain.NewSegmentAcknowledgement(c.Code, "", "text", nil)
			}
			s := domain.StatusAcknowledgement{Acknowledgement: a}
			return first(
				eq("error", a.IsError(), c.Code/1000 == 9), eq("warning", a.IsWarning(), c.Code/1000 == 3), eq("success", a.IsSuccess(), c.Code/1000 == 0 && c.Code > 0),
				eq("of a message", a.IsMessageAcknowledgement(), c.Kind == domain.MessageAcknowledgement), eq("of a segment", a.IsSegmentAcknowledgement(), c.Kind == domain.SegmentAcknowledgement),
				eq("status: error", s.IsError(), c.Code/1000 == 9), eq("code", a.Code, c.Code), eq("text", a.Text, "text"))
		},
	})
	pbt.Add(pbt.Spec[ackText]{
		Prop: "C21", Name: "printed", Quick: 90000, Thorough: 1000000,
		Rule: "any acknowledgement: what is printed names its code, text, element, parameters, message and segment; non-trivial: all",
		Gen: func(t *rapid.T) ackText {
			return ackText{genField(t, "ack"), rapid.IntRange(-1, 999).Draw(t, "seg"), anyText(10).Draw(t, "dialog"), rapid.IntRange(0, 9999).Draw(t, "num")}
		},
		Classify: func(c ackText) []string { return append([]string{"ack"}, textLabels(c.A.T...)...) },
		Check: func(c ackText) error {
			a := domain.Acknowledgement{Type: domain.SegmentAcknowledgement, Code: c.A.N[0], ReferenceDataElement: c.A.T[0], Text: c.A.T[1], Params: c.A.T[2:],
				ReferencingMessage: domain.MessageReference{DialogID: c.Msg, MessageNumber: c.Num}, ReferencingSegmentNumber: c.Seg}
			for _, s := range []string{a.String(), fmt.Sprintf("%v", a), (domain.StatusAcknowledgement{Acknowledgement: a, TransmittedAt: aDay}).String()} {
				want := []string{strconv.Itoa(a.Code), a.Text, a.ReferenceDataElement, c.Msg, strconv.Itoa(c.Num)}
				if c.Seg > 0 {
					want = append(want, "segment "+strconv.Itoa(c.Seg))
				}
				for _, w := range want {
					if !strings.Contains(s, w) {
						return fmt.Errorf("%q is missing in %q", w, s)
					}
				}
				for _, p := range a.Params {
					if q := strconv.Quote(p); !strings.Contains(s, p) && !strings.Contains(s, q[1:len(q)-1]) {
						return fmt.Errorf("parameter %q is missing in %q", p, s)
					}
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[answer]{
		Prop: "C21", Name: "answers", Quick: 90000, Thorough: 1500000,
		Rule: "the content of an answer with at most one HIRMG and any number of HIRMS of one to four acknowledgements each, between other segments in any order, with or without a reference in the header: every acknowledgement is reported once, in order, with its kind, code, element, text, parameters, message and segment; non-trivial: at least one acknowledgement",
		Gen: func(t *rapid.T) answer {
			a := answer{Version: rapid.SampledFrom([]int{220, 300}).Draw(t, "version"), Dialog: nonEmpty(10).Draw(t, "dialog"), Number: rapid.IntRange(1, 99).Draw(t, "number")}
			if rapid.IntRange(0, 4).Draw(t, "ref") > 0 {
				a.Ref = &struct {
					Dialog string
					Number int
				}{nonEmpty(10).Draw(t, "refDialog"), rapid.IntRange(0, 9999).Draw(t, "refNumber")}
			}
			ids := rapid.SliceOfN(rapid.SampledFrom([]string{"HIRMS:2", "HIRMS:2", "HIRMS:2", "HISAL:5", "HIKIM:2", "HIUPD:6", "HISYN:3"}), 0, 6).Draw(t, "segments")
			if rapid.IntRange(0, 4).Draw(t, "rmg") > 0 {
				at := rapid.IntRange(0, len(ids)).Draw(t, "at")
				ids = append(ids[:at:at], append([]string{"HIRMG:2"}, ids[at:]...)...)
			}
			for i, id := range ids {
				s := genSegment(t, segByName[id])
				s.Pos = 2 + i
				if id == "HIRMG:2" {
					s.Ref = -1
				}
				a.Segs = append(a.Segs, s)
			}
			return a
		},
		Classify: func(a answer) []string {
			var l []string
			set := map[string]int{}
			for _, s := range a.Segs {
				set[s.Seg]++
			}
			if set["HIRMG:2"] > 0 {
				l = append(l, "message-ack")
			}
			if set["HIRMS:2"] > 0 {
				l = append(l, "segment-ack")
			}
			if set["HIRMS:2"] > 1 {
				l = append(l, "several-segments")
			}
			return l
		},
		Check: func(a answer) error {
			h := &segment.MessageHeaderSegment{}
			if err := h.UnmarshalHBCI(a.header()); err != nil {
				return err
			}
			m, err := message.NewDecryptedMessage(h, nil, a.wire())
			if err != nil {
				return err
			}
			var msg domain.MessageReference
			if a.Ref != nil {
				msg = domain.MessageReference{DialogID: a.Ref.Dialog, MessageNumber: a.Ref.Number}
			}
			var want []domain.Acknowledgement
			for _, kind := range []string{"HIRMG:2", "HIRMS:2"} {
				for _, s := range a.Segs {
					if s.Seg != kind {
						continue
					}
					for _, f := range s.F {
						w := domain.Acknowledgement{Type: domain.MessageAcknowledgement, Code: f.N[0], ReferenceDataElement: f.T[0], Text: f.T[1], Params: normParams(f.T[2:]), ReferencingMessage: msg}
						if kind == "HIRMS:2" {
							w.Type, w.ReferencingSegmentNumber = domain.SegmentAcknowledgement, s.Ref
						}
						want = append(want, w)
					}
				}
			}
			got := m.Acknowledgements()
			for i := range got {
				got[i].Params = normParams(got[i].Params)
			}
			if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				return fmt.Errorf("acknowledgements: got %s, want %s", dump(got), dump(want))
			}
			return nil
		},
	})
}
