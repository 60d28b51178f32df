package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// keySegCase is a segment of key management: a key is renewed, handed out,
// revoked, or reported as revoked.
type keySegCase struct {
	ID       string
	Pos, Ref int
	Name     fv
	Dialog   string
	Message  int
	Modulus  pbt.B
	Reason   string
}

func (c keySegCase) check() error {
	name := domain.KeyName{BankID: c.Name.bankID(), UserID: c.Name.T[1], KeyType: domain.KeyType(c.Name.T[2]), KeyNumber: c.Name.N[1], KeyVersion: c.Name.N[2]}
	pub := &domain.PublicKey{Type: c.Name.T[2], Modulus: c.Modulus, Exponent: []byte("65537")}
	key := ref.Group(txt(pub.Type), []byte("16"), []byte("10"), ref.Bin(c.Modulus), []byte("12"), ref.Bin([]byte("65537")), []byte("13"))
	known := c.Reason == "1" || c.Reason == "501" || c.Reason == "999"
	var s segment.Segment
	r := -1
	var els [][]byte
	refused := pbt.NoPanic(func() {
		switch c.ID {
		case "HKSAK":
			s = segment.NewPublicKeyRenewalSegment(c.Pos, name, pub).Segment
			els = [][]byte{ref.Num(2), ref.Num(112), c.Name.wire(), key}
		case "HIISA":
			s = segment.NewPublicKeyTransmissionSegment(c.Dialog, c.Pos, c.Message, name, pub, segment.NewPublicKeyRequestSegment(c.Ref, name)).Segment
			r, els = c.Ref, [][]byte{ref.Num(1), txt(c.Dialog), ref.Num(c.Message), ref.Num(224), c.Name.wire(), key}
		case "HKSSP":
			s = segment.NewPublicKeyRevocationSegment(c.Pos, name, c.Reason).Segment
			els = [][]byte{ref.Num(2), ref.Num(130), c.Name.wire(), txt(c.Reason)}
		case "HISSP":
			s = segment.NewPublicKeyRevocationConfirmationSegment(c.Dialog, c.Pos, c.Message, name, c.Reason, segment.NewPublicKeyRevocationSegment(c.Ref, name, "1")).Segment
			r, els = c.Ref, [][]byte{ref.Num(1), txt(c.Dialog), ref.Num(c.Message), ref.Num(231), c.Name.wire(), txt(c.Reason)}
		}
	})
	if strings.HasSuffix(c.ID, "SSP") && !known {
		if refused == nil {
			return fmt.Errorf("the reason %q is taken", c.Reason)
		}
		pbt.Note("refused")
		return nil
	}
	if refused != nil {
		return refused
	}
	got, err := s.(segment.Marshaler).MarshalHBCI()
	if err != nil {
		return err
	}
	segs, err := ref.Parse(got)
	if err != nil || len(segs) != 1 {
		return fmt.Errorf("%v: %q", err, got)
	}
	want := append([][]byte{ref.Header(c.ID, c.Pos, 2, r)}, els...)
	if strings.HasSuffix(c.ID, "SSP") { // the revocation tells when it was asked for
		if len(segs[0].Elems) != len(want)+1 {
			return fmt.Errorf("%d elements: %q", len(segs[0].Elems), got)
		}
		if err := checkSecDate(segs[0], len(want)); err != nil {
			return err
		}
		d := segs[0].Elems[len(want)]
		want = append(want, ref.Group(d[0].Val, d[1].Val, d[2].Val))
	}
	return bytesEq("segment", got, ref.Segment(want...))
}

func init() {
	pbt.Add(pbt.Spec[keySegCase]{
		Prop: "C03", Name: "keys", Quick: 20000, Thorough: 600000,
		Rule: "a segment of key management of any of four kinds with any key name, key, dialog id, message number and reason: it holds exactly these values in the order of the standard, and reasons the standard does not know are refused; non-trivial: all",
		Gen: func(t *rapid.T) keySegCase {
			return keySegCase{ID: rapid.SampledFrom([]string{"HKSAK", "HIISA", "HKSSP", "HISSP"}).Draw(t, "id"), Pos: rapid.IntRange(1, 999).Draw(t, "pos"), Ref: rapid.IntRange(1, 999).Draw(t, "ref"), Name: genField(t, "key"),
				Dialog: nonEmpty(30).Draw(t, "dialog"), Message: rapid.IntRange(1, 9999).Draw(t, "message"), Modulus: binary(96).Draw(t, "modulus"),
				Reason: rapid.SampledFrom([]string{"1", "501", "999", "1", "501", "999", "", "0", "2", "50", "5010", "9", "9999"}).Draw(t, "reason")}
		},
		Classify: func(c keySegCase) []string { return append([]string{c.ID}, textLabels(c.Name.T...)...) },
		Check:    keySegCase.check,
	})
}
