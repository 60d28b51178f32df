package props

import (
	"bytes"
	"fmt"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// edit damages a message. Fields are the pieces between delimiters.
type edit struct {
	Op   string
	At   int
	N    int    `json:",omitempty"`
	Text []byte `json:",omitempty"`
}

var editOps = []string{"setField", "setField", "emptyField", "dropField", "dupField", "swapFields", "cutSegment", "dropSegment", "dupSegment", "set", "del", "ins", "cut"}

var fieldTexts = [][]byte{nil, []byte("0"), []byte("00"), []byte("-1"), []byte("1"), []byte("4"), []byte("999"), []byte("99999999999999999999"), []byte("1,5"), []byte(","), []byte("X"), []byte("20240230"), []byte("00000000"),
	[]byte("20240101"), []byte("999999"), []byte("120000"), []byte("@3@abc"), []byte("@0@"), []byte("@@"), []byte("@99@"), []byte("@9223372036854775807@"), []byte("@9223372036854775800@a"), []byte("@2147483647@"), []byte("9223372036854775807"), []byte("2147483648"), []byte("@-1@"), []byte("J"), []byte("N"), []byte("C"), []byte("D"), []byte("?"), []byte("??"), []byte("?'"), []byte("\xff"),
	[]byte(":"), []byte("::::"), []byte("+"), []byte("+++"), []byte("'"), []byte("1:2:3:4:5:6:7:8:9"), []byte("a:b+c:d"), []byte("EUR"), []byte("HIRMG"), []byte("3040"), []byte("9999"), []byte("3920"), []byte("\r\n:20:a\r\n-"), []byte(" ")}

func genEdit(t *rapid.T) edit {
	e := edit{Op: rapid.SampledFrom(editOps).Draw(t, "op"), At: rapid.IntRange(0, 600).Draw(t, "at")}
	switch e.Op {
	case "swapFields", "del":
		e.N = rapid.IntRange(1, 8).Draw(t, "n")
	case "setField", "set", "ins":
		e.Text = rapid.OneOf(rapid.SampledFrom(fieldTexts), rapid.SliceOfN(rapid.Byte(), 0, 6)).Draw(t, "text")
	}
	return e
}

// fields are the positions of the pieces between delimiters.
func fields(msg []byte) [][2]int {
	var out [][2]int
	start := 0
	for i := 0; i <= len(msg); i++ {
		if i == len(msg) || msg[i] == '+' || msg[i] == ':' || msg[i] == '\'' {
			out = append(out, [2]int{start, i})
			start = i + 1
		}
	}
	return out
}

func splice(msg []byte, from, to int, with []byte) []byte {
	return append(append(append([]byte{}, msg[:from]...), with...), msg[to:]...)
}

func (e edit) apply(msg []byte) []byte {
	if len(msg) == 0 {
		return msg
	}
	at := e.At % len(msg)
	fs := fields(msg)
	k := e.At % len(fs)
	f := fs[k]
	// the segment around the field
	seg := [2]int{bytes.LastIndexByte(msg[:f[0]], '\'') + 1, len(msg)}
	if i := bytes.IndexByte(msg[f[0]:], '\''); i >= 0 {
		seg[1] = f[0] + i + 1
	}
	switch e.Op {
	case "setField":
		return splice(msg, f[0], f[1], e.Text)
	case "emptyField":
		return splice(msg, f[0], f[1], nil)
	case "dropField":
		if f[0] > 0 {
			f[0]--
		}
		return splice(msg, f[0], f[1], nil)
	case "dupField":
		return splice(msg, f[0], f[0], append(append([]byte{}, msg[f[0]:f[1]]...), '+'))
	case "swapFields":
		g := fs[(k+e.N)%len(fs)]
		if g[0] < f[0] {
			f, g = g, f
		}
		if f == g {
			return msg
		}
		out := append([]byte{}, msg[:f[0]]...)
		out = append(out, msg[g[0]:g[1]]...)
		out = append(out, msg[f[1]:g[0]]...)
		out = append(out, msg[f[0]:f[1]]...)
		return append(out, msg[g[1]:]...)
	case "cutSegment":
		if seg[1] > f[1] {
			return splice(msg, f[1], seg[1]-1, nil)
		}
		return msg[:f[1]]
	case "dropSegment":
		return splice(msg, seg[0], seg[1], nil)
	case "dupSegment":
		return splice(msg, seg[0], seg[0], msg[seg[0]:seg[1]])
	case "set":
		out := append([]byte{}, msg...)
		if len(e.Text) > 0 {
			out[at] = e.Text[0]
		}
		return out
	case "del":
		return splice(msg, at, min(len(msg), at+e.N), nil)
	case "ins":
		return splice(msg, at, at, e.Text)
	case "cut":
		return msg[:at]
	}
	panic("harness: edit " + e.Op)
}

func applyAll(es []edit, msg []byte) []byte {
	for _, e := range es {
		msg = e.apply(msg)
	}
	return msg
}

func editLabels(es []edit) []string {
	var out []string
	for _, e := range es {
		out = append(out, "edit-"+e.Op)
	}
	return out
}

// useSegment calls everything a program can ask a decoded segment.
func useSegment(s any) {
	if v, ok := s.(segment.Segment); ok && v.Header() != nil {
		_ = v.Header().String()
		_, _ = v.Header().MarshalHBCI()
	}
	switch v := s.(type) {
	case segment.AccountBalanceResponse:
		_ = v.AccountBalance()
		_, _ = v.SepaAccountBalance()
	case segment.AccountInformation:
		_ = v.Account()
	case segment.CommonBankParameter:
		_ = v.BankParameterData()
	case segment.CommonUserParameterData:
		_ = v.UserParameterData()
	case segment.StatusProtocolResponse:
		_ = v.Status()
	case segment.SynchronisationResponse:
		_ = v.ClientSystemID()
	case segment.AccountTransactionResponse:
		if m := v.BookedSwiftTransactions(); m != nil {
			_ = string(m.Data)
		}
	case segment.PinTanBankParameter:
		_ = v.PinTanBusinessTransactions()
	case *segment.MessageAcknowledgement:
		for _, a := range v.Acknowledgements() {
			_ = a.String()
		}
	case *segment.SegmentAcknowledgement:
		for _, a := range v.Acknowledgements() {
			_ = a.String()
		}
	case *segment.TanBankParameterV6:
		if v.Tan2StepSubmissionParameter != nil {
			for _, g := range v.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
				if p, ok := g.(*element.Tan2StepSubmissionProcessParameterV6); ok {
					_ = p.SecurityFunction.Val() + p.TwoStepProcessName.Val()
				}
			}
		}
	}
	if v, ok := s.(segment.Segment); ok {
		_ = v.String()
	}
	if v, ok := s.(segment.Marshaler); ok {
		_, _ = v.MarshalHBCI()
	}
}

type (
	badSegment struct {
		Seg   segCase
		Edits []edit
	}
	badMessage struct {
		Segs  []segCase
		Edits []edit
		Enc   bool `json:",omitempty"`
	}
)

func genEdits(t *rapid.T) []edit {
	return rapid.SliceOfN(rapid.Custom(genEdit), 1, rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "most")).Draw(t, "edits")
}

var knownIDs = func() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range segSpecs {
		id, _ := splitSeg(s.seg)
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

func init() {
	pbt.Add(pbt.Spec[badSegment]{
		Prop: "C06", Name: "segments", Quick: 60000, Thorough: 4000000,
		Rule: "a valid segment of any of the kinds banks send, with one to four edits (fields replaced, emptied, dropped, repeated, exchanged, segments cut, bytes changed); it is decoded and, if that succeeds, all its values are asked for; non-trivial: all",
		Gen: func(t *rapid.T) badSegment {
			return badSegment{genSegment(t, rapid.SampledFrom(segSpecs).Draw(t, "kind")), genEdits(t)}
		},
		Classify: func(b badSegment) []string { return append(editLabels(b.Edits), b.Seg.Seg) },
		Check: func(b badSegment) error {
			id, v := splitSeg(b.Seg.Seg)
			u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: id, Version: v})
			if err != nil {
				return err
			}
			if err := u.UnmarshalHBCI(applyAll(b.Edits, b.Seg.wire())); err != nil {
				pbt.Note("refused")
				return nil
			}
			pbt.Note("decoded")
			useSegment(u)
			return nil
		},
	})
	ids := knownIDs()
	pbt.Add(pbt.Spec[badMessage]{
		Prop: "C06", Name: "messages", Quick: 20000, Thorough: 1500000,
		Rule: "a valid message of up to four segments with edits anywhere, decoded as a whole; every segment that can be found in it is asked for its values; non-trivial: all",
		Gen: func(t *rapid.T) badMessage {
			return badMessage{Segs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) segCase { return genSegment(t, rapid.SampledFrom(segSpecs).Draw(t, "kind")) }), 0, 4).Draw(t, "segs"), Edits: genEdits(t)}
		},
		Classify: func(b badMessage) []string { return append(editLabels(b.Edits), fmt.Sprint("segments-", len(b.Segs))) },
		Check: func(b badMessage) error {
			head := ref.Segment(ref.Header("HNHBK", 1, 3, -1), ref.Digits(1, 12), ref.Num(300), []byte("abc"), ref.Num(2), []byte("abc:2"))
			var raw []byte
			for i, s := range b.Segs {
				s.Pos = i + 2
				raw = append(raw, s.wire()...)
			}
			raw = append(raw, ref.Segment(ref.Header("HNHBS", len(b.Segs)+2, 1, -1), ref.Num(2))...)
			raw = applyAll(b.Edits, append(head, raw...))
			u := message.NewUnmarshaler(raw)
			if err := u.Unmarshal(); err != nil {
				pbt.Note("refused")
			} else {
				pbt.Note("decoded")
				for _, id := range ids {
					for _, s := range u.SegmentsByID(id) {
						useSegment(s)
					}
					_ = u.MarshaledSegmentByID(id)
					_ = u.MarshaledSegmentsByID(id)
				}
				_ = u.MarshaledSegments()
			}
			h, _ := u.SegmentByID("HNHBK").(*segment.MessageHeaderSegment)
			if h == nil {
				return nil
			}
			e, _ := u.SegmentByID("HNHBS").(*segment.MessageEndSegment)
			m, err := message.NewDecryptedMessage(h, e, raw)
			if err != nil {
				return nil
			}
			for _, a := range m.Acknowledgements() {
				_ = a.String()
			}
			_ = m.SupportedSegments()
			for _, id := range ids {
				_ = m.FindSegments(id)
				_ = m.FindMarshaledSegments(id)
				_ = m.SegmentPosition(id)
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C06", Name: "client", Quick: 6000, Thorough: 300000,
		Rule: "a client and a model bank, one to four calls, one to four answers of which are edited (in the envelope or in its content); no call panics or hangs; non-trivial: all",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, opKinds, 4, 2)
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "faults"); i < n; i++ {
				s.Faults = append(s.Faults, fault{At: rapid.IntRange(0, 3*len(s.Ops)+1).Draw(t, "at"), Kind: rapid.SampledFrom([]string{"edit", "inner-edit", "inner-edit"}).Draw(t, "kind"), Edits: genEdits(t)})
			}
			return s
		},
		Classify: scenario.labels,
		Check: func(s scenario) error {
			b, rs, err := s.run()
			if err != nil && len(b.problems) == 0 {
				return err
			}
			for _, r := range rs {
				if r.Err != nil {
					pbt.Note("error")
				} else {
					pbt.Note("no-error")
				}
			}
			for _, q := range b.log {
				if q.Effect != "" {
					pbt.Note("hit-" + q.Kind)
				}
			}
			return nil
		},
	})
}
