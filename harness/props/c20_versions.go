package props

import (
	"fmt"
	"reflect"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// versionedJob is a kind of request the client can write in some versions.
type versionedJob struct {
	Name, Param, ID string
	Versions        []int
	direct          func(versions []int) (segment.ClientSegment, error)
	build           func(b segment.Builder) (segment.ClientSegment, error)
}

var (
	anAccount     = domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "2"}
	aSepaAccount  = domain.InternationalAccountConnection{IBAN: "DE1", BIC: "B", AccountID: "1", BankID: domain.BankID{CountryCode: 280, ID: "2"}}
	aDay          = time.Date(2020, 2, 3, 0, 0, 0, 0, time.UTC)
	versionedJobs = []versionedJob{
		{"balance", "HISALS", "HKSAL", []int{5, 6}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.AccountBalanceRequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f(anAccount, true), nil
		}, func(b segment.Builder) (segment.ClientSegment, error) {
			return b.AccountBalanceRequest(anAccount, true)
		}},
		{"sepa-balance", "HISALS", "HKSAL", []int{7, 8}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.SepaAccountBalanceRequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f(aSepaAccount, true), nil
		}, func(b segment.Builder) (segment.ClientSegment, error) {
			return b.SepaAccountBalanceRequest(aSepaAccount, true)
		}},
		{"transactions", "HIKAZS", "HKKAZ", []int{5, 6}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.AccountTransactionRequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f(anAccount, true), nil
		}, func(b segment.Builder) (segment.ClientSegment, error) {
			return b.AccountTransactionRequest(anAccount, true)
		}},
		{"sepa-transactions", "HIKAZS", "HKKAZ", []int{7}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.SepaAccountTransactionRequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f(aSepaAccount, true), nil
		}, func(b segment.Builder) (segment.ClientSegment, error) {
			return b.SepaAccountTransactionRequest(aSepaAccount, true)
		}},
		{"status", "HIPROS", "HKPRO", []int{3, 4}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.StatusProtocolRequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f(aDay, aDay, 3, ""), nil
		}, func(b segment.Builder) (segment.ClientSegment, error) {
			return b.StatusProtocolRequest(aDay, aDay, 3, "")
		}},
		{"tan", "HITANS", "HKTAN", []int{1, 6}, func(vs []int) (segment.ClientSegment, error) {
			f, err := segment.TanProcess4RequestBuilder(vs)
			if err != nil {
				return nil, err
			}
			return f("HKIDN"), nil
		}, nil},
	}
)

// best is the highest of the offered versions the client knows, 0 if none.
func (j versionedJob) best(offered []int) int {
	best := 0
	for _, o := range offered {
		for _, v := range j.Versions {
			if o == v && v > best {
				best = v
			}
		}
	}
	return best
}

// verify checks the request that was chosen.
func (j versionedJob) verify(seg segment.ClientSegment, err error, offered []int) error {
	want := j.best(offered)
	if want == 0 {
		if err == nil {
			return fmt.Errorf("%s: a request although the bank offers only %v", j.Name, offered)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v although the bank offers %v", j.Name, err, offered)
	}
	wire, err := seg.MarshalHBCI()
	if err != nil {
		return err
	}
	segs, err := ref.Parse(wire)
	if err != nil || len(segs) != 1 {
		return fmt.Errorf("%s: %q is no segment: %v", j.Name, wire, err)
	}
	return first(eq(j.Name+" segment", segs[0].ID(), j.ID), eq(fmt.Sprintf("%s version out of %v", j.Name, offered), segs[0].Version(), want))
}

type (
	versionList []int
	offerList   []offer
)

func init() {
	pbt.AddEnum(pbt.EnumSpec[versionList]{
		Prop: "C20", Name: "lists",
		Rule: "every list of up to four (thorough: five) versions out of 0-9, in any order and with repetitions, for each of the six versioned requests; non-trivial: the list holds a version some request exists in",
		Enum: func(thorough bool, yield func(versionList) bool) {
			max := 4
			if thorough {
				max = 5
			}
			var rec func(l versionList) bool
			rec = func(l versionList) bool {
				if !yield(append(versionList{}, l...)) {
					return false
				}
				if len(l) == max {
					return true
				}
				for v := 0; v <= 9; v++ {
					if !rec(append(l, v)) {
						return false
					}
				}
				return true
			}
			rec(versionList{})
		},
		Classify: func(l versionList) []string {
			var out []string
			for _, j := range versionedJobs {
				if j.best(l) > 0 {
					out = append(out, j.Name)
				}
			}
			return out
		},
		Check: func(l versionList) error {
			for _, j := range versionedJobs {
				in := append([]int{}, l...)
				seg, err := j.direct(in)
				if err := j.verify(seg, err, l); err != nil {
					return err
				}
				if !reflect.DeepEqual(in, append([]int{}, l...)) {
					return fmt.Errorf("%s: the caller's list %v became %v", j.Name, l, in)
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[offerList]{
		Prop: "C20", Name: "offers", Quick: 30000, Thorough: 1500000,
		Rule: "any list of offered segments, several kinds mixed, through one builder that is asked for all requests, repeatedly; non-trivial: at least one request can be built",
		Gen: func(t *rapid.T) offerList {
			return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) offer {
				return offer{rapid.SampledFrom([]string{"HISALS", "HIKAZS", "HIPROS", "HISAL", "HIKAZ", "HKSAL", "HISALSX", "HIUEBS", "DISALS"}).Draw(t, "id"), rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(0, 999)).Draw(t, "version")}
			}), 0, 12).Draw(t, "offers")
		},
		Classify: func(l offerList) []string {
			var out []string
			for _, j := range versionedJobs {
				if j.build != nil && j.best(l.of(j.Param)) > 0 {
					out = append(out, j.Name)
				}
			}
			return out
		},
		Check: func(l offerList) error {
			var in []segment.VersionedSegment
			for _, o := range l {
				in = append(in, segment.VersionedSegment{ID: o.ID, Version: o.Version})
			}
			given := append([]segment.VersionedSegment{}, in...)
			b := segment.NewBuilder(in)
			for round := 0; round < 2; round++ {
				for _, j := range versionedJobs {
					if j.build == nil {
						continue
					}
					seg, err := j.build(b)
					if err := j.verify(seg, err, l.of(j.Param)); err != nil {
						return err
					}
				}
			}
			if len(given) > 0 && !reflect.DeepEqual(in, given) {
				return fmt.Errorf("the offers %v became %v", given, in)
			}
			return nil
		},
	})
	scenarioFacet("C20", "client", "a client and a model bank offering any versions of any jobs in any order and changing its offers from time to time, one to five calls; every job request has the highest version both know, and without one the call fails; non-trivial: all",
		4000, 200000, opKinds[:6], 5, 1, func(s scenario, b *bank, rs []result) error {
			for i, o := range s.Ops {
				if o.Kind == "accounts" {
					continue
				}
				want := o.version(s.Bank.at(i))
				jobs := 0
				for j := rs[i].From; j < rs[i].To; j++ {
					q := b.log[j]
					if q.Kind != "job" {
						continue
					}
					for _, seg := range q.business() {
						if seg.ID() == "HKTAN" {
							continue
						}
						jobs++
						if err := eq(fmt.Sprintf("call %d (%s): version of %s", i, o.Kind, seg.ID()), seg.Version(), want); err != nil {
							return err
						}
					}
				}
				if want == 0 {
					if rs[i].Err == nil || jobs > 0 {
						return fmt.Errorf("call %d (%s): error %v and %d requests although the bank offers no usable version", i, o.Kind, rs[i].Err, jobs)
					}
				} else if jobs == 0 {
					return fmt.Errorf("call %d (%s): nothing asked for: %v", i, o.Kind, rs[i].Err)
				}
			}
			return nil
		})
}

func (l offerList) of(id string) []int {
	var vs []int
	for _, o := range l {
		if o.ID == id {
			vs = append(vs, o.Version)
		}
	}
	return vs
}
