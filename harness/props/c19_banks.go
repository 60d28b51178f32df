package props

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

type (
	// table is a CSV file of banks with its columns in any order.
	table struct {
		Columns []string
		Banks   []bankinfo.BankInfo
		Pad     int  // blanks around values
		Always  bool `json:",omitempty"` // quote every value
		CRLF    bool `json:",omitempty"`
		Short   bool `json:",omitempty"` // empty values at the end of a line are left out
	}
	bankVersion struct{ Name, Number string }
	bankQuery   struct{ ID string }
)

var bankColumns = []string{"BLZ", "BIC", "Institut", "HBCI-Version", "PIN/TAN-Zugang URL", "Version", "Ort", "Datum letzte Änderung"}

func column(b bankinfo.BankInfo, name string) string {
	switch name {
	case "BLZ", "Bank-leitzahl":
		return b.BankID
	case "BIC":
		return b.BIC
	case "Institut":
		return b.Institute
	case "HBCI-Version":
		return b.VersionNumber
	case "PIN/TAN-Zugang URL":
		return b.URL
	case "Version":
		return b.VersionName
	case "Ort":
		return b.City
	case "Datum letzte Änderung":
		return b.LastChanged
	}
	return "other" // a column the library does not know
}

func (c table) wire() []byte {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var out bytes.Buffer
	field := func(s string) string {
		s = strings.Repeat(" ", c.Pad) + s
		if c.Always || strings.ContainsAny(s, ";\"\r\n") {
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		}
		return s + strings.Repeat(" ", c.Pad)
	}
	var head []string
	for _, h := range c.Columns {
		if strings.ContainsAny(h, ";\"") {
			h = `"` + strings.ReplaceAll(h, `"`, `""`) + `"`
		}
		head = append(head, h)
	}
	out.WriteString(strings.Join(head, ";") + nl)
	for _, b := range c.Banks {
		var line []string
		for _, h := range c.Columns {
			line = append(line, field(column(b, h)))
		}
		if c.Short && c.Pad == 0 && !c.Always {
			for len(line) > 1 && line[len(line)-1] == "" {
				line = line[:len(line)-1]
			}
		}
		if len(line) == 1 && line[0] == "" {
			continue // an empty line is no record
		}
		out.WriteString(strings.Join(line, ";") + nl)
	}
	return out.Bytes()
}

func genBankText(max int) *rapid.Generator[string] {
	return rapid.Map(rapid.OneOf(rapid.StringMatching(`[A-Za-z0-9äöüß .,&/:-]{0,20}`), rapid.StringOfN(rapid.RuneFrom([]rune("ab;\"'äß,\\ ")), 0, max, -1)), strings.TrimSpace)
}

func genTable(t *rapid.T, columns []string) table {
	c := table{Columns: rapid.Permutation(append(append([]string{}, columns...), "Nr.", "Telefon")).Draw(t, "columns"), Pad: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "pad"), Always: rapid.Bool().Draw(t, "always"), CRLF: rapid.Bool().Draw(t, "crlf"), Short: rapid.Bool().Draw(t, "short")}
	c.Banks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bankinfo.BankInfo {
		b := bankinfo.BankInfo{BankID: rapid.StringMatching(`[0-9]{8}`).Draw(t, "blz"), BIC: rapid.StringMatching(`([A-Z]{6}[A-Z0-9]{2,5})?`).Draw(t, "bic")}
		if rapid.IntRange(0, 5).Draw(t, "noID") == 0 {
			b.BankID = ""
		}
		if len(columns) > 2 {
			b.VersionNumber = rapid.SampledFrom([]string{"", "2.2", "3.0", "4.1"}).Draw(t, "number")
			b.VersionName = rapid.SampledFrom([]string{"", "FinTS V3.0", "FinTS V4.0"}).Draw(t, "name")
			b.URL = rapid.StringMatching(`(https://[a-z.]{3,12}/[a-z]{0,5})?`).Draw(t, "url")
			b.Institute, b.City, b.LastChanged = genBankText(20).Draw(t, "institute"), genBankText(12).Draw(t, "city"), rapid.SampledFrom([]string{"", "04.02.2022", "21.08.2015"}).Draw(t, "changed")
		}
		return b
	}), 0, 8).Draw(t, "banks")
	for i := 1; i < len(c.Banks); i++ { // a bank with several rows
		if rapid.IntRange(0, 5).Draw(t, "same") == 0 {
			c.Banks[i].BankID = c.Banks[rapid.IntRange(0, i-1).Draw(t, "as")].BankID
		}
	}
	return c
}

func (c table) labels() []string {
	l := []string{}
	for _, b := range c.Banks {
		if b.BankID == "" {
			l = append(l, "without-id")
			break
		}
	}
	for _, b := range c.Banks {
		if strings.ContainsAny(b.Institute+b.City, ";\"") {
			l = append(l, "quoted")
			break
		}
	}
	if len(c.Banks) > 0 {
		l = append(l, "banks")
	}
	seen := map[string]bool{}
	for _, b := range c.banks() {
		if seen[b.BankID] {
			l = append(l, "repeated-id")
			break
		}
		seen[b.BankID] = true
	}
	if c.Short {
		l = append(l, "short-lines")
	}
	return l
}

func (c table) banks() []bankinfo.BankInfo {
	var out []bankinfo.BankInfo
	for _, b := range c.Banks {
		if b.BankID != "" {
			out = append(out, b)
		}
	}
	return out
}

var bankVersions = map[string]int{"": -1, "2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410}
var bankNames = map[string]int{"": -1, "HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410}

func init() {
	pbt.Add(pbt.Spec[table]{
		Prop: "C19", Name: "banks", Quick: 80000, Thorough: 1000000,
		Rule: "a CSV table of zero to eight banks with known and unknown columns in any order, any texts (quotes, separators, umlauts), padding, either line end, shortened lines: every bank with a bank id is read with all its values, in order; non-trivial: at least one bank",
		Gen:  func(t *rapid.T) table { return genTable(t, bankColumns) }, Classify: table.labels,
		Check: func(c table) error {
			got, err := bankinfo.ParseBankInfos(bytes.NewReader(c.wire()))
			if err != nil {
				return fmt.Errorf("%q: %v", c.wire(), err)
			}
			if want := c.banks(); len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%q: got %s, want %s", c.wire(), dump(got), dump(want))
			}
			sorted := append([]bankinfo.BankInfo{}, got...)
			sort.Stable(bankinfo.SortableBankInfos(sorted))
			for i := 1; i < len(sorted); i++ {
				if sorted[i].BankID < sorted[i-1].BankID {
					return fmt.Errorf("not sorted by bank id: %q before %q", sorted[i-1].BankID, sorted[i].BankID)
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[table]{
		Prop: "C19", Name: "bics", Quick: 80000, Thorough: 1000000,
		Rule: "a CSV table of bank ids and BICs in the same variety; non-trivial: at least one bank",
		Gen:  func(t *rapid.T) table { return genTable(t, []string{"Bank-leitzahl", "BIC"}) }, Classify: table.labels,
		Check: func(c table) error {
			got, err := bankinfo.ParseBicData(bytes.NewReader(c.wire()))
			if err != nil {
				return fmt.Errorf("%q: %v", c.wire(), err)
			}
			var want []bankinfo.BicInfo
			for _, b := range c.banks() {
				want = append(want, bankinfo.BicInfo{BankID: b.BankID, BIC: b.BIC})
			}
			if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%q: got %s, want %s", c.wire(), dump(got), dump(want))
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[struct{ B pbt.B }]{
		Prop: "C19", Name: "garbage", Quick: 120000, Thorough: 1500000,
		Rule: "any bytes in place of a table are read or refused, without a panic; what is read has bank ids; non-trivial: all",
		Gen: func(t *rapid.T) struct{ B pbt.B } {
			return struct{ B pbt.B }{rapid.Map(rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 60), rapid.SliceOfN(rapid.SampledFrom([]byte("BLZ;\"\n\rBIC 1")), 0, 60), rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{"BLZ", "BIC", ";", "\"", "\n", "x", " ", "10000000"}), 0, 20), func(p []string) []byte { return []byte(strings.Join(p, "")) })), func(b []byte) pbt.B { return b }).Draw(t, "bytes")}
		},
		Classify: func(c struct{ B pbt.B }) []string { return []string{"bytes"} },
		Check: func(c struct{ B pbt.B }) error {
			infos, err := bankinfo.ParseBankInfos(bytes.NewReader(c.B))
			bics, err2 := bankinfo.ParseBicData(bytes.NewReader(c.B))
			if err == nil {
				for _, i := range infos {
					pbt.Note("record")
					if strings.TrimSpace(i.BankID) != i.BankID {
						return fmt.Errorf("bank id %q", i.BankID)
					}
				}
			}
			if err2 == nil && len(bics) > 0 {
				pbt.Note("bic-record")
			}
			return nil
		},
	})
	pbt.AddEnum(pbt.EnumSpec[bankVersion]{
		Prop: "C19", Name: "versions",
		Rule: "every known version name with every known version number, or none: the higher one counts; non-trivial: a name or number is given",
		Enum: func(thorough bool, yield func(bankVersion) bool) {
			var names, numbers []string
			for n := range bankNames {
				names = append(names, n)
			}
			for n := range bankVersions {
				numbers = append(numbers, n)
			}
			sort.Strings(names)
			sort.Strings(numbers)
			for _, a := range names {
				for _, b := range numbers {
					if !yield(bankVersion{a, b}) {
						return
					}
				}
			}
		},
		Classify: func(c bankVersion) []string {
			if c.Name+c.Number != "" {
				return []string{"given"}
			}
			return nil
		},
		Check: func(c bankVersion) error {
			return eq("version", (bankinfo.BankInfo{VersionName: c.Name, VersionNumber: c.Number}).HbciVersion(), max(bankNames[c.Name], bankVersions[c.Number]))
		},
	})
	pbt.AddEnum(pbt.EnumSpec[bankQuery]{
		Prop: "C19", Name: "directory",
		Rule: "every bank id of the built-in directory, every one with a digit changed, dropped or added and some that are nowhere near: what is found is an entry with this very id, nothing otherwise; a client without an address and version uses the ones found, or is refused if the library does not speak the version; non-trivial: an entry exists",
		Enum: func(thorough bool, yield func(bankQuery) bool) {
			known := directory()
			var ids []string
			for id := range known {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for n, id := range ids {
				qs := []string{id}
				if thorough || n%10 == 0 {
					for i := range id {
						qs = append(qs, id[:i]+string('0'+(id[i]-'0'+1)%10)+id[i+1:], id[:i]+id[i+1:])
					}
				}
				qs = append(qs, id+"0", " "+id, "0"+id)
				for _, q := range qs {
					if !yield(bankQuery{q}) {
						return
					}
				}
			}
			for _, q := range []string{"", "0", "00000000", "99999999", "x"} {
				if !yield(bankQuery{q}) {
					return
				}
			}
		},
		Classify: func(c bankQuery) []string {
			if len(directory()[c.ID]) > 0 {
				return []string{"found"}
			}
			return nil
		},
		Check: func(c bankQuery) error { return checkDirectory(c.ID) },
	})
}

var directoryOnce = sync.OnceValue(func() map[string][]bankinfo.BankInfo {
	out := map[string][]bankinfo.BankInfo{}
	f, err := parser.ParseFile(token.NewFileSet(), "/repo/bankinfo/data.go", nil, 0)
	if err != nil {
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		lit, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		v := reflect.New(reflect.TypeOf(bankinfo.BankInfo{})).Elem()
		for _, e := range lit.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			k, ok1 := kv.Key.(*ast.Ident)
			b, ok2 := kv.Value.(*ast.BasicLit)
			if !ok1 || !ok2 || !v.FieldByName(k.Name).IsValid() {
				return true
			}
			s, err := strconv.Unquote(b.Value)
			if err != nil {
				return true
			}
			v.FieldByName(k.Name).SetString(s)
		}
		if b := v.Interface().(bankinfo.BankInfo); b.BankID != "" {
			out[b.BankID] = append(out[b.BankID], b)
		}
		return true
	})
	return out
})

// directory is what the source of the built-in directory holds, by bank id.
// Should it ever move elsewhere, only the ids that are found are checked.
func directory() map[string][]bankinfo.BankInfo { return directoryOnce() }

func checkDirectory(id string) error {
	b := bankinfo.FindByBankID(id)
	entries := directory()[id]
	if len(directory()) > 0 {
		found := len(entries) == 0 && b == bankinfo.BankInfo{}
		for _, e := range entries {
			found = found || e == b
		}
		if !found {
			return fmt.Errorf("bank id %q: found %s, the directory holds %s", id, dump(b), dump(entries))
		}
	}
	if b.BankID == "" {
		return eq("unknown bank", b, bankinfo.BankInfo{})
	}
	if err := eq("bank id", b.BankID, id); err != nil {
		return err
	}
	want := max(bankNames[b.VersionName], bankVersions[b.VersionNumber])
	asked := ""
	tr := transport.Func(func(r *transport.Request) (*transport.Response, error) {
		asked = r.URL
		return nil, errTransport
	})
	c, err := client.New(client.Config{BankID: id, AccountID: "1", PIN: "12345", Transport: tr})
	if want != 220 && want != 300 {
		if err == nil {
			return fmt.Errorf("bank id %q: a client for version %d", id, want)
		}
		return nil
	}
	if err != nil {
		return err
	}
	quiet(func() { c.Accounts() })
	return eq("address", asked, b.URL)
}
