package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
)

const repoDir = "/repo"

// run executes a command and returns what it printed.
func runIn(dir string, stdin []byte, env []string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Run(); err != nil {
		return out.Bytes(), fmt.Errorf("%s: %v: %.2000s%.2000s", filepath.Base(name), err, out.String(), errOut.String())
	}
	return out.Bytes(), nil
}

// tool builds a command of the repository, once per process.
func tool(pkg string) string {
	tools.Lock()
	defer tools.Unlock()
	if tools.bin[pkg] == "" {
		dir, err := os.MkdirTemp("", "tool")
		if err == nil {
			_, err = runIn(repoDir, nil, nil, "go", "build", "-o", dir+"/tool", pkg)
		}
		if err != nil { // no verdict: the harness needs a tree that builds
			fmt.Println("ERROR: cannot build", pkg, err)
			os.Exit(3)
		}
		tools.bin[pkg] = dir + "/tool"
	}
	return tools.bin[pkg]
}

var tools = struct {
	sync.Mutex
	bin  map[string]string
	seen map[string]bool
}{bin: map[string]string{}, seen: map[string]bool{}}

func withScratch(f func(dir string) error) error {
	dir, err := os.MkdirTemp("", "case")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	return f(dir)
}

// A made-up segment: its definition, and values for it.
type genSeg struct {
	Name  string
	Var   string
	ID    string
	Many  bool // defined in several versions
	Vers  []genVer
	Embed string
}

type genVer struct {
	V      int
	Fields []genFieldDef
	Layout []int // order of the fields in the struct
	Extra  bool  // a field of the struct that is no element
	Inputs [][]fv
}

type genFieldDef struct {
	Name, K string
	Line    bool // starts a new line in the list of elements
}

var decoderTypes = map[string]string{
	"an": "AlphaNumericDataElement", "txt": "TextDataElement", "id": "IdentificationDataElement", "num": "NumberDataElement",
	"cur": "CurrencyDataElement", "jn": "BooleanDataElement", "dat": "DateDataElement", "tim": "TimeDataElement", "bin": "BinaryDataElement",
	"ktv": "AccountConnectionDataElement", "kik": "BankIdentificationDataElement", "btg": "AmountDataElement", "kti": "InternationalAccountConnectionDataElement",
}

func (s genSeg) typeName(v genVer) string {
	if s.Many {
		return s.Name + "V" + strconv.Itoa(v.V)
	}
	return s.Name
}

func (s genSeg) source() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package segment\n\nimport \"github.com/mitch000001/go-hbci/element\"\n\n")
	if s.Many {
		fmt.Fprintf(&b, "type %sIface interface {\n\tBankSegment\n}\n\n// %s is the segment in any version\ntype %s struct {\n\t%sIface\n}\n\n", s.Name, s.Name, s.Name, s.Name)
	}
	for _, v := range s.Vers {
		n, r := s.typeName(v), s.Var
		fmt.Fprintf(&b, "type %s struct {\n\t%s\n", n, s.Embed)
		for i, l := range v.Layout {
			if v.Extra && i == len(v.Layout)/2 {
				fmt.Fprintf(&b, "\tcount int // no element\n")
			}
			f := v.Fields[l]
			fmt.Fprintf(&b, "\t%s *element.%s\n", f.Name, decoderTypes[f.K])
		}
		fmt.Fprintf(&b, "}\n\nfunc (%s *%s) Version() int { return %d }\nfunc (%s *%s) ID() string { return %q }\nfunc (%s *%s) referencedId() string { return \"\" }\nfunc (%s *%s) sender() string { return senderBank }\n\n", r, n, v.V, r, n, s.ID, r, n, r, n)
		fmt.Fprintf(&b, "func (%s *%s) elements() []element.DataElement {\n\treturn []element.DataElement{", r, n)
		for i, f := range v.Fields {
			if i == 0 || f.Line {
				fmt.Fprintf(&b, "\n\t\t")
			}
			fmt.Fprintf(&b, "%s.%s, ", r, f.Name)
		}
		fmt.Fprintf(&b, "\n\t}\n}\n\n")
	}
	return b.String()
}

func (s genSeg) dumper() string {
	var b strings.Builder
	for _, v := range s.Vers {
		n := s.typeName(v)
		fmt.Fprintf(&b, "func (x *%s) ZzDump() []ZzField {\n\treturn []ZzField{\n", n)
		for _, f := range v.Fields {
			fmt.Fprintf(&b, "\t\tzzField(%q, x.%s == nil, x.%s),\n", f.Name, f.Name, f.Name)
		}
		fmt.Fprintf(&b, "\t}\n}\n\n")
	}
	return b.String()
}

const dumpSource = `package segment

import "github.com/mitch000001/go-hbci/element"

type ZzField struct {
	Name  string
	Unset bool
	Wire  []byte
	Err   string
}

func zzField(name string, unset bool, d element.DataElement) ZzField {
	f := ZzField{Name: name, Unset: unset}
	if !unset {
		b, err := d.MarshalHBCI()
		f.Wire = b
		if err != nil {
			f.Err = err.Error()
		}
	}
	return f
}

`

// mainSource reads lines "segment version bytes" and decodes the bytes twice:
// with the decoder registered for that version and with that of the type.
const mainSource = `package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"

	"github.com/mitch000001/go-hbci/segment"
)

var _ = segment.KnownSegments

type dumper interface{ ZzDump() []segment.ZzField }

type answer struct {
	Err    string
	Fields []segment.ZzField
	ID     string
	V, Pos int
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<22)
	for in.Scan() {
		var name, id, data string
		var v int
		fmt.Sscan(in.Text(), &name, &id, &v, &data)
		raw, _ := hex.DecodeString(data)
		for _, registered := range []bool{true, false} {
			var a answer
			s, d := decoder(registered, name, id, v)
			if s == nil {
				a.Err = "no decoder registered"
			} else if err := s.UnmarshalHBCI(raw); err != nil {
				a.Err = err.Error()
			} else {
				h := d(s).(interface{ ZzDump() []segment.ZzField })
				a.Fields = h.ZzDump()
				b := s.(segment.BankSegment)
				a.ID, a.V, a.Pos = b.Header().ID.Val(), b.Header().Version.Val(), b.Header().Position.Val()
			}
			out, _ := json.Marshal(a)
			fmt.Println(string(out))
		}
	}
}

func decoder(registered bool, name, id string, v int) (segment.Unmarshaler, func(any) any) {
	same := func(x any) any { return x }
	if registered {
		u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: id, Version: v})
		if err != nil {
			return nil, same
		}
		return u, same
	}
	switch name {
%s	}
	return nil, same
}
`

type decoderCase struct{ Segs []genSeg }

func genDecoders(t *rapid.T) decoderCase {
	var c decoderCase
	kinds := []string{"an", "txt", "id", "num", "cur", "jn", "dat", "tim", "bin", "ktv", "kik", "btg", "kti"}
	n := rapid.IntRange(1, 4).Draw(t, "segments")
	for i := 0; i < n; i++ {
		var s genSeg
		s.Name = fmt.Sprintf("%c%s%d", rapid.SampledFrom([]rune("ABKSZ")).Draw(t, "first"), rapid.StringMatching(`[a-zA-Z]{2,6}`).Draw(t, "name"), i)
		s.Var = rapid.SampledFrom([]string{"s", "x", "seg", "me"}).Draw(t, "receiver")
		s.ID = fmt.Sprintf("Z%dX%s", i, rapid.StringMatching(`[A-Z]{1,3}`).Draw(t, "id"))
		s.Embed = rapid.SampledFrom([]string{"Segment", "ClientSegment"}).Draw(t, "embed")
		vers := []int{1}
		if s.Many = rapid.Bool().Draw(t, "many"); s.Many {
			vers = rapid.SliceOfNDistinct(rapid.IntRange(1, 12), 1, 4, rapid.ID[int]).Draw(t, "versions")
		} else {
			vers[0] = rapid.IntRange(1, 12).Draw(t, "version")
		}
		perLine := rapid.IntRange(0, 2).Draw(t, "layout")
		for _, ver := range vers {
			v := genVer{V: ver, Extra: rapid.Bool().Draw(t, "extra")}
			m := rapid.IntRange(1, 20).Draw(t, "fields")
			for j := 0; j < m; j++ {
				f := genFieldDef{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
				f.Name = fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"F", "Account", "Max", "A"}).Draw(t, "field"), j)
				f.Line = perLine == 0 || perLine == 1 && rapid.Bool().Draw(t, "line")
				v.Fields = append(v.Fields, f)
				v.Layout = append(v.Layout, j)
			}
			if rapid.Bool().Draw(t, "shuffled") {
				v.Layout = rapid.Permutation(v.Layout).Draw(t, "struct")
			}
			for k := 0; k < 4; k++ {
				var in []fv
				for _, f := range v.Fields {
					x := fv{K: f.K, Off: true}
					if k == 0 || rapid.IntRange(0, 3).Draw(t, "set") > 0 {
						x = genField(t, f.K)
					}
					in = append(in, x)
				}
				if k == 3 { // the bank may leave out the last ones altogether
					in = in[:rapid.IntRange(0, len(in)).Draw(t, "cut")]
				}
				v.Inputs = append(v.Inputs, in)
			}
			s.Vers = append(s.Vers, v)
		}
		c.Segs = append(c.Segs, s)
	}
	return c
}

// overlay builds the program with the given files added to the repository.
func buildOverlay(dir string, files map[string]string) error {
	repl := map[string]string{}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		p := fmt.Sprintf("%s/%d.go", dir, i)
		if err := os.WriteFile(p, []byte(files[n]), 0o600); err != nil {
			panic(err)
		}
		repl[repoDir+"/"+n] = p
	}
	o, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(dir+"/overlay.json", o, 0o600); err != nil {
		panic(err)
	}
	_, err := runIn(repoDir, nil, nil, "go", "build", "-overlay", dir+"/overlay.json", "-o", dir+"/prog", "./cmd/zzdecode")
	return err
}

// definable says whether the definitions of this harness fit the tree (they
// implement an interface of the package that is not exported).
var definable = sync.OnceValue(func() bool {
	s := genSeg{Name: "ZzProbe", Var: "z", ID: "ZZPROBE", Embed: "Segment", Vers: []genVer{{V: 1, Fields: []genFieldDef{{Name: "F", K: "an"}}, Layout: []int{0}}}}
	ok := false
	withScratch(func(dir string) error {
		ok = buildOverlay(dir, map[string]string{
			"segment/zz_probe.go":  s.source() + "\nvar _ basicSegment = &ZzProbe{}\n",
			"segment/zz_dump.go":   dumpSource + s.dumper(),
			"cmd/zzdecode/main.go": fmt.Sprintf(mainSource, ""),
		}) == nil
		return nil
	})
	return ok
})

func (c decoderCase) check() error {
	if !definable() {
		pbt.Note("internals renamed, not judged")
		return nil
	}
	return withScratch(func(dir string) error {
		files := map[string]string{}
		dump, cases := dumpSource, ""
		for i, s := range c.Segs {
			src := s.source()
			files[fmt.Sprintf("segment/zz%d.go", i)] = src
			dump += s.dumper()
			gdir := fmt.Sprintf("%s/g%d", dir, i)
			if err := os.MkdirAll(gdir, 0o700); err != nil {
				panic(err)
			}
			if err := os.WriteFile(gdir+"/zz.go", []byte(src), 0o600); err != nil {
				panic(err)
			}
			args := []string{"-segment", s.Name, "-segment_interface", s.Embed}
			if s.Many {
				var vs []string
				for _, v := range s.Vers {
					vs = append(vs, fmt.Sprintf("%s:%d:%s", s.typeName(v), v.V, s.Embed))
				}
				if s.Embed == "Segment" { // the default
					for i := range vs {
						vs[i] = strings.TrimSuffix(vs[i], ":Segment")
					}
				}
				args = []string{"-segment", s.Name, "-segment_interface", s.Name + "Iface", "-segment_versions", `"` + strings.Join(vs, ",") + `"`}
				cases += fmt.Sprintf("\tcase %q:\n\t\treturn &segment.%s{}, func(x any) any { return x.(*segment.%s).%sIface }\n", s.Name, s.Name, s.Name, s.Name)
			} else {
				cases += fmt.Sprintf("\tcase %q:\n\t\treturn &segment.%s{}, same\n", s.Name, s.Name)
			}
			if _, err := runIn(gdir, nil, []string{"GOFILE=zz.go", "GOPACKAGE=segment"}, tool("./cmd/unmarshaler"), args...); err != nil {
				return fmt.Errorf("no decoder for a supported definition: %v\n%s", err, src)
			}
			gen, err := os.ReadFile(gdir + "/zz_unmarshaler.go")
			if err != nil {
				return fmt.Errorf("no decoder written: %v", err)
			}
			files[fmt.Sprintf("segment/zz%d_unmarshaler.go", i)] = string(gen)
		}
		files["segment/zz_dump.go"] = dump
		files["cmd/zzdecode/main.go"] = fmt.Sprintf(mainSource, cases)
		if err := buildOverlay(dir, files); err != nil {
			return fmt.Errorf("the generated decoders do not compile: %v", err)
		}
		var in bytes.Buffer
		var want []string
		for _, s := range c.Segs {
			for _, v := range s.Vers {
				for k, input := range v.Inputs {
					els := [][]byte{ref.Header(s.ID, k+2, v.V, k-1)}
					last := -1
					for i, f := range input {
						els = append(els, f.wire())
						if !f.Off {
							last = i
						}
					}
					raw := ref.Segment(els...)
					if k == 2 { // without the trailing empty ones
						raw = ref.Segment(els[:last+2]...)
					}
					fmt.Fprintf(&in, "%s %s %d %s\n", s.Name, s.ID, v.V, hex.EncodeToString(raw))
					w := fmt.Sprintf("%s:%d:%d", s.ID, k+2, v.V)
					for i, f := range v.Fields {
						if i < len(input) && !input[i].Off {
							w += fmt.Sprintf(" %s=%q", f.Name, input[i].wire())
						} else {
							w += fmt.Sprintf(" %s unset", f.Name)
						}
					}
					want = append(want, w+fmt.Sprintf("\n%s", raw))
				}
			}
		}
		out, err := runIn(dir, in.Bytes(), nil, dir+"/prog")
		if err != nil {
			return fmt.Errorf("the generated decoders crash: %v", err)
		}
		lines := strings.Split(strings.TrimSpace(string(out)), "\n")
		if len(lines) != 2*len(want) {
			return fmt.Errorf("%d answers to %d inputs", len(lines), len(want))
		}
		for i, l := range lines {
			var a struct {
				Err    string
				Fields []struct {
					Name  string
					Unset bool
					Wire  []byte
					Err   string
				}
				ID     string
				V, Pos int
			}
			if err := json.Unmarshal([]byte(l), &a); err != nil {
				return fmt.Errorf("answer %q: %v", l, err)
			}
			w, raw, _ := strings.Cut(want[i/2], "\n")
			got := fmt.Sprintf("%s:%d:%d", a.ID, a.Pos, a.V)
			for _, f := range a.Fields {
				if f.Unset {
					got += fmt.Sprintf(" %s unset", f.Name)
				} else {
					got += fmt.Sprintf(" %s=%q%s", f.Name, f.Wire, f.Err)
				}
			}
			if a.Err != "" {
				return fmt.Errorf("the decoder (registered: %v) refuses %q: %s", i%2 == 0, raw, a.Err)
			}
			if got != w {
				return fmt.Errorf("the decoder (registered: %v) reads %q as\n%s\nwant\n%s", i%2 == 0, raw, got, w)
			}
		}
		return nil
	})
}

// A definition that the generator cannot turn into a decoder.
type badCase struct {
	Seg genSeg
	How string
	At  int
}

var badHows = []string{"unknown segment", "unknown field", "value field", "call", "two statements", "no list", "nested", "versions without number", "version without digits", "missing version", "unquoted versions", "syntax error"}

func genBad(t *rapid.T) badCase {
	c := badCase{Seg: genDecoders(t).Segs[0], How: rapid.SampledFrom(badHows).Draw(t, "how"), At: rapid.IntRange(0, 19).Draw(t, "at")}
	for i := range c.Seg.Vers {
		c.Seg.Vers[i].Inputs = nil
	}
	return c
}

func (c badCase) check() error {
	s := c.Seg
	src := s.source()
	vi := c.At % len(s.Vers)
	v := s.Vers[vi]
	f := v.Fields[c.At%len(v.Fields)]
	item := fmt.Sprintf("%s.%s, ", s.Var, f.Name)
	head := fmt.Sprintf("func (%s *%s) elements() []element.DataElement {\n", s.Var, s.typeName(v))
	before, after, _ := strings.Cut(src, head)
	name := s.Name
	var vs []string
	for _, v := range s.Vers {
		vs = append(vs, fmt.Sprintf("%s:%d:%s", s.typeName(v), v.V, s.Embed))
	}
	switch c.How {
	case "unknown segment":
		name += "X"
		vs[vi] = "X" + vs[vi]
	case "unknown field":
		after = strings.Replace(after, item, s.Var+".Nowhere, ", 1)
	case "value field":
		decl := fmt.Sprintf("\t%s *element.", f.Name)
		// the last definition before the method is that of this version
		if i := strings.LastIndex(before, decl); i >= 0 {
			before = before[:i] + strings.Replace(before[i:], "*element", "element", 1)
		}
	case "call":
		after = strings.Replace(after, item, s.Var+"."+f.Name+"(), ", 1)
	case "two statements":
		head += "\t_ = 1\n"
	case "no list":
		after = "\treturn " + s.Var + ".list()\n}\n" + strings.SplitN(after, "\n}\n", 2)[1]
	case "nested":
		after = strings.Replace(after, item, s.Var+".inner."+f.Name+", ", 1)
	case "versions without number":
		s.Many = true
		vs[vi] = s.typeName(v)
	case "version without digits":
		s.Many = true
		vs[vi] = s.typeName(v) + ":one"
	case "missing version":
		s.Many = true
		vs = append(vs, s.Name+"V99:99")
	case "unquoted versions":
		s.Many = true
	case "syntax error":
		after += "\nfunc ("
	}
	args := []string{"-segment", name}
	if s.Many {
		q := `"` + strings.Join(vs, ",") + `"`
		if c.How == "unquoted versions" {
			q = q[1:]
		}
		args = append(args, "-segment_versions", q)
	}
	return withScratch(func(dir string) error {
		src := before + head + after
		if err := os.WriteFile(dir+"/zz.go", []byte(src), 0o600); err != nil {
			panic(err)
		}
		if _, err := runIn(dir, nil, []string{"GOFILE=zz.go", "GOPACKAGE=segment"}, tool("./cmd/unmarshaler"), args...); err == nil {
			gen, _ := os.ReadFile(dir + "/zz_unmarshaler.go")
			return fmt.Errorf("a decoder is generated although the definition is not supported (%s):\n%s\n%s", c.How, src, gen)
		}
		if _, err := os.Stat(dir + "/zz_unmarshaler.go"); err == nil {
			return fmt.Errorf("refused (%s), but a decoder is written", c.How)
		}
		return nil
	})
}

// What the directory generator writes.
func readDirectory(src []byte) ([]map[string]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "data.go", src, 0)
	if err != nil {
		return nil, err
	}
	var banks []map[string]string
	var bad error
	ast.Inspect(f, func(n ast.Node) bool {
		lit, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		if id, named := lit.Type.(*ast.Ident); lit.Type != nil && (!named || id.Name != "BankInfo") {
			return true
		}
		bank := map[string]string{}
		for _, e := range lit.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				bad = fmt.Errorf("a value without a name")
				return false
			}
			lit, ok := kv.Value.(*ast.BasicLit)
			if !ok {
				bad = fmt.Errorf("a value that is no text")
				return false
			}
			v, err := strconv.Unquote(lit.Value)
			if err != nil {
				bad = err
			}
			bank[kv.Key.(*ast.Ident).Name] = v
		}
		banks = append(banks, bank)
		return false
	})
	return banks, bad
}

type directoryCase struct{ Files []table }

func (c directoryCase) check() error {
	return withScratch(func(dir string) error {
		if err := os.Mkdir(dir+"/bankinfo", 0o700); err != nil {
			panic(err)
		}
		var args, want []string
		for i, f := range c.Files {
			name := fmt.Sprintf("%d.csv", i)
			if err := os.WriteFile(dir+"/"+name, ref.Latin1(string(f.wire())), 0o600); err != nil {
				panic(err)
			}
			args = append(args, name)
			for _, b := range f.banks() {
				want = append(want, dump(b))
			}
		}
		if _, err := runIn(dir, nil, nil, tool("./cmd/bankdata_parser"), args...); err != nil {
			return fmt.Errorf("no directory written: %v", err)
		}
		src, err := os.ReadFile(dir + "/bankinfo/data.go")
		if err != nil {
			return fmt.Errorf("no directory written: %v", err)
		}
		banks, err := readDirectory(src)
		if err != nil {
			return fmt.Errorf("the directory is no Go source of texts: %v\n%s", err, src)
		}
		var got []string
		last := ""
		for _, b := range banks {
			i := bankinfo.BankInfo{BankID: b["BankID"], BIC: b["BIC"], VersionNumber: b["VersionNumber"], URL: b["URL"], VersionName: b["VersionName"], Institute: b["Institute"], City: b["City"], LastChanged: b["LastChanged"]}
			if i.BankID < last {
				return fmt.Errorf("not sorted by bank id: %q before %q", last, i.BankID)
			}
			last = i.BankID
			got = append(got, dump(i))
		}
		sort.Strings(got)
		sort.Strings(want)
		return eq("banks", strings.Join(got, "\n"), strings.Join(want, "\n"))
	})
}

func genDirectory(t *rapid.T) directoryCase {
	var c directoryCase
	for n := rapid.IntRange(1, 3).Draw(t, "files"); n > 0; n-- {
		f := genTable(t, bankColumns)
		for i := range f.Banks { // texts that are no plain Go text
			b := &f.Banks[i]
			for _, s := range []*string{&b.URL, &b.City, &b.VersionName, &b.VersionNumber, &b.LastChanged, &b.BIC, &b.BankID} {
				if *s != "" && rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
					*s = rapid.StringMatching(`[a-z"\\{}<>&%`+"`"+`äÿ$]{1,6}`).Draw(t, "text")
				}
			}
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func init() {
	pbt.Add(pbt.Spec[directoryCase]{
		Prop: "C22", Name: "directory", Quick: 1500, Thorough: 30000,
		Rule: "one to three generated bank tables in ISO 8859-1, run through the directory generator; the Go source it writes is parsed and its values compared; non-trivial: at least one bank",
		Gen:  genDirectory,
		Classify: func(c directoryCase) []string {
			var l []string
			for _, f := range c.Files {
				if len(f.banks()) > 0 {
					l = append(l, "banks")
				}
				for _, b := range f.banks() {
					if strings.ContainsAny(fmt.Sprintf("%v", b), "\"\\") {
						l = append(l, "quotes")
					}
				}
			}
			if len(c.Files) > 1 && len(l) > 0 {
				l = append(l, "several-files")
			}
			return l
		},
		Check: directoryCase.check,
	})
	pbt.Add(pbt.Spec[decoderCase]{
		Prop: "C22", Name: "decoders", Quick: 40, Thorough: 600,
		Rule: "one to four made-up segments of 1-20 elements, in one or several versions, declared in any layout; the decoders generated for them are compiled into the library and read generated segments; non-trivial: all",
		Gen:  genDecoders,
		Classify: func(c decoderCase) []string {
			var l []string
			for _, s := range c.Segs {
				if s.Many {
					l = append(l, "versions")
				} else {
					l = append(l, "single")
				}
				for _, v := range s.Vers {
					if !sort.IntsAreSorted(v.Layout) {
						l = append(l, "order-differs")
					}
					same := 0
					for _, f := range v.Fields[1:] {
						if !f.Line {
							same++
						}
					}
					if same > 0 {
						l = append(l, "shared-line")
					}
					if same > 12 {
						l = append(l, "long-line")
					}
				}
			}
			return l
		},
		Check: decoderCase.check,
	})
	pbt.Add(pbt.Spec[badCase]{
		Prop: "C22", Name: "refused", Quick: 1200, Thorough: 20000,
		Rule:     "definitions the generator does not support, damaged in one of twelve ways: refused, and nothing is written; non-trivial: all",
		Gen:      genBad,
		Classify: func(c badCase) []string { return []string{c.How} },
		Check:    badCase.check,
	})
}
