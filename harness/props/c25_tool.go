package props

import (
	"bytes"
	"fmt"
	"io"
	"maps"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

type (
	// printed is a list to print.
	printed struct {
		Kind  string
		Items []printedItem
	}
	// printedItem holds the texts and amounts of one row.
	printedItem struct {
		T     []string
		Day   int
		Cents []int64
		Curr  string
		Off   []bool // parts that are missing
	}
)

func (p printedItem) amount(i int) domain.Amount {
	return domain.Amount{Amount: amt(p.Cents[i]), Currency: p.Curr}
}

func (p printedItem) amountPtr(i int) *domain.Amount {
	if p.Off[i] {
		return nil
	}
	a := p.amount(i)
	return &a
}

func (p printedItem) balance(i int) domain.Balance {
	return domain.Balance{Amount: p.amount(i), TransmissionDate: dayOf(p.Day)}
}

// money is an amount as people write it.
func money(a domain.Amount) string {
	c := int64(a.Amount*100 + 0.5)
	sign := ""
	if a.Amount < 0 {
		c, sign = int64(-a.Amount*100+0.5), "-"
	}
	return fmt.Sprintf("%s%d.%02d %s", sign, c/100, c%100, a.Currency)
}

func dayText(t time.Time) string {
	y, m, d := t.Date()
	return fmt.Sprintf("%04d-%02d-%02d", y, int(m), d)
}

func balanceCells(b domain.Balance, earmarked *domain.Balance, limit *domain.Amount) []string {
	out := []string{dayText(b.TransmissionDate), money(b.Amount)}
	if earmarked != nil && earmarked.Amount.Amount != 0 {
		out = append(out, "("+money(earmarked.Amount)+")*")
	}
	if limit != nil {
		return append(out, money(*limit))
	}
	return append(out, "-")
}

func balanceRow(b domain.AccountBalance) []string {
	return append([]string{b.ProductName, b.Account.BankID, b.Account.AccountID}, balanceCells(b.BookedBalance, b.EarmarkedBalance, b.CreditLimit)...)
}

func sepaBalanceRow(b domain.SepaAccountBalance) []string {
	return append([]string{b.ProductName, b.Account.BIC, b.Account.IBAN}, balanceCells(b.BookedBalance, b.EarmarkedBalance, b.CreditLimit)...)
}

func transactionRow(t domain.AccountTransaction) []string {
	return []string{dayText(t.BookingDate), t.BookingText, money(t.Amount), t.BankID, t.AccountID, t.Name, t.Purpose}
}

func accountRow(a domain.AccountInformation) []string {
	row := []string{a.AccountConnection.BankID, a.AccountConnection.AccountID, a.UserID, a.Currency, a.Name1 + ",", a.Name2, a.ProductID}
	if a.Limit == nil {
		return append(row, "-")
	}
	return append(row, a.Limit.Kind+":", money(a.Limit.Amount))
}

// words splits a line at white space.
func words(cells ...string) []string {
	w := strings.Fields(strings.Join(cells, " "))
	for i := range w {
		if w[i] == "-0.00" { // nothing, all the same
			w[i] = "0.00"
		}
	}
	return w
}

// checkTable checks that the text has, between what may stand before and
// after, one line for each row and nothing else, with each cell set apart.
func checkTable(text string, before [][]string, rows [][]string, after [][]string) error {
	var got [][]string
	for _, l := range strings.Split(text, "\n") {
		if w := words(l); len(w) > 0 {
			got = append(got, w)
		}
	}
	var want [][]string
	for _, r := range slices.Concat(before, rows, after) {
		if w := words(r...); len(w) > 0 {
			want = append(want, w)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d lines instead of %d: %q", len(got), len(want), text)
	}
	for i := range want {
		if !slices.Equal(got[i], want[i]) {
			return fmt.Errorf("line %d: got %q, want %q in %q", i, got[i], want[i], text)
		}
	}
	return nil
}

var (
	balanceTitle     = []string{"Product Name BankID AccountID BookingDate Amount Limit"}
	sepaBalanceTitle = []string{"Product Name BIC IBAN BookingDate Amount Limit"}
	transactionTitle = []string{"BookingDate Booking Text Amount BankID AccountID Name Purpose"}
	accountTitle     = []string{"BankID AccountID UserID Currency Name ProductID Limit"}
)

func checkBalances(text string, bs []domain.AccountBalance) error {
	var rows, after [][]string
	for _, b := range bs {
		rows = append(rows, balanceRow(b))
		if b.EarmarkedBalance != nil && b.EarmarkedBalance.Amount.Amount != 0 {
			after = [][]string{{"* earmarked transactions"}}
		}
	}
	return checkTable(text, [][]string{balanceTitle}, rows, after)
}

func checkSepaBalances(text string, bs []domain.SepaAccountBalance) error {
	var rows, after [][]string
	for _, b := range bs {
		rows = append(rows, sepaBalanceRow(b))
		if b.EarmarkedBalance != nil && b.EarmarkedBalance.Amount.Amount != 0 {
			after = [][]string{{"* earmarked transactions"}}
		}
	}
	return checkTable(text, [][]string{sepaBalanceTitle}, rows, after)
}

func checkTransactions(text string, ts []domain.AccountTransaction) error {
	before, after := [][]string{transactionTitle}, [][]string(nil)
	var rows [][]string
	for _, t := range ts {
		rows = append(rows, transactionRow(t))
	}
	if len(ts) > 0 {
		a, b, z := ts[0].Account, ts[0].AccountBalanceBefore, ts[len(ts)-1].AccountBalanceAfter
		before = [][]string{{"Transactions for account", a.BankID + "/" + a.AccountID}, {"Balance at", dayText(b.TransmissionDate) + ":", money(b.Amount)}, transactionTitle}
		after = [][]string{{"Balance at", dayText(z.TransmissionDate) + ":", money(z.Amount)}}
	}
	return checkTable(text, before, rows, after)
}

func checkAccounts(text string, as []domain.AccountInformation) error {
	var rows [][]string
	for _, a := range as {
		rows = append(rows, accountRow(a))
	}
	return checkTable(text, [][]string{accountTitle}, rows, nil)
}

// holds checks that a text names all values.
func holds(text string, cells ...string) error {
	for _, c := range cells {
		if !strings.Contains(text, c) {
			return fmt.Errorf("%q is missing in %q", c, text)
		}
	}
	return nil
}

func (c printed) check() error {
	switch c.Kind {
	case "transactions":
		var ts []domain.AccountTransaction
		for _, p := range c.Items {
			t := domain.AccountTransaction{Account: domain.AccountConnection{BankID: p.T[0], AccountID: p.T[1]}, Amount: p.amount(0), BookingDate: dayOf(p.Day), BookingText: p.T[2], BankID: p.T[3], AccountID: p.T[4], Name: p.T[5],
				Purpose: p.T[6], AccountBalanceBefore: p.balance(1), AccountBalanceAfter: p.balance(2)}
			ts = append(ts, t)
			if err := holds(t.String(), dayText(t.BookingDate), money(t.Amount), t.BankID, t.AccountID, t.Purpose); err != nil {
				return err
			}
		}
		return checkTransactions(domain.AccountTransactions(ts).String(), ts)
	case "balances", "sepaBalances":
		var bs []domain.AccountBalance
		var ss []domain.SepaAccountBalance
		for _, p := range c.Items {
			b := domain.AccountBalance{Account: domain.AccountConnection{BankID: p.T[0], AccountID: p.T[1]}, ProductName: p.T[2], BookedBalance: p.balance(0), CreditLimit: p.amountPtr(2)}
			s := domain.SepaAccountBalance{Account: domain.InternationalAccountConnection{BIC: p.T[0], IBAN: p.T[1]}, ProductName: p.T[2], BookedBalance: p.balance(0), CreditLimit: p.amountPtr(2)}
			if !p.Off[1] {
				e := p.balance(1)
				b.EarmarkedBalance, s.EarmarkedBalance = &e, &e
			}
			bs, ss = append(bs, b), append(ss, s)
			for _, text := range []string{b.String(), s.String()} {
				if err := holds(text, p.T[0], p.T[1], dayText(b.BookedBalance.TransmissionDate), money(b.BookedBalance.Amount)); err != nil {
					return err
				}
			}
		}
		if c.Kind == "balances" {
			return checkBalances(domain.AccountBalances(bs).String(), bs)
		}
		return checkSepaBalances(domain.SepaAccountBalances(ss).String(), ss)
	case "accounts":
		var as []domain.AccountInformation
		for _, p := range c.Items {
			a := domain.AccountInformation{AccountConnection: domain.AccountConnection{BankID: p.T[0], AccountID: p.T[1]}, UserID: p.T[2], Currency: p.Curr, Name1: p.T[3], Name2: p.T[4], ProductID: p.T[5]}
			if !p.Off[0] {
				a.Limit = &domain.AccountLimit{Kind: "E", Amount: p.amount(0)}
			}
			as = append(as, a)
			if err := holds(a.String(), p.T[0], p.T[1], p.T[2], p.Curr, p.T[3], p.T[4], p.T[5]); err != nil {
				return err
			}
		}
		return checkAccounts(domain.AccountInfos(as).String(), as)
	}
	panic("harness: " + c.Kind)
}

// A toolCase is a call of the command line tool.
type toolCase struct {
	Bank    bankCfg
	Op      op
	Account string   // given with --accountID, "" for the user's
	Zone    string   // time zone of the computer
	Days    int      // 0 for the default of ten days
	Config  []string // settings that are in the configuration file
	Env     []string // settings that are in the environment
	Decoys  []string // settings that are given as options, too

	ConfigFlag bool    `json:",omitempty"` // configuration file named with --config
	Broken     bool    `json:",omitempty"` // configuration file that cannot be read
	Twice      bool    `json:",omitempty"` // called again with the settings kept
	SecretOnly bool    `json:",omitempty"` // look for the PIN only
	Faults     []fault `json:",omitempty"`
	Missing    string  `json:",omitempty"` // a setting that is left out
}

func init() {
	pbt.Add(pbt.Spec[printed]{
		Prop: "C25", Name: "lists", Quick: 60000, Thorough: 2000000,
		Rule: "lists of zero to six bookings, balances, SEPA balances or accounts with any texts (empty, short, longer than a column), amounts and missing parts: below the title one line for each, in order, with all its cells set apart by white space, and the opening and closing line; single values name all they show; non-trivial: at least one item",
		Gen: func(t *rapid.T) printed {
			c := printed{Kind: rapid.SampledFrom([]string{"transactions", "balances", "sepaBalances", "accounts"}).Draw(t, "kind")}
			text := rapid.OneOf(anyText(12), anyText(30), rapid.StringMatching(`[A-Za-z0-9]{15,30}`))
			c.Items = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) printedItem {
				return printedItem{T: rapid.SliceOfN(text, 7, 7).Draw(t, "texts"), Day: genDay(t, "day"), Cents: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int64 {
					n := cents(999999999999).Draw(t, "n")
					if rapid.Bool().Draw(t, "neg") {
						n = -n
					}
					return n
				}), 3, 3).Draw(t, "cents"), Curr: rapid.SampledFrom([]string{"EUR", "USD"}).Draw(t, "curr"), Off: rapid.SliceOfN(rapid.Bool(), 3, 3).Draw(t, "off")}
			}), 0, 6).Draw(t, "items")
			return c
		},
		Classify: func(c printed) []string {
			if len(c.Items) == 0 {
				return nil
			}
			l := []string{c.Kind}
			for _, p := range c.Items {
				for _, s := range p.T {
					if len([]rune(s)) >= 20 {
						return append(l, "wide")
					}
				}
			}
			return l
		},
		Check: printed.check,
	})
	pbt.Add(pbt.Spec[toolCase]{
		Prop: "C25", Name: "tool", Quick: 2000, Thorough: 30000,
		Rule: "the tool built from cmd/banking, called with a generated command, options, configuration file and environment against the model bank behind an HTTP server on the loopback network, some with a faulty answer or a missing setting: it asks for exactly what the options say, prints exactly what the bank answers and ends with 0, or prints why not and ends with 1; it prints no PIN and stores none, and a configuration file that is there stays as it is; non-trivial: all",
		Gen:  genToolCase, Classify: toolCase.labels, Check: toolCase.check,
	})
	pbt.Add(pbt.Spec[toolCase]{
		Prop: "C15", Name: "tool", Quick: 800, Thorough: 15000,
		Rule: "the tool built from cmd/banking, called as in C25: the PIN is in none of its output and in no file it leaves behind; non-trivial: all",
		Gen: func(t *rapid.T) toolCase {
			c := genToolCase(t)
			c.SecretOnly = true
			return c
		},
		Classify: toolCase.labels, Check: toolCase.check,
	})
}

// toolBanks are the banks of the directory by the protocol version they use.
var toolBanks = sync.OnceValue(func() map[int][]string {
	out := map[int][]string{}
	for _, id := range slices.Sorted(maps.Keys(directory())) {
		entries := directory()[id]
		if len(entries) != 1 || len(id) != 8 {
			continue
		}
		v := 0
		switch e := entries[0]; {
		case e.VersionNumber == "3.0" && (e.VersionName == "FinTS V3.0" || e.VersionName == ""):
			v = 300
		case e.VersionNumber == "2.2" && e.VersionName == "":
			v = 220
		}
		if v != 0 && len(out[v]) < 60 {
			out[v] = append(out[v], id)
		}
	}
	return out
})

var toolSettings = []string{"userID", "blz"}

func (c toolCase) labels() []string {
	l := []string{c.Op.Kind}
	if len(c.Faults) > 0 {
		l = append(l, "fault")
	}
	if c.Missing != "" {
		l = append(l, "without "+c.Missing)
	}
	if len(c.Config) > 0 {
		l = append(l, "configuration file")
	}
	if len(c.Env) > 0 {
		l = append(l, "environment")
	}
	if c.Account != "" {
		l = append(l, "other account")
	}
	return l
}

func genToolCase(t *rapid.T) toolCase {
	c := toolCase{Bank: genBank(t)}
	c.Bank.Product, c.Bank.ProductVer = "", ""
	c.Bank.PIN = anyText(4).Draw(t, "before") + "Zq8sEcReT" + anyText(4).Draw(t, "after")
	ids := toolBanks()[c.Bank.V]
	if len(ids) == 0 {
		c.Missing = "directory"
		return c
	}
	c.Bank.BLZ = rapid.SampledFrom(ids).Draw(t, "bank")
	same := c.Bank.UPDUser == c.Bank.User
	c.Bank.User = rapid.StringMatching(`[0-9]{1,10}`).Draw(t, "number")
	if same {
		c.Bank.UPDUser = c.Bank.User
	}
	c.Op = genOp(t, c.Bank, []string{"accounts", "balances", "sepaBalances", "tx", "sepaTx"}, 3)
	c.Op.Cont, c.Op.From, c.Op.To = "", 0, 0
	if c.Op.Kind != "accounts" && rapid.Bool().Draw(t, "other") {
		c.Account = rapid.StringMatching(`[0-9]{1,10}`).Draw(t, "account")
		if rapid.IntRange(0, 2).Draw(t, "anyUser") == 0 {
			c.Bank.User = nonEmpty(12).Draw(t, "anyUserID")
		}
	}
	c.Days = rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 40), rapid.IntRange(1, 5000)).Draw(t, "days")
	c.Zone = rapid.SampledFrom([]string{"UTC", "Europe/Berlin", "Pacific/Kiritimati", "Pacific/Pago_Pago"}).Draw(t, "zone")
	// from where the settings come, and what is overridden
	for _, name := range toolSettings {
		switch rapid.IntRange(0, 5).Draw(t, name) {
		case 0:
			c.Config = append(c.Config, name)
		case 1:
			c.Env = append(c.Env, name)
		case 2:
			c.Config, c.Env = append(c.Config, name), append(c.Env, name)
		}
		if rapid.IntRange(0, 2).Draw(t, "decoy") == 0 {
			c.Decoys = append(c.Decoys, name)
		}
	}
	c.ConfigFlag = rapid.Bool().Draw(t, "configFlag")
	c.Twice = rapid.Bool().Draw(t, "twice")
	switch rapid.IntRange(0, 9).Draw(t, "failing") {
	case 0:
		c.Missing = rapid.SampledFrom([]string{"pin", "userID", "blz"}).Draw(t, "missing")
	case 1:
		c.Broken = true
	case 2, 3, 4:
		c.Faults = append(c.Faults, genFault(t, faultKinds, rapid.IntRange(0, 6).Draw(t, "at")))
	}
	return c
}

func (c toolCase) setting(name string) string {
	return map[string]string{"userID": c.Bank.User, "blz": c.Bank.BLZ, "pin": c.Bank.PIN}[name]
}

// germanIBAN is the IBAN of a German account.
func germanIBAN(blz, account string) string {
	bban := blz + strings.Repeat("0", max(0, 10-len(account))) + account
	return fmt.Sprintf("DE%02d", 98-mod97("DE00"+bban)) + bban
}

func (c toolCase) check() error {
	if c.Missing == "directory" {
		return nil
	}
	return withScratch(c.run)
}

func (c toolCase) run(dir string) error {
	home := filepath.Join(dir, "home")
	if err := os.Mkdir(home, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	command := map[string]string{"accounts": "accounts", "balances": "balances", "sepaBalances": "balances", "tx": "transactions", "sepaTx": "transactions"}[c.Op.Kind]
	args := []string{command, "--hbci.url=" + httpURL() + "/hbci"}
	if c.Missing != "pin" {
		args = append(args, "--pin="+c.Bank.PIN)
	}
	env := []string{"HOME=" + home, "PATH=" + os.Getenv("PATH"), "TZ=" + c.Zone}
	var config []string
	const decoy = "70000997"
	for _, name := range toolSettings {
		inConfig, inEnv := slices.Contains(c.Config, name) && !c.Broken, slices.Contains(c.Env, name)
		value := c.setting(name)
		if c.Missing == name {
			value, inConfig, inEnv = "", false, false
		}
		asFlag := !inConfig && !inEnv || slices.Contains(c.Decoys, name)
		if value != "" && asFlag {
			args = append(args, "--"+name+"="+value)
			value = decoy
		}
		if value != "" && inEnv {
			env = append(env, strings.ToUpper(name)+"="+value)
			value = decoy
		}
		if value != "" && inConfig {
			config = append(config, name+": "+strconv.Quote(value)+"\n")
		}
	}
	account := c.Bank.User
	if c.Account != "" {
		account = c.Account
		args = append(args, "--accountID="+c.Account)
	}
	c.Op.All = command == "balances"
	switch c.Op.Kind {
	case "balances", "tx":
		args = append(args, "--disableSepa")
		c.Op.Acct = fv{K: "ktv", T: []string{account, "", c.Bank.BLZ}, N: []int{280}}
	case "sepaBalances":
		c.Op.Acct = fv{K: "kti", T: []string{germanIBAN(c.Bank.BLZ, account), directory()[c.Bank.BLZ][0].BIC, account, "", c.Bank.BLZ}, N: []int{280}}
	case "sepaTx":
		c.Op.Acct = fv{K: "kti", T: []string{germanIBAN(c.Bank.BLZ, account), "", account, "", c.Bank.BLZ}, N: []int{280}}
	}
	days := 10
	if command == "transactions" && c.Days > 0 {
		days = c.Days
		args = append(args, "--daysToFetch="+strconv.Itoa(days))
	}
	configText := []byte(strings.Join(config, ""))
	if c.Broken {
		configText = []byte("userID: [\n  broken")
	}
	stored := filepath.Join(home, ".banking.yaml")
	file := stored
	if c.ConfigFlag {
		file = filepath.Join(dir, "settings.yaml")
		args = append(args, "--config="+file)
		if c.Broken {
			// one that is not there, and another one that nobody asked for
			file = stored
		}
	}
	hasConfig := len(configText) > 0
	if hasConfig {
		if err := os.WriteFile(file, configText, 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	}

	s := scenario{Bank: c.Bank, Ops: []op{c.Op}, Faults: c.Faults}
	zone, err := time.LoadLocation(c.Zone)
	if err != nil {
		zone = time.UTC // as in the tool
	}
	today := time.Now().In(zone)
	if c.Op.Kind == "tx" || c.Op.Kind == "sepaTx" {
		s.Ops[0].From, s.Ops[0].To = dayInt(today.AddDate(0, 0, -days)), dayInt(today)
	}
	once := func(args []string) error {
		b := newBank(s.Bank, s.Ops, s.Faults)
		b.op = 0
		httpBank.do = func(w http.ResponseWriter, r *http.Request) {
			res, err := b.Do(&transport.Request{URL: "https://bank.example" + r.URL.Path, Body: r.Body})
			if err != nil {
				panic(http.ErrAbortHandler)
			}
			if _, err := io.Copy(w, res.Body); err != nil {
				panic(http.ErrAbortHandler)
			}
		}
		cmd := exec.Command(tool("./cmd/banking"), args...)
		cmd.Dir, cmd.Env = dir, env
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		runErr := cmd.Run()
		if !sameDate(today, time.Now().In(zone)) {
			return nil // midnight
		}
		code := 0
		if runErr != nil {
			code = cmd.ProcessState.ExitCode()
		}
		text := out.String()
		if i := strings.IndexByte(text, '\n'); i >= 0 && strings.HasPrefix(text, "Using config file") {
			text = text[i+1:]
		}
		if err := first(leaks("output", out.Bytes(), c.Bank.PIN), leaks("error output", errOut.Bytes(), c.Bank.PIN)); err != nil {
			return err
		}
		err := filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
			if err != nil || !d.Type().IsRegular() {
				return err
			}
			now, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			return leaks("file "+strings.TrimPrefix(path, dir), now, c.Bank.PIN)
		})
		if err != nil || c.SecretOnly {
			return err
		}
		if hasConfig {
			now, err := os.ReadFile(file)
			if err != nil {
				return fmt.Errorf("the configuration file is gone: %v", err)
			}
			if err := bytesEq("configuration file", now, configText); err != nil {
				return err
			}
		}
		if code != 0 && code != 1 || strings.Contains(errOut.String(), "panic:") {
			return fmt.Errorf("ends with %v: %s%s", runErr, text, errOut.String())
		}
		failed := func(why string, reasons ...string) error {
			if code != 1 {
				return fmt.Errorf("%s, but the tool ends with %d: %q", why, code, text)
			}
			return holds(text+errOut.String(), reasons...)
		}
		if c.Missing != "" {
			return first(failed("without "+c.Missing, c.Missing), eq("requests", len(b.log), 0))
		}
		if len(b.problems) > 0 {
			return fmt.Errorf("the bank cannot read a request: %s", b.problems[0])
		}
		must, reasons, maybe, skip := s.damage(b, 0, len(b.log))
		switch {
		case maybe:
			return nil
		case must != "":
			return failed(must, reasons...)
		case skip:
			return nil
		case s.Ops[0].Kind != "accounts" && s.Ops[0].version(s.Bank) == 0:
			return failed("the bank does not offer the job")
		case code != 0:
			return fmt.Errorf("ends with 1: %s%s", text, errOut.String())
		}
		if len(s.Faults) == 0 {
			if err := first(s.checkContent(b), s.checkFraming(b), s.checkSequence(b)); err != nil {
				return err
			}
		}
		return s.shown(text)
	}
	if err := once(args); err != nil {
		return fmt.Errorf("banking %q: %w", args, err)
	}
	if c.Twice && !hasConfig && len(c.Env) == 0 && c.Missing == "" && !c.ConfigFlag {
		// the settings of the first call are the defaults of the next
		if _, err := os.Stat(stored); err != nil {
			return nil
		}
		pbt.Note("settings kept")
		args = slices.DeleteFunc(slices.Clone(args), func(a string) bool { return strings.HasPrefix(a, "--userID=") || strings.HasPrefix(a, "--blz=") })
		if err := once(args); err != nil {
			return fmt.Errorf("banking %q, called again: %w", args, err)
		}
	}
	return nil
}

// shown compares what the tool printed with what the bank holds.
func (s scenario) shown(text string) error {
	o := s.Ops[0]
	var segs []segCase
	var stmts []mtStmt
	for _, p := range o.Pages {
		segs = append(segs, p.Segs...)
		for _, b := range p.Booked {
			stmts = append(stmts, b...)
		}
	}
	switch o.Kind {
	case "accounts":
		var rows [][]string
		for _, a := range s.Bank.Accounts {
			rows = append(rows, accountRow(wantAccount(a)))
		}
		return checkTable(text, [][]string{accountTitle}, rows, nil)
	case "balances":
		var bs []domain.AccountBalance
		for _, c := range segs {
			b, e, l := wantBalance(c)
			a := c.F[0].account()
			bs = append(bs, domain.AccountBalance{Account: a, ProductName: c.F[1].str(), BookedBalance: b, EarmarkedBalance: e, CreditLimit: l})
		}
		return checkBalances(text, bs)
	case "sepaBalances":
		var bs []domain.SepaAccountBalance
		for _, c := range segs {
			b, e, l := wantBalance(c)
			bs = append(bs, domain.SepaAccountBalance{Account: c.F[0].intAccount(), ProductName: c.F[1].str(), BookedBalance: b, EarmarkedBalance: e, CreditLimit: l})
		}
		return checkSepaBalances(text, bs)
	default:
		return checkTransactions(text, mtTransactions(stmts))
	}
}

// wantBalance is what a HISAL says about the balance.
func wantBalance(c segCase) (domain.Balance, *domain.Balance, *domain.Amount) {
	balance := func(f fv) *domain.Balance {
		if f.Off {
			return nil
		}
		a := amt(f.Cents)
		if f.Neg {
			a = -a
		}
		return &domain.Balance{Amount: domain.Amount{Amount: a, Currency: f.T[0]}, TransmissionDate: dayOf(f.Day)}
	}
	var limit *domain.Amount
	if f := c.F[5]; !f.Off {
		limit = &domain.Amount{Amount: amt(f.Cents), Currency: f.T[0]}
	}
	return *balance(c.F[3]), balance(c.F[4]), limit
}
