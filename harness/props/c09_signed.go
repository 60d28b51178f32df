package props

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"sync"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"golang.org/x/crypto/ripemd160"
	"pgregory.net/rapid"
)

// signingKeys are made once per process. Which ones they are does not matter.
var signingKeys = sync.OnceValue(func() []*domain.PublicKey {
	var out []*domain.PublicKey
	for range 3 {
		k, err := domain.GenerateSigningKey()
		if err != nil {
			panic(err)
		}
		out = append(out, k)
	}
	return out
})

// signedCase is a message that is signed with an RSA key.
type signedCase struct {
	msgCase
	Key                  int
	Country              int
	BLZ, User, SysID, Fn string
	Number, Version      int // of the key
	Signature            int // number of the signature
}

func (c signedCase) check() error {
	pub := signingKeys()[c.Key]
	name := domain.NewInitialKeyName(c.Country, c.BLZ, c.User, "S")
	if !name.IsInitial() {
		return fmt.Errorf("the initial key name %+v is not initial", *name)
	}
	key := domain.NewRSAKey(pub, name)
	key.SetKeyNumber(c.Number)
	key.SetKeyVersion(c.Version)
	sp := message.NewRDHSignatureProvider(key, c.Signature)
	sp.SetClientSystemID(c.SysID)
	if c.Fn != "" {
		sp.SetSecurityFunction(c.Fn)
	}
	m, err := c.message().Sign(sp)
	if err != nil {
		return fmt.Errorf("sign: %w", err)
	}
	raw, err := m.MarshalHBCI()
	if err != nil {
		return fmt.Errorf("marshal: %w", err)
	}
	segs, err := ref.Parse(raw)
	if err != nil {
		return fmt.Errorf("%w: %q", err, raw)
	}
	if n := len(c.Segs) + 4; len(segs) != n {
		return fmt.Errorf("%d segments, want %d: %q", len(segs), n, raw)
	}
	sh, sa := segs[1], segs[len(segs)-2]
	n := c.V/100 - 2 // FinTS 3 begins with the security profile
	fn := c.Fn
	if fn == "" {
		fn = "1"
	}
	if err := first(framing(raw, segs, nil, c.V, c.Dialog, c.msgCase.Number, false), c.content(segs[2:len(segs)-2], 3),
		eq("first segment", sh.ID(), "HNSHK"), eq("last segment", sa.ID(), "HNSHA"), eq("security function", sh.G(1+n, 0), fn), eq("security area", sh.G(3+n, 0), "1"),
		eq("system id", sh.G(5+n, 2), c.SysID), eq("signature id", sh.G(6+n, 0), fmt.Sprint(c.Signature)), checkSecDate(sh, 7+n),
		eq("key country", sh.G(10+n, 0), fmt.Sprintf("%03d", c.Country)), eq("key bank", sh.G(10+n, 1), c.BLZ), eq("key user", sh.G(10+n, 2), c.User), eq("key type", sh.G(10+n, 3), "S"),
		eq("key number", sh.G(10+n, 4), fmt.Sprint(c.Number)), eq("key version", sh.G(10+n, 5), fmt.Sprint(c.Version)),
		eq("security reference at the end", sa.G(1, 0), sh.G(2+n, 0)), eq("members of the signature", len(sa.Elems), 3)); err != nil {
		return fmt.Errorf("%w: %q", err, raw)
	}
	if r := sh.G(2+n, 0); r == "" || len(r) > 14 {
		return fmt.Errorf("security reference %q", r)
	}
	// the signature is one of the signature header and the jobs, as they are sent
	begin, end := bytes.Index(raw, []byte("HNSHK:")), bytes.LastIndex(raw, []byte("HNSHA:"))
	h := ripemd160.New()
	h.Write(raw[begin:end])
	priv := pub.SigningKey()
	if err := rsa.VerifyPKCS1v15(&priv.PublicKey, 0, h.Sum(nil), sa.B(2, 0)); err != nil {
		return fmt.Errorf("the signature is none of %q", raw[begin:end])
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[signedCase]{
		Prop: "C09", Name: "signed", Quick: 12000, Thorough: 400000,
		Rule: "a message of up to eight request segments with any values, signed with an RSA key under any key name, system id and signature number: framing, signature header, and the signature is one of the bytes that are sent; non-trivial: all",
		Gen: func(t *rapid.T) signedCase {
			return signedCase{msgCase: genMsg(t), Key: rapid.IntRange(0, 2).Draw(t, "key"), Country: rapid.SampledFrom([]int{280, 40, 756, 4}).Draw(t, "country"), BLZ: nonEmpty(20).Draw(t, "blz"), User: nonEmpty(30).Draw(t, "user"),
				SysID: nonEmpty(30).Draw(t, "system"), Fn: rapid.SampledFrom([]string{"", "1", "2"}).Draw(t, "fn"), Number: rapid.IntRange(0, 999).Draw(t, "number"), Version: rapid.IntRange(0, 999).Draw(t, "keyversion"),
				Signature: rapid.OneOf(rapid.IntRange(1, 1000), rapid.IntRange(1, 1<<50)).Draw(t, "signature")}
		},
		Classify: func(c signedCase) []string { return append(c.labels(), "fn-"+c.Fn) },
		Check:    signedCase.check,
	})
}
