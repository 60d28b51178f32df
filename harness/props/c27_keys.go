package props

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"math/big"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// A keyCase is a key in use: its kind, its name, and what is done with it.
type keyCase struct {
	RSA      bool
	Seed     int
	Pin      string
	Country  int
	Bank     string
	User     string
	Type     string
	Initial  bool
	Messages []pbt.B
	Number   int
	Version  int
	Zeros    int `json:",omitempty"` // before modulus and exponent
}

func init() {
	pbt.Add(pbt.Spec[keyCase]{
		Prop: "C27", Name: "keys", Quick: 60000, Thorough: 2400000,
		Rule: "PIN keys and RSA encryption keys under any name: the key says what it can do, keeps its name, modulus and exponent apart from what the caller does with them, encrypts for the owner of the private key, and a PIN key signs with the PIN and hands messages on unchanged in copies of their own; non-trivial: always",
		Gen: func(t *rapid.T) keyCase {
			c := keyCase{
				RSA: rapid.IntRange(0, 3).Draw(t, "rsa") == 3, Seed: rapid.IntRange(0, 2).Draw(t, "key"), Pin: nonEmpty(12).Draw(t, "pin"),
				Country: rapid.IntRange(0, 999).Draw(t, "country"), Bank: anyText(30).Draw(t, "bank"), User: anyText(30).Draw(t, "user"),
				Type: rapid.SampledFrom([]string{"S", "V"}).Draw(t, "type"), Initial: rapid.Bool().Draw(t, "initial"),
				Number: rapid.SampledFrom([]int{0, 1, 2, 998, 999}).Draw(t, "number"), Version: rapid.SampledFrom([]int{0, 1, 2, 998, 999}).Draw(t, "version"),
			}
			if c.RSA {
				c.Zeros = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "zeros")
			}
			for i := rapid.IntRange(1, 3).Draw(t, "messages"); i > 0; i-- {
				c.Messages = append(c.Messages, rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "message"))
			}
			return c
		},
		Classify: func(c keyCase) []string {
			return []string{fmt.Sprintf("rsa-%v", c.RSA), fmt.Sprintf("initial-%v", c.Initial)}
		},
		Check: func(c keyCase) error {
			return pbt.Guard(func() error {
				bank := domain.BankID{CountryCode: c.Country, ID: c.Bank}
				want := domain.KeyName{BankID: bank, UserID: c.User, KeyType: domain.KeyType(c.Type)}
				name := domain.NewPinTanKeyName(bank, c.User, domain.KeyType(c.Type))
				if c.Initial {
					want.KeyNumber, want.KeyVersion = 999, 999
					name = domain.NewInitialKeyName(c.Country, c.Bank, c.User, domain.KeyType(c.Type))
				}
				var key domain.Key
				if c.RSA {
					key = domain.NewRSAKey(domain.NewEncryptionKey(keyOf(c.Seed, 1024, 65537).n.Bytes(), []byte{1, 0, 1}), name)
				} else {
					key = domain.NewPinKey(c.Pin, name)
				}
				if err := first(eq("key name", key.KeyName(), want), eq("initial", name.IsInitial(), c.Initial),
					eq("can sign", key.CanSign(), !c.RSA), eq("can encrypt", key.CanEncrypt(), true)); err != nil {
					return err
				}
				key.SetKeyNumber(c.Number)
				key.SetKeyVersion(c.Version)
				want.KeyNumber, want.KeyVersion = c.Number, c.Version
				if err := eq("key name", key.KeyName(), want); err != nil {
					return err
				}
				name.SetInitial()
				if err := eq("initial", name.IsInitial(), true); err != nil {
					return err
				}
				if c.RSA {
					return c.checkRSA()
				}
				pin := domain.NewPinKey(c.Pin, name)
				for _, m := range c.Messages {
					given := bytes.Clone(m)
					sig, err := pin.Sign(given)
					if err != nil {
						return err
					}
					enc, err := pin.Encrypt(given)
					if err != nil {
						return err
					}
					for i := range given {
						given[i] ^= 0xff
					}
					if err := first(bytesEq("signature", sig, []byte(c.Pin)), eq("PIN", pin.Pin(), c.Pin), bytesEq("encrypted", enc, m)); err != nil {
						return err
					}
					dec, err := pin.Decrypt(enc)
					if err != nil {
						return err
					}
					for i := range enc {
						enc[i] ^= 0xff
					}
					if err := bytesEq("decrypted", dec, m); err != nil {
						return err
					}
				}
				return nil
			})
		},
	})
}

func (c keyCase) checkRSA() error {
	k := keyOf(c.Seed, 1024, 65537)
	private := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: k.n, E: 65537}, D: k.d, Primes: []*big.Int{k.p, k.q}}
	private.Precompute()
	modulus, exponent := append(make([]byte, c.Zeros), k.n.Bytes()...), append(make([]byte, c.Zeros), 1, 0, 1)
	wantModulus, wantExponent := bytes.Clone(modulus), bytes.Clone(exponent)
	public := domain.NewEncryptionKey(modulus, exponent)
	clear(modulus)
	clear(exponent)
	if err := first(bytesEq("modulus", public.Modulus, wantModulus), bytesEq("exponent", public.Exponent, wantExponent), eq("type", public.Type, "V"), eq("signing key", public.SigningKey() == nil, true)); err != nil {
		return err
	}
	for _, m := range c.Messages {
		enc, err := public.Encrypt(bytes.Clone(m))
		if err != nil {
			return err
		}
		dec, err := rsa.DecryptPKCS1v15(rand.Reader, private, enc)
		if err != nil {
			return err
		}
		if err := bytesEq("decrypted", dec, m); err != nil {
			return err
		}
	}
	return nil
}
