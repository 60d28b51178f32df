package props

import (
	"fmt"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// Every data element that can be read.
var readers = []func() element.DataElement{
	func() element.DataElement { return &element.AccountConnectionDataElement{} },
	func() element.DataElement { return &element.AccountLimitDataElement{} },
	func() element.DataElement { return &element.AcknowledgementDataElement{} },
	func() element.DataElement { return &element.AllowedBusinessTransactionDataElement{} },
	func() element.DataElement { return &element.AllowedBusinessTransactionsDataElement{} },
	func() element.DataElement { return &element.AlphaNumericDataElement{} },
	func() element.DataElement { return &element.AmountDataElement{} },
	func() element.DataElement { return &element.BalanceDataElement{} },
	func() element.DataElement { return &element.BankIdentificationDataElement{} },
	func() element.DataElement { return &element.BinaryDataElement{} },
	func() element.DataElement { return &element.BooleanDataElement{} },
	func() element.DataElement { return &element.CertificateDataElement{} },
	func() element.DataElement { return &element.CodeDataElement{} },
	func() element.DataElement { return &element.CommunicationParameterDataElement{} },
	func() element.DataElement { return &element.CountryCodeDataElement{} },
	func() element.DataElement { return &element.CurrencyDataElement{} },
	func() element.DataElement { return &element.CustomSignatureDataElement{} },
	func() element.DataElement { return &element.DateDataElement{} },
	func() element.DataElement { return &element.DigitDataElement{} },
	func() element.DataElement { return &element.DisposalEligiblePersonsDataElement{} },
	func() element.DataElement { return &element.DtausCharsetDataElement{} },
	func() element.DataElement { return &element.EncryptionAlgorithmDataElement{} },
	func() element.DataElement { return &element.FloatDataElement{} },
	func() element.DataElement { return &element.HashAlgorithmDataElement{} },
	func() element.DataElement { return &element.IdentificationDataElement{} },
	func() element.DataElement { return &element.InternationalAccountConnectionDataElement{} },
	func() element.DataElement { return &element.KeyNameDataElement{} },
	func() element.DataElement { return &element.NumberDataElement{} },
	func() element.DataElement { return &element.ParamsDataElement{} },
	func() element.DataElement { return &element.PinTanBusinessTransactionParameter{} },
	func() element.DataElement { return &element.PinTanBusinessTransactionParameters{} },
	func() element.DataElement { return &element.PinTanDataElement{} },
	func() element.DataElement { return &element.PinTanSpecificParamDataElement{} },
	func() element.DataElement { return &element.ReferencingMessageDataElement{} },
	func() element.DataElement { return &element.SecurityDateDataElement{} },
	func() element.DataElement { return &element.SecurityIdentificationDataElement{} },
	func() element.DataElement { return &element.SecurityMethodVersionsDataElement{} },
	func() element.DataElement { return &element.SecurityProfileDataElement{} },
	func() element.DataElement { return &element.SegmentHeader{} },
	func() element.DataElement { return &element.SignatureAlgorithmDataElement{} },
	func() element.DataElement { return &element.SupportedCompressionMethodsDataElement{} },
	func() element.DataElement { return &element.SupportedHBCIVersionsDataElement{} },
	func() element.DataElement { return &element.SupportedLanguagesDataElement{} },
	func() element.DataElement { return &element.SupportedSecurityMethodDataElement{} },
	func() element.DataElement { return &element.SwiftMT940DataElement{} },
	func() element.DataElement { return &element.Tan2StepSubmissionParameterV6{} },
	func() element.DataElement { return &element.Tan2StepSubmissionProcessParameterV6{} },
	func() element.DataElement { return &element.Tan2StepSubmissionProcessParametersV6{} },
	func() element.DataElement { return &element.TanChallengeExpiryDate{} },
	func() element.DataElement { return &element.TextDataElement{} },
	func() element.DataElement { return &element.TimeDataElement{} },
	func() element.DataElement { return &element.ValueDataElement{} },
}

type badElement struct {
	Kind  int
	Parts [][]byte
}

func init() {
	pbt.Add(pbt.Spec[badElement]{
		Prop: "C06", Name: "elements", Quick: 100000, Thorough: 8000000,
		Rule: "the bytes of a data element, put together from syntax, numbers, dates, binaries and random bytes, read as every kind of data element; what can be read can be written; non-trivial: all",
		Gen: func(t *rapid.T) badElement {
			parts := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(fieldTexts), rapid.SampledFrom([][]byte{[]byte(":"), []byte(":"), []byte("3920"), []byte("12,50"), []byte("280:10020030"), []byte("@2@ab")}), rapid.SliceOfN(rapid.Byte(), 0, 4)), 0, 24).Draw(t, "parts")
			return badElement{rapid.IntRange(0, len(readers)-1).Draw(t, "kind"), parts}
		},
		Classify: func(b badElement) []string { return []string{fmt.Sprintf("%T", readers[b.Kind]())} },
		Check: func(b badElement) error {
			var raw []byte
			for _, p := range b.Parts {
				raw = append(raw, p...)
			}
			e := readers[b.Kind]()
			if err := e.UnmarshalHBCI(raw); err != nil {
				pbt.Note("refused")
				return nil
			}
			pbt.Note("read")
			_, _ = e.MarshalHBCI()
			return nil
		},
	})
}
