"""Writes known-findings.txt: the open findings below, and one line per repaired defect (fix: commits in /repo, by subject)."""
import json, subprocess
OPEN = [
 dict(property="C05", facet="messages", what="an element of several digits that starts with 0 and holds a comma (such as 007,5) makes the whole message unreadable, although it is valid text; a test of the suite asks for the error, so it is not repaired",
      case=[{"ID":"HIKIM","Pos":3,"Version":2,"Ref":-1,"Elems":[[{"Text":"007,5"}]]}]),
]
FIXED = """
C02 keep the place of an absent amount
C07 refuse statements with an unknown debit
C03 keep escaped separators
C05 extract group elements
C05 do not take a NUL byte for the end of the input
C05 reject binary data
C05 accept text that starts
C02 unescape the text
C02 make a decoded bank
C01 check the size of decoded
C06 report malformed country
C06 report malformed acknowledgement
C06 report malformed message references
C02 keep the decoded security profile
C02 decode custom signatures
C06 reject PIN/TAN parameters
C06 report segments without
C02 decode the amount and days
C02 do not split allowed
C02 decode account limits
C02 decode supported security
C02 decode supported compression
C02 decode communication parameters
C02 decode disposal
C02 decode certificates
C02 set the reference
C23 check codes
C23 accept spaces
C04 decode all allowed
C04 add the booking time
C04 report the transmission time
C06 do not panic on balances
C06 do not panic on bank responses
C06 do not panic on bank announcements
C14 read SWIFT fields
C14 do not take a NUL byte for the end of SWIFT
C07 report incomplete SWIFT
C12 keep the order
C07 do not panic on short
C14 account for SWIFT reversal
C14 report debit balances
C14 derive the year
C14 keep the year
C13 support SEPA account transactions
C20 use the status protocol version
C20 look up the status protocol
C20 do not reorder the version
C23 do not reorder the code
C21 reference the message
C06 report incomplete message headers
C06 report encrypted messages
C28 keep the security function when
C13 do not list accounts again
C10 synchronise in a dialog
C28 keep the client id
C10 use the security function
C06 do not panic on TAN bank
C11 do not panic on continuation
C05 do not take a segment
C05 do not collect the segments
C11 report messages that end
C11 report responses without
C04 decode the challenge
C05 no panic on messages ending
C14 keep the debit/credit mark
C14 no error for an account without bookings
C11 tell why the accounts
C10 use the initial system id
C14 no panic on SWIFT bookings
C07 report SWIFT messages that end within
C07 refuse SWIFT amounts
C16 check the parts of an IBAN
C18 marshal dates and timeframes
C18 read back the JSON
C23 measure elements
C19 skip bank records
C17 pass on errors while reading
C22 refuse to generate a decoder
C22 stop generating a decoder
C22 quote every value
C15 debug logging of one client
C25 wide cells of printed lists
C25 the command line tool does not overwrite
C14 keep the text of unstructured
C27 apply RSA keys
C27 convert an RSA block
C27 read the message of an ISO
C27 refuse an ISO
C27 an encryption key keeps
C07 refuse transactions with a malformed
C09 sign the bytes
C03 refuse unknown reasons
C12 fetch all balances
"""
def main():
    log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
    fixes = [(h, s[5:]) for h, s in log if s.startswith("fix: ")]
    rules = [l.split(" ", 1) for l in FIXED.strip().splitlines()]
    out = ["# Open findings (one JSON object per line) and repaired defects (fixed: lines, which suppress nothing)."]
    out += [json.dumps(o) for o in OPEN]
    used = set()
    for h, s in fixes:
        m = [r for r in rules if s.startswith(r[1])]
        assert m, s
        r = max(m, key=lambda r: len(r[1])); used.add(tuple(r))
        out.append(f"fixed: property={r[0]} {h} {s}")
    assert len(used) == len(rules), set(map(tuple, rules)) - used
    open("known-findings.txt", "w").write("\n".join(out) + "\n")
main()
