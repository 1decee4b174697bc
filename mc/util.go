package main

import (
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

func bigPow(k, d int) *big.Int {
	v := new(big.Int).Lsh(big.NewInt(1), uint(k))
	return v.Add(v, big.NewInt(int64(d)))
}

// encodings renders bytes in every accepted byte literal form.
func encodings() []func([]byte) string {
	b32n := base32.StdEncoding.WithPadding(base32.NoPadding)
	return []func([]byte) string{
		func(b []byte) string { return "0x" + hex.EncodeToString(b) },
		func(b []byte) string { return "0x" + strings.ToUpper(hex.EncodeToString(b)) },
		func(b []byte) string { return "base64 " + base64.StdEncoding.EncodeToString(b) },
		func(b []byte) string { return "b64 " + base64.StdEncoding.EncodeToString(b) },
		func(b []byte) string { return "base64(" + base64.StdEncoding.EncodeToString(b) + ")" },
		func(b []byte) string { return "b64(" + base64.StdEncoding.EncodeToString(b) + ")" },
		func(b []byte) string { return "base32 " + base32.StdEncoding.EncodeToString(b) },
		func(b []byte) string { return "b32 " + b32n.EncodeToString(b) },
		func(b []byte) string { return "base32(" + base32.StdEncoding.EncodeToString(b) + ")" },
		func(b []byte) string { return "b32(" + b32n.EncodeToString(b) + ")" },
		func(b []byte) string { // quoted, everything hex-escaped
			s := `"`
			for _, c := range b {
				s += fmt.Sprintf(`\x%02x`, c)
			}
			return s + `"`
		},
		func(b []byte) string { // quoted, minimal escapes
			s := `"`
			for _, c := range b {
				switch {
				case c == '\n':
					s += `\n`
				case c == '\r':
					s += `\r`
				case c == '\t':
					s += `\t`
				case c == '\\' || c == '"':
					s += `\` + string(rune(c))
				default:
					s += string([]byte{c})
				}
			}
			return s + `"`
		},
	}
}

func addressCases() []string {
	res := []string{zeroAddr, "", "x", zeroAddr + "A", zeroAddr[:57], zeroAddr[1:], strings.ToLower(zeroAddr), `"` + zeroAddr + `"`, "7777777777777777777777777777777777777777777777777774MSJUVU"}
	for i := range zeroAddr {
		for _, c := range "A7BZ1=" {
			res = append(res, zeroAddr[:i]+string(c)+zeroAddr[i+1:])
		}
	}
	return res
}
