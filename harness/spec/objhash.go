package spec

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/text/unicode/norm"
)

// RedPrefix starts the string that stands for a redacted value.
const RedPrefix = "***REDACTED*** Hash: "

// ObjectHash is the object hash of decoded JSON, by its definition: a hash of a type tag and the
// type's canonical form. A string that starts with RedPrefix stands for a value with the hash given.
// It is false if there is none.
func ObjectHash(o interface{}) ([]byte, bool) { return objectHash(o, true) }

// PlainObjectHash is the object hash where no string stands for another value.
func PlainObjectHash(o interface{}) ([]byte, bool) { return objectHash(o, false) }

func objectHash(o interface{}, red bool) ([]byte, bool) {
	tag := func(t byte, b []byte) ([]byte, bool) {
		h := sha256.Sum256(append([]byte{t}, b...))
		return h[:], true
	}
	switch v := o.(type) {
	case nil:
		return tag('n', nil)
	case bool:
		if v {
			return tag('b', []byte{'1'})
		}
		return tag('b', []byte{'0'})
	case float64:
		s, ok := floatForm(v)
		if !ok {
			return nil, false
		}
		return tag('f', []byte(s))
	case string:
		if red && strings.HasPrefix(v, RedPrefix) {
			h, err := hex.DecodeString(strings.TrimPrefix(v, RedPrefix))
			return h, err == nil
		}
		return tag('u', norm.NFC.Bytes([]byte(v)))
	case []interface{}:
		var all []byte
		for _, e := range v {
			h, ok := objectHash(e, red)
			if !ok {
				return nil, false
			}
			all = append(all, h...)
		}
		return tag('l', all)
	case map[string]interface{}:
		var pairs [][]byte
		for k, e := range v {
			kh, ok := objectHash(k, red)
			if !ok {
				return nil, false
			}
			vh, ok := objectHash(e, red)
			if !ok {
				return nil, false
			}
			pairs = append(pairs, append(append([]byte{}, kh...), vh...))
		}
		sort.Slice(pairs, func(i, j int) bool { return bytes.Compare(pairs[i], pairs[j]) < 0 })
		return tag('d', bytes.Join(pairs, nil))
	}
	return nil, false
}

// floatForm is the sign, the exponent e and the binary digits of m where f = m * 2^e and .5 < m <= 1.
func floatForm(f float64) (string, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", false
	}
	if f == 0 {
		return "+0:", true
	}
	sign := "+"
	if f < 0 {
		sign = "-"
	}
	m, e := math.Frexp(math.Abs(f)) // .5 <= m < 1
	if m == .5 {
		return fmt.Sprintf("%s%d:1", sign, e-1), true
	}
	// m < 1, so it is "0" and the 53 digits after the point, without trailing zeros
	n, _ := new(big.Float).SetMantExp(big.NewFloat(m), 53).Int(nil)
	digits := n.Text(2)
	digits = strings.Repeat("0", 53-len(digits)) + digits
	return fmt.Sprintf("%s%d:0%s", sign, e, strings.TrimRight(digits, "0")), true
}
