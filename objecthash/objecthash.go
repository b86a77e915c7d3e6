// Package objecthash is an offline stand-in for github.com/continusec/objecthash,
// which cannot be fetched in this sandbox. It was written from the published
// objecthash definition (Ben Laurie's "objecthash", common JSON flavour) plus the
// redaction extensions as they are implemented by the JavaScript client that
// ships in the repository under test (assets/static/continusec.js).
//
// It is part of the trusted base of every check in /verif: it is never the
// subject of a check.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"golang.org/x/text/unicode/norm"
)

const stdPrefix = "***REDACTED*** Hash: "

var errUnrecognized = errors.New("unrecognized object type")

func hash(t string, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte(t))
	h.Write(b)
	return h.Sum(nil)
}

func floatNormalize(f float64) (string, error) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", errors.New("cannot normalize NaN or Inf")
	}
	if f == 0 {
		return "+0:", nil
	}
	s := "+"
	if f < 0 {
		s = "-"
		f = -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
	}
	for f <= .5 {
		f *= 2
		e--
	}
	s += fmt.Sprintf("%d:", e)
	if f > 1 || f <= .5 {
		return "", errors.New("could not normalize float")
	}
	for f != 0 {
		if f >= 1 {
			s += "1"
			f--
		} else {
			s += "0"
		}
		if f >= 1 || len(s) >= 1000 {
			return "", errors.New("could not normalize float")
		}
		f *= 2
	}
	return s, nil
}

// ObjectHash returns the objecthash of o, with no redaction.
func ObjectHash(o interface{}) ([]byte, error) { return ObjectHashWithRedaction(o, "") }

// ObjectHashWithStdRedaction returns the objecthash, honouring the standard redaction prefix.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) {
	return ObjectHashWithRedaction(o, stdPrefix)
}

// ObjectHashWithRedaction returns the objecthash, honouring the given redaction prefix.
func ObjectHashWithRedaction(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return hash("n", nil), nil
	case bool:
		if v {
			return hash("b", []byte("1")), nil
		}
		return hash("b", []byte("0")), nil
	case string:
		if prefix != "" && strings.HasPrefix(v, prefix) {
			return hex.DecodeString(v[len(prefix):])
		}
		return hash("u", []byte(norm.NFC.String(v))), nil
	case int:
		return hash("i", []byte(fmt.Sprintf("%d", v))), nil
	case int64:
		return hash("i", []byte(fmt.Sprintf("%d", v))), nil
	case float64:
		s, err := floatNormalize(v)
		if err != nil {
			return nil, err
		}
		return hash("f", []byte(s)), nil
	case []interface{}:
		var b bytes.Buffer
		for _, e := range v {
			h, err := ObjectHashWithRedaction(e, prefix)
			if err != nil {
				return nil, err
			}
			b.Write(h)
		}
		return hash("l", b.Bytes()), nil
	case []string:
		l := make([]interface{}, len(v))
		for i, e := range v {
			l[i] = e
		}
		return ObjectHashWithRedaction(l, prefix)
	case map[string]string:
		m := make(map[string]interface{}, len(v))
		for k, e := range v {
			m[k] = e
		}
		return ObjectHashWithRedaction(m, prefix)
	case map[string]interface{}:
		entries := make([]string, 0, len(v))
		for k, e := range v {
			kh, err := ObjectHashWithRedaction(k, prefix)
			if err != nil {
				return nil, err
			}
			vh, err := ObjectHashWithRedaction(e, prefix)
			if err != nil {
				return nil, err
			}
			entries = append(entries, string(kh)+string(vh))
		}
		sort.Strings(entries)
		return hash("d", []byte(strings.Join(entries, ""))), nil
	default:
		return nil, errUnrecognized
	}
}

// CommonJSONHash parses JSON and returns its objecthash.
func CommonJSONHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable returns a copy of o in which every map value is replaced with a [nonce, value] pair.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			nonce := make([]byte, 32)
			if _, err = rand.Read(nonce); err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(nonce), x}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// Filtered keeps the named top-level fields of a map (comma separated, "*" for all) and replaces
// the value of every other field with its redacted form.
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	m, ok := o.(map[string]interface{})
	if !ok {
		return nil, errors.New("can only filter fields of an object")
	}
	keep := make(map[string]bool)
	for _, f := range strings.Split(fields, ",") {
		keep[strings.TrimSpace(f)] = true
	}
	rv := make(map[string]interface{}, len(m))
	for k, e := range m {
		if keep[k] {
			rv[k] = e
			continue
		}
		h, err := ObjectHashWithStdRedaction(e)
		if err != nil {
			return nil, err
		}
		rv[k] = stdPrefix + hex.EncodeToString(h)
	}
	return rv, nil
}

// UnredactableWithStdPrefix sheds redacted fields and unwraps [nonce, value] pairs.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) { return Unredactable(o, stdPrefix) }

// Unredactable sheds redacted fields and unwraps [nonce, value] pairs.
func Unredactable(o interface{}, prefix string) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Unredactable(e, prefix)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, e := range v {
			switch x := e.(type) {
			case []interface{}:
				if len(x) != 2 {
					return nil, errors.New("redactable value must be a [nonce, value] pair")
				}
				y, err := Unredactable(x[1], prefix)
				if err != nil {
					return nil, err
				}
				rv[k] = y
			case string:
				if !strings.HasPrefix(x, prefix) {
					return nil, errors.New("value is neither redactable nor redacted")
				}
			default:
				return nil, errors.New("value is neither redactable nor redacted")
			}
		}
		return rv, nil
	default:
		return o, nil
	}
}
