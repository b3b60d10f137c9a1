// Package jose is a minimal stand-in for github.com/dvsekhvalnov/jose2go:
// compact JWS with RS256 or none.
package jose

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
)

const (
	// NONE is an unsigned token.
	NONE = "none"
	// RS256 is RSASSA-PKCS1-v1_5 with SHA-256.
	RS256 = "RS256"
)

// Header adds a header when signing.
func Header(name string, value interface{}) func(map[string]interface{}) {
	return func(h map[string]interface{}) { h[name] = value }
}

// Sign makes a compact JWS.
func Sign(payload, alg string, key interface{}, opts ...func(map[string]interface{})) (string, error) {
	h := map[string]interface{}{"typ": "JWT", "alg": alg}
	for _, o := range opts {
		o(h)
	}
	hb, err := json.Marshal(h)
	if err != nil {
		return "", err
	}
	secured := base64.RawURLEncoding.EncodeToString(hb) + "." + base64.RawURLEncoding.EncodeToString([]byte(payload))
	switch alg {
	case NONE:
		return secured + ".", nil
	case RS256:
		k, ok := key.(*rsa.PrivateKey)
		if !ok {
			return "", errors.New("RsaUsingSha.Sign(): expects key to be '*rsa.PrivateKey'")
		}
		d := sha256.Sum256([]byte(secured))
		sig, err := rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, d[:])
		if err != nil {
			return "", err
		}
		return secured + "." + base64.RawURLEncoding.EncodeToString(sig), nil
	}
	return "", fmt.Errorf("jwt.Sign(): unknown algorithm: '%s'", alg)
}

// Decode verifies a compact JWS and returns its payload and headers. key may be
// a callback func(headers, payload) interface{} that returns the key or an error.
func Decode(token string, key interface{}) (string, map[string]interface{}, error) {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return "", nil, errors.New("jose.Decode(): expects token to be 3 or 5 parts")
	}
	var raw [3][]byte
	for i, p := range parts {
		b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(p, "="))
		if err != nil {
			return "", nil, err
		}
		raw[i] = b
	}
	var h map[string]interface{}
	if err := json.Unmarshal(raw[0], &h); err != nil {
		return "", nil, err
	}
	alg, ok := h["alg"].(string)
	if !ok {
		return "", nil, errors.New("jwt.Decode(): required 'alg' header is missing or of invalid type")
	}
	if f, ok := key.(func(map[string]interface{}, string) interface{}); ok {
		key = f(h, string(raw[1]))
		if err, ok := key.(error); ok {
			return "", nil, err
		}
	}
	switch alg {
	case NONE:
		if key != nil {
			return "", nil, errors.New("Plaintext.Verify(): expects key to be nil")
		}
		if len(raw[2]) != 0 {
			return "", nil, errors.New("Plaintext.Verify(): expects signature to be empty.")
		}
		return string(raw[1]), h, nil
	case RS256:
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return "", nil, errors.New("RsaUsingSha.Verify(): expects key to be '*rsa.PublicKey'")
		}
		d := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
		if err := rsa.VerifyPKCS1v15(k, crypto.SHA256, d[:], raw[2]); err != nil {
			return "", nil, err
		}
		return string(raw[1]), h, nil
	case "RS384", "RS512", "PS256":
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return "", nil, errors.New("RsaUsingSha.Verify(): expects key to be '*rsa.PublicKey'")
		}
		in := []byte(parts[0] + "." + parts[1])
		var err error
		switch alg {
		case "RS384":
			d := sha512.Sum384(in)
			err = rsa.VerifyPKCS1v15(k, crypto.SHA384, d[:], raw[2])
		case "RS512":
			d := sha512.Sum512(in)
			err = rsa.VerifyPKCS1v15(k, crypto.SHA512, d[:], raw[2])
		case "PS256":
			d := sha256.Sum256(in)
			err = rsa.VerifyPSS(k, crypto.SHA256, d[:], raw[2], nil)
		}
		if err != nil {
			return "", nil, err
		}
		return string(raw[1]), h, nil
	case "HS256":
		k, ok := key.([]byte)
		if !ok {
			return "", nil, errors.New("HmacUsingSha.Verify(): expects key to be '[]byte' array")
		}
		m := hmac.New(sha256.New, k)
		m.Write([]byte(parts[0] + "." + parts[1]))
		if !hmac.Equal(m.Sum(nil), raw[2]) {
			return "", nil, errors.New("HmacUsingSha.Verify(): signature is invalid")
		}
		return string(raw[1]), h, nil
	}
	return "", nil, fmt.Errorf("jwt.Decode(): unknown algorithm: '%s'", alg)
}
