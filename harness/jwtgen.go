//go:build go1.21

package j8a

// Token forging and an independent reference verdict, made with the standard library alone.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

var algs12 = []string{"HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512"}

func algHash(alg string) crypto.Hash {
	switch alg[len(alg)-3:] {
	case "256":
		return crypto.SHA256
	case "384":
		return crypto.SHA384
	}
	return crypto.SHA512
}

func algCurve(alg string) elliptic.Curve {
	switch alg[len(alg)-3:] {
	case "256":
		return elliptic.P256()
	case "384":
		return elliptic.P384()
	}
	return elliptic.P521()
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func digest(alg, in string) []byte {
	h := algHash(alg).New()
	h.Write([]byte(in))
	return h.Sum(nil)
}

// signRaw signs the input by alg with key (secret bytes, rsa or ecdsa private key)
func signRaw(alg string, key interface{}, in string) []byte {
	switch alg[:2] {
	case "HS":
		m := hmac.New(algHash(alg).New, key.([]byte))
		m.Write([]byte(in))
		return m.Sum(nil)
	case "RS":
		s, err := rsa.SignPKCS1v15(rand.Reader, key.(*rsa.PrivateKey), algHash(alg), digest(alg, in))
		if err != nil {
			panic(err)
		}
		return s
	case "PS":
		k, salt := key.(*rsa.PrivateKey), rsa.PSSSaltLengthEqualsHash
		if k.Size() < 2*algHash(alg).Size()+2 {
			salt = rsa.PSSSaltLengthAuto // no room for a salt as long as the hash
		}
		s, err := rsa.SignPSS(rand.Reader, k, algHash(alg), digest(alg, in), &rsa.PSSOptions{SaltLength: salt})
		if err != nil {
			panic(err)
		}
		return s
	case "ES":
		k := key.(*ecdsa.PrivateKey)
		r, s, err := ecdsa.Sign(rand.Reader, k, digest(alg, in))
		if err != nil {
			panic(err)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		o := make([]byte, 2*n)
		r.FillBytes(o[:n])
		s.FillBytes(o[n:])
		return o
	}
	return nil
}

// verifyRaw tells whether sig is a signature of in by alg under the public key or secret
func verifyRaw(alg string, key interface{}, in string, sig []byte) bool {
	switch alg[:2] {
	case "HS":
		k, ok := key.([]byte)
		return ok && hmac.Equal(signRaw(alg, k, in), sig)
	case "RS":
		k, ok := key.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(k, algHash(alg), digest(alg, in), sig) == nil
	case "PS":
		k, ok := key.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(k, algHash(alg), digest(alg, in), sig, nil) == nil
	case "ES":
		k, ok := key.(*ecdsa.PublicKey)
		if !ok || len(sig) < 2 {
			return false
		}
		n := len(sig) / 2
		return ecdsa.Verify(k, digest(alg, in), new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	}
	return false
}

func pub(k interface{}) interface{} {
	switch x := k.(type) {
	case *rsa.PrivateKey:
		return &x.PublicKey
	case *ecdsa.PrivateKey:
		return &x.PublicKey
	}
	return k
}

// forge makes a compact token with a given header, signed by alg with key; alg none leaves the signature empty
func forge(header, claims, alg string, key interface{}) string {
	in := b64([]byte(header)) + "." + b64([]byte(claims))
	if alg == "none" {
		return in + "."
	}
	return in + "." + b64(signRaw(alg, key, in))
}

// verdict: must tells whether the token has to be accepted for its signature, may whether it can be
func tokenVerdict(token, alg string, keys []interface{}) (must, may bool) {
	p := strings.Split(token, ".")
	if len(p) != 3 {
		return false, false
	}
	var dec [3][]byte
	canon := true
	for i := range p {
		d, err := base64.RawURLEncoding.DecodeString(p[i])
		if err != nil {
			return false, false
		}
		dec[i] = d
		canon = canon && b64(d) == p[i]
	}
	var h, c map[string]interface{}
	okh, okc := json.Unmarshal(dec[0], &h) == nil && h != nil, json.Unmarshal(dec[1], &c) == nil && c != nil
	kid, has := h["kid"]
	_, str := kid.(string)
	if alg == "none" {
		return okh && okc && canon && h["alg"] == "none" && (!has || str), okc
	}
	for _, k := range keys {
		if verifyRaw(alg, k, p[0]+"."+p[1], dec[2]) {
			may = true
		}
	}
	if !may {
		return false, false
	}
	return okh && okc && canon && h["alg"] == alg && (!has || str), true
}

// jwkOf renders a public key as JWK
func jwkOf(k interface{}, kid, alg string) string {
	m := map[string]string{"use": "sig"}
	if kid != "" {
		m["kid"] = kid
	}
	if alg != "" {
		m["alg"] = alg
	}
	switch x := pub(k).(type) {
	case *rsa.PublicKey:
		m["kty"], m["n"], m["e"] = "RSA", b64(x.N.Bytes()), b64(big.NewInt(int64(x.E)).Bytes())
	case *ecdsa.PublicKey:
		n := (x.Curve.Params().BitSize + 7) / 8
		m["kty"], m["crv"] = "EC", x.Curve.Params().Name
		m["x"], m["y"] = b64(x.X.FillBytes(make([]byte, n))), b64(x.Y.FillBytes(make([]byte, n)))
	case []byte:
		m["kty"], m["k"] = "oct", b64(x)
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func jwksOf(entries ...string) string {
	return fmt.Sprintf(`{"keys":[%s]}`, strings.Join(entries, ","))
}
