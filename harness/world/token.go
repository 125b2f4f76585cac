package world

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"strconv"
	"strings"
	"sync"

	_ "crypto/sha512" // RS384, RS512
)

var (
	keyMu   sync.Mutex
	keyPool = map[string]*rsa.PrivateKey{}
)

// RSA returns the key pair of the given name, generating it on first use
func RSA(name string) *rsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k := keyPool[name]; k != nil {
		return k
	}
	k := generate(name)
	keyPool[name] = k
	return k
}

// generate makes a key pair. What stands before a colon in its name tells its shape: "e<n>"
// its exponent, a number its size.
func generate(name string) *rsa.PrivateKey {
	bits, e := 1024, 65537
	if i := strings.Index(name, ":"); i > 0 {
		if n, err := strconv.Atoi(name[:i]); err == nil {
			bits = n
		} else if n, err := strconv.Atoi(strings.TrimPrefix(name[:i], "e")); err == nil {
			e = n
		}
	}
	if e == 65537 {
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		return k
	}
	one := big.NewInt(1)
	for {
		p, err := rand.Prime(rand.Reader, bits/2)
		q, err2 := rand.Prime(rand.Reader, bits/2)
		if err != nil || err2 != nil {
			panic(err)
		}
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(big.NewInt(int64(e)), phi)
		if d == nil || p.Cmp(q) == 0 {
			continue
		}
		k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: e}, D: d, Primes: []*big.Int{p, q}}
		k.Precompute()
		if k.Validate() == nil {
			return k
		}
	}
}

// PubKey returns a key set entry for the named key pair
func PubKey(kid, name string) Key { return Key{Kid: kid, Pub: &RSA(name).PublicKey} }

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// Claims is a token payload
type Claims = map[string]interface{}

// Mint makes a token: header alg and kid (omitted if empty), signed by the named key.
// alg is RS256/RS384/RS512/PS256, HS256 (keyed with the named key's public part) or none.
func Mint(alg, kid, signer string, claims Claims) string {
	header := map[string]interface{}{"typ": "JWT", "alg": alg}
	if kid != "" {
		header["kid"] = kid
	}
	return MintHeader(header, alg, signer, claims)
}

// MintHeader is Mint with an explicit header
func MintHeader(header map[string]interface{}, alg, signer string, claims Claims) string {
	h, _ := json.Marshal(header)
	p, _ := json.Marshal(claims)
	input := b64(h) + "." + b64(p)
	return input + "." + b64(sign(alg, signer, input))
}

// MintRaw is Mint with the payload given as JSON text
func MintRaw(alg, kid, signer string, payload json.RawMessage) string {
	h, _ := json.Marshal(map[string]interface{}{"typ": "JWT", "alg": alg, "kid": kid})
	input := b64(h) + "." + b64(payload)
	return input + "." + b64(sign(alg, signer, input))
}

// MintText makes a token of a header and a payload given as text
func MintText(header, payload, alg, signer string) string {
	input := b64([]byte(header)) + "." + b64([]byte(payload))
	return input + "." + b64(sign(alg, signer, input))
}

func sign(alg, signer, input string) []byte {
	hash := map[string]crypto.Hash{"RS256": crypto.SHA256, "RS384": crypto.SHA384, "RS512": crypto.SHA512, "PS256": crypto.SHA256}[alg]
	switch alg {
	case "RS256", "RS384", "RS512":
		s := hash.New()
		s.Write([]byte(input))
		sig, err := rsa.SignPKCS1v15(rand.Reader, RSA(signer), hash, s.Sum(nil))
		if err != nil {
			panic(err)
		}
		return sig
	case "PS256":
		s := hash.New()
		s.Write([]byte(input))
		sig, err := rsa.SignPSS(rand.Reader, RSA(signer), hash, s.Sum(nil), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
		if err != nil {
			panic(err)
		}
		return sig
	case "HS256":
		der, _ := x509.MarshalPKIXPublicKey(&RSA(signer).PublicKey)
		m := hmac.New(sha256.New, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
		m.Write([]byte(input))
		return m.Sum(nil)
	case "HS256mod": // keyed with the raw modulus
		m := hmac.New(sha256.New, RSA(signer).PublicKey.N.Bytes())
		m.Write([]byte(input))
		return m.Sum(nil)
	}
	return nil
}
