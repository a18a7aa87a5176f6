// Package keys: PEM forms of public keys.
package keys

import (
	"crypto/rsa"
	"math/big"
	"strings"

	rsautil "github.com/chanjarster/gears/util/rsa"
	"github.com/chanjarster/gears/zzverif/sym"
)

func key() *rsa.PrivateKey {
	b := []byte(sym.String("modulus", sym.Param("len", 3)))
	sym.Assume(b[0] != 0)
	fill := sym.Param("fill", 0)
	for i := 0; i < fill; i++ {
		b = append(b, byte(i*37+11))
	}
	e := sym.Int("exponent", 2, 1<<31-1)
	return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).SetBytes(b), E: e}}
}

func same(text string, k *rsa.PrivateKey) {
	got, err := rsautil.ReadPublicKey(text)
	sym.Assert(err == nil, "the PEM form can be read")
	if err == nil {
		sym.Assert(got.E == k.E, "the PEM form is read back with the same exponent")
		sym.Assert(got.N.Cmp(k.N) == 0, "the PEM form is read back with the same modulus")
	}
}

// Extracted: the PEM form of a public key is read back as that key.
func Extracted() {
	k := key()
	text, err := rsautil.ExtractPublicKeyPem(k)
	sym.Assert(err == nil, "the public key has a PEM form")
	if err == nil {
		same(text, k)
		if sym.Bool("bytes") {
			got, err := rsautil.ReadPublicKeyBytes([]byte(text))
			sym.Assert(err == nil && got.E == k.E && got.N.Cmp(k.N) == 0, "the bytes of the PEM form are read back as the same key")
		}
	}
	sym.Cover("end")
}

// Bare: so is the base64 text in it without the armour, on one line or several.
func Bare() {
	k := key()
	text, err := rsautil.ExtractPublicKeyPem(k)
	sym.Assert(err == nil, "the public key has a PEM form")
	if err == nil {
		lines := strings.Split(strings.TrimSpace(text), "\n")
		sym.Assert(len(lines) >= 3, "the PEM form has three lines or more")
		sep := ""
		if sym.Bool("lines") {
			sep = "\n"
		}
		same(strings.Join(lines[1:len(lines)-1], sep), k)
	}
	sym.Cover("end")
}
