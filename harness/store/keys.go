package store

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"errors"

	"github.com/chanjarster/gears/confstore"
	rsautil "github.com/chanjarster/gears/util/rsa"
	"github.com/chanjarster/gears/zzverif/sym"
)

// The DER decoders are cut off: the ones below know the documents of this
// harness and refuse everything else, as the real ones do. In a native replay
// the real ones run.

var errDer = errors.New("x509: not such a document")

//gosym:replace crypto/x509.ParsePKCS1PrivateKey
func parsePkcs1(der []byte) (*rsa.PrivateKey, error) {
	if is(der, derRsaPrivate) {
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: 65537}}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.ParsePKCS1PublicKey
func parsePkcs1Pub(der []byte) (*rsa.PublicKey, error) {
	if is(der, derRsaPublicPkcs1) {
		return &rsa.PublicKey{E: 65537}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.ParsePKCS8PrivateKey
func parsePkcs8(der []byte) (interface{}, error) {
	if is(der, derPkcs8) {
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: 65537}}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.ParseECPrivateKey
func parseEc(der []byte) (*ecdsa.PrivateKey, error) {
	if is(der, derEcPrivate) {
		return &ecdsa.PrivateKey{}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.ParsePKIXPublicKey
func parsePkix(der []byte) (interface{}, error) {
	switch {
	case is(der, derRsaPublic):
		return &rsa.PublicKey{E: 65537}, nil
	case is(der, derEd25519Public):
		return ed25519.PublicKey(make([]byte, 32)), nil
	case is(der, derEcPublic):
		return &ecdsa.PublicKey{}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.ParseCertificate
func parseCert(der []byte) (*x509.Certificate, error) {
	if is(der, derCert) {
		return &x509.Certificate{Version: 3}, nil
	}
	return nil, errDer
}

//gosym:replace crypto/x509.MarshalPKIXPublicKey
func marshalPkix(k interface{}) ([]byte, error) {
	if p, ok := k.(*rsa.PublicKey); ok && p != nil {
		return base64.StdEncoding.DecodeString(derRsaPublic)
	}
	return nil, errDer
}

func is(der []byte, b64 string) bool {
	b, _ := base64.StdEncoding.DecodeString(b64)
	return len(b) == len(der) && string(b) == string(der)
}

const (
	kindNone = iota
	kindPrivate
	kindPublic
	kindCert
)

var bodies = []struct {
	b64  string
	kind int
}{
	{derRsaPrivate, kindPrivate},
	{derRsaPublic, kindPublic},
	{derCert, kindCert},
	{derRsaPublicPkcs1, kindNone},
	{derPkcs8, kindNone},
	{derEd25519Public, kindNone},
	{derEcPublic, kindNone},
	{derEcPrivate, kindNone},
	{"", kindNone},
	{"AAAA", kindNone},
	{"not base64!", kindNone},
}

// read calls every variant of one reader and says whether there was a key.
func read(kind int, text string) bool {
	var ok [4]bool
	switch kind {
	case kindPrivate:
		k, err := rsautil.ReadPrivateKey(text)
		ok[0] = err == nil
		sym.Assert((k != nil) == ok[0], "reading a private key gives a key or an error")
		k, err = rsautil.ReadPrivateKeyBytes([]byte(text))
		ok[1] = err == nil
		sym.Assert((k != nil) == ok[1], "reading a private key gives a key or an error")
		ok[2] = !must(func() { k = rsautil.MustReadPrivateKey(text) })
		ok[3] = !must(func() { k = rsautil.MustReadPrivateKeyBytes([]byte(text)) })
		if text != "" {
			v := verdict(confstore.RsaPrivateKeyPkcs1, text)
			sym.Assert(v == ok[0], "the processor accepts what the reader accepts")
			if v {
				c, is := confstore.RsaPrivateKeyPkcs1.Convert(text).(*rsa.PrivateKey)
				sym.Assert(is && c != nil, "an accepted text converts to a key")
			}
		}
	case kindPublic:
		k, err := rsautil.ReadPublicKey(text)
		ok[0] = err == nil
		sym.Assert((k != nil) == ok[0], "reading a public key gives a key or an error")
		k, err = rsautil.ReadPublicKeyBytes([]byte(text))
		ok[1] = err == nil
		sym.Assert((k != nil) == ok[1], "reading a public key gives a key or an error")
		ok[2] = !must(func() { k = rsautil.MustReadPublicKey(text) })
		ok[3] = !must(func() { k = rsautil.MustReadPublicKeyBytes([]byte(text)) })
		if text != "" {
			v := verdict(confstore.RsaPublicKey, text)
			sym.Assert(v == ok[0], "the processor accepts what the reader accepts")
			if v {
				c, is := confstore.RsaPublicKey.Convert(text).(*rsa.PublicKey)
				sym.Assert(is && c != nil, "an accepted text converts to a key")
			}
		}
	case kindCert:
		k, err := rsautil.ReadX509Certificate(text)
		ok[0] = err == nil
		sym.Assert((k != nil) == ok[0], "reading a certificate gives a certificate or an error")
		k, err = rsautil.ReadX509CertificateBytes([]byte(text))
		ok[1] = err == nil
		sym.Assert((k != nil) == ok[1], "reading a certificate gives a certificate or an error")
		ok[3] = !must(func() { k = rsautil.MustReadX509CertificateBytes([]byte(text)) })
		ok[2] = ok[0]
	}
	sym.Assert(ok[0] == ok[2] && ok[1] == ok[3], "the Must variants panic exactly when the plain ones fail")
	sym.Assert(!ok[1] || ok[0], "what is read from bytes is read from text")
	return ok[0]
}

var blockTypes = []string{"", "RSA PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY"}

// Keys: every reader on every document, in a block of any type or bare.
func Keys() {
	kind := 1 + sym.Choose("reader", 3)
	b := bodies[sym.Choose("body", len(bodies))]
	typ := sym.Choose("type", len(blockTypes))
	text := b.b64
	if typ > 0 {
		t := blockTypes[typ]
		text = "-----BEGIN " + t + "-----\n" + b.b64 + "\n-----END " + t + "-----\n"
	}
	want := b.kind == kind && (typ == 0 || typ == kind)
	sym.Assert(read(kind, text) == want, "exactly the expected document in a block of the expected type is read")
	sym.Cover("end")
}

// Damaged: a valid text with an arbitrary byte in its armor, or cut off.
func Damaged() {
	kind := 1 + sym.Choose("reader", 3)
	t := blockTypes[kind]
	b := bodies[kind-1]
	head, tail := "-----BEGIN "+t+"-----\n", "\n-----END "+t+"-----\n"
	switch sym.Choose("how", 5) {
	case 0:
		i := sym.Choose("at", len(head))
		c := sym.String("c", 1)
		ok := read(kind, head[:i]+c+head[i+1:]+b.b64+tail)
		if c == head[i:i+1] {
			sym.Assert(ok, "an intact text is read")
		}
	case 1:
		i := sym.Choose("at", len(tail))
		c := sym.String("c", 1)
		ok := read(kind, head+b.b64+tail[:i]+c+tail[i+1:])
		if c == tail[i:i+1] {
			sym.Assert(ok, "an intact text is read")
		}
	case 2:
		read(kind, head[:sym.Choose("at", len(head))])
	case 3:
		read(kind, head+b.b64+tail[:sym.Choose("at", len(tail))])
	case 4:
		text := head + b.b64 + tail
		sym.Assert(read(kind, "some text\n"+text), "text before the block is skipped")
		sym.Assert(read(kind, text+"\nsome text"), "text after the block is ignored")
	}
	sym.Cover("end")
}

// Junk: every text up to len bytes, alone or as the body of a block.
func Junk() {
	kind := 1 + sym.Choose("reader", 3)
	text := sym.StringUpTo("text", 0, sym.Param("len", 2))
	if typ := sym.Choose("type", 3); typ > 0 {
		t := blockTypes[typ]
		text = "-----BEGIN " + t + "-----\n" + text + "\n-----END " + t + "-----"
	}
	sym.Assert(!read(kind, text), "text that is no key is refused")
	sym.Cover("end")
}

// Extract: the public key of a private key, as text, reads back as a public key.
func Extract() {
	k, err := rsautil.ReadPrivateKey(derRsaPrivate)
	sym.Assert(err == nil && k != nil, "a private key is read")
	s, err := rsautil.ExtractPublicKeyPem(k)
	sym.Assert(err == nil, "a public key is extracted")
	p, err := rsautil.ReadPublicKey(s)
	sym.Assert(err == nil && p != nil && p.E == 65537, "an extracted public key reads back")
	p, err = rsautil.ReadPublicKey(derRsaPublic)
	sym.Assert(err == nil && p != nil && p.E == 65537, "a public key is read")
	for i, e := range []confstore.ValueProcessor{confstore.RsaPrivateKeyPkcs1, confstore.RsaPublicKey} {
		sym.Assert(verdict(e, ""), "the key processors accept the empty string")
		if i == 0 {
			c, is := e.Convert("").(*rsa.PrivateKey)
			sym.Assert(is && c == nil, "the empty string converts to no key")
		} else {
			c, is := e.Convert("").(*rsa.PublicKey)
			sym.Assert(is && c == nil, "the empty string converts to no key")
		}
	}
	sym.Cover("end")
}
