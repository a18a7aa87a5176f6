// Package pems: which PEM texts the readers of keys and certificates accept.
package pems

import (
	"crypto/rsa"
	"encoding/base64"

	rsautil "github.com/chanjarster/gears/util/rsa"
	"github.com/chanjarster/gears/zzverif/sym"
)

// A key of 1024 bits, its public half and a certificate of it.
var contents = []string{
	"MIICWwIBAAKBgQDmhgAn9AEepGtFlsLK1JTkfasjLgGKYmZBOj+JlRuHShAIEpiSvzknANBYYG41hopa0/wQyn91bvt7NJ9BLHzc/ed7Hoqj/KhwJiVnaNgMcEdVzhwi5OFWLfZp24QFyvXbayhXo39jq+BP/UI2hNHIyr2FSUgYB0PIItwaFKPhKQIDAQABAoGAD3PCBOuVO6GX0zVU31W6mUpXM2d9EPKhmhO2eJl3G+15/6CHe6a3xQaH8LSeDpZzJb158wIv4wZKcyrG1g6OW/1S0aZP/O1rfHqlBydIIMPqvA3i9VpRGpizt4a4xZPNwwYivdatTamvaqrEorY0J6XckPB2Xn4rnShUYcf9R/UCQQD2cykBAoO2MmqkrCtWfznFfr7IZNwG9iYkWCgWIWTSZ2apmSte3F87A1aC9SJBWwHNxhI8nThnw+KRsZySs0knAkEA73TYx7boEyfDw7PBCT1fdKz4MCOYYHw87XQNiBAnJMReu/qEHyhyOxI3h4MDbnp1DZ7iPFFsu4X/GDcDSMTVLwJAMVVmLOSS9yLqhCJO3pbDOsyfZkACZ4ZYpkfbZmqy4wd93o9hxjB5A7gsVjS58blFCCsRNX8HboYg0adrP1aSWwJAZdSM87Fm0+6PI8RnjORamaWNDfu1KyLqThiSQJCN9ObFWq9YTF/I5DIFB03BwdO1v4sXror58G01ZDjQ3rtF5QJAC7W1cv+SjPQSDaGjoiCrFndfIC1jFtAZMXhsQvA56N63OsAVL/LbDD6WdhsPhHH5/Xf0/XM2zIOYUazNizFOMQ==",
	"MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDmhgAn9AEepGtFlsLK1JTkfasjLgGKYmZBOj+JlRuHShAIEpiSvzknANBYYG41hopa0/wQyn91bvt7NJ9BLHzc/ed7Hoqj/KhwJiVnaNgMcEdVzhwi5OFWLfZp24QFyvXbayhXo39jq+BP/UI2hNHIyr2FSUgYB0PIItwaFKPhKQIDAQAB",
	"MIIBjTCB96ADAgECAgEHMA0GCSqGSIb3DQEBCwUAMAwxCjAIBgNVBAMTAWEwIBcNNzAwMTAxMDAwMDAwWhgPMjA5NjEwMDIwNzA2NDBaMAwxCjAIBgNVBAMTAWEwgZ8wDQYJKoZIhvcNAQEBBQADgY0AMIGJAoGBAOaGACf0AR6ka0WWwsrUlOR9qyMuAYpiZkE6P4mVG4dKEAgSmJK/OScA0FhgbjWGilrT/BDKf3Vu+3s0n0EsfNz953seiqP8qHAmJWdo2AxwR1XOHCLk4VYt9mnbhAXK9dtrKFejf2Or4E/9QjaE0cjKvYVJSBgHQ8gi3BoUo+EpAgMBAAEwDQYJKoZIhvcNAQELBQADgYEAwU0B00JUuLdpaGuaDD9m0Ric8Im87aEaBM4GLV5BgEYUcvSVdQ4bHEBxUxAbltbhSnS0dn5UakGMw4zTd929IRRzwCYwDAoj1Dp7pzzGCKl5at35+hnLsK3THNUv7UigoOtiXerLZfC09TZiCz1zstN6b5F63YkkUHBNXV3BIKY=",
}

var labels = []string{"RSA PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE"}

// The arithmetic on the one key there is.
//
//gosym:replace (*crypto/rsa.PrivateKey).Precompute
func precompute(k *rsa.PrivateKey) {}

//gosym:replace (*crypto/rsa.PrivateKey).Validate
func validate(k *rsa.PrivateKey) error { return nil }

// read calls one of the readers of a kind and tells whether it gave a result, and a proper one.
func read(kind int, text string, bytes bool) bool {
	switch kind {
	case 0:
		k, err := rsautil.ReadPrivateKey(text)
		if bytes {
			k, err = rsautil.ReadPrivateKeyBytes([]byte(text))
		}
		sym.Assert((k == nil) == (err != nil), "a private key or an error, not both")
		return err == nil && k.E == 65537 && k.N.BitLen() == 1024
	case 1:
		k, err := rsautil.ReadPublicKey(text)
		if bytes {
			k, err = rsautil.ReadPublicKeyBytes([]byte(text))
		}
		sym.Assert((k == nil) == (err != nil), "a public key or an error, not both")
		return err == nil && k.E == 65537 && k.N.BitLen() == 1024
	}
	c, err := rsautil.ReadX509Certificate(text)
	if bytes {
		c, err = rsautil.ReadX509CertificateBytes([]byte(text))
	}
	sym.Assert((c == nil) == (err != nil), "a certificate or an error, not both")
	return err == nil && c.SerialNumber.Int64() == 7
}

// must calls the panicking form and tells whether it returned.
func must(kind int, text string, bytes bool) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, stop := sym.IsStop(r); stop {
				panic(r)
			}
			ok = false
		}
	}()
	switch {
	case kind == 0 && bytes:
		return rsautil.MustReadPrivateKeyBytes([]byte(text)) != nil
	case kind == 0:
		return rsautil.MustReadPrivateKey(text) != nil
	case kind == 1 && bytes:
		return rsautil.MustReadPublicKeyBytes([]byte(text)) != nil
	case kind == 1:
		return rsautil.MustReadPublicKey(text) != nil
	case bytes:
		return rsautil.MustReadX509CertificateBytes([]byte(text)) != nil
	}
	_, err := rsautil.ReadX509Certificate(text)
	return err == nil
}

func check(kind int, text string, want bool) {
	bytes := sym.Bool("bytes")
	if want {
		sym.Assert(read(kind, text, bytes), "a valid text is read")
		sym.Assert(must(kind, text, bytes), "a valid text is read by the panicking form")
	} else {
		sym.Assert(!read(kind, text, bytes), "an invalid text is an error")
		sym.Assert(!must(kind, text, bytes), "an invalid text makes the panicking form panic")
	}
	sym.Cover("end")
}

// Labels: the label of the block decides.
func Labels() {
	kind := sym.Choose("kind", 3)
	own := labels[kind]
	label := own
	switch sym.Choose("label", 5) {
	case 0:
		label = labels[sym.Choose("of", 3)]
	case 1:
		at := sym.Choose("at", len(own))
		label = own[:at] + letter("letter") + own[at+1:]
	case 2:
		label = own + letter("last")
	case 3:
		label = letter("first") + own
	case 4:
		label = []string{"RSA PUBLIC KEY", "PRIVATE KEY", "EC PRIVATE KEY", "public key", "X509 CERTIFICATE", ""}[sym.Choose("other", 6)]
	}
	end := label
	if sym.Bool("ends differently") {
		end = labels[sym.Choose("end", 3)]
	}
	headers := ""
	switch sym.Choose("headers", 4) {
	case 1:
		headers = "Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00\n\n"
	case 2:
		headers = letter("header") + ": " + letter("value") + "\n\n"
		sym.Assume(headers[0] != ':')
	case 3:
		headers = "\n"
	}
	text := "-----BEGIN " + label + "-----\n" + headers + contents[kind] + "\n-----END " + end + "-----"
	if sym.Bool("newline") {
		text += "\n"
	}
	check(kind, text, label == own && end == own)
}

func letter(name string) string {
	s := sym.String(name, 1)
	sym.Assume(s[0] >= ' ' && s[0] < 0x7f && s[0] != '-')
	return s
}

// Contents: so does what the block holds, with and without the armour.
func Contents() {
	kind := sym.Choose("kind", 3)
	content := contents[kind]
	want := true
	switch sym.Choose("content", 4) {
	case 0:
		of := sym.Choose("of", 3)
		content = contents[of]
		want = of == kind
	case 1:
		at := []int{0, 5, len(content) / 2, len(content) - 1}[sym.Choose("at", 4)]
		s := sym.String("letter", 1)
		c := s[0]
		sym.Assume(c < 0x7f && c > ' ' && c != '=' && c != '+' && c != '/' && c != '-')
		sym.Assume(!('0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'))
		content = content[:at] + s + content[at+1:]
		want = false
	case 2:
		der, err := base64.StdEncoding.DecodeString(content)
		sym.Assert(err == nil, "the contents are base64")
		n := []int{0, 1, len(der) / 2, len(der) - 1}[sym.Choose("of the bytes", 4)]
		content = base64.StdEncoding.EncodeToString(der[:n])
		want = false
	case 3:
		der, err := base64.StdEncoding.DecodeString(content)
		sym.Assert(err == nil, "the contents are base64")
		content = base64.StdEncoding.EncodeToString(append(der, sym.String("byte more", 1)...))
		want = false
	}
	text := content
	bare := sym.Bool("bare")
	if bare {
		bytes := sym.Bool("bytes")
		want = want && !bytes
		sym.Assert(read(kind, text, bytes) == want, "text without armour is read as the valid block it stands for, but not by the reader of bytes")
		sym.Assert(must(kind, text, bytes) == want, "and so does the panicking form")
		sym.Cover("end")
		return
	}
	text = "-----BEGIN " + labels[kind] + "-----\n" + content + "\n-----END " + labels[kind] + "-----\n"
	switch sym.Choose("around", 4) { // what is not in the block does not matter
	case 1:
		text = "\n" + text
	case 2:
		text = letter("before") + " comment\n" + text
	case 3:
		text += letter("after") + " comment"
	}
	check(kind, text, want)
}
