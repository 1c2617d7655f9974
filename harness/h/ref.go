package h

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
)

// Reference constructions, written from the specifications.

func refCBC(key, iv, pt []byte) []byte {
	n := 16 - len(pt)%16
	p := clone(pt)
	for i := 0; i < n; i++ {
		p = append(p, byte(n))
	}
	b, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(p))
	prev := clone(iv)
	for i := 0; i < len(p); i += 16 {
		x := make([]byte, 16)
		for j := range x {
			x[j] = p[i+j] ^ prev[j]
		}
		b.Encrypt(out[i:i+16], x)
		prev = out[i : i+16]
	}
	return out
}

func refCBCRaw(key, iv, ct []byte) []byte {
	b, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, ct)
	return out
}

func refHMAC(key []byte, data ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, d := range data {
		m.Write(d)
	}
	return m.Sum(nil)
}

func refHKDF(secret, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := refHMAC(salt, secret)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = refHMAC(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}
