package h

import (
	"github.com/RTann/libsignal-go/protocol/crypto/aes"

	"verif/harness/sym"
)

func aesKey(n int) []byte { return sym.Bytes("key", n) }

// H_C19_roundtrip: every key, IV and plaintext of every length up to the bound.
func H_C19_roundtrip() {
	max := 50
	if sym.Thorough() {
		max = 130
	}
	n := sym.Choose("len", max)
	ks := []int{32, 16, 24}[sym.Choose("ks", 3)]
	key, iv := aesKey(ks), sym.Bytes("iv", 16)
	pt := sym.Bytes("pt", n)
	ct, err := aes.CBCEncrypt(key, iv, pt)
	sym.Assert("C19", err == nil, "encryption of a valid input failed")
	must(err)
	sym.Assert("C19", len(ct)%16 == 0 && len(ct) > n && len(ct) <= n+16, "ciphertext length is not the padded length")
	got, err := aes.CBCDecrypt(key, iv, ct)
	sym.Assert("C19", err == nil, "decryption of an honest ciphertext failed")
	must(err)
	sym.ObserveBytes("ct", ct)
	sym.ObserveBytes("got", got)
	sym.Assert("C19", sym.Equal(got, pt), "decrypted plaintext differs")
}

// H_C19_long: plaintexts of many blocks, of every length up to a bound and around larger powers of two.
func H_C19_long() {
	most := tier(1100, 4200)
	n := sym.Choose("len", most+32)
	if n >= most {
		n -= most
		n = 1024<<(n/4) + n%4 - 1
	}
	key, iv, pt := aesKey(32), sym.Bytes("iv", 16), sym.Bytes("pt", n)
	ct, err := aes.CBCEncrypt(key, iv, pt)
	sym.Assert("C19", err == nil, "encryption of a valid input failed")
	must(err)
	sym.Assert("C19", len(ct)%16 == 0 && len(ct) > n && len(ct) <= n+16, "ciphertext length is not the padded length")
	got, err := aes.CBCDecrypt(key, iv, ct)
	sym.Assert("C19", err == nil, "decryption of an honest ciphertext failed")
	must(err)
	sym.Assert("C19", sym.Equal(got, pt), "decrypted plaintext differs")
}

// H_C19_exact: the ciphertext is CBC over the PKCS#7 padding, block by block.
func H_C19_exact() {
	n := sym.Choose("len", tier(300, 600))
	key, iv, pt := aesKey([]int{32, 16, 24}[sym.Choose("ks", 3)]), sym.Bytes("iv", 16), sym.Bytes("pt", n)
	ct, err := aes.CBCEncrypt(key, iv, pt)
	must(err)
	sym.Assert("C19", sym.Equal(ct, refCBC(key, iv, pt)), "ciphertext is not PKCS#7-padded CBC")
}

// H_C19_strict: arbitrary ciphertexts decrypt exactly when their padding is PKCS#7.
func H_C19_strict() {
	blocks := []int{1, 2, 3, 4, 8, 16, 17, 20, 32, 33, 64}[sym.Choose("blocks", tier(9, 11))]
	key, iv, ct := aesKey(32), sym.Bytes("iv", 16), sym.Bytes("ct", 16*blocks)
	raw := refCBCRaw(key, iv, ct)
	got, err := aes.CBCDecrypt(key, iv, ct)
	if err == nil {
		n := len(raw) - len(got)
		sym.Assert("C19", n >= 1 && n <= 16, "accepted a padding of impossible length")
		if n < 1 || n > 16 {
			return
		}
		okPad := true
		for i := 0; i < n; i++ {
			okPad = sym.And(okPad, raw[len(raw)-1-i] == byte(n))
		}
		sym.Assert("C19", okPad, "accepted a ciphertext whose padding is not PKCS#7")
		sym.Assert("C19", sym.Equal(got, raw[:len(got)]), "plaintext is not the decrypted prefix")
		sym.ObserveInt("pad", n)
		return
	}
	last := raw[len(raw)-1]
	good := false
	for n := 1; n <= 16; n++ {
		c := last == byte(n)
		for i := 0; i < n; i++ {
			c = sym.And(c, raw[len(raw)-1-i] == byte(n))
		}
		good = sym.Or(good, c)
	}
	sym.Assert("C19", sym.Not(good), "refused a ciphertext with valid padding")
}

// H_C19_sizes: wrong sizes are errors, never panics.
func H_C19_sizes() {
	ks := []int{0, 1, 15, 16, 17, 24, 31, 32, 33, 48, 64}[sym.Choose("ks", 11)]
	ivs := []int{0, 1, 8, 12, 15, 16, 17, 24, 32}[sym.Choose("ivs", 9)]
	n := sym.Choose("n", 50)
	key, iv, d := sym.Bytes("key", ks), sym.Bytes("iv", ivs), sym.Bytes("data", n)
	okSize := (ks == 16 || ks == 24 || ks == 32) && ivs == 16
	var err error
	p := sym.Try(func() { _, err = aes.CBCEncrypt(key, iv, d) })
	sym.Assert("C19", !p, "CBCEncrypt panicked")
	sym.Assert("C18", !p, "CBCEncrypt panicked")
	if !p {
		sym.Assert("C19", (err == nil) == okSize, "CBCEncrypt accepts exactly the specified key and IV sizes")
	}
	if okSize && n > 0 && n%16 == 0 {
		return
	}
	p = sym.Try(func() { _, err = aes.CBCDecrypt(key, iv, d) })
	sym.Assert("C19", !p, "CBCDecrypt panicked")
	sym.Assert("C18", !p, "CBCDecrypt panicked")
	if !p {
		sym.Assert("C19", err != nil, "CBCDecrypt accepted an input of wrong size")
	}
}
