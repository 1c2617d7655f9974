// Package models holds stand-ins for library primitives during symbolic execution. The engine redirects
// the library functions here; UF is an ideal function computed by the engine (exactly, on constants).
package models

import (
	"crypto/cipher"
	"errors"
	"hash"

	"verif/harness/sym"
)

// UF is an ideal function of byte strings; intrinsic.
func UF(name string, n int, args ...[]byte) []byte { panic("models.UF is symbolic only") }

// CRand models crypto/rand.Reader.
type CRand struct{}

func (CRand) Read(p []byte) (int, error) {
	copy(p, sym.Fresh("rand", len(p)))
	return len(p), nil
}

// RandRead models crypto/rand.Read.
func RandRead(p []byte) (int, error) {
	copy(p, sym.Fresh("rand", len(p)))
	return len(p), nil
}

type shaHash struct {
	name  string
	size  int
	block int
	buf   []byte
}

func (h *shaHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *shaHash) Sum(b []byte) []byte         { return append(b, UF(h.name, h.size, h.buf)...) }
func (h *shaHash) Reset()                      { h.buf = nil }
func (h *shaHash) Size() int                   { return h.size }
func (h *shaHash) BlockSize() int              { return h.block }

func NewSHA256() hash.Hash { return &shaHash{"sha256", 32, 64, nil} }
func NewSHA512() hash.Hash { return &shaHash{"sha512", 64, 128, nil} }

func Sum256(data []byte) (r [32]byte) { copy(r[:], UF("sha256", 32, data)); return }
func Sum512(data []byte) (r [64]byte) { copy(r[:], UF("sha512", 64, data)); return }

type hmacHash struct {
	name  string
	size  int
	block int
	key   []byte
	buf   []byte
}

func (h *hmacHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *hmacHash) Sum(b []byte) []byte         { return append(b, UF(h.name, h.size, h.key, h.buf)...) }
func (h *hmacHash) Reset()                      { h.buf = nil }
func (h *hmacHash) Size() int                   { return h.size }
func (h *hmacHash) BlockSize() int              { return h.block }

func NewHMAC(h func() hash.Hash, key []byte) hash.Hash {
	hh := h()
	s, ok := hh.(*shaHash)
	if !ok {
		panic("hmac over an unmodelled hash")
	}
	k := make([]byte, s.block)
	if len(key) > s.block {
		hh.Write(key)
		key = hh.Sum(nil)
	}
	copy(k, key)
	name := "hmac256"
	if s.size == 64 {
		name = "hmac512"
	}
	return &hmacHash{name, s.size, s.block, k, nil}
}

func HKDFExtract(h func() hash.Hash, secret, salt []byte) ([]byte, error) {
	if salt == nil {
		salt = make([]byte, h().Size())
	}
	m := NewHMAC(h, salt)
	m.Write(secret)
	return m.Sum(nil), nil
}

func HKDFExpand(h func() hash.Hash, prk []byte, info string, n int) ([]byte, error) {
	size := h().Size()
	if n > 255*size {
		return nil, errors.New("hkdf: requested key length too large")
	}
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := NewHMAC(h, prk)
		m.Write(t)
		m.Write([]byte(info))
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n], nil
}

func HKDFKey(h func() hash.Hash, secret, salt []byte, info string, n int) ([]byte, error) {
	prk, err := HKDFExtract(h, secret, salt)
	if err != nil {
		return nil, err
	}
	return HKDFExpand(h, prk, info, n)
}

type aesBlock struct{ key []byte }

type KeySizeError int

func (k KeySizeError) Error() string { return "crypto/aes: invalid key size" }

func NewAES(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, KeySizeError(len(key))
	}
	k := make([]byte, len(key))
	copy(k, key)
	return &aesBlock{k}, nil
}

func (b *aesBlock) BlockSize() int { return 16 }
func (b *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, UF("aesenc", 16, b.key, src[:16]))
}
func (b *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, UF("aesdec", 16, b.key, src[:16]))
}

type cbcEnc struct {
	b  cipher.Block
	iv []byte
}
type cbcDec struct {
	b  cipher.Block
	iv []byte
}

func cloneBytes(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &cbcEnc{b, cloneBytes(iv)}
}
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbcDec{b, cloneBytes(iv)}
}

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func (c *cbcEnc) BlockSize() int { return c.b.BlockSize() }
func (c *cbcEnc) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i < len(src); i += 16 {
		x := xor(src[i:i+16], c.iv)
		c.b.Encrypt(x, x)
		copy(dst[i:i+16], x)
		c.iv = x
	}
}
func (c *cbcDec) BlockSize() int { return c.b.BlockSize() }
func (c *cbcDec) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	in := cloneBytes(src)
	for i := 0; i < len(in); i += 16 {
		x := make([]byte, 16)
		c.b.Decrypt(x, in[i:i+16])
		copy(dst[i:i+16], xor(x, c.iv))
		c.iv = in[i : i+16]
	}
}
