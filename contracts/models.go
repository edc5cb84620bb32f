package xmssmt

// Models of library functions: their contracts, as code over abstract state.
// These are trusted (listed as assumptions).

import (
	"encoding/base64"
	"hash"
	"io"
	"os"

	"golang.org/x/crypto/sha3"
)

// A Merkle-Damgard hash object: its state is the text absorbed so far.
type gvcHash struct {
	alg string
	n   int
	buf string
}

func (h *gvcHash) Write(p []byte) (int, error) {
	h.buf = h.buf + string(p)
	return len(p), nil
}

func (h *gvcHash) Sum(b []byte) []byte {
	return append(b, gvcApply(h.alg, h.n, h.buf)...)
}

func (h *gvcHash) Reset()         { h.buf = "" }
func (h *gvcHash) Size() int      { return h.n }
func (h *gvcHash) BlockSize() int { return 2 * h.n }

//gvc:model crypto/sha256.New
func gvcSha256New() hash.Hash { return &gvcHash{alg: "sha256", n: 32} }

//gvc:model crypto/sha512.New
func gvcSha512New() hash.Hash { return &gvcHash{alg: "sha512", n: 64} }

//gvc:model crypto/sha256.Sum256
func gvcSum256(data []byte) (ret [32]byte) {
	copy(ret[:], gvcApply("sha256", 32, string(data)))
	return
}

//gvc:model crypto/sha512.Sum512
func gvcSum512(data []byte) (ret [64]byte) {
	copy(ret[:], gvcApply("sha512", 64, string(data)))
	return
}

// A sponge with an output of at most 168 bytes.
type gvcShake struct {
	alg     string
	buf     string
	pos     int
	reading bool
}

func (h *gvcShake) Write(p []byte) (int, error) {
	if h.reading {
		panic("sha3: write to sponge after read")
	}
	h.buf = h.buf + string(p)
	return len(p), nil
}

func (h *gvcShake) Read(out []byte) (int, error) {
	h.reading = true
	s := gvcApply(h.alg, 168, h.buf)
	copy(out, s[h.pos:h.pos+len(out)])
	h.pos += len(out)
	return len(out), nil
}

func (h *gvcShake) Reset() {
	h.buf = ""
	h.pos = 0
	h.reading = false
}

func (h *gvcShake) Clone() sha3.ShakeHash {
	c := *h
	return &c
}

//gvc:model golang.org/x/crypto/sha3.NewShake128
func gvcNewShake128() sha3.ShakeHash { return &gvcShake{alg: "shake128"} }

//gvc:model golang.org/x/crypto/sha3.NewShake256
func gvcNewShake256() sha3.ShakeHash { return &gvcShake{alg: "shake256"} }

// gvcReader is a message: text of any length, or text followed by an error.
type gvcReader struct {
	s    string
	err  error
	done bool
}

// gvcReadError is nil or one of the errors a message may end with.
func gvcReadError() error {
	switch gvcFork("read error", 5) {
	case 1:
		return &gvcErr{"message cannot be read"}
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return io.ErrClosedPipe
	case 4:
		return os.ErrClosed
	}
	return nil
}

func (r *gvcReader) Read(p []byte) (int, error) {
	if !r.done && len(r.s) > 0 {
		r.done = true
		n := copy(p, r.s)
		r.s = r.s[n:]
		if len(r.s) > 0 {
			r.done = false
		}
		return n, nil
	}
	if r.err != nil {
		return 0, r.err
	}
	return 0, io.EOF
}

//gvc:model io.Copy
func gvcIoCopy(dst io.Writer, src io.Reader) (int64, error) {
	if w, ok := src.(io.WriterTo); ok {
		return w.WriteTo(dst)
	}
	r, ok := src.(*gvcReader)
	if !ok {
		panic("io.Copy: unknown reader")
	}
	s := r.s
	r.s = ""
	switch w := dst.(type) {
	case *gvcHash:
		w.buf = w.buf + s
	case *gvcShake:
		if w.reading {
			panic("sha3: write to sponge after read")
		}
		w.buf = w.buf + s
	default:
		panic("io.Copy: unknown writer")
	}
	return int64(len(s)), r.err
}

//gvc:model github.com/templexxx/xorsimd.Bytes
func gvcXorBytes(dst, src0, src1 []byte) int {
	n := len(dst)
	if len(src0) < n {
		n = len(src0)
	}
	if len(src1) < n {
		n = len(src1)
	}
	if n == 0 {
		return 0
	}
	copy(dst, gvcXor(string(src0[:n]), string(src1[:n])))
	return n
}

//gvc:model crypto/subtle.ConstantTimeCompare
func gvcConstantTimeCompare(x, y []byte) int {
	if len(x) != len(y) {
		return 0
	}
	if string(x) == string(y) {
		return 1
	}
	return 0
}

// Base 64: an injective encoding; which of the standard ones it is matters
// only in that decoding has to use the same.

func gvcBase64Name(enc *base64.Encoding) string {
	switch enc {
	case base64.StdEncoding:
		return "base64.Std"
	case base64.URLEncoding:
		return "base64.URL"
	case base64.RawStdEncoding:
		return "base64.RawStd"
	}
	return "base64.other"
}

//gvc:model (*encoding/base64.Encoding).EncodeToString
func gvcBase64Encode(enc *base64.Encoding, src []byte) string {
	if len(src) == 0 {
		return ""
	}
	name := gvcBase64Name(enc)
	n := (len(src) + 2) / 3 * 4
	if name == "base64.RawStd" {
		n = (len(src)*8 + 5) / 6
	}
	return gvcApply(name, n, string(src))
}

func gvcBase64Len(name string, n int) int {
	if name == "base64.RawStd" {
		return (n*8 + 5) / 6
	}
	return (n + 2) / 3 * 4
}

//gvc:model (*encoding/base64.Encoding).EncodedLen
func gvcBase64EncodedLen(enc *base64.Encoding, n int) int {
	return gvcBase64Len(gvcBase64Name(enc), n)
}

//gvc:model (*encoding/base64.Encoding).DecodedLen
func gvcBase64DecodedLen(enc *base64.Encoding, n int) int {
	if gvcBase64Name(enc) == "base64.RawStd" {
		return n * 6 / 8
	}
	return n / 4 * 3
}

//gvc:model (*encoding/base64.Encoding).Encode
func gvcBase64EncodeInto(enc *base64.Encoding, dst, src []byte) {
	copy(dst[:gvcBase64Len(gvcBase64Name(enc), len(src))], gvcBase64Encode(enc, src))
}

//gvc:model (*encoding/base64.Encoding).Decode
func gvcBase64DecodeInto(enc *base64.Encoding, dst, src []byte) (int, error) {
	b, err := gvcBase64Decode(enc, string(src))
	copy(dst[:len(b)], b)
	return len(b), err
}

//gvc:model (*encoding/base64.Encoding).DecodeString
func gvcBase64Decode(enc *base64.Encoding, s string) ([]byte, error) {
	x, ok := gvcUnapply(gvcBase64Name(enc), s)
	if ok {
		return []byte(x), nil
	}
	if len(s) == 0 {
		return nil, nil
	}
	// Every other text counts as undecodable: what is decoded up to the error
	// is returned with it.
	n := gvcRange("decoded.len", 0, 256)
	return gvcBytes("decoded", 256)[:n], &gvcErr{"illegal base64 data"}
}

func gvcBase64Std(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
