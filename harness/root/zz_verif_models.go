// Models of the cryptographic primitives and of randomness, used by the
// symbolic engine only (native runs use the real packages). Assumptions: RSA
// and AES-GCM are ideal (no forgery, no collision of tags); hashes are computed
// for real on concrete input.
package tru

import (
	"crypto"
	"crypto/cipher"
	"crypto/rsa"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/big"
	"strings"

	"github.com/google/uuid"
	"github.com/kirill-scherba/stable"
)

//verif:global crypto/rand.Reader
var vRandReader io.Reader = &vRnd{}

type vRnd struct{ n byte }

func (r *vRnd) Read(b []byte) (int, error) {
	for i := range b {
		r.n += 0x9d
		b[i] = r.n ^ 0x5a
	}
	return len(b), nil
}

var vUUIDn byte

//verif:model github.com/google/uuid.New
func vUUID() (u uuid.UUID) {
	vUUIDn++
	u[0] = 0x5a
	u[15] = vUUIDn
	return
}

// ---- hashes ----

type vHasher struct {
	alg int
	buf []byte
}

func (h *vHasher) Write(b []byte) (int, error) { h.buf = append(h.buf, b...); return len(b), nil }
func (h *vHasher) Sum(b []byte) []byte         { return append(b, vHash(h.alg, h.buf)...) }
func (h *vHasher) Reset()                      { h.buf = nil }
func (h *vHasher) Size() int                   { return [...]int{16, 20, 32, 64}[h.alg] }
func (h *vHasher) BlockSize() int              { return 64 }

//verif:model crypto/md5.New
func vMD5() hash.Hash { return &vHasher{alg: 0} }

//verif:model crypto/sha1.New
func vSHA1() hash.Hash { return &vHasher{alg: 1} }

//verif:model crypto/sha256.New
func vSHA256() hash.Hash { return &vHasher{alg: 2} }

//verif:model crypto/sha512.New
func vSHA512() hash.Hash { return &vHasher{alg: 3} }

//verif:model crypto/md5.Sum
func vMD5Sum(b []byte) (o [16]byte) { copy(o[:], vHash(0, b)); return }

//verif:model crypto/sha1.Sum
func vSHA1Sum(b []byte) (o [20]byte) { copy(o[:], vHash(1, b)); return }

//verif:model crypto/sha256.Sum256
func vSHA256Sum(b []byte) (o [32]byte) { copy(o[:], vHash(2, b)); return }

//verif:model crypto/sha512.Sum512
func vSHA512Sum(b []byte) (o [64]byte) { copy(o[:], vHash(3, b)); return }

// ---- AES-GCM ----

type vBlock struct{ key []byte }

func (b *vBlock) BlockSize() int          { return 16 }
func (b *vBlock) Encrypt(dst, src []byte) { panic("model: raw AES block operation") }
func (b *vBlock) Decrypt(dst, src []byte) { panic("model: raw AES block operation") }

//verif:model crypto/aes.NewCipher
func vNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &vBlock{append([]byte(nil), key...)}, nil
	}
	return nil, errors.New("crypto/aes: invalid key size")
}

//verif:model crypto/cipher.NewGCM
func vNewGCM(b cipher.Block) (cipher.AEAD, error) { return &vAEAD{b.(*vBlock).key}, nil }

type vAEAD struct{ key []byte }

type vSealed struct {
	key, nonce, aad, ct, pt []byte
}

var vSealedTab []vSealed

func (g *vAEAD) NonceSize() int { return 12 }
func (g *vAEAD) Overhead() int  { return 16 }

func (g *vAEAD) Seal(dst, nonce, pt, aad []byte) []byte {
	if len(nonce) != 12 {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	ct := vOpaque(g.key, nonce, pt)
	vSealedTab = append(vSealedTab, vSealed{append([]byte(nil), g.key...), append([]byte(nil), nonce...), append([]byte(nil), aad...), ct, append([]byte(nil), pt...)})
	return append(dst, ct...)
}

func (g *vAEAD) Open(dst, nonce, ct, aad []byte) ([]byte, error) {
	if len(nonce) != 12 {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	if len(ct) >= 16 {
		for i := range vSealedTab {
			s := &vSealedTab[i]
			if len(s.ct) == len(ct) && vSame(s.key, g.key) && vSame(s.nonce, nonce) && vSame(s.aad, aad) && vSame(s.ct, ct) {
				return append(dst, s.pt...), nil
			}
		}
	}
	return nil, errors.New("cipher: message authentication failed")
}

// vOpaque is the ciphertext (with tag) of pt: for short plaintexts a stream
// cipher, for long ones unrelated bytes.
func vOpaque(key, nonce, pt []byte) []byte {
	n := len(pt)
	if n <= 100 {
		ks := vHash(3, append(append([]byte(nil), key...), nonce...))
		ct := make([]byte, n+16)
		for i := 0; i < n; i++ {
			ct[i] = pt[i] ^ ks[i%64] ^ byte(i)
		}
		t := vHash(0, append(append([]byte(nil), nonce...), key...))
		copy(ct[n:], t)
		ct[n] = byte(len(vSealedTab))
		return ct
	}
	return vFreshBytes("gcm", n+16)
}

// ---- RSA ----

var vKeyN int64

//verif:model crypto/rsa.GenerateKey
func vRSAGenerate(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	vKeyN++
	k := &rsa.PrivateKey{}
	k.N = big.NewInt(vKeyN)
	k.E = 65537
	return k, nil
}

func vKeyID(k *rsa.PublicKey) int {
	if k == nil || k.N == nil {
		panic("nil public key")
	}
	return int(k.N.Int64())
}

type vRSARec struct {
	key int
	msg []byte
	ct  []byte
}

var vRSATab []vRSARec

//verif:model crypto/rsa.EncryptOAEP
func vEncryptOAEP(h hash.Hash, r io.Reader, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
	if len(msg) > 128-2*h.Size()-2 {
		return nil, rsa.ErrMessageTooLong
	}
	ct := make([]byte, 128)
	copy(ct, "RSA-OAEP")
	ct[8] = byte(vKeyID(pub))
	ct[9] = byte(len(vRSATab))
	ct[10] = byte(len(vRSATab) >> 8)
	vRSATab = append(vRSATab, vRSARec{vKeyID(pub), append([]byte(nil), msg...), ct})
	return append([]byte(nil), ct...), nil
}

func vRSAOpen(k *rsa.PrivateKey, ct []byte) ([]byte, error) {
	if len(ct) == 128 {
		id := vKeyID(&k.PublicKey)
		for i := range vRSATab {
			if vRSATab[i].key == id && vSame(vRSATab[i].ct, ct) {
				return append([]byte(nil), vRSATab[i].msg...), nil
			}
		}
	}
	return nil, rsa.ErrDecryption
}

//verif:model crypto/rsa.DecryptOAEP
func vDecryptOAEP(h hash.Hash, r io.Reader, priv *rsa.PrivateKey, ct []byte, label []byte) ([]byte, error) {
	return vRSAOpen(priv, ct)
}

//verif:model (*crypto/rsa.PrivateKey).Decrypt
func vPrivDecrypt(priv *rsa.PrivateKey, r io.Reader, ct []byte, opts crypto.DecrypterOpts) ([]byte, error) {
	return vRSAOpen(priv, ct)
}

// ---- key encoding ----

//verif:model crypto/x509.MarshalPKIXPublicKey
func vMarshalPKIX(pub any) ([]byte, error) {
	k, ok := pub.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("x509: unsupported public key type")
	}
	b := make([]byte, 162)
	copy(b, "PKIX-RSA")
	b[8] = byte(vKeyID(k))
	return b, nil
}

//verif:model crypto/x509.ParsePKIXPublicKey
func vParsePKIX(b []byte) (any, error) {
	if len(b) != 162 {
		return nil, errors.New("x509: malformed public key")
	}
	want := make([]byte, 162)
	copy(want, "PKIX-RSA")
	want[8] = b[8]
	if !vSame(want, b) || int64(b[8]) == 0 || int64(b[8]) > vKeyN {
		return nil, errors.New("x509: malformed public key")
	}
	return &rsa.PublicKey{N: big.NewInt(int64(b[8])), E: 65537}, nil
}

// ---- terminal tables (formatting by reflection) ----

// vTableOpts is what the table being made was told.
var vTableOpts struct {
	lines, clean bool
	totals       []int
	formats      []string
}

//verif:model (*github.com/kirill-scherba/stable.Stable).Lines
func vTableLines(t *stable.Stable) *stable.Stable { vTableOpts.lines = true; return t }

//verif:model (*github.com/kirill-scherba/stable.Stable).Aligns
func vTableAligns(t *stable.Stable, aligns ...int) *stable.Stable { return t }

//verif:model (*github.com/kirill-scherba/stable.Stable).Formats
func vTableFormats(t *stable.Stable, formats ...string) *stable.Stable {
	vTableOpts.formats = formats
	return t
}

//verif:model (*github.com/kirill-scherba/stable.Stable).CleanLine
func vTableClean(t *stable.Stable) *stable.Stable { vTableOpts.clean = true; return t }

//verif:model (*github.com/kirill-scherba/stable.Stable).Totals
func vTotals(t *stable.Stable, sptr interface{}, totals ...int) *stable.Stable {
	vTableOpts.totals = totals
	return t
}

// vStructToTable is the table without its columns being aligned.
//
//verif:model (github.com/kirill-scherba/stable.Stable).StructToTable
func vStructToTable(t stable.Stable, in interface{}) string {
	o := vTableOpts
	vTableOpts.lines, vTableOpts.clean, vTableOpts.totals, vTableOpts.formats = false, false, nil, nil
	cs, ok := in.(ChannelsStatistic)
	if !ok {
		vInconclusive("the table of the statistics is not made of a ChannelsStatistic")
	}
	if len(cs) == 0 {
		return ""
	}
	clean := ""
	if o.clean {
		clean = "\033[K"
	}
	field := func(i int, v interface{}) string {
		f := "%v"
		if i < len(o.formats) && o.formats[i] != "" {
			f = o.formats[i]
		}
		return fmt.Sprintf(f, v)
	}
	var lines []string
	line := func() {
		if o.lines {
			lines = append(lines, clean+"┈┈┈")
		}
	}
	row := func(r ChannelStatistic) {
		s := ""
		for i, v := range vTableRow(r) {
			if i > 0 {
				s += "   "
			}
			s += field(i, v)
		}
		lines = append(lines, clean+s)
	}
	line()
	lines = append(lines, clean+"ADDR   SEND   SSEC   RSND   ACK   ACKD   RECV   RSEC   DROP   SQ   RQ   RTA   DELAY   TT")
	line()
	var sum ChannelStatistic
	for _, r := range cs {
		row(r)
		sum.Send += r.Send
		sum.Ssec += r.Ssec
		sum.Rsnd += r.Rsnd
		sum.Ack += r.Ack
		sum.AckD += r.AckD
		sum.Recv += r.Recv
		sum.Rsec += r.Rsec
		sum.Drop += r.Drop
		sum.SQ += r.SQ
		sum.RQ += r.RQ
		sum.RTA += r.RTA
		sum.Delay += r.Delay
		sum.TT += r.TT
	}
	line()
	if len(o.totals) > 0 {
		s := ""
		for i, v := range vTableRow(sum) {
			if i < len(o.totals) && o.totals[i] != 0 {
				s += "   " + field(i, v)
			}
		}
		lines = append(lines, clean+s)
	}
	return strings.Join(lines, "\n")
}

func vTableRow(r ChannelStatistic) []interface{} {
	return []interface{}{r.Addr, r.Send, r.Ssec, r.Rsnd, r.Ack, r.AckD, r.Recv, r.Rsec, r.Drop, r.SQ, r.RQ, r.RTA, r.Delay, r.TT}
}
