package main

import (
	"bytes"
	stded "crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"path/filepath"
	"strings"
	"sync"

	"github.com/dchest/bcrypt_pbkdf"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

const prefix = "untrusted comment: "

// textLines splits like bufio.Scanner; long reports a line beyond its limit.
func textLines(b []byte) (out []string, long bool) {
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		l := b
		if i >= 0 {
			l, b = b[:i], b[i+1:]
		} else {
			b = nil
		}
		if len(l) >= 65000 {
			return out, true
		}
		if n := len(l); n > 0 && l[n-1] == '\r' {
			l = l[:n-1]
		}
		out = append(out, string(l))
	}
	return out, false
}

// parseFile gives the data of a signify file; unsure marks files beyond the
// line limit.
func parseFile(b []byte) (data []byte, ok, unsure bool) {
	ls, long := textLines(b)
	line := ""
	for _, l := range ls {
		line = l
		if !strings.HasPrefix(l, prefix) {
			long = false
			break
		}
	}
	if long {
		return nil, false, true
	}
	d, err := stdb64.StdEncoding.DecodeString(line)
	return d, err == nil, false
}

func dataText(comment string, data []byte) []byte {
	return []byte(prefix + comment + "\n" + stdb64.StdEncoding.EncodeToString(data) + "\n")
}

// key is a key pair with every field known.
type key struct {
	alg, kdf     string
	rounds       uint32
	salt, keynum []byte
	check        []byte
	seed, secret []byte // secret: the unmasked 64 bytes
	pass         []byte
	pub          []byte
}

func (t *T) newKey(pass []byte, rounds uint32) *key {
	k := &key{alg: "Ed", kdf: "BK", salt: t.bytes(16), keynum: t.bytes(8), seed: t.bytes(32), pass: pass}
	if len(pass) > 0 {
		k.rounds = rounds
	}
	k.derive()
	return k
}

func (k *key) derive() {
	p := stded.NewKeyFromSeed(k.seed)
	k.secret = []byte(p)
	k.pub = append([]byte(nil), p[32:]...)
	s := sha512.Sum512(k.secret)
	k.check = append([]byte(nil), s[:8]...)
}

func mask(pass, salt []byte, rounds uint32, b []byte) []byte {
	x, err := bcrypt_pbkdf.Key(pass, salt, int(rounds), 64)
	if err != nil {
		panic(setup{err})
	}
	out := make([]byte, 64)
	for i := range out {
		out[i] = b[i] ^ x[i]
	}
	return out
}

func (k *key) sec() []byte {
	var b bytes.Buffer
	b.WriteString(k.alg)
	b.WriteString(k.kdf)
	binary.Write(&b, binary.BigEndian, k.rounds)
	b.Write(k.salt)
	b.Write(k.check)
	b.Write(k.keynum)
	if k.rounds > 0 && len(k.pass) > 0 {
		b.Write(mask(k.pass, k.salt, k.rounds, k.secret))
	} else {
		b.Write(k.secret)
	}
	return b.Bytes()
}

func (k *key) public() []byte {
	return append(append([]byte(k.alg), k.keynum...), k.pub...)
}

func (k *key) sig(msg []byte) []byte {
	return append(append([]byte(k.alg), k.keynum...), stded.Sign(stded.PrivateKey(k.secret), msg)...)
}

// files writes the pair under dir/name.
func (k *key) files(t *T, dir, name string) (sec, pub string) {
	return t.write(filepath.Join(dir, name+".sec"), dataText("signify private key", k.sec())),
		t.write(filepath.Join(dir, name+".pub"), dataText("signify public key", k.public()))
}

// scalar is the box secret of the key.
func (k *key) scalar() *[32]byte {
	d := sha512.Sum512(k.seed)
	d[0] &= 248
	d[31] &= 127
	d[31] |= 64
	var s [32]byte
	copy(s[:], d[:])
	return &s
}

// goodSig decides verification.
func goodSig(pub, msg, sig []byte) (ok, unsure bool) {
	p, ok1, u1 := parseFile(pub)
	s, ok2, u2 := parseFile(sig)
	if u1 || u2 {
		return false, true
	}
	if !ok1 || !ok2 || len(p) != 42 || len(s) != 74 {
		return false, false
	}
	if string(p[:2]) != "Ed" || string(s[:2]) != "Ed" || !bytes.Equal(p[2:10], s[2:10]) {
		return false, false
	}
	return stded.Verify(stded.PublicKey(p[10:]), msg, s[10:]), false
}

// prompts answers PassphrasePrompt.
type prompts struct {
	answers [][]byte // nil: error
	asked   int
	confirm []bool
	given   [][]byte
}

var errPrompt = errors.New("prompt failed")

func (p *prompts) install() {
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		i := p.asked
		p.asked++
		p.confirm = append(p.confirm, confirm)
		if i >= len(p.answers) || p.answers[i] == nil {
			return nil, errPrompt
		}
		b := append([]byte(nil), p.answers[i]...)
		p.given = append(p.given, b)
		return b, nil
	}
}

func answer(a ...[]byte) *prompts {
	p := &prompts{answers: a}
	p.install()
	return p
}

// recorder replaces the random source.
type recorder struct {
	mu   sync.Mutex
	src  io.Reader
	got  []byte
	fail int // fail after this many bytes; <0 never
	n    int
}

func (r *recorder) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail >= 0 && len(r.got)+len(p) > r.fail {
		return 0, errors.New("random source failed")
	}
	r.n++
	n, err := r.src.Read(p)
	r.got = append(r.got, p[:n]...)
	return n, err
}

func (t *T) record(fail int, f func()) *recorder {
	old := crand.Reader
	r := &recorder{src: t.Rand, fail: fail}
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
	return r
}

var (
	prime  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edD, _ = new(big.Int).SetString("37095705934669439343138083508754565189542113879843219016388785533085940283555", 10)
)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func le32(x *big.Int) []byte {
	b := x.Bytes()
	r := make([]byte, 32)
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// toMontgomery converts the encoding of a point; ok tells whether it is one.
func toMontgomery(b []byte) (u []byte, ok bool) {
	c := append([]byte(nil), b...)
	c[31] &= 127
	y := new(big.Int).Mod(le(c), prime)
	one := big.NewInt(1)
	yy := new(big.Int).Mul(y, y)
	num := new(big.Int).Sub(yy, one)
	den := new(big.Int).Add(new(big.Int).Mul(edD, yy), one)
	xx := new(big.Int).Mul(num, new(big.Int).ModInverse(den.Mod(den, prime), prime))
	xx.Mod(xx, prime)
	if big.Jacobi(xx, prime) < 0 {
		return nil, false
	}
	n := new(big.Int).Add(one, y)
	d := new(big.Int).Sub(one, y)
	d.Mod(d, prime)
	inv := new(big.Int).Exp(d, new(big.Int).Sub(prime, big.NewInt(2)), prime)
	return le32(n.Mul(n, inv).Mod(n, prime)), true
}

// ---- encrypted files ----

const chunk = 16385

func nonce(i uint64) *[24]byte {
	var n [24]byte
	binary.BigEndian.PutUint64(n[16:], i)
	return &n
}

func wrap72(b []byte) []byte {
	var out bytes.Buffer
	for len(b) >= 54 {
		out.WriteString(stdb64.StdEncoding.EncodeToString(b[:54]))
		out.WriteByte('\n')
		b = b[54:]
	}
	out.WriteString(stdb64.StdEncoding.EncodeToString(b))
	out.WriteByte('\n')
	return out.Bytes()
}

const encComment = "untrusted comment: psignify encrypted file\n"

// sealing describes an encrypted file; the zero hooks give the genuine one.
type sealing struct {
	to     *[32]byte // box public key of the recipient
	esk    *[32]byte
	msg    []byte
	count  func(n uint64) uint64
	nonces func(i uint64) uint64
	sizes  []int
	tag    func(b []byte)
}

func (s *sealing) chunks() [][]byte {
	var out [][]byte
	m := s.msg
	for i := 0; len(m) > 0; i++ {
		n := chunk
		if i < len(s.sizes) {
			n = s.sizes[i]
		}
		if n > len(m) {
			n = len(m)
		}
		out = append(out, m[:n])
		m = m[n:]
	}
	return out
}

// parts gives the header and the sealed chunks.
func (s *sealing) parts() (head []byte, cs [][]byte) {
	var shared, epk [32]byte
	box.Precompute(&shared, s.to, s.esk)
	curve25519.ScalarBaseMult(&epk, s.esk)
	ch := s.chunks()
	n := uint64(len(ch))
	if s.count != nil {
		n = s.count(n)
	}
	head = make([]byte, 40)
	binary.BigEndian.PutUint64(head, n)
	copy(head[8:], epk[:])
	tag := auth.Sum(head, &shared)
	if s.tag != nil {
		s.tag(tag[:])
	}
	head = append(head, tag[:]...)
	for i, c := range ch {
		k := uint64(i)
		if s.nonces != nil {
			k = s.nonces(k)
		}
		cs = append(cs, box.SealAfterPrecomputation(nil, c, nonce(k), &shared))
	}
	return
}

func join(head []byte, cs [][]byte) []byte {
	out := append([]byte(nil), head...)
	for _, c := range cs {
		out = append(out, c...)
	}
	return out
}

// openOracle opens the decoded body of an encrypted file: plain is what may be
// written at most.
func openOracle(sk *[32]byte, body []byte) (plain []byte, ok bool) {
	if len(body) < 72 {
		return nil, false
	}
	var epk, shared [32]byte
	copy(epk[:], body[8:40])
	box.Precompute(&shared, &epk, sk)
	if !auth.Verify(body[40:72], body[:40], &shared) {
		return nil, false
	}
	n := binary.BigEndian.Uint64(body)
	b := body[72:]
	for i := uint64(0); i < n; i++ {
		m := chunk + box.Overhead
		if m > len(b) {
			m = len(b)
		}
		out, good := box.OpenAfterPrecomputation(nil, b[:m], nonce(i), &shared)
		if !good || m == 0 {
			return plain, false
		}
		plain = append(plain, out...)
		b = b[m:]
	}
	return plain, true
}

// bodyOf decodes the text after the comment line, ignoring line breaks.
func bodyOf(file []byte) (body []byte, ok bool) {
	i := bytes.IndexByte(file, '\n')
	if i < 0 {
		return nil, false
	}
	d, err := stdb64.StdEncoding.DecodeString(string(file[i+1:]))
	return d, err == nil
}
