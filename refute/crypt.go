package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/box"
)

var sizes = []int{0, 1, 2, 3, 53, 54, 55, 16383, 16384, 16385, 16386, 16400, 16401, 2*16385 - 1, 2 * 16385, 2*16385 + 1, 3 * 16385, 49155 + 7, 5*16385 + 100}

func (t *T) size(round int) int {
	if round < len(sizes) {
		return sizes[round]
	}
	if t.Intn(2) == 0 {
		return sizes[t.Intn(len(sizes))]
	}
	return t.Intn(5 * chunk)
}

func (t *T) boxOf(k *key) *[32]byte {
	var p [32]byte
	curve25519.ScalarBaseMult(&p, k.scalar())
	return &p
}

// ---- P13 ----

func searchP13(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		var pass []byte
		if round%4 == 3 {
			pass = []byte("pw")
		}
		k := t.newKey(pass, 1)
		sec, pub := k.files(t, dir, "k")
		n := t.size(round)
		msg := t.bytes(n)
		if round%5 == 2 {
			msg = make([]byte, n)
		}
		if round == 8 {
			msg = t.bytes(chunk*40 + 11)
		}
		m := t.write(filepath.Join(dir, "m"), msg)
		enc, arg := m+".enc", ""
		if round%2 == 1 {
			enc = filepath.Join(dir, "e")
			arg = enc
		}
		out := filepath.Join(dir, "out")
		if round%3 == 1 {
			t.write(out, t.bytes(n+1000))
			t.write(enc, t.bytes(n+100))
		}
		t.try("message of %d bytes, seed %x, passphrase %q: encrypt, then decrypt", len(msg), k.seed, pass)
		if err := crypto.Seal(pub, m, arg); err != nil {
			if len(msg) >= 0 {
				t.fail("Seal: %v", err)
			}
		}
		answer(pass)
		if err := crypto.Open(sec, enc, out); err != nil {
			t.fail("Open: %v", err)
		}
		if got := t.read(out); !bytes.Equal(got, msg) {
			t.fail("the decrypted message differs: %s", firstDiff(got, msg))
		}
		// the key pair as generated
		if round%6 == 0 {
			base := filepath.Join(dir, "g")
			t.try("generated key, message of %d bytes", len(msg))
			if err := signify.GenerateKey(base, pass, &signify.GenerateOptions{Rounds: 1}); err != nil {
				t.fail("GenerateKey: %v", err)
			}
			if err := crypto.Seal(base+".pub", m, arg); err != nil {
				t.fail("Seal: %v", err)
			}
			answer(pass)
			if err := crypto.Open(base+".sec", enc, out); err != nil {
				t.fail("Open: %v", err)
			}
			if got := t.read(out); !bytes.Equal(got, msg) {
				t.fail("the decrypted message differs: %s", firstDiff(got, msg))
			}
		}
	}
}

// ---- P14 ----

func searchP14(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		k := t.newKey(nil, 0)
		sec, _ := k.files(t, dir, "k")
		sk := k.scalar()
		var esk [32]byte
		copy(esk[:], t.bytes(32))
		encP, out := filepath.Join(dir, "e"), filepath.Join(dir, "out")
		msg := t.bytes([]int{3*chunk + 5, 0, 1, chunk, 2 * chunk, 4*chunk + 300}[round%6])
		open := func(what string, file []byte) {
			t.write(encP, file)
			os.Remove(out)
			body, ok := bodyOf(file)
			var plain []byte
			good := false
			if ok {
				plain, good = openOracle(sk, body)
			}
			t.try("%s; message of %d bytes, seed %x, ephemeral secret %x", what, len(msg), k.seed, esk)
			answer()
			err := crypto.Open(sec, encP, out)
			got, rerr := os.ReadFile(out)
			if err == nil {
				if ok && !good {
					t.fail("Open succeeded")
				}
				if ok && !bytes.Equal(got, plain) {
					t.fail("wrong plaintext: %s", firstDiff(got, plain))
				}
				if !ok && !bytes.HasPrefix(msg, got) {
					t.fail("wrong plaintext from invalid base64")
				}
				return
			}
			if ok && good {
				t.fail("Open failed (%v) on a genuine file", err)
			}
			if rerr == nil && ok && !bytes.HasPrefix(plain, got) {
				t.fail("Open failed (%v) but wrote %d bytes that did not authenticate", err, len(got))
			}
			if rerr == nil && !ok && len(got) > 0 && !bytes.HasPrefix(msg, got) {
				t.fail("Open failed (%v) but wrote %d bytes that did not authenticate", err, len(got))
			}
		}
		s := &sealing{to: t.boxOf(k), esk: &esk, msg: msg}
		head, cs := s.parts()
		pack := func(b []byte) []byte { return append([]byte(encComment), wrap72(b)...) }
		body := join(head, cs)
		open("genuine", pack(body))
		// the header
		for i := 0; i < 72*8; i++ {
			if round > 0 && t.Intn(6) > 0 || round == 0 && i%3 != 0 && i >= 64 {
				continue
			}
			b := append([]byte(nil), body...)
			b[i/8] ^= 1 << uint(i%8)
			open(fmt.Sprintf("bit %d of the header flipped", i), pack(b))
		}
		for _, n := range []int{0, 1, 8, 39, 40, 71, 72} {
			if n <= len(body) {
				open(fmt.Sprintf("body cut to %d bytes", n), pack(body[:n]))
			}
		}
		set := func(c uint64) []byte {
			b := append([]byte(nil), body...)
			binary.BigEndian.PutUint64(b, c)
			return pack(b)
		}
		n := uint64(len(cs))
		for _, c := range []uint64{0, 1, n - 1, n + 1, 2 * n, 1 << 32, 1 << 63, n | 1<<32, n << 8} {
			open(fmt.Sprintf("chunk count %d without a new tag", c), set(c))
		}
		// the chunks
		for i := range cs {
			for _, j := range []int{0, 1, 15, 16, len(cs[i]) / 2, len(cs[i]) - 1, t.Intn(len(cs[i]))} {
				b := append([][]byte(nil), cs...)
				b[i] = append([]byte(nil), cs[i]...)
				b[i][j] ^= 1 << uint(t.Intn(8))
				open(fmt.Sprintf("byte %d of chunk %d changed", j, i), pack(join(head, b)))
			}
			del := append(append([][]byte(nil), cs[:i]...), cs[i+1:]...)
			open(fmt.Sprintf("chunk %d removed", i), pack(join(head, del)))
			open(fmt.Sprintf("chunk %d repeated", i), pack(join(head, append(append(append([][]byte(nil), cs[:i+1]...), cs[i]), cs[i+1:]...))))
			for j := range cs[:i] {
				sw := append([][]byte(nil), cs...)
				sw[i], sw[j] = sw[j], sw[i]
				open(fmt.Sprintf("chunks %d and %d exchanged", i, j), pack(join(head, sw)))
				sw = append([][]byte(nil), cs...)
				sw[i] = sw[j]
				open(fmt.Sprintf("chunk %d replaced by chunk %d", i, j), pack(join(head, sw)))
			}
			// cut within and at the end of the chunk
			at := 72
			for _, c := range cs[:i] {
				at += len(c)
			}
			for _, j := range []int{0, 1, 15, 16, 17, len(cs[i]) - 1} {
				if at+j <= len(body) {
					open(fmt.Sprintf("cut %d bytes into chunk %d", j, i), pack(body[:at+j]))
				}
			}
		}
		open("trailing bytes", pack(append(append([]byte(nil), body...), t.bytes(50)...)))
		// made by a sender who does not follow the format
		for _, v := range []struct {
			what string
			s    sealing
		}{
			{"tag changed", sealing{tag: func(b []byte) { b[t.Intn(32)] ^= 1 << uint(t.Intn(8)) }}},
			{"tag zeroed", sealing{tag: func(b []byte) { copy(b, make([]byte, 32)) }}},
			{"one chunk announced too many", sealing{count: func(n uint64) uint64 { return n + 1 }}},
			{"one chunk announced too few", sealing{count: func(n uint64) uint64 {
				if n == 0 {
					return 0
				}
				return n - 1
			}}},
			{"huge chunk count", sealing{count: func(n uint64) uint64 { return 1<<63 + n }}},
			{"chunk count beyond 32 bits", sealing{count: func(n uint64) uint64 { return 1<<32 + n }}},
			{"all nonces zero", sealing{nonces: func(i uint64) uint64 { return 0 }}},
			{"nonces from one", sealing{nonces: func(i uint64) uint64 { return i + 1 }}},
			{"nonces reversed", sealing{nonces: func(i uint64) uint64 { return n - 1 - i }}},
			{"nonce stuck at one", sealing{nonces: func(i uint64) uint64 {
				if i > 1 {
					return 1
				}
				return i
			}}},
			{"a short chunk in the middle", sealing{sizes: []int{chunk, 100}}},
			{"a short first chunk", sealing{sizes: []int{1}}},
		} {
			s := v.s
			s.to, s.esk, s.msg = t.boxOf(k), &esk, msg
			h, c := s.parts()
			open(v.what, pack(join(h, c)))
		}
		other := t.newKey(nil, 0)
		s2 := &sealing{to: t.boxOf(other), esk: &esk, msg: msg}
		h2, c2 := s2.parts()
		open("sealed for another key", pack(join(h2, c2)))
		open("header of another file", pack(join(h2, cs)))
		open("chunks of another file", pack(join(head, c2)))
		// the text
		text := pack(body)
		open("no comment line", text[len(encComment):])
		open("line breaks removed", append([]byte(encComment), bytes.Replace(wrap72(body), []byte("\n"), nil, -1)...))
		open("CRLF", append([]byte(encComment), bytes.Replace(wrap72(body), []byte("\n"), []byte("\r\n"), -1)...))
		for i := 0; i < 30 && t.more(); i++ {
			b := append([]byte(nil), text...)
			j := len(encComment) + t.Intn(len(b)-len(encComment))
			if i%2 == 0 && len(b) > len(encComment)+200 {
				j = len(encComment) + t.Intn(200)
			}
			switch t.Intn(4) {
			case 0:
				b[j] = "ABCxyz019+/=\n*"[t.Intn(14)]
				open(fmt.Sprintf("character %d changed to %q", j, b[j]), b)
			case 1:
				open(fmt.Sprintf("text cut at %d", j), b[:j])
			case 2:
				open(fmt.Sprintf("character %d removed", j), append(b[:j], b[j+1:]...))
			case 3:
				b = append(b[:j], append([]byte{'A'}, b[j:]...)...)
				open(fmt.Sprintf("character inserted at %d", j), b)
			}
		}
		for _, j := range []int{0, 5, len(encComment)} {
			if j < len(text) {
				open(fmt.Sprintf("text cut at %d", j), text[:j])
			}
		}
	}
}

// ---- P15 and P16 ----

// sealRecorded seals with a recorded random source and gives the file, the
// decoded body and the ephemeral secret.
func (t *T) sealRecorded(pub, m, arg, enc string) (file, body, drawn []byte) {
	var err error
	rec := t.record(-1, func() { err = crypto.Seal(pub, m, arg) })
	if err != nil {
		t.fail("Seal: %v", err)
	}
	file = t.read(enc)
	body, ok := bodyOf(file)
	if !ok || len(body) < 72 {
		t.fail("the encrypted file does not decode")
	}
	return file, body, rec.got
}

func searchP15(t *T) {
	dir := t.fresh()
	k := t.newKey(nil, 0)
	_, pub := k.files(t, dir, "k")
	seen := map[string]bool{}
	for round := 0; t.more(); round++ {
		n := t.size(round)
		if round == 3 {
			n = 258*chunk + 1
		}
		msg := t.bytes(n)
		m := t.write(filepath.Join(dir, "m"), msg)
		t.try("encrypting %d bytes for seed %x", n, k.seed)
		_, body, drawn := t.sealRecorded(pub, m, "", m+".enc")
		epk := string(body[8:40])
		if seen[epk] {
			t.fail("ephemeral key %x used twice", epk)
		}
		seen[epk] = true
		if len(drawn) > 0 {
			if len(drawn) < 32 {
				t.fail("only %d random bytes drawn", len(drawn))
			}
			ok := false
			for i := 0; i+32 <= len(drawn); i++ {
				var sk, p [32]byte
				copy(sk[:], drawn[i:])
				curve25519.ScalarBaseMult(&p, &sk)
				ok = ok || string(p[:]) == epk
			}
			if !ok {
				t.fail("the ephemeral key %x does not come from the random bytes drawn, %x", epk, drawn)
			}
		}
		var e, shared [32]byte
		copy(e[:], epk)
		box.Precompute(&shared, &e, k.scalar())
		b := body[72:]
		for i := uint64(0); len(b) > 0; i++ {
			c := b
			if len(c) > chunk+box.Overhead {
				c = c[:chunk+box.Overhead]
			}
			if _, ok := box.OpenAfterPrecomputation(nil, c, nonce(i), &shared); !ok {
				for j := uint64(0); j < i+300; j++ {
					if _, ok := box.OpenAfterPrecomputation(nil, c, nonce(j), &shared); ok {
						t.fail("chunk %d uses nonce %d", i, j)
					}
				}
				t.fail("chunk %d does not open with nonce %d", i, i)
			}
			b = b[len(c):]
		}
		if round%4 == 0 {
			f := t.Intn(32)
			t.try("random source fails after %d bytes", f)
			os.Remove(m + ".enc")
			var err error
			t.record(f, func() { err = crypto.Seal(pub, m, "") })
			if err == nil {
				t.fail("Seal succeeded")
			}
		}
	}
}

func searchP16(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		k := t.newKey(nil, 0)
		_, pub := k.files(t, dir, "k")
		n := t.size(round)
		msg := t.bytes(n)
		name := []string{"m", "a b.txt", "m.enc"}[round%3]
		m := t.write(filepath.Join(dir, name), msg)
		enc, arg := m+".enc", ""
		if round%2 == 1 {
			enc = filepath.Join(dir, "e")
			arg = enc
		}
		if round%5 == 1 {
			t.write(enc, t.bytes(2*n+1000))
		}
		before := snapshot(dir)
		t.try("encrypting %d bytes for seed %x, message file %q, output path %q", n, k.seed, name, filepath.Base(arg))
		file, body, drawn := t.sealRecorded(pub, m, arg, enc)
		if c := changed(before, snapshot(dir)); len(c) != 1 || c[0] != filepath.Base(enc) {
			t.fail("files changed: %q", c)
		}
		if !bytes.HasPrefix(file, []byte(prefix)) {
			t.fail("the file does not begin with an untrusted comment: %q", file[:40])
		}
		i := bytes.IndexByte(file, '\n')
		if want := wrap72(body); !bytes.Equal(file[i+1:], want) {
			t.fail("not canonical base64 in lines of 72: %s", firstDiff(file[i+1:], want))
		}
		chunks := (n + chunk - 1) / chunk
		if got := binary.BigEndian.Uint64(body); got != uint64(chunks) {
			t.fail("chunk count %d, expected %d", got, chunks)
		}
		if len(body) != 72+n+chunks*box.Overhead {
			t.fail("%d bytes, expected %d", len(body), 72+n+chunks*box.Overhead)
		}
		plain, ok := openOracle(k.scalar(), body)
		if !ok || !bytes.Equal(plain, msg) {
			t.fail("the chunks do not open to the message (opened %v, %d bytes)", ok, len(plain))
		}
		for i := 0; i+32 <= len(drawn); i++ {
			var sk, p [32]byte
			copy(sk[:], drawn[i:])
			curve25519.ScalarBaseMult(&p, &sk)
			if bytes.Equal(p[:], body[8:40]) {
				s := &sealing{to: t.boxOf(k), esk: &sk, msg: msg}
				want := join(s.parts())
				if !bytes.Equal(body, want) {
					t.fail("the body differs from the format: %s", firstDiff(body, want))
				}
			}
		}
	}
}

// ---- P10 ----

type failWriter struct {
	n     int // bytes accepted
	got   []byte
	short bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(w.got)+len(p) > w.n {
		k := w.n - len(w.got)
		w.got = append(w.got, p[:k]...)
		return k, errors.New("writer failed")
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

type failReader struct {
	b   []byte
	err error
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func limit(n uint64) func() {
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max})
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

// lifted runs f with the size of files limited to l bytes, and lifts the limit
// as soon as the file has reached it: a failure that does not last.
func lifted(path string, l int, f func() error) error {
	os.Remove(path)
	undo := limit(uint64(l))
	stop, gone := make(chan bool), make(chan bool)
	go func() {
		defer close(gone)
		defer undo()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if fi, err := os.Stat(path); err == nil && fi.Size() >= int64(l) {
				time.Sleep(100 * time.Microsecond)
				return
			}
		}
	}()
	err := f()
	close(stop)
	<-gone
	return err
}

func searchP10(t *T) {
	signal.Ignore(syscall.SIGXFSZ)
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		k := t.newKey(nil, 0)
		sec, pub := k.files(t, dir, "k")
		n := t.size(t.Intn(40))
		msg := t.bytes(n)
		m := t.write(filepath.Join(dir, "m"), msg)
		full := filepath.Join(dir, "full")
		os.Symlink("/dev/full", full)
		// a full device
		t.try("signature written to a full device")
		if err := signify.Sign(sec, m, full); err == nil {
			t.fail("Sign returned nil")
		}
		t.try("%d bytes encrypted to a full device", n)
		if err := crypto.Seal(pub, m, full); err == nil {
			t.fail("Seal returned nil")
		}
		var esk [32]byte
		copy(esk[:], t.bytes(32))
		s := &sealing{to: t.boxOf(k), esk: &esk, msg: msg}
		body := join(s.parts())
		text := append([]byte(encComment), wrap72(body)...)
		enc := t.write(filepath.Join(dir, "e"), text)
		if n > 0 {
			t.try("%d bytes decrypted to a full device", n)
			if err := crypto.Open(sec, enc, full); err == nil {
				t.fail("Open returned nil")
			}
		}
		for _, suf := range []string{".sec", ".pub"} {
			g := filepath.Join(dir, "g"+suf[1:])
			os.Symlink("/dev/full", g+suf)
			t.try("key generation with %s on a full device", suf)
			if err := signify.GenerateKey(g, nil, nil); err == nil {
				t.fail("GenerateKey returned nil")
			}
		}
		// files that may only grow to a limit
		for i := 0; i < 12; i++ {
			total := len(text)
			l := t.Intn(total + 1)
			switch t.Intn(4) {
			case 0:
				l = total - 1 - t.Intn(6)
			case 1:
				l = t.Intn(len(encComment) + 200)
			}
			if l < 0 || l > total {
				l = 0
			}
			os.Remove(enc + "2")
			t.try("%d bytes encrypted, files limited to %d of %d bytes", n, l, total)
			undo := limit(uint64(l))
			err := crypto.Seal(pub, m, enc+"2")
			undo()
			if fi, serr := os.Stat(enc + "2"); err == nil && (serr != nil || fi.Size() != int64(total)) {
				t.fail("Seal returned nil but the file is incomplete")
			}
			if n > 0 {
				l := t.Intn(n)
				if t.Intn(3) == 0 {
					l = n - 1
				}
				t.try("%d bytes decrypted, files limited to %d bytes", n, l)
				undo := limit(uint64(l))
				err := crypto.Open(sec, enc, m+"2")
				undo()
				if err == nil {
					t.fail("Open returned nil but the file is incomplete")
				}
			}
			l = t.Intn(140)
			t.try("signing, files limited to %d bytes", l)
			undo = limit(uint64(l))
			os.Remove(m + ".sig")
			err = signify.Sign(sec, m, "")
			undo()
			if err == nil && !bytes.Equal(t.read(m+".sig"), dataText("verify with k.pub", k.sig(msg))) {
				t.fail("Sign returned nil but the signature file is incomplete")
			}
			l = t.Intn(190)
			t.try("generating, files limited to %d bytes", l)
			undo = limit(uint64(l))
			err = signify.GenerateKey(filepath.Join(dir, "lim"), nil, nil)
			undo()
			if err == nil {
				d, _, _ := parseFile(t.read(filepath.Join(dir, "lim.pub")))
				if len(d) != 42 || len(t.parseSec(filepath.Join(dir, "lim.sec")).key) != 64 {
					t.fail("GenerateKey returned nil but a file is incomplete")
				}
			}
		}
		// a limit that is lifted once it has been reached
		if round%3 == 0 {
			n := 100*chunk + t.Intn(100*chunk)
			big := t.bytes(n)
			t.write(m+"4", big)
			s := &sealing{to: t.boxOf(k), esk: &esk, msg: big}
			text := append([]byte(encComment), wrap72(join(s.parts()))...)
			t.write(enc+"4", text)
			for i := 0; i < 2; i++ {
				l := t.Intn(len(text) / 2)
				t.try("%d bytes encrypted, files limited to %d bytes until they reach that size", n, l)
				err := lifted(enc+"5", l, func() error { return crypto.Seal(pub, m+"4", enc+"5") })
				if fi, serr := os.Stat(enc + "5"); err == nil && (serr != nil || fi.Size() != int64(len(text))) {
					t.fail("Seal returned nil but the file is incomplete")
				}
				l = t.Intn(n / 2)
				t.try("%d bytes decrypted, files limited to %d bytes until they reach that size", n, l)
				err = lifted(m+"5", l, func() error { return crypto.Open(sec, enc+"4", m+"5") })
				if fi, serr := os.Stat(m + "5"); err == nil && (serr != nil || fi.Size() != int64(n)) {
					t.fail("Open returned nil but the file is incomplete")
				}
			}
		}
		// unreadable inputs
		d := filepath.Join(dir, "dir")
		os.Mkdir(d, 0755)
		t.try("inputs that are directories or missing")
		for _, x := range []string{d, filepath.Join(dir, "none")} {
			if signify.Sign(sec, x, m+"3") == nil || crypto.Seal(pub, x, m+"3") == nil || crypto.Open(sec, x, m+"3") == nil ||
				signify.Sign(x, m, m+"3") == nil || crypto.Seal(x, m, m+"3") == nil || crypto.Open(x, enc, m+"3") == nil {
				t.fail("nil although an input cannot be read")
			}
		}
		for _, x := range []string{d, filepath.Join(dir, "none", "x")} {
			if signify.Sign(sec, m, x) == nil || crypto.Seal(pub, m, x) == nil || crypto.Open(sec, enc, x) == nil || signify.GenerateKey(x+"/y/z", nil, nil) == nil {
				t.fail("nil although an output cannot be written")
			}
		}
		// the encoder and decoder on failing streams
		p := t.bytes(t.Intn(200))
		all := wrap72(p)
		for l := 0; l < len(all); l++ {
			w := &failWriter{n: l}
			e := base64.NewEncoder(w)
			t.try("%d bytes encoded to a writer that fails after %d bytes", len(p), l)
			_, err := e.Write(p)
			if err == nil {
				err = e.Close()
			}
			if err == nil {
				t.fail("no error; written %q of %q", w.got, all)
			}
		}
		for i := 0; i < 20; i++ {
			l := t.Intn(len(all))
			e := errors.New("reader failed")
			if i%3 == 0 {
				e = io.ErrUnexpectedEOF
			}
			t.try("decoder on a reader that fails after %d of %d bytes", l, len(all))
			got, err := io.ReadAll(base64.NewDecoder(&failReader{b: all[:l:l], err: e}))
			if err == nil {
				t.fail("the decoder reports the end of the data after %x", got)
			}
		}
		if os.Getenv("PSIGNIFY") != "" && round == 0 {
			cmdFull(t, dir, sec, pub, m, enc)
		}
	}
}
