package main

import (
	"bytes"
	stded "crypto/ed25519"
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/curve25519"
)

// ---- P01 ----

func searchP01(t *T) {
	dir := t.fresh()
	pubP, msgP, sigP := filepath.Join(dir, "k.pub"), filepath.Join(dir, "m"), filepath.Join(dir, "s")
	check := func(what string, pub, msg, sig []byte) {
		want, unsure := goodSig(pub, msg, sig)
		if unsure {
			return
		}
		t.write(pubP, pub)
		t.write(msgP, msg)
		t.write(sigP, sig)
		t.try("%s\npublic key file %q\nmessage %s\nsignature file %q", what, pub, hex(msg), sig)
		err := signify.Verify(pubP, msgP, sigP)
		if (err == nil) != want {
			t.fail("Verify returned %v; the signature is genuine: %v", err, want)
		}
	}
	for round := 0; t.more(); round++ {
		k := t.newKey(nil, 0)
		msg := t.bytes(t.Intn(100))
		if round%7 == 3 {
			msg = t.bytes(40000)
		}
		if round%7 == 4 {
			msg = append(bytes.Repeat([]byte{'a'}, t.Intn(5)), "\r\n \t\x00\n"...)
		}
		pub, sig := k.public(), k.sig(msg)
		pt := func(b []byte) []byte { return dataText("signify public key", b) }
		st := func(b []byte) []byte { return dataText("verify with k.pub", b) }
		check("genuine", pt(pub), msg, st(sig))
		// default path
		t.write(pubP, pt(pub))
		t.write(msgP, msg)
		t.write(msgP+".sig", st(sig))
		t.try("no signature path; message %s", hex(msg))
		if err := signify.Verify(pubP, msgP, ""); err != nil {
			t.fail("Verify returned %v for a genuine signature at the default path", err)
		}
		t.write(msgP+".sig", st(k.sig([]byte("other message"))))
		if err := signify.Verify(pubP, msgP, ""); err == nil {
			t.fail("Verify accepted the signature of another message at the default path")
		}
		os.Remove(msgP + ".sig")
		for i, n := range []string{pubP, msgP, sigP} {
			a := []string{pubP, msgP, sigP}
			t.write(sigP, st(sig))
			a[i] = n + "-missing"
			t.try("missing file %s", filepath.Base(a[i]))
			if err := signify.Verify(a[0], a[1], a[2]); err == nil {
				t.fail("Verify accepted although a file is missing")
			}
		}
		// the algorithms and the key number
		for _, alg := range []string{"ED", "ed", "Es", "E\x00", "dE", "\x00\x00", "EE"} {
			p2, s2 := append([]byte(alg), pub[2:]...), append([]byte(alg), sig[2:]...)
			check("public key algorithm "+alg, pt(p2), msg, st(sig))
			check("signature algorithm "+alg, pt(pub), msg, st(s2))
			check("both algorithms "+alg, pt(p2), msg, st(s2))
		}
		for i := 0; i < 42*8; i++ {
			if round > 0 && i >= 80 && t.Intn(8) > 0 {
				continue
			}
			p2 := append([]byte(nil), pub...)
			p2[i/8] ^= 1 << uint(i%8)
			check(fmt.Sprintf("bit %d of the public key flipped", i), pt(p2), msg, st(sig))
		}
		for i := 0; i < 74*8; i++ {
			if round > 0 && i >= 80 && t.Intn(8) > 0 {
				continue
			}
			s2 := append([]byte(nil), sig...)
			s2[i/8] ^= 1 << uint(i%8)
			check(fmt.Sprintf("bit %d of the signature flipped", i), pt(pub), msg, st(s2))
		}
		for i := 0; i < 20 && len(msg) > 0; i++ {
			m2 := append([]byte(nil), msg...)
			m2[t.Intn(len(m2))] ^= 1 << uint(t.Intn(8))
			check("message bit flipped", pt(pub), m2, st(sig))
		}
		for _, m2 := range [][]byte{append(append([]byte(nil), msg...), 0), append(append([]byte(nil), msg...), '\n'), append([]byte{' '}, msg...), nil} {
			check("other message", pt(pub), m2, st(sig))
			check("its own signature", pt(pub), m2, st(k.sig(m2)))
		}
		if len(msg) > 0 {
			check("message shortened", pt(pub), msg[:len(msg)-1], st(sig))
		}
		for n := 0; n < 80; n++ {
			b := append(append([]byte(nil), sig...), t.bytes(20)...)
			check(fmt.Sprintf("signature data of %d bytes", n), pt(pub), msg, st(b[:n]))
			b = append(append([]byte(nil), pub...), t.bytes(60)...)
			check(fmt.Sprintf("public key data of %d bytes", n), pt(b[:n]), msg, st(sig))
		}
		for i := 0; i < 40; i++ {
			check("damaged public key file", t.damage(pt(pub)), msg, st(sig))
			check("damaged signature file", pt(pub), msg, t.damage(st(sig)))
		}
		// the group order added to S
		s2 := append([]byte(nil), sig...)
		carry := 0
		for i, l := range []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10} {
			v := int(s2[42+i]) + int(l) + carry
			s2[42+i], carry = byte(v), v>>8
		}
		check("S increased by the group order", pt(pub), msg, st(s2))
		k2 := t.newKey(nil, 0)
		check("another key", pt(k2.public()), msg, st(sig))
		k2.keynum = k.keynum
		check("another key with the same number", pt(k2.public()), msg, st(sig))
		check("signature for another message", pt(pub), msg, st(k.sig(append(msg, 1))))
	}
}

// damage edits a text file.
func (t *T) damage(b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + t.Intn(2); n > 0; n-- {
		i := t.Intn(len(b) + 1)
		switch t.Intn(12) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b, t.bytes(1+t.Intn(4))...)
		case 2:
			if i < len(b) {
				b[i] ^= 1 << uint(t.Intn(8))
			}
		case 3:
			b = append(append(append([]byte(nil), b[:i]...), []byte("\n\r =-_A")[t.Intn(7)]), b[i:]...)
		case 4:
			b = bytes.Replace(b, []byte("\n"), []byte("\r\n"), -1)
		case 5:
			b = append([]byte(prefix+"again\n"), b...)
		case 6:
			b = append([]byte("\n"), b...)
		case 7:
			b = bytes.TrimRight(b, "\n")
		case 8:
			b = append([]byte("comment: "), b...)
		case 9:
			if j := bytes.IndexByte(b, '\n'); j >= 0 {
				b = b[j+1:]
			}
		case 10:
			b = append(b, b...)
		case 11:
			b = append(b, []byte(prefix+"trailer\nAAAA\n")...)
		}
	}
	return b
}

// ---- P02 ----

func searchP02(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		var pass []byte
		if round%3 == 1 {
			pass = []byte("correct horse")[:1+t.Intn(12)]
		}
		k := t.newKey(pass, 1+uint32(t.Intn(2)))
		name := []string{"key", "k.sec", "a b", "x.sec.sec", "new\nline", "é", "untrusted comment: ", ".sec", "a.pub", "%s%d", "cr\rx", "tab\t"}[(round+t.Intn(2))%12]
		sec, pub := k.files(t, dir, name)
		if round%5 == 4 {
			s2 := filepath.Join(dir, "nosuffix")
			os.Rename(sec, s2)
			sec = s2
		}
		msg := t.bytes([]int{0, 1, 13, 64, 1000, 70000}[round%6])
		msgP := t.write(filepath.Join(dir, "msg"), msg)
		sigP, arg := msgP+".sig", ""
		if round%2 == 1 {
			sigP = filepath.Join(dir, "out")
			arg = sigP
		}
		if round%4 == 2 {
			t.write(sigP, t.bytes(5000))
		}
		before := snapshot(dir)
		p := answer(pass)
		t.try("Sign with secret key file %q (passphrase %q), message %s, signature path %q", filepath.Base(sec), pass, hex(msg), filepath.Base(arg))
		if err := signify.Sign(sec, msgP, arg); err != nil {
			t.fail("Sign failed: %v", err)
		}
		if len(pass) == 0 && p.asked != 0 {
			t.fail("asked for a passphrase of an unprotected key")
		}
		if c := changed(before, snapshot(dir)); len(c) != 1 || c[0] != filepath.Base(sigP) {
			t.fail("files changed: %q", c)
		}
		got := t.read(sigP)
		base := filepath.Base(strings.TrimSuffix(sec, ".sec") + ".pub")
		want := dataText("verify with "+strings.Replace(base, "\n", " ", -1), k.sig(msg))
		if !bytes.Equal(got, want) {
			t.fail("signature file %q, expected %q", got, want)
		}
		if err := signify.Verify(pub, msgP, arg); err != nil {
			t.fail("the signature does not verify: %v", err)
		}
		if len(pass) > 0 {
			os.Remove(sigP)
			answer(nil)
			if err := signify.Sign(sec, msgP, arg); err == nil {
				t.fail("Sign succeeded although the prompt failed")
			}
		}
		// an unusable key
		bad := *k
		bad.alg = []string{"ed", "XX", "E\x00"}[t.Intn(3)]
		os.Remove(sigP)
		bs := t.write(filepath.Join(dir, "bad.sec"), dataText("signify private key", bad.sec()))
		answer(pass)
		t.try("Sign with a secret key of algorithm %q", bad.alg)
		if err := signify.Sign(bs, msgP, arg); err == nil {
			t.fail("Sign succeeded")
		}
	}
}

// ---- P03 ----

func searchP03(t *T) {
	dir := t.fresh()
	p := filepath.Join(dir, "f")
	k := t.newKey(nil, 0)
	good := t.newKey(nil, 0)
	_, goodPub := good.files(t, dir, "good")
	msg := t.write(filepath.Join(dir, "msg"), []byte("hello"))
	check := func(b []byte) {
		t.write(p, b)
		d, ok, unsure := parseFile(b)
		t.try("file %q", b)
		_, err := signify.LoadPublicKey(p)
		if w := ok && len(d) == 42; !unsure && (err == nil) != w {
			t.fail("LoadPublicKey returned %v; the file is well formed: %v", err, w)
		}
		_, err = signify.LoadPrivateKey(p)
		if w := ok && len(d) == 104; !unsure && (err == nil) != w {
			t.fail("LoadPrivateKey returned %v; the file is well formed: %v", err, w)
		}
		err = signify.Verify(goodPub, msg, p)
		if w, _ := goodSig(dataText("", good.public()), []byte("hello"), b); !unsure && (err == nil) != w {
			t.fail("Verify returned %v; the file is a genuine signature: %v", err, w)
		}
	}
	check(nil)
	check([]byte("\n"))
	for _, d := range [][]byte{k.public(), k.sec(), good.sig([]byte("hello"))} {
		for n := 0; n < 130; n++ {
			b := append(append([]byte(nil), d...), t.bytes(130)...)[:n]
			check(dataText("x", b))
			check([]byte(stdb64.StdEncoding.EncodeToString(b)))
		}
		check(dataText("x", d))
		check([]byte(prefix))
		check([]byte(prefix + "\n"))
		check([]byte(strings.Repeat(prefix+"a\n", 5) + stdb64.StdEncoding.EncodeToString(d)))
		check([]byte("untrusted comment:x\n" + stdb64.StdEncoding.EncodeToString(d) + "\n"))
		check([]byte(prefix + "a\n\n" + stdb64.StdEncoding.EncodeToString(d) + "\n"))
		check([]byte(stdb64.StdEncoding.EncodeToString(d) + "\n" + prefix + "\n"))
		check([]byte(prefix + "x\n" + stdb64.URLEncoding.EncodeToString(d) + "\n"))
		check([]byte(prefix + "x\n" + stdb64.RawStdEncoding.EncodeToString(d) + "\n"))
	}
	all := [][]byte{dataText("k", k.public()), dataText("k", k.sec()), dataText("k", good.sig([]byte("hello"))), nil, []byte("\xff\x00")}
	for t.more() {
		switch t.Intn(4) {
		case 0:
			check(t.bytes(t.Intn(200)))
		default:
			check(t.damage(all[t.Intn(3)]))
		}
	}
}

// ---- P04 ----

// secret is a parsed secret key file.
type secret struct {
	alg, kdf, salt, check, num, key []byte
	rounds                          uint32
}

func (t *T) parseSec(path string) *secret {
	d, ok, _ := parseFile(t.read(path))
	if !ok || len(d) != 104 {
		t.fail("%s does not hold a secret key: %d bytes", filepath.Base(path), len(d))
	}
	return &secret{d[:2], d[2:4], d[8:24], d[24:32], d[32:40], d[40:104], binary.BigEndian.Uint32(d[4:8])}
}

func searchP04(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		base := filepath.Join(dir, "key")
		var pass []byte
		var opts *signify.GenerateOptions
		rounds := uint32(0)
		switch round % 5 {
		case 1:
			pass, rounds, opts = []byte("pw"), 1, &signify.GenerateOptions{Rounds: 1}
		case 2:
			pass, rounds, opts = []byte("pw"), 258, &signify.GenerateOptions{Rounds: 258}
		case 3:
			opts = &signify.GenerateOptions{Rounds: 7}
		}
		t.try("GenerateKey with passphrase %q, rounds %d", pass, rounds)
		if err := signify.GenerateKey(base, pass, opts); err != nil {
			t.fail("GenerateKey: %v", err)
		}
		s := t.parseSec(base + ".sec")
		d, ok, _ := parseFile(t.read(base + ".pub"))
		if !ok || len(d) != 42 {
			t.fail("the public key file holds %d bytes", len(d))
		}
		if want := dataText("signify public key", d); !bytes.Equal(t.read(base+".pub"), want) {
			t.fail("public key file %q, expected %q", t.read(base+".pub"), want)
		}
		raw, _, _ := parseFile(t.read(base + ".sec"))
		if want := dataText("signify private key", raw); !bytes.Equal(t.read(base+".sec"), want) {
			t.fail("secret key file %q, expected %q", t.read(base+".sec"), want)
		}
		if string(s.alg) != "Ed" || string(s.kdf) != "BK" || s.rounds != rounds || string(d[:2]) != "Ed" || !bytes.Equal(s.num, d[2:10]) {
			t.fail("fields: secret alg %q kdf %q rounds %d number %x; public alg %q number %x", s.alg, s.kdf, s.rounds, s.num, d[:2], d[2:10])
		}
		plain := s.key
		if rounds > 0 {
			plain = mask(pass, s.salt, rounds, s.key)
		}
		sum := sha512.Sum512(plain)
		if !bytes.Equal(s.check, sum[:8]) || !bytes.Equal(plain[32:], d[10:]) {
			t.fail("checksum %x, expected %x; public key %x, expected %x", s.check, sum[:8], d[10:], plain[32:])
		}
		// reading back foreign files
		k := t.newKey(pass, 1+uint32(round%3))
		sec, pub := k.files(t, dir, "foreign")
		msg := t.bytes(t.Intn(50))
		mp := t.write(filepath.Join(dir, "m"), msg)
		answer(pass)
		t.try("Sign and Verify with key number %x, seed %x, passphrase %q", k.keynum, k.seed, pass)
		if err := signify.Sign(sec, mp, ""); err != nil {
			t.fail("Sign: %v", err)
		}
		sd, ok, _ := parseFile(t.read(mp + ".sig"))
		if !ok || !bytes.Equal(sd, k.sig(msg)) {
			t.fail("signature data %x, expected %x", sd, k.sig(msg))
		}
		if err := signify.Verify(pub, mp, ""); err != nil {
			t.fail("Verify: %v", err)
		}
		p, err := signify.LoadPrivateKey(sec)
		if err != nil || p.IsEncrypted() != (len(pass) > 0) {
			t.fail("LoadPrivateKey: %v, protected %v", err, p != nil && p.IsEncrypted())
		}
		if (p.Check() == nil) != (len(pass) == 0) {
			t.fail("Check after loading: %v", p.Check())
		}
	}
}

// ---- P05 ----

func searchP05(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		msg := t.write(filepath.Join(dir, "m"), t.bytes(20))
		var pass []byte
		if round%2 == 1 {
			pass = []byte("secret")
		}
		for i := 0; i < 40 && t.more(); i++ {
			k := t.newKey(pass, 1)
			d := k.sec()
			what := ""
			right := pass
			if round%2 == 0 && i%4 == 3 {
				right = []byte("x")
			}
			switch {
			case len(pass) > 0 && i%3 == 0:
				right = [][]byte{[]byte("Secret"), []byte("secre"), []byte("secret\n"), []byte("secret\x00"), {}}[i/3%5]
				what = "wrong passphrase"
			case i%3 == 1:
				j := t.Intn(64)
				d[24+j/8] ^= 1 << uint(j%8)
				what = fmt.Sprintf("checksum bit %d flipped", j)
				if i%2 == 0 {
					copy(d[24:32], make([]byte, 8))
					what = "checksum zeroed"
				}
			default:
				j := t.Intn(512)
				d[40+j/8] ^= 1 << uint(j%8)
				what = fmt.Sprintf("key bit %d flipped", j)
			}
			sec := t.write(filepath.Join(dir, "k.sec"), dataText("x", d))
			t.try("%s; secret key %x, passphrase %q", what, d, right)
			before := snapshot(dir)
			answer(right)
			if err := signify.Sign(sec, msg, ""); err == nil {
				t.fail("Sign succeeded")
			}
			if c := changed(before, snapshot(dir)); len(c) > 0 {
				t.fail("Sign failed but changed %q", c)
			}
			p, err := signify.LoadPrivateKey(sec)
			if err != nil {
				t.fail("LoadPrivateKey: %v", err)
			}
			answer(right, right)
			for n := 0; n < 2; n++ {
				if b, err := p.ToBox(); err == nil || b != nil {
					t.fail("ToBox returned a key %x, error %v (attempt %d)", b, err, n+1)
				}
			}
		}
	}
}

// ---- P06 ----

func searchP06(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		base := filepath.Join(dir, "key")
		pass := []byte("p")
		switch round % 6 {
		case 1:
			pass = t.bytes(100)
		case 2:
			pass = []byte{0}
		case 3:
			pass = nil
		case 4:
			pass = []byte{}
		case 5:
			pass = t.bytes(1 + t.Intn(30))
		}
		opts := &signify.GenerateOptions{Rounds: 1 + t.Intn(4)}
		if round%11 == 0 {
			opts = nil
		}
		want := uint32(42)
		if opts != nil {
			want = uint32(opts.Rounds)
		}
		given := append([]byte(nil), pass...)
		t.try("GenerateKey with passphrase %x, options %v", pass, opts)
		if err := signify.GenerateKey(base, given, opts); err != nil {
			t.fail("GenerateKey: %v", err)
		}
		s := t.parseSec(base + ".sec")
		plain := s.key
		if len(pass) == 0 {
			want = 0
		}
		if s.rounds != want {
			t.fail("stored rounds %d, expected %d", s.rounds, want)
		}
		if want > 0 {
			plain = mask(pass, s.salt, want, s.key)
			for i := 0; i < 64; i++ {
				if i+8 <= 64 && bytes.Equal(plain[i:i+8], s.key[i:i+8]) {
					t.fail("key bytes %d to %d are stored unmasked", i, i+7)
				}
			}
		}
		sum := sha512.Sum512(plain)
		if !bytes.Equal(sum[:8], s.check) {
			t.fail("checksum %x, expected %x over the unmasked key", s.check, sum[:8])
		}
		if p := stded.NewKeyFromSeed(plain[:32]); !bytes.Equal(p, plain) {
			t.fail("the unmasked key is not an Ed25519 key: %x", plain)
		}
		k := &key{seed: plain[:32]}
		p, err := signify.LoadPrivateKey(base + ".sec")
		if err != nil {
			t.fail("LoadPrivateKey: %v", err)
		}
		answer(pass)
		b, err := p.ToBox()
		if err != nil || *b != *k.scalar() {
			t.fail("unlocking: %v, key %x, expected %x", err, b, *k.scalar())
		}
		msg := t.write(filepath.Join(dir, "m"), []byte("m"))
		answer(pass)
		if err := signify.Sign(base+".sec", msg, ""); err != nil {
			t.fail("Sign: %v", err)
		}
		if err := signify.Verify(base+".pub", msg, ""); err != nil {
			t.fail("Verify: %v", err)
		}
		// another KDF
		if want > 0 {
			d, _, _ := parseFile(t.read(base + ".sec"))
			copy(d[2:4], []string{"XX", "bk", "B\x00", "BX"}[t.Intn(4)])
			t.write(base+".sec", dataText("x", d))
			t.try("KDF %q, right passphrase", d[2:4])
			answer(pass)
			if err := signify.Sign(base+".sec", msg, ""); err == nil {
				t.fail("Sign accepted the key")
			}
		}
		for _, r := range []int{0, -1, -42, 1 << 32} {
			t.try("GenerateKeypair with rounds %d", r)
			if r > 1<<31 && round > 0 {
				continue
			}
			if _, _, err := signify.GenerateKeypair([]byte("p"), &signify.GenerateOptions{Rounds: r}); err == nil {
				t.fail("GenerateKeypair accepted the rounds")
			}
		}
	}
}

// ---- P07 ----

func searchP07(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		pass := []byte(fmt.Sprintf("pass-%d", t.Intn(1000)))
		k := t.newKey(pass, 1)
		kdf := round%7 == 6
		if kdf {
			k.kdf = "XX"
		}
		sec, _ := k.files(t, dir, "k")
		p, err := signify.LoadPrivateKey(sec)
		if err != nil {
			t.fail("LoadPrivateKey: %v", err)
		}
		orig := *p
		hist := ""
		for n := t.Intn(4); n > 0 || kdf && hist == ""; n-- {
			var a []byte
			switch t.Intn(4) {
			case 0:
				hist += "prompt failure, "
			case 1:
				a = []byte{}
				hist += "empty passphrase, "
			case 2:
				a = append([]byte("x"), pass...)
				hist += "wrong passphrase, "
			case 3:
				a = pass[:len(pass)-1]
				hist += "shortened passphrase, "
			}
			if kdf {
				a = pass
				hist = "unsupported KDF"
			}
			t.try("seed %x, passphrase %q, attempts: %s", k.seed, pass, hist)
			answer(a)
			if _, err := p.ToBox(); err == nil {
				t.fail("the last attempt succeeded")
			}
			if *p != orig {
				t.fail("the key changed")
			}
		}
		if kdf {
			continue
		}
		t.try("seed %x, passphrase %q, attempts: %sthen the right passphrase", k.seed, pass, hist)
		answer(pass)
		b, err := p.ToBox()
		if err != nil || *b != *k.scalar() {
			t.fail("the last attempt gave %v, key %x", err, b)
		}
		// an unprotected key with a bad checksum
		u := t.newKey(nil, 0)
		u.check[t.Intn(8)] ^= 1
		sec, _ = u.files(t, dir, "u")
		p, err = signify.LoadPrivateKey(sec)
		if err != nil {
			t.fail("LoadPrivateKey: %v", err)
		}
		orig = *p
		t.try("unprotected key with a wrong checksum, seed %x", u.seed)
		answer([]byte("x"))
		if _, err := p.ToBox(); err == nil || *p != orig {
			t.fail("ToBox: %v; key changed: %v", err, *p != orig)
		}
	}
}

// ---- P08 ----

func searchP08(t *T) {
	or, and := make([]byte, 56), bytes.Repeat([]byte{255}, 56)
	samples := 0
	for round := 0; t.more() || samples < 80; round++ {
		dir := t.fresh()
		base := filepath.Join(dir, "key")
		var pass []byte
		opts := &signify.GenerateOptions{Rounds: 1}
		if round%4 == 1 {
			pass = []byte("pw")
		}
		if round%6 == 5 {
			n := t.Intn(32)
			t.try("random source fails after %d bytes", n)
			var err error
			t.record(n, func() { err = signify.GenerateKey(base, pass, opts) })
			if err == nil {
				t.fail("GenerateKey succeeded")
			}
			if c := snapshot(dir); len(c) > 0 {
				t.fail("GenerateKey failed but wrote files")
			}
			continue
		}
		t.try("GenerateKey with passphrase %q", pass)
		var err error
		rec := t.record(-1, func() { err = signify.GenerateKey(base, pass, opts) })
		if err != nil {
			t.fail("GenerateKey: %v", err)
		}
		s := t.parseSec(base + ".sec")
		d, ok, _ := parseFile(t.read(base + ".pub"))
		plain := s.key
		if s.rounds > 0 && len(pass) > 0 {
			plain = mask(pass, s.salt, s.rounds, s.key)
		}
		if !ok || len(d) != 42 || !bytes.Equal(d[2:10], s.num) || string(d[:2]) != "Ed" || string(s.alg) != "Ed" {
			t.fail("the public key does not match: %x, secret number %x", d, s.num)
		}
		if p := stded.NewKeyFromSeed(plain[:32]); !bytes.Equal(p[32:], d[10:]) || !bytes.Equal(p, plain) {
			t.fail("public key %x, expected %x", d[10:], p[32:])
		}
		all := append(append(append([]byte(nil), plain[:32]...), s.salt...), s.num...)
		seed, salt, num := bytes.Index(rec.got, all[:32]), bytes.Index(rec.got, all[32:48]), bytes.Index(rec.got, all[48:])
		if len(rec.got) > 0 {
			if seed < 0 || salt < 0 || num < 0 {
				t.fail("drawn %x; seed %x found at %d, salt %x at %d, key number %x at %d", rec.got, all[:32], seed, all[32:48], salt, all[48:], num)
			}
			over := func(a, n, b, m int) bool { return a < b+m && b < a+n }
			if over(seed, 32, salt, 16) || over(seed, 32, num, 8) || over(salt, 16, num, 8) {
				t.fail("drawn %x; seed at %d, salt at %d, key number at %d overlap", rec.got, seed, salt, num)
			}
		}
		for i := range all {
			or[i] |= all[i]
			and[i] &= all[i]
		}
		samples++
		if samples == 60 {
			for i := range or {
				if or[i] != 255 || and[i] != 0 {
					t.fail("in 60 keys, byte %d of seed, salt and key number kept bits (or %02x, and %02x)", i, or[i], and[i])
				}
			}
		}
	}
}

// ---- P09 ----

func searchP09(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		name := []string{"key", "k.sec", "k.pub", "a b", ".x", "k.", "d/k"}[round%7]
		os.Mkdir(filepath.Join(dir, "d"), 0755)
		base := filepath.Join(dir, name)
		var pass []byte
		if round%2 == 1 {
			pass = []byte("pw")
		}
		t.try("GenerateKey %q with passphrase %q, umask 0", name, pass)
		if err := signify.GenerateKey(base, pass, &signify.GenerateOptions{Rounds: 1}); err != nil {
			t.fail("GenerateKey: %v", err)
		}
		c := snapshot(dir)
		if len(c) != 2 || c[name+".sec"] == "" || c[name+".pub"] == "" {
			t.fail("files: %v", changed(nil, c))
		}
		mode := func(f string, want os.FileMode) {
			fi, err := os.Stat(f)
			if err != nil || fi.Mode().Perm() != want {
				t.fail("%s has mode %v, expected %v", filepath.Base(f), fi.Mode(), want)
			}
		}
		mode(base+".sec", 0600)
		mode(base+".pub", 0644)
		s := t.parseSec(base + ".sec")
		d, _, _ := parseFile([]byte(c[name+".pub"]))
		if len(d) != 42 || bytes.Contains(d, s.key[:32]) {
			t.fail("the public key file holds %d bytes", len(d))
		}
		msg := t.write(filepath.Join(dir, "m"), []byte("m"))
		answer(pass)
		if err := signify.Sign(base+".sec", msg, ""); err != nil {
			t.fail("Sign: %v", err)
		}
		mode(msg+".sig", 0644)
	}
}

// ---- P11 ----

func searchP11(t *T) {
	dir := t.fresh()
	path := filepath.Join(dir, "k.pub")
	check := func(b []byte) {
		t.write(path, dataText("x", append([]byte("Ed12345678"), b...)))
		pub, err := signify.LoadPublicKey(path)
		if err != nil {
			t.fail("LoadPublicKey: %v", err)
		}
		before := *pub
		t.try("public key %x", b)
		got, err := pub.ToBox()
		want, ok := toMontgomery(b)
		if ok != (err == nil) {
			t.fail("ToBox returned %v; the bytes encode a point: %v", err, ok)
		}
		if ok && !bytes.Equal(got[:], want) {
			t.fail("ToBox returned %x, expected %x", *got, want)
		}
		if *pub != before {
			t.fail("the public key changed")
		}
	}
	for i := 0; i < 256; i++ {
		for _, f := range []byte{0, 255} {
			b := bytes.Repeat([]byte{f}, 32)
			b[0] = byte(i)
			check(b)
			b[31] ^= 128
			check(b)
			b = bytes.Repeat([]byte{f}, 32)
			b[i/8] ^= 1 << uint(i%8)
			check(b)
		}
		b := bytes.Repeat([]byte{255}, 32)
		b[0], b[31] = byte(i), 127
		check(b)
	}
	// numbers with an unusual representation, in the places where the
	// conversion computes with them
	special := func() *big.Int {
		z := new(big.Int)
		switch t.Intn(4) {
		case 0:
			z.SetInt64(int64(t.Intn(600)))
		case 1: // bytes with the same few bits
			mask := byte(t.Intn(256))
			b := make([]byte, 32)
			for n := t.Intn(32); n >= 0; n-- {
				b[t.Intn(32)] = mask & byte(t.Intn(256))
			}
			z = le(b)
		case 2:
			z.SetBit(z, t.Intn(256), 1)
			z.Sub(z, big.NewInt(int64(t.Intn(3))))
		case 3: // few limbs
			for n := t.Intn(3); n >= 0; n-- {
				z.Add(z, new(big.Int).Lsh(big.NewInt(int64(t.Intn(1<<26))), uint(51*t.Intn(10)+1)/2))
			}
		}
		if t.Intn(3) == 0 {
			z.Neg(z)
		}
		return z.Mod(z, prime)
	}
	one, root := big.NewInt(1), new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(prime, 2), prime)
	place := func(z *big.Int) *big.Int {
		var u *big.Int // y^2 - 1
		times := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, prime) }
		inv := func(a *big.Int) *big.Int { return new(big.Int).ModInverse(a.Mod(a, prime), prime) }
		r := new(big.Int).Set(root)
		if t.Intn(2) == 0 {
			r.Neg(r)
		}
		switch t.Intn(7) {
		case 0:
			return z
		case 1: // (1 + y) / (1 - y) = z
			d := new(big.Int).Add(z, one)
			if d.Cmp(prime) == 0 {
				return z
			}
			return times(new(big.Int).Sub(z, one), inv(d))
		case 2: // 1 - y = z
			return new(big.Int).Sub(one, z)
		case 3:
			u = z
		case 4: // v x^2 - u = z where v x^2 = -u
			u = times(z, inv(big.NewInt(-2)))
		case 5: // where v x^2 = +-sqrt(-1) u
			u = times(z, inv(r.Sub(r, one)))
		case 6: // d y^2 + 1 = z
			yy := times(new(big.Int).Sub(z, one), inv(new(big.Int).Set(edD)))
			return new(big.Int).ModSqrt(yy, prime)
		}
		y := new(big.Int).ModSqrt(u.Add(u, one).Mod(u, prime), prime)
		return y
	}
	for t.more() {
		for i := 0; i < 200; i++ {
			y := place(special())
			if y == nil {
				continue
			}
			check(le32(y.Mod(y, prime)))
		}
		for i := 0; i < 20; i++ {
			switch t.Intn(4) {
			case 0:
				check(t.bytes(32))
			case 1:
				check(t.newKey(nil, 0).pub)
			case 2:
				b := make([]byte, 32)
				for n := t.Intn(6); n >= 0; n-- {
					b[t.Intn(32)] = []byte{1, 255, 128, 127, 0xed}[t.Intn(5)]
				}
				check(b)
			case 3:
				b := bytes.Repeat([]byte{255}, 32)
				for n := t.Intn(6); n >= 0; n-- {
					b[t.Intn(32)] = byte(t.Intn(256))
				}
				check(b)
			}
		}
	}
}

// ---- P12 ----

func searchP12(t *T) {
	for round := 0; t.more(); round++ {
		dir := t.fresh()
		var pass []byte
		if round%3 == 2 {
			pass = []byte("pw")
		}
		k := t.newKey(pass, 1)
		if round%5 == 1 {
			// scalars with the interesting bits set
			for {
				k.seed = t.bytes(32)
				d := sha512.Sum512(k.seed)
				if d[0]&7 == 7 && d[31]&0xc0 == []byte{0x80, 0xc0, 0}[t.Intn(3)] {
					break
				}
			}
			k.derive()
		}
		sec, pub := k.files(t, dir, "k")
		p, err := signify.LoadPrivateKey(sec)
		if err != nil {
			t.fail("LoadPrivateKey: %v", err)
		}
		before := *p
		t.try("seed %x, passphrase %q", k.seed, pass)
		a := answer(pass)
		got, err := p.ToBox()
		if err != nil {
			t.fail("ToBox: %v", err)
		}
		if *got != *k.scalar() {
			t.fail("ToBox returned %x, expected %x", *got, *k.scalar())
		}
		if len(pass) == 0 && (a.asked != 0 || *p != before) {
			t.fail("asked %d times; key changed: %v", a.asked, *p != before)
		}
		after := *p
		got2, err := p.ToBox()
		if err != nil || *got2 != *got || *p != after {
			t.fail("a second conversion gave %v, %x; key changed: %v", err, got2, *p != after)
		}
		var base [32]byte
		curve25519.ScalarBaseMult(&base, got)
		q, err := signify.LoadPublicKey(pub)
		if err != nil {
			t.fail("LoadPublicKey: %v", err)
		}
		qb, err := q.ToBox()
		if err != nil || *qb != base {
			t.fail("public key of the result %x, conversion of the public key %x (%v)", base, qb, err)
		}
	}
}
