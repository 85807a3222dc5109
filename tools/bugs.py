BUGS = {}
def bug(name, prop, pkg, edits, needs, breaks, demo, imports, pkgname=None, env=''):
    pn = pkgname or pkg.split('/')[-1]
    body = 'package %s\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n' % (
        pn, '\n'.join('\t"%s"' % i for i in sorted(imports.split() + ['testing'])), demo.strip('\n'))
    BUGS[name] = dict(property=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, env=env)

K = 'signify/key.go'
bug('p01-keynum-half', 'P01', 'signify',
    [(K, 'if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {', 'if !bytes.Equal(pub.keyNum[:kdfAlgoLength+2], sig.keyNum[:kdfAlgoLength+2]) {')],
    'a signature by the right key whose key number differs only in its last four bytes',
    'only half of the key number is compared, so a signature naming another key number verifies',
    '''
	priv, pub, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	msg := []byte("hello")
	sig, err := priv.sign(msg)
	if err != nil {
		t.Fatal(err)
	}
	for i := range sig.keyNum {
		bad := *sig
		bad.keyNum[i] ^= 1
		if pub.verify(msg, &bad) == nil {
			t.Fatalf("key number %x accepted for key %x", bad.keyNum, pub.keyNum)
		}
	}
''', '')
bug('p02-comment-trim', 'P02', 'signify',
    [(K, 'strings.TrimSuffix(privatePath, ".sec")', 'strings.TrimRight(privatePath, ".sec")')],
    'a secret key whose base name ends in one of the letters s, e, c or a dot',
    'the comment of the signature names the wrong public key file (access.sec gives "a.pub")',
    '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "access")
	if err := GenerateKey(base, nil, nil); err != nil {
		t.Fatal(err)
	}
	msg := filepath.Join(dir, "msg")
	ioutil.WriteFile(msg, []byte("hello"), 0644)
	if err := Sign(base+".sec", msg, ""); err != nil {
		t.Fatal(err)
	}
	data, err := ioutil.ReadFile(msg + ".sig")
	if err != nil {
		t.Fatal(err)
	}
	if !strings.HasPrefix(string(data), "untrusted comment: verify with access.pub\\n") {
		t.Fatalf("signature file: %q", data)
	}
''', 'io/ioutil os path/filepath strings')
bug('p03-public-long', 'P03', 'signify',
    [(K, 'if len(data) != (keyAlgoLength + keyNumLength + publicKeyLength) {', 'if len(data) < (keyAlgoLength + keyNumLength + publicKeyLength) {')],
    'a public key file with more than 42 bytes of data',
    'over-long public keys are accepted and the excess silently ignored',
    '''
	_, pub, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := readPublicKeyData(append(pub.encode(), 0)); err == nil {
		t.Fatal("a public key of 43 bytes was accepted")
	}
''', '')
bug('p04-rounds-narrow', 'P04', 'signify',
    [(K, 'binary.Write(buf, binary.BigEndian, priv.kdfRounds)', 'binary.Write(buf, binary.BigEndian, uint32(uint16(priv.kdfRounds)))')],
    'a secret key with 65536 or more KDF rounds',
    'the upper half of the rounds is lost when a secret key is written',
    '''
	priv := &Private{kdfRounds: 0x01020304}
	back, err := readPrivateKeyData(priv.encode())
	if err != nil {
		t.Fatal(err)
	}
	if *back != *priv {
		t.Fatalf("rounds %#x became %#x", priv.kdfRounds, back.kdfRounds)
	}
''', '')
bug('p05-checksum-short', 'P05', 'signify',
    [(K, 'if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {', 'if !bytes.HasPrefix(digest[:], priv.checksum[:checksumLength-1]) {')],
    'a corrupted key whose checksum differs in its last byte only',
    'the last checksum byte is not compared',
    '''
	priv, _, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := range priv.checksum {
		bad := *priv
		bad.checksum[i] ^= 0x10
		if bad.Check() == nil {
			t.Fatalf("checksum byte %d is not compared", i)
		}
	}
''', '')
bug('p06-default-rounds', 'P06', 'signify',
    [(K, 'xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(priv.kdfRounds), secretKeyLength)', 'xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], defaultOptions.Rounds, secretKeyLength)')],
    'a passphrase-protected key generated with a number of rounds other than the default',
    'the key is masked with 42 rounds whatever rounds it records, so it can never be unlocked',
    '''
	priv, _, err := GenerateKeypair([]byte("secret"), &GenerateOptions{Rounds: 3})
	if err != nil {
		t.Fatal(err)
	}
	if err := priv.decrypt([]byte("secret")); err != nil {
		t.Fatal(err)
	}
''', '')
bug('p07-rounds-cleared', 'P07', 'signify',
    [(K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
''', '''	rounds := priv.kdfRounds
	priv.kdfRounds = 0
	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(rounds), secretKeyLength)
	if err != nil {
		priv.kdfRounds = rounds
		return err
	}
''')],
    'two unlock attempts on one loaded key, the first with a wrong passphrase',
    'after a wrong passphrase the key counts as unprotected, so the right one no longer unlocks it',
    '''
	priv, _, err := GenerateKeypair([]byte("secret"), &GenerateOptions{Rounds: 1})
	if err != nil {
		t.Fatal(err)
	}
	old := PassphrasePrompt
	defer func() { PassphrasePrompt = old }()
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte("wrong"), nil }
	if _, err := priv.ToBox(); err == nil {
		t.Fatal("a wrong passphrase was accepted")
	}
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte("secret"), nil }
	if _, err := priv.ToBox(); err != nil {
		t.Fatal("second attempt: ", err)
	}
''', '')
bug('p08-short-salt', 'P08', 'signify',
    [(K, '_, err = rand.Read(priv.salt[:])', '_, err = rand.Read(priv.salt[:len(priv.checksum)])')],
    'nothing but a look at the generated salt; keys work as before',
    'only half of the salt is random, the other half is always zero',
    '''
	for i := 0; i < 3; i++ {
		priv, _, err := GenerateKeypair([]byte("secret"), &GenerateOptions{Rounds: 1})
		if err != nil {
			t.Fatal(err)
		}
		if bytes.Count(priv.salt[8:], []byte{0}) < 8 {
			return
		}
	}
	t.Fatal("the second half of the salt is zero")
''', 'bytes')
bug('p09-shared-mode', 'P09', 'signify',
    [(K, 'priv, pub, err := GenerateKeypair(passphrase, opts)', 'keyPath = strings.TrimSuffix(keyPath, ".pub")\n\tpriv, pub, err := GenerateKeypair(passphrase, opts)')],
    'a key base name that itself ends in .pub',
    'the keys go into files of another base name',
    '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "team.pub")
	if err := GenerateKey(base, nil, nil); err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{base + ".sec", base + ".pub"} {
		if _, err := os.Stat(f); err != nil {
			t.Fatal(err)
		}
	}
''', 'io/ioutil os path/filepath')
bug('p12-bit255', 'P12', 'signify',
    [(K, '\tdigest[31] &= 127\n\tdigest[31] |= 64\n', '\tdigest[31] |= 64\n')],
    'a seed whose SHA-512 has bit 255 set (every other seed); curve25519 masks the bit, so encryption still works',
    'the converted secret key is not clamped',
    '''
	for i := 0; i < 64; i++ {
		priv, _, err := GenerateKeypair(nil, nil)
		if err != nil {
			t.Fatal(err)
		}
		k, err := priv.ToBox()
		if err != nil {
			t.Fatal(err)
		}
		if k[31]&128 != 0 {
			t.Fatalf("bit 255 is set in %x", *k)
		}
	}
''', '')
bug('p17-line-after-write', 'P17', 'base64',
    [('base64/coding.go', '''	out := make([]byte, 4)
	written := 0
''', '''	out := make([]byte, 4)
	written := 0
	if w.index == 0 {
		w.line -= w.line % decodedSize
	}
'''), ('base64/coding.go', 'if w.line == decodedSize {', 'if w.line >= decodedSize {')],
    'a line that is built up by several writes, at least one of them starting on a multiple of three bytes',
    'the column is reset by every write, so lines grow beyond 72 characters',
    '''
	out := &bytes.Buffer{}
	enc := NewEncoder(out)
	for i := 0; i < 100; i++ {
		enc.Write([]byte("abc"))
	}
	enc.Close()
	for _, line := range strings.Split(out.String(), "\\n") {
		if len(line) > 72 {
			t.Fatalf("a line of %d characters", len(line))
		}
	}
''', 'bytes strings')
bug('p17-close-stale', 'P17', 'base64',
    [('base64/coding.go', '''			w.buf[0] = 0
			w.buf[1] = 0
			w.buf[2] = 0
''', ''), ('base64/coding.go', '''		out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
		base64.StdEncoding.Encode(out, w.buf[:w.index])
''', '''		out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
		base64.StdEncoding.Encode(out, w.buf)
		for i := w.index + 1; i < len(out); i++ {
			out[i] = '='
		}
''')],
    'a length that is not a multiple of three, after at least one full group',
    'the unused bits of the last group carry bytes of the group before: the base64 is not canonical',
    '''
	out := &bytes.Buffer{}
	enc := NewEncoder(out)
	enc.Write([]byte{255, 255, 255, 1})
	enc.Close()
	if out.String() != "////AQ==\\n" {
		t.Fatalf("%q", out.String())
	}
''', 'bytes')
bug('p21-wipe', 'P21', 'signify',
    [('signify/common.go', '''	for i := range *buf {
		(*buf)[i] ^= (*buf)[i]
	}
}

func zero64''', '''	for i, n := 0, len(*buf)/8*8; i < n; i++ {
		(*buf)[i] ^= (*buf)[i]
	}
}

func zero64''')],
    'a passphrase whose length is not a multiple of eight',
    'the last bytes of the passphrase stay in memory after signing',
    '''
	priv, _, err := GenerateKeypair([]byte("hunter2hunter"), &GenerateOptions{Rounds: 1})
	if err != nil {
		t.Fatal(err)
	}
	pass := []byte("hunter2hunter")
	old := PassphrasePrompt
	defer func() { PassphrasePrompt = old }()
	PassphrasePrompt = func(bool) ([]byte, error) { return pass, nil }
	if _, err := priv.ToBox(); err != nil {
		t.Fatal(err)
	}
	for _, b := range pass {
		if b != 0 {
			t.Fatalf("left in memory: %q", pass)
		}
	}
''', '')

C = 'crypto/crypto.go'
M = 'cmd/psignify/main.go'
bug('p10-chunk-write', 'P10', 'crypto',
    [(C, '''&nonce, &shared)
		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce''', '''&nonce, &shared)
		_, err = w.Write(out)

		err = incrementNonce''')],
    'a write that fails while a chunk is being written',
    'the error of a chunk write is overwritten by the result of the next statement: encrypting reports success for an incomplete file',
    '''
	_, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	for fail := 1; fail < 4; fail++ {
		n := 0
		w := writer(func(p []byte) (int, error) {
			n++
			if n == fail {
				return 0, errors.New("disk full")
			}
			return len(p), nil
		})
		if err := seal(pub, bytes.NewReader(make([]byte, 40000)), 40000, w); err == nil {
			t.Fatalf("write %d failed and was not reported", fail)
		}
	}
}

type writer func(p []byte) (int, error)

func (w writer) Write(p []byte) (int, error) { return w(p) }

func TestZZNothing(t *testing.T) {
''', 'bytes errors github.com/kisom/psignify/signify')
bug('p10-pub-write', 'P10', 'signify',
    [(K, '''pub.encode(), 0644)
	if err != nil {
		return err
	}

	return nil
}
''', '''pub.encode(), 0644)
	if os.IsPermission(err) {
		return err
	}

	return nil
}
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
    'a full disk at the moment the public key is written',
    'key generation reports success although the public key file is empty',
    '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "key")
	if err := os.Symlink("/dev/full", base+".pub"); err != nil {
		t.Fatal(err)
	}
	if err := GenerateKey(base, nil, nil); err == nil {
		t.Fatal("writing the public key failed and was not reported")
	}
''', 'io/ioutil os path/filepath')
bug('p14-eof-ok', 'P14', 'crypto',
    [(C, '''		n, err := message.Read(chunk)
		if err != nil {
			return err
		}
''', '''		n, err := message.Read(chunk)
		if err == io.EOF {
			break
		} else if err != nil {
			return err
		}
''')],
    'an encrypted file cut off exactly between two chunks',
    'a truncated file decrypts without an error',
    '''
	priv, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := &bytes.Buffer{}
	if err := seal(pub, bytes.NewReader(make([]byte, 40000)), 40000, out); err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{72, 72 + 16401, 72 + 2*16401} {
		if err := open(priv, bytes.NewReader(out.Bytes()[:n]), &bytes.Buffer{}); err == nil {
			t.Fatalf("opened the first %d bytes", n)
		}
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p14-tag-range', 'P14', 'crypto',
    [(C, 'auth.Sum(header[:40], &shared)', 'auth.Sum(header[:8], &shared)'),
     (C, 'auth.Verify(header[40:], header[:40], &shared)', 'auth.Verify(header[40:], header[:8], &shared)')],
    'a change of the one bit of the ephemeral key that X25519 ignores',
    'the tag no longer covers the ephemeral key, in sealing and opening alike: a file whose header was altered is accepted',
    '''
	priv, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := &bytes.Buffer{}
	if err := seal(pub, bytes.NewReader(make([]byte, 100)), 100, out); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 72*8; i++ {
		bad := append([]byte(nil), out.Bytes()...)
		bad[i/8] ^= 1 << uint(i%8)
		if err := open(priv, bytes.NewReader(bad), &bytes.Buffer{}); err == nil {
			t.Fatalf("bit %d of the header was changed and the file opened", i)
		}
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p15-carry-lost', 'P15', 'crypto',
    [(C, '		if nonce[i] != 0 {', '		if nonce[i] != 0 || i < 23 {')],
    'more than 65536 chunks (a message of over 1 GB)',
    'the carry stops at the second byte, so the nonces repeat',
    '''
	n := [24]byte{}
	seen := map[[24]byte]bool{n: true}
	for i := 1; i <= 70000; i++ {
		if err := incrementNonce(&n); err != nil {
			t.Fatal(err)
		}
		if seen[n] {
			t.Fatalf("nonce %d used before: %x", i, n)
		}
		seen[n] = true
	}
''', '')
bug('p15-wrap', 'P15', 'crypto',
    [(C, '		if i == -1 {', '		if i < -1 {'), (C, '		nonce[i]++\n', '		nonce[i&31%24]++\n'), (C, '		if nonce[i] != 0 {', '		if i < 0 || nonce[i] != 0 {')],
    'the last of the 2^192 nonces',
    'running out of nonces is no error any more: they start again',
    '''
	n := [24]byte{}
	for i := range n {
		n[i] = 255
	}
	if err := incrementNonce(&n); err == nil {
		t.Fatalf("the last nonce is followed by %x", n)
	}
''', '')
bug('p16-chunk-size', 'P16', 'crypto',
    [(C, 'chunkSize       = 16385 //', 'chunkSize       = 16384 //')],
    'files exchanged with other versions (both directions of this one agree)',
    'the chunks have another size, so existing files of more than one chunk cannot be opened',
    '''
	_, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := &bytes.Buffer{}
	if err := seal(pub, bytes.NewReader(make([]byte, 16385)), 16385, out); err != nil {
		t.Fatal(err)
	}
	if out.Len() != 72+16385+16 {
		t.Fatalf("%d bytes", out.Len())
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p16-count-order', 'P16', 'crypto',
    [(C, 'binary.BigEndian.PutUint64(header[:8]', 'binary.LittleEndian.PutUint64(header[:8]'), (C, 'binary.BigEndian.Uint64(header[:8])', 'binary.LittleEndian.Uint64(header[:8])')],
    'files exchanged with other versions (both directions of this one agree)',
    'the chunk count is written and read in the other byte order',
    '''
	_, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := &bytes.Buffer{}
	if err := seal(pub, bytes.NewReader(make([]byte, 20000)), 20000, out); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out.Bytes()[:8], []byte{0, 0, 0, 0, 0, 0, 0, 2}) {
		t.Fatalf("count %x", out.Bytes()[:8])
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p16-empty-chunk', 'P16', 'crypto',
    [(C, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := messageLen/chunkSize + 1
''')],
    'a message whose length is a multiple of 16385 (or zero)',
    'such files get an additional empty chunk',
    '''
	_, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := &bytes.Buffer{}
	if err := seal(pub, bytes.NewReader(make([]byte, 2*16385)), 2*16385, out); err != nil {
		t.Fatal(err)
	}
	if out.Len() != 72+2*16401 {
		t.Fatalf("%d bytes", out.Len())
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p13-last-byte', 'P13', 'crypto',
    [(C, '	if messageLen%chunkSize != 0 {', '	if messageLen%chunkSize > 1 {')],
    'a message one byte longer than a whole number of chunks',
    'the last byte of the message is not encrypted, and decryption succeeds without it',
    '''
	priv, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 16384, 16385, 16386} {
		msg := bytes.Repeat([]byte{7}, n)
		out, back := &bytes.Buffer{}, &bytes.Buffer{}
		if err := seal(pub, bytes.NewReader(msg), n, out); err != nil {
			t.Fatal(n, err)
		}
		if err := open(priv, out, back); err != nil {
			t.Fatal(n, err)
		}
		if !bytes.Equal(back.Bytes(), msg) {
			t.Fatalf("%d bytes in, %d bytes out", n, back.Len())
		}
	}
''', 'bytes github.com/kisom/psignify/signify')
bug('p18-small-buffer', 'P18', 'base64',
    [('base64/coding.go', 'enclen := base64.StdEncoding.EncodedLen(len(p))', 'enclen := base64.StdEncoding.EncodedLen(len(p) - len(p)%decodedSize%3)')],
    'a buffer with room for one or two bytes more than a multiple of three left',
    'reads into small buffers report the end of the data at once',
    '''
	d := NewDecoder(strings.NewReader("AQIDBAUG\\n"))
	var got []byte
	for i := 0; i < 20; i++ {
		b := make([]byte, 2)
		n, err := d.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			break
		} else if err != nil {
			t.Fatal(err)
		}
	}
	if !bytes.Equal(got, []byte{1, 2, 3, 4, 5, 6}) {
		t.Fatalf("%x", got)
	}
''', 'bytes io strings')
CMD = '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "psignify")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	run := func(args ...string) (string, string, bool) {
		c := exec.Command(bin, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "HOME="+dir)
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		err := c.Run()
		return o.String(), e.String(), err == nil
	}
'''
IMP = 'bytes io/ioutil os os/exec path/filepath'
bug('p19-no-message', 'P19', 'cmd/psignify',
    [(M, '''messageFile, signatureFile)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: invalid signature\\n", messageFile)
			os.Exit(1)
		}

		fmt''', '''messageFile, signatureFile)
		if err != nil && messageFile != "" {
			fmt.Fprintf(os.Stderr, "%s: invalid signature\\n", messageFile)
			os.Exit(1)
		}

		fmt''')],
    'verifying without naming a message',
    'a verification that failed is reported as OK with exit status 0',
    CMD + '''
	if o, _, ok := run("-V", "-p", "a.pub", "-x", "a.sig"); ok || o != "" {
		t.Fatalf("verified nothing: %q", o)
	}
''', IMP, pkgname='main')
bug('p19-error-stdout', 'P19', 'cmd/psignify',
    [(M, '''fmt.Fprintf(os.Stderr, "%s: invalid signature\\n", messageFile)''', '''fmt.Printf("%s: invalid signature\\n", messageFile)''')],
    'a script that reads the standard output of a failed verification',
    'the failure is printed on the standard output, not on standard error',
    CMD + '''
	if o, _, ok := run("-V", "-p", "a.pub", "-x", "a.sig", "-m", "b"); ok || o != "" {
		t.Fatalf("standard output %q", o)
	}
''', IMP, pkgname='main')
bug('p20-generate-encrypt', 'P20', 'cmd/psignify',
    [(M, '		if !noPass {', '		if !noPass && !encrypt {')],
    'the generate and the encrypt flag given together',
    'a key is generated without a passphrase although -n was not given',
    CMD + '''
	if _, _, ok := run("-G", "-E", "-p", "k"); ok {
		t.Fatal("a key was generated without asking for a passphrase")
	}
''', IMP, pkgname='main')
E25 = 'signify/internal/edwards25519/edwards25519.go'
bug('p11-nonzero-fold', 'P11', 'signify',
    [(E25, '	x |= x >> 4\n', '')],
    'bytes that encode no point and for which the difference tested, as a number, has only bytes that are multiples of 16 (a chance of 2^-128 for a random key)',
    'bytes that are no point of the curve are converted',
    '''
	one := big.NewInt(1)
	p := new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	mod := func(x *big.Int) *big.Int { return x.Mod(x, p) }
	d := new(big.Int).ModInverse(big.NewInt(121666), p)
	d = mod(d.Mul(d, big.NewInt(-121665)))
	i := new(big.Int).ModSqrt(big.NewInt(-1), p)
	if i == nil {
		i = new(big.Int).ModSqrt(new(big.Int).Sub(p, one), p)
	}
	n := 0
	for k := int64(1); k < 16; k++ {
		for j := uint(0); j < 240; j += 8 {
			for s := 0; s < 2; s++ {
				r := new(big.Int).Set(i)
				if s == 1 {
					r.Sub(p, r)
				}
				// u with (r-1) u = 16 k 256^j
				u := new(big.Int).ModInverse(r.Sub(r, one), p)
				u = mod(u.Mul(u, new(big.Int).Lsh(big.NewInt(16*k), j)))
				y2 := mod(new(big.Int).Add(u, one))
				y := new(big.Int).ModSqrt(y2, p)
				if y == nil {
					continue
				}
				v := new(big.Int).Mul(d, y2)
				v = mod(v.Add(v, one))
				if big.Jacobi(mod(v.Mul(v, u)), p) != -1 {
					continue
				}
				pub := &Public{}
				for at, b := 0, y.Bytes(); at < len(b); at++ {
					pub.key[at] = b[len(b)-1-at]
				}
				n++
				if box, err := pub.ToBox(); err == nil {
					t.Fatalf("%x is no point, but was converted to %x", pub.key, *box)
				}
			}
		}
	}
	if n < 20 {
		t.Fatal(n)
	}
''', 'math/big')
bug('p11-identity-refused', 'P11', 'signify',
    [(K, '''	edwards25519.FeOne(x)
	edwards25519.FeAdd(x, x, &A.Y)
''', '''	edwards25519.FeOne(x)
	edwards25519.FeAdd(x, x, &A.Y)
	if z := *oneMinusY; edwards25519.FeIsNonZero(&z) == 0 {
		return nil, errors.New("signify: invalid public key")
	}
''')],
    'the key bytes of the point with y = 1, in either encoding',
    'the conversion fails although the bytes decode to a point',
    '''
	pub := &Public{}
	pub.key[0] = 1
	box, err := pub.ToBox()
	if err != nil || *box != [32]byte{} {
		t.Fatal(box, err)
	}
''', '')
