package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/kisom/psignify/signify"
)

const nobody = 54321 // has no entry in /etc/passwd: HOME decides the default key

// pty opens a terminal on which typed is already typed.
func pty(typed string) (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	_, err = master.Write([]byte(typed))
	return
}

type result struct {
	code           int
	stdout, stderr string
	ran            bool
}

// run runs the command in dir as a user of its own; typed goes to its terminal.
func (t *T) run(dir string, typed *string, args ...string) (r result) {
	return t.runTo(dir, typed, nil, args...)
}

func (t *T) runTo(dir string, typed *string, stdout *os.File, args ...string) (r result) {
	c := exec.Command(os.Getenv("PSIGNIFY"), args...)
	c.Dir = dir
	c.Env = []string{"HOME=" + filepath.Join(dir, "home"), "USER=tester", "PATH=/usr/bin:/bin"}
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if stdout != nil {
		c.Stdout = stdout
	}
	if typed != nil {
		m, s, err := pty(*typed)
		if err != nil {
			return
		}
		defer m.Close()
		defer s.Close()
		c.Stdin = s
	}
	if err := c.Start(); err != nil {
		panic(setup{err})
	}
	done := make(chan bool)
	go func() {
		select {
		case <-done:
		case <-time.After(50 * time.Second):
			c.Process.Kill()
		}
	}()
	err := c.Wait()
	close(done)
	r = result{0, so.String(), se.String(), true}
	if err != nil {
		r.code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.code = e.ExitCode()
		}
	}
	return
}

func (r result) String() string {
	return fmt.Sprintf("exit status %d, stdout %q, stderr %q", r.code, r.stdout, r.stderr)
}

// world is a directory with keys and files.
type world struct {
	dir          string
	a, b, d, pro *key // two pairs, the default pair, a protected pair
	msg          []byte
	typed        string
}

func (t *T) world() *world {
	w := &world{dir: t.fresh()}
	os.MkdirAll(filepath.Join(w.dir, "home", ".signify"), 0755)
	w.a, w.b, w.d, w.pro = t.newKey(nil, 0), t.newKey(nil, 0), t.newKey(nil, 0), t.newKey([]byte("open sesame"), 1)
	w.a.files(t, w.dir, "a")
	w.b.files(t, w.dir, "b")
	w.pro.files(t, w.dir, "pro")
	w.d.files(t, filepath.Join(w.dir, "home", ".signify"), "tester")
	w.msg = t.bytes(30 + t.Intn(40000))
	put := func(n string, b []byte) { t.write(filepath.Join(w.dir, n), b) }
	put("m", w.msg)
	put("other", []byte("another message"))
	put("m.sig", dataText("verify with a.pub", w.a.sig(w.msg)))
	put("s", dataText("verify with a.pub", w.a.sig(w.msg)))
	put("sd", dataText("verify with tester.pub", w.d.sig(w.msg)))
	put("sother", dataText("verify with a.pub", w.a.sig([]byte("another message"))))
	var esk [32]byte
	enc := func(k *key, msg []byte) []byte {
		copy(esk[:], t.bytes(32))
		s := &sealing{to: t.boxOf(k), esk: &esk, msg: msg}
		return append([]byte(encComment), wrap72(join(s.parts()))...)
	}
	put("e", enc(w.a, w.msg))
	put("ed", enc(w.d, w.msg))
	put("epro", enc(w.pro, w.msg))
	e := enc(w.a, w.msg)
	put("ecut", e[:len(e)-60])
	put("junk", []byte("junk\n"))
	put("empty", nil)
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		os.Chown(p, nobody, nobody)
		return nil
	})
	return w
}

// step is one command line with its effect: out is the file it makes.
type step struct {
	args  string
	typed string
	ok    bool
	out   string // "", or "sig:FILE:KEY", "enc:FILE:KEY", "dec:FILE", "gen:BASE:PASS"
}

func steps() []step {
	return []step{
		{"-V -p a.pub -m m -x s", "", true, ""},
		{"-V -p a.pub -m m", "", true, ""},
		{"-V -m m -x sd", "", true, ""},
		{"-V -m m -x s", "", false, ""},
		{"-V -p b.pub -m m -x s", "", false, ""},
		{"-V -p a.pub -m other -x s", "", false, ""},
		{"-V -p a.pub -m other -x sother", "", true, ""},
		{"-V -p a.pub -m m -x sother", "", false, ""},
		{"-V -p a.pub -m m -x junk", "", false, ""},
		{"-V -p a.pub -m m -x none", "", false, ""},
		{"-V -p a.pub -m none -x s", "", false, ""},
		{"-V -p none -m m -x s", "", false, ""},
		{"-V -p a.pub", "", false, ""},
		{"-V -p a.sec -m m -x s", "", false, ""},
		{"-V -s b.sec -p a.pub -m m -x s -c e", "", true, ""},
		{"-S -s a.sec -m m", "", true, "sig:m.sig:a"},
		{"-S -s a.sec -m m -x out", "", true, "sig:out:a"},
		{"-S -s b.sec -p a.pub -m m -x out -c e", "", true, "sig:out:b"},
		{"-S -m m -x out", "", true, "sig:out:d"},
		{"-S -s pro.sec -m m -x out", "open sesame\n", true, "sig:out:pro"},
		{"-S -s pro.sec -m m -x out", "open sesam\n", false, ""},
		{"-S -s pro.sec -m m -x out", "\n", false, ""},
		{"-S -s a.sec", "", false, ""},
		{"-S -s none -m m -x out", "", false, ""},
		{"-S -s a.sec -m none -x out", "", false, ""},
		{"-S -s a.pub -m m -x out", "", false, ""},
		{"-S -s a.sec -m m -x no/out", "", false, ""},
		{"-E -p a.pub -m m", "", true, "enc:m.enc:a"},
		{"-E -p b.pub -m m -c out", "", true, "enc:out:b"},
		{"-E -p b.pub -s a.sec -m m -c out -x s", "", true, "enc:out:b"},
		{"-E -m m -c out", "", true, "enc:out:d"},
		{"-E -p none -m m -c out", "", false, ""},
		{"-E -p junk -m m -c out", "", false, ""},
		{"-E -p a.pub -m none -c out", "", false, ""},
		{"-E -p a.pub", "", false, ""},
		{"-E -p a.pub -m m -c no/out", "", false, ""},
		{"-D -s a.sec -c e -m out", "", true, "dec:out"},
		{"-D -c ed -m out", "", true, "dec:out"},
		{"-D -s pro.sec -c epro -m out", "open sesame\n", true, "dec:out"},
		{"-D -s pro.sec -c epro -m out", "open sesamE\n", false, "?"},
		{"-D -s a.sec -p b.pub -c e -m out -x s", "", true, "dec:out"},
		{"-D -s b.sec -c e -m out", "", false, "?"},
		{"-D -s a.sec -c ecut -m out", "", false, "?"},
		{"-D -s a.sec -c junk -m out", "", false, "?"},
		{"-D -s a.sec -c empty -m out", "", false, "?"},
		{"-D -s a.sec -c none -m out", "", false, "?"},
		{"-D -s none -c e -m out", "", false, "?"},
		{"-D -s a.sec -c e -m no/out", "", false, "?"},
		{"-D -s a.sec -c e", "", false, "?"},
		{"-D -s a.sec -m out", "", false, "?"},
		{"-G -n -p new", "", true, "gen:new:"},
		{"-G -p new", "abc\nabc\n", true, "gen:new:abc"},
		{"-G -p new", "abc\nabd\n", false, ""},
		{"-G -p new", "abc\n\n", false, ""},
		{"-G -n -s a.sec -m m -c e -x s -p new", "", true, "gen:new:"},
		{"-G -n -p no/new", "", false, ""},
		{"-G -p new", "", false, ""},
		{"-G -p new -m m -c e -x s -s a.sec", "", false, ""},
		{"-G -E -p new", "", false, ""},
		{"-G -S -p new -s a.sec -m m", "", false, ""},
		{"-G -V -p new -m m", "", false, ""},
		{"-G -D -p new -m m -c e", "", false, ""},
		{"", "", false, ""},
		{"-m m", "", false, ""},
		{"-n", "", false, ""},
		{"-Z", "", false, ""},
		{"-V -p", "", false, ""},
		{"-V=maybe", "", false, ""},
		{"-S -q -s a.sec -m m", "", false, ""},
		{"--nonsense -V -p a.pub -m m -x s", "", false, ""},
		{"m a.pub", "", false, ""},
	}
}

func (t *T) commands(effects bool) {
	first := true
	all := steps()
	for t.more() || first {
		for _, i := range t.Perm(len(all)) {
			if !first && !t.more() {
				break
			}
			s := all[i]
			w := t.world()
			before := snapshot(w.dir)
			var typed *string
			if s.typed != "" {
				typed = &s.typed
			}
			args := strings.Fields(s.args)
			t.try("psignify %s (typed %q; message of %d bytes)", s.args, s.typed, len(w.msg))
			r := t.run(w.dir, typed, args...)
			if !r.ran {
				continue
			}
			prints := strings.HasPrefix(s.args, "-V") || strings.HasPrefix(s.args, "-E") || strings.HasPrefix(s.args, "-D")
			okLine := strings.Contains(r.stdout, "OK") || strings.Contains(r.stderr, "OK")
			if s.ok {
				if r.code != 0 {
					t.fail("the operation should succeed: %v", r)
				}
				if prints != okLine {
					t.fail("OK printed: %v, expected: %v (%v)", okLine, prints, r)
				}
			} else {
				if r.code == 0 {
					t.fail("the operation cannot succeed, but the exit status is 0: %v", r)
				}
				if okLine {
					t.fail("OK printed although the operation failed: %v", r)
				}
				if r.stderr == "" {
					t.fail("nothing on standard error: %v", r)
				}
			}
			after := snapshot(w.dir)
			ch := changed(before, after)
			keys := map[string]*key{"a": w.a, "b": w.b, "d": w.d, "pro": w.pro}
			f := strings.Split(s.out, ":")
			expect := func(names ...string) {
				for _, c := range ch {
					found := false
					for _, n := range names {
						found = found || n == c
					}
					if !found {
						t.fail("file %s changed; %v", c, r)
					}
				}
				for _, n := range names {
					if _, ok := after[n]; !ok {
						t.fail("file %s missing; %v", n, r)
					}
				}
			}
			switch f[0] {
			case "":
				if s.ok {
					expect()
				}
			case "sig":
				expect(f[1])
				d, _, _ := parseFile([]byte(after[f[1]]))
				if !bytes.Equal(d, keys[f[2]].sig(w.msg)) {
					t.fail("%s is not the signature of m with key %s", f[1], f[2])
				}
			case "enc":
				expect(f[1])
				body, ok := bodyOf([]byte(after[f[1]]))
				var plain []byte
				if ok {
					plain, ok = openOracle(keys[f[2]].scalar(), body)
				}
				if !ok || !bytes.Equal(plain, w.msg) {
					t.fail("%s is not m encrypted for key %s", f[1], f[2])
				}
			case "dec":
				expect(f[1])
				if after[f[1]] != string(w.msg) {
					t.fail("%s is not the message", f[1])
				}
			case "gen":
				expect(f[1]+".sec", f[1]+".pub")
				g := t.parseSec(filepath.Join(w.dir, f[1]+".sec"))
				plain := g.key
				if (g.rounds > 0) != (f[2] != "") {
					t.fail("the secret key has %d rounds, passphrase %q", g.rounds, f[2])
				}
				if f[2] != "" {
					plain = mask([]byte(f[2]), g.salt, g.rounds, g.key)
				}
				d, _, _ := parseFile([]byte(after[f[1]+".pub"]))
				if len(d) != 42 || !bytes.Equal(d[10:], plain[32:]) {
					t.fail("the key does not unlock with passphrase %q", f[2])
				}
			}
		}
		if first {
			w := t.world()
			t.try("psignify -h")
			if r := t.run(w.dir, nil, "-h"); r.code != 0 || strings.Contains(r.stdout, "OK") {
				t.fail("%v", r)
			}
		}
		first = false
	}
}

func searchP19(t *T) { t.commands(false) }
func searchP20(t *T) { t.commands(true) }

// cmdFull runs the command where outputs cannot be written.
func cmdFull(t *T, dir, sec, pub, m, enc string) {
	full := filepath.Join(dir, "full")
	for _, a := range [][]string{
		{"-S", "-s", sec, "-m", m, "-x", full},
		{"-E", "-p", pub, "-m", m, "-c", full},
		{"-G", "-n", "-p", filepath.Join(dir, "gsec")},
		{"-G", "-n", "-p", filepath.Join(dir, "gpub")},
	} {
		t.try("psignify %v with an output on a full device", a)
		c := exec.Command(os.Getenv("PSIGNIFY"), a...)
		c.Dir = dir
		out, err := c.CombinedOutput()
		if err == nil {
			t.fail("exit status 0, output %q", out)
		}
	}
}

// ---- P21 ----

func child(args []string) {
	switch args[0] {
	case "child-prompt":
		p, err := signify.PassphrasePrompt(args[1] == "true")
		f := os.NewFile(3, "result")
		if err != nil {
			fmt.Fprintf(f, "error %v", err)
		} else {
			fmt.Fprintf(f, "pass %x", p)
		}
		f.Close()
	}
}

func (t *T) prompt(confirm bool, typed string) (string, bool) {
	m, s, err := pty(typed)
	if err != nil {
		return "", false
	}
	defer m.Close()
	defer s.Close()
	exe, _ := os.Executable()
	c := exec.Command(exe, "child-prompt", fmt.Sprint(confirm))
	c.Stdin = s
	f, err := ioutil.TempFile(t.dir, "res")
	if err != nil {
		panic(setup{err})
	}
	defer os.Remove(f.Name())
	defer f.Close()
	c.ExtraFiles = []*os.File{f}
	tm := time.AfterFunc(40*time.Second, func() { c.Process.Kill() })
	err = c.Run()
	tm.Stop()
	b, _ := ioutil.ReadFile(f.Name())
	if err != nil && len(b) == 0 {
		return "error " + err.Error(), true
	}
	return string(b), true
}

func searchP21(t *T) {
	words := []string{"abc", "abd", "ab", "abcd", "", "Abc", "abc ", " abc", "a b", "é", "x\x01y", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}
	check := func(confirm bool, a, b string) {
		typed := a + "\n" + b + "\n"
		if !confirm {
			typed = a + "\n"
		}
		t.try("prompt with confirm=%v, typed %q", confirm, typed)
		r, ok := t.prompt(confirm, typed)
		if !ok {
			return
		}
		switch {
		case confirm && a != b:
			if !strings.HasPrefix(r, "error") {
				t.fail("the prompt returned %s", r)
			}
		case r != fmt.Sprintf("pass %x", a):
			t.fail("the prompt returned %s", r)
		}
	}
	wiped := func(p *prompts) {
		for _, b := range p.given {
			for _, c := range b[:cap(b)] {
				if c != 0 {
					t.fail("the passphrase was left in memory: %q", b)
				}
			}
		}
	}
	for round := 0; t.more(); round++ {
		if round < 1 {
			for _, a := range words[:6] {
				for _, b := range words[:6] {
					check(true, a, b)
				}
				check(false, a, "")
			}
		}
		a, b := words[t.Intn(len(words))], words[t.Intn(len(words))]
		check(true, a, b)
		check(true, a, a)
		check(false, a, "")
		// wiping
		dir := t.fresh()
		k := t.newKey([]byte("secret"), 1)
		if round%4 == 3 {
			k.kdf = "XX"
		}
		if round%8 == 5 {
			k.alg = "XX"
		}
		if round%8 == 7 {
			k.check[0] ^= 1
		}
		sec, _ := k.files(t, dir, "k")
		msg := t.write(filepath.Join(dir, "m"), []byte("message"))
		for i, pass := range [][]byte{[]byte("secret"), []byte("wrong"), []byte("secret"), []byte("a longer wrong passphrase")} {
			t.try("Sign and ToBox with passphrase %q (kdf %s, algorithm %s, case %d)", pass, k.kdf, k.alg, i)
			p := answer(pass)
			m := msg
			if i == 2 {
				m = filepath.Join(dir, "missing")
			}
			signify.Sign(sec, m, filepath.Join(dir, []string{"s", "s2", "s3", "none/s"}[i]))
			wiped(p)
			priv, err := signify.LoadPrivateKey(sec)
			if err != nil {
				t.fail("LoadPrivateKey: %v", err)
			}
			p = answer(pass)
			priv.ToBox()
			wiped(p)
		}
		u := t.newKey(nil, 0)
		u.check[3] ^= 4
		usec, _ := u.files(t, dir, "u")
		priv, err := signify.LoadPrivateKey(usec)
		if err != nil {
			t.fail("LoadPrivateKey: %v", err)
		}
		t.try("ToBox of an unprotected key with a wrong checksum")
		p := answer([]byte("secret"))
		priv.ToBox()
		wiped(p)
	}
}
