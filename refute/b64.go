package main

import (
	"bytes"
	stdb64 "encoding/base64"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/kisom/psignify/base64"
)

// ---- P17 ----

func searchP17(t *T) {
	check := func(p []byte, splits []int) {
		var w bytes.Buffer
		w.WriteString("before")
		e := base64.NewEncoder(&w)
		t.try("input %s written in pieces of %v", hex(p), splits)
		rest := p
		for _, n := range splits {
			m, err := e.Write(append([]byte(nil), rest[:n]...))
			if m != n || err != nil {
				t.fail("Write of %d bytes returned %d, %v", n, m, err)
			}
			rest = rest[n:]
		}
		if err := e.Close(); err != nil {
			t.fail("Close: %v", err)
		}
		if want := append([]byte("before"), wrap72(p)...); !bytes.Equal(w.Bytes(), want) {
			t.fail("wrote %q, expected %q", w.Bytes(), want)
		}
	}
	for n := 0; n <= 330; n++ {
		p := t.bytes(n)
		check(p, []int{n})
		one := make([]int, n)
		for i := range one {
			one[i] = 1
		}
		check(p, one)
	}
	for t.more() {
		for i := 0; i < 50; i++ {
			n := t.Intn(400)
			if t.Intn(20) == 0 {
				n = t.Intn(40000)
			}
			var s []int
			max := 1 + t.Intn(60)
			if t.Intn(10) == 0 {
				max = n + 1
			}
			for l := n; l > 0; {
				k := t.Intn(max + 1)
				if k > l {
					k = l
				}
				s = append(s, k)
				l -= k
			}
			check(t.bytes(n), s)
			// a failing writer
			p := t.bytes(t.Intn(150))
			all := wrap72(p)
			w := &failWriter{n: t.Intn(len(all))}
			e := base64.NewEncoder(w)
			t.try("input %x to a writer that fails after %d bytes", p, w.n)
			m, err := e.Write(p)
			if err == nil {
				err = e.Close()
			}
			if err == nil || m > len(p) || !bytes.HasPrefix(all, w.got) {
				t.fail("Write returned %d, error %v, written %q", m, err, w.got)
			}
		}
	}
}

// ---- P18 ----

type chunked struct {
	r io.Reader
	t *T
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(p) > 0 {
		if k := 1 + c.t.Intn(c.n); k < len(p) {
			p = p[:k]
		}
	}
	return c.r.Read(p)
}

func searchP18(t *T) {
	check := func(text []byte, mode int, buf func() int, srcErr error) {
		want, derr := stdb64.StdEncoding.DecodeString(string(text))
		var src io.Reader = bytes.NewReader(text)
		if srcErr != nil {
			src = &failReader{b: append([]byte(nil), text...), err: srcErr}
		}
		switch mode {
		case 1:
			src = iotest.OneByteReader(src)
		case 2:
			src = iotest.DataErrReader(src)
		case 3:
			src = &chunked{src, t, 7}
		case 4:
			src = iotest.HalfReader(src)
		}
		d := base64.NewDecoder(src)
		var got []byte
		var sizes []int
		idle := 0
		t.try("text %q (source kind %d, source error %v)", text, mode, srcErr)
		for {
			n := buf()
			sizes = append(sizes, n)
			p := make([]byte, n+3)
			for i := range p {
				p[i] = 0xa5
			}
			k, err := d.Read(p[:n])
			if k < 0 || k > n || p[n] != 0xa5 || p[n+1] != 0xa5 || p[n+2] != 0xa5 {
				t.fail("Read(%d bytes) returned %d, after buffers of %v", n, k, sizes)
			}
			got = append(got, p[:k]...)
			if err == io.EOF {
				if k > 0 {
					// io.Reader allows it, but the data must be right
					_ = k
				}
				if derr != nil {
					t.fail("invalid base64 was reported as the end of the data after %x (buffers %v)", got, sizes)
				}
				if srcErr != nil {
					t.fail("the source's error was reported as the end of the data (buffers %v)", sizes)
				}
				break
			}
			if err != nil {
				if derr == nil && srcErr == nil {
					t.fail("Read returned %v for valid base64 (buffers %v)", err, sizes)
				}
				return
			}
			if n > 0 && k < n && srcErr == nil {
				// a short read means that the data has ended
				if derr == nil && len(got) < len(want) {
					t.fail("Read filled %d of %d bytes before the end (buffers %v)", k, n, sizes)
				}
			}
			if derr == nil && !bytes.HasPrefix(want, got) {
				t.fail("decoded %x, expected %x (buffers %v)", got, want, sizes)
			}
			if n > 0 && k == 0 {
				t.fail("Read of %d bytes returned 0, nil (buffers %v)", n, sizes)
			}
			if n == 0 {
				idle++
			} else {
				idle = 0
			}
			if idle > 1000 || len(got) > len(text) {
				t.fail("the data does not end (buffers %v)", sizes)
			}
		}
		if !bytes.Equal(got, want) {
			t.fail("decoded %x, expected %x (buffers %v)", got, want, sizes)
		}
		if n, err := d.Read(make([]byte, 5)); n != 0 || err != io.EOF {
			t.fail("Read after the end returned %d, %v", n, err)
		}
		if err := d.Close(); err != nil {
			t.fail("Close: %v", err)
		}
	}
	fixed := func(n int) func() int { return func() int { return n } }
	for n := 0; n < 24; n++ {
		text := wrap72(t.bytes(n))
		for b := 1; b < 14; b++ {
			for mode := 0; mode < 5; mode++ {
				check(text, mode, fixed(b), nil)
			}
		}
	}
	boom := errors.New("source failed")
	for t.more() {
		for i := 0; i < 40; i++ {
			n := t.Intn(120)
			if t.Intn(10) == 0 {
				n = t.Intn(4000)
			}
			text := []byte(stdb64.StdEncoding.EncodeToString(t.bytes(n)))
			switch t.Intn(3) {
			case 0:
				text = wrap72(t.bytes(n))
			case 1:
				var b []byte
				for _, c := range text {
					for t.Intn(6) == 0 {
						b = append(b, "\n\r"[t.Intn(2)])
					}
					b = append(b, c)
				}
				text = append(b, bytes.Repeat([]byte("\n"), t.Intn(3))...)
			}
			var e error
			switch t.Intn(5) {
			case 0:
				if len(text) > 0 {
					switch j := t.Intn(len(text)); t.Intn(4) {
					case 0:
						text[j] = "=*-_ \x00\xff\tA"[t.Intn(9)]
					case 1:
						text = text[:j]
					case 2:
						text = append(text[:j:j], text[j+1:]...)
					case 3:
						text = append(text, []byte("AAAA")[:1+t.Intn(4)]...)
					}
				}
			case 1:
				e = boom
				text = text[:t.Intn(len(text)+1)]
			}
			max := 1 + t.Intn(40)
			if t.Intn(4) == 0 {
				max = n + 10
			}
			b := func() int { return t.Intn(max + 1) }
			if t.Intn(3) == 0 {
				b = fixed(1 + t.Intn(max))
			}
			check(append([]byte(nil), text...), t.Intn(5), b, e)
		}
	}
	_ = fmt.Sprint
}
