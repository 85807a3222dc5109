// Command refute looks for inputs on which psignify breaks a property.
//
//go:debug cryptocustomrand=1
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// T is one search.
type T struct {
	*rand.Rand
	prop     string
	seed     int64
	deadline time.Time
	trials   int64
	dir      string
	what     atomic.Value
	since    int64
	n        int
}

// try announces a trial.
func (t *T) try(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.what.Store(s)
	atomic.StoreInt64(&t.since, time.Now().UnixNano())
	atomic.AddInt64(&t.trials, 1)
}

func (t *T) more() bool { return time.Now().Before(t.deadline) }

func (t *T) out(s string) {
	w, _ := t.what.Load().(string)
	fmt.Printf("COUNTEREXAMPLE property=%s seed=%d\ninput: %s\nobserved: %s\n", t.prop, t.seed, w, s)
	fmt.Printf("TRIALS %d\n", atomic.LoadInt64(&t.trials))
	os.Exit(3)
}

func (t *T) fail(format string, a ...interface{}) { t.out(fmt.Sprintf(format, a...)) }

func (t *T) bytes(n int) []byte {
	b := make([]byte, n)
	t.Read(b)
	return b
}

// fresh returns a new empty directory.
func (t *T) fresh() string {
	t.n++
	if t.n > 1 {
		os.RemoveAll(filepath.Join(t.dir, fmt.Sprintf("d%d", t.n-1)))
	}
	d := filepath.Join(t.dir, fmt.Sprintf("d%d", t.n))
	if err := os.Mkdir(d, 0755); err != nil {
		panic(setup{err})
	}
	return d
}

type setup struct{ err error }

func (t *T) write(path string, b []byte) string {
	if err := ioutil.WriteFile(path, b, 0644); err != nil {
		panic(setup{err})
	}
	return path
}

func (t *T) read(path string) []byte {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.fail("%s cannot be read: %v", filepath.Base(path), err)
	}
	return b
}

// snapshot maps the files below dir to their contents.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// changed lists the files that differ.
func changed(a, b map[string]string) []string {
	var out []string
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			out = append(out, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, k+" (removed)")
		}
	}
	sort.Strings(out)
	return out
}

func hex(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at byte %d (%#x and %#x), lengths %d and %d", i, a[i], b[i], len(a), len(b))
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

var searches = map[string]func(t *T){
	"P01": searchP01, "P02": searchP02, "P03": searchP03, "P04": searchP04, "P05": searchP05, "P06": searchP06, "P07": searchP07,
	"P08": searchP08, "P09": searchP09, "P10": searchP10, "P11": searchP11, "P12": searchP12, "P13": searchP13, "P14": searchP14,
	"P15": searchP15, "P16": searchP16, "P17": searchP17, "P18": searchP18, "P19": searchP19, "P20": searchP20, "P21": searchP21,
}

func main() {
	if len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "child-") {
		child(os.Args[1:])
		return
	}
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: refute PROPERTY SEED SECONDS")
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	secs, _ := strconv.Atoi(os.Args[3])
	f := searches[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no search for", os.Args[1])
		os.Exit(2)
	}
	syscall.Umask(0)
	dir, err := ioutil.TempDir(".", "s")
	if err == nil {
		err = os.Chmod(dir, 0755)
	}
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.Abs(dir)
	t := &T{Rand: rand.New(rand.NewSource(seed)), prop: os.Args[1], seed: seed, deadline: time.Now().Add(time.Duration(secs) * time.Second), dir: dir}
	t.since = time.Now().UnixNano()
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, atomic.LoadInt64(&t.since))) > 60*time.Second {
				t.out("no answer after 60 seconds")
			}
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(setup); ok {
				fmt.Fprintln(os.Stderr, "setup:", s.err)
				os.Exit(4)
			}
			st := debug.Stack()
			if !bytes.Contains(st, []byte("kisom/psignify")) {
				fmt.Fprintf(os.Stderr, "%v\n%s", r, st)
				os.Exit(4)
			}
			t.out(fmt.Sprintf("panic: %v\n%s", r, st))
		}
	}()
	f(t)
	fmt.Printf("TRIALS %d\n", t.trials)
}
