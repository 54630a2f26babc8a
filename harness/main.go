// Command vh runs go-rpmutils on scenarios and records what it does, for
// comparison with the specifications in ../spec.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
)

var commands = map[string]func(args []string) error{}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh COMMAND ARGS")
		os.Exit(3)
	}
	if err := commands[os.Args[1]](os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(3)
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

// ndjson output
type traceWriter struct {
	f  *os.File
	w  *bufio.Writer
	n  int
	mu sync.Mutex
}

func newTrace(path string) *traceWriter {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &traceWriter{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *traceWriter) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n++
	t.w.Write(b)
	t.w.WriteByte('\n')
}

func (t *traceWriter) close() error {
	if err := t.w.Flush(); err != nil {
		return err
	}
	fmt.Printf("%d scenarios\n", t.n)
	return t.f.Close()
}

func readLines(path string, f func(line []byte)) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		f(append([]byte(nil), sc.Bytes()...))
	}
	return sc.Err()
}

func readAll[T any](path string) ([]T, error) {
	var out []T
	var bad error
	err := readLines(path, func(l []byte) {
		var v T
		if err := json.Unmarshal(l, &v); err != nil {
			bad = fmt.Errorf("%s: %s", err, l)
		}
		out = append(out, v)
	})
	if err == nil {
		err = bad
	}
	return out, err
}

// hung is set when a scenario hangs: it is reported, and no more are started
var hung atomic.Bool

// parallel runs f(0..n-1) on all CPUs and returns the results in order
func parallel[T any](n int, f func(i int) T) []T {
	out := make([]T, n)
	ran := make([]bool, n)
	var wg sync.WaitGroup
	ch := make(chan int, 256)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if !hung.Load() {
					out[i] = f(i)
					ran[i] = true
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if hung.Load() {
		some := out[:0]
		for i := range out {
			if ran[i] {
				some = append(some, out[i])
			}
		}
		return some
	}
	return out
}

// ints turns bytes into a JSON array of numbers
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func bytesOf(v []int) []byte {
	out := make([]byte, len(v))
	for i, c := range v {
		out[i] = byte(c)
	}
	return out
}

type rawJSON = json.RawMessage

func marshal(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
