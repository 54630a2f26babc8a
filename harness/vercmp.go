package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func init() {
	commands["vercmp-rows"] = vercmpRows
	commands["vercmp-random"] = vercmpRandom
	commands["order-matrix"] = orderMatrix
	commands["order-random"] = orderRandom
}

func readStrings(path string) ([]string, error) {
	arrs, err := readAll[[]int](path)
	if err != nil {
		return nil, err
	}
	out := make([]string, len(arrs))
	for i, a := range arrs {
		out[i] = string(bytesOf(a))
	}
	return out, nil
}

type vercmpScenario struct {
	A  []int   `json:"a"`
	Ev [][]any `json:"ev"`
}

// safeVercmp reports a panic as the impossible result 9
// and a hang as the impossible result 8
func safeVercmp(a, b string) int {
	return safeCmp(func() int { return rpmutils.Vercmp(a, b) })
}

func safeCmp(f func() int) int {
	if hung.Load() {
		return 8
	}
	done := make(chan int, 1)
	go func() {
		defer func() {
			if recover() != nil {
				done <- 9
			}
		}()
		done <- f()
	}()
	t := time.NewTimer(30 * time.Second)
	defer t.Stop()
	select {
	case r := <-done:
		return r
	case <-t.C:
		hung.Store(true)
		return 8
	}
}

// row i: string i against all strings
func vercmpRows(args []string) error {
	ss, err := readStrings(args[0])
	if err != nil {
		return err
	}
	tr := newTrace(args[1])
	for _, r := range parallel(len(ss), func(i int) vercmpScenario {
		sc := vercmpScenario{A: ints([]byte(ss[i]))}
		for _, b := range ss {
			sc.Ev = append(sc.Ev, []any{ints([]byte(b)), safeVercmp(ss[i], b)})
		}
		return sc
	}) {
		tr.put(r)
	}
	return tr.close()
}

var seps = []string{".", "-", "_", "+", ":", "/", " ", "..", "._", "\n", "\r\n", "\x00", "\xc3\xa9", "\xff", "é", "٣", "²", "ß", "@", "[", "`", "{", "#", "!", "\t", "\u2028"}

func randNum(r *rand.Rand) string {
	lens := []int{1, 1, 1, 2, 2, 3, 4, 8, 9, 10, 11, 17, 18, 19, 20, 21, 22, 31, 40}
	n := lens[r.Intn(len(lens))]
	if r.Intn(60) == 0 {
		n = 100 + r.Intn(300)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	switch r.Intn(8) {
	case 0:
		for i := range b {
			b[i] = '9'
		}
	case 1:
		return []string{"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "65535", "65536", "255", "256", "36893488147419103232"}[r.Intn(13)]
	}
	return strings.Repeat("0", r.Intn(3)*r.Intn(3)) + string(b)
}

func randAlpha(r *rand.Rand) string {
	words := []string{"a", "b", "z", "A", "Z", "rc", "RC", "rC", "alpha", "beta", "el", "fc", "git", "pre", "ab", "abc", "abcd", "m", "M", "y", "Y"}
	if r.Intn(3) > 0 {
		return words[r.Intn(len(words))]
	}
	n := 1 + r.Intn(6)
	if r.Intn(40) == 0 {
		n = 60 + r.Intn(80)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.Intn(52)]
	}
	return string(b)
}

func randTokens(r *rand.Rand, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0, 1, 2:
			out = append(out, randNum(r))
		case 3, 4:
			out = append(out, randAlpha(r))
		case 5:
			out = append(out, "~")
		case 6:
			out = append(out, "^")
		default:
			out = append(out, seps[r.Intn(len(seps))])
			if r.Intn(2) == 0 {
				out = append(out, ".")
			}
		}
	}
	return out
}

// mutate makes a version that is nearly the same
func mutate(r *rand.Rand, t []string) []string {
	out := append([]string(nil), t...)
	for k := r.Intn(3); k >= 0; k-- {
		if len(out) == 0 {
			out = randTokens(r, 1)
			continue
		}
		i := r.Intn(len(out))
		switch r.Intn(10) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out = append(out[:i], append(randTokens(r, 1), out[i:]...)...)
		case 2:
			out[i] = "0" + out[i]
		case 3:
			out[i] = strings.TrimLeft(out[i], "0")
		case 4:
			out[i] = out[i] + string("0a~^.9Z"[r.Intn(7)])
		case 5:
			b := []byte(out[i])
			if len(b) > 0 {
				b[r.Intn(len(b))]++
			}
			out[i] = string(b)
		case 6:
			out[i] = seps[r.Intn(len(seps))]
		case 7:
			out = append(out, []string{"~", "^", ".", "0", "00", "a", "~~", "^^", "~^", "^~"}[r.Intn(10)])
		case 8:
			out[i] = strings.ToUpper(out[i])
		case 9:
			out = append([]string{[]string{"~", "^", ".", "0", "a"}[r.Intn(5)]}, out...)
		}
	}
	return out
}

func randPair(r *rand.Rand) (string, string) {
	if r.Intn(6) == 0 {
		// short strings over the whole byte range
		f := func() string {
			b := make([]byte, r.Intn(5))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			return string(b)
		}
		return f(), f()
	}
	t := randTokens(r, 1+r.Intn(7))
	return strings.Join(t, ""), strings.Join(mutate(r, t), "")
}

func vercmpRandom(args []string) error {
	r := rand.New(rand.NewSource(int64(atoi(args[0]))))
	n := atoi(args[1])
	tr := newTrace(args[2])
	// every single byte against class representatives, in a middle position too
	reps := []string{"", "0", "a", "Z", "~", "^", "."}
	for c := 0; c < 256; c++ {
		for _, ctx := range [][2]string{{"", ""}, {"1", "1"}, {"a", "a"}, {"1.", ".0"}, {"~", "1"}, {"^", "a"}} {
			s := ctx[0] + string([]byte{byte(c)}) + ctx[1]
			sc := vercmpScenario{A: ints([]byte(s))}
			for _, p := range reps {
				for _, o := range []string{p, ctx[0] + p + ctx[1]} {
					sc.Ev = append(sc.Ev, []any{ints([]byte(o)), safeVercmp(s, o)})
				}
			}
			tr.put(sc)
		}
	}
	for i := 0; i < n; i++ {
		a, b := randPair(r)
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		tr.put(vercmpScenario{A: ints([]byte(a)), Ev: [][]any{{ints([]byte(b)), safeVercmp(a, b)}}})
	}
	return tr.close()
}

func matrix(n int, f func(i, j int) int) [][]int {
	return parallel(n, func(i int) []int {
		row := make([]int, n)
		for j := range row {
			row[j] = f(i, j)
		}
		return row
	})
}

func orderMatrix(args []string) error {
	ss, err := readStrings(args[0])
	if err != nil {
		return err
	}
	tr := newTrace(args[1])
	tr.put(map[string]any{"kind": "matrix", "r": matrix(len(ss), func(i, j int) int { return safeVercmp(ss[i], ss[j]) }),
		"items": quoted(ss)})
	return tr.close()
}

func quoted(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = fmt.Sprintf("%+q", s)
	}
	return out
}

// a family of related versions
func family(r *rand.Rand, n int) []string {
	t := randTokens(r, 1+r.Intn(4))
	out := make([]string, 0, n)
	for len(out) < n {
		switch r.Intn(5) {
		case 0:
			a, b := randPair(r)
			out = append(out, a, b)
		case 1:
			if len(out) > 0 {
				out = append(out, out[r.Intn(len(out))])
			}
		default:
			out = append(out, strings.Join(mutate(r, t), ""))
		}
	}
	return out[:n]
}

func safeNevraCmp(a, b rpmutils.NEVRA) int {
	return safeCmp(func() int { return rpmutils.NEVRAcmp(a, b) })
}

func randNevras(r *rand.Rand, n int) []rpmutils.NEVRA {
	eps := []string{"0", "", "1", "2", "10", "9", "4294967295", "00", "18446744073709551615", "99999999999"}
	vs := family(r, 4)
	rs := family(r, 4)
	var out []rpmutils.NEVRA
	for i := 0; i < n; i++ {
		nm := rpmutils.NEVRA{Epoch: "0"}
		nm.Name = []string{"a", "b", "zz", "", "a1"}[r.Intn(5)]
		nm.Arch = []string{"x86_64", "noarch", "", "i386", "src"}[r.Intn(5)]
		if r.Intn(3) == 0 {
			nm.Epoch = eps[r.Intn(len(eps))]
		}
		nm.Version = vs[r.Intn(len(vs))]
		nm.Release = rs[r.Intn(len(rs))]
		if r.Intn(6) == 0 {
			nm.Version, nm.Release = nm.Release, nm.Version
		}
		out = append(out, nm)
	}
	return out
}

func nevraID(n rpmutils.NEVRA) string {
	return fmt.Sprintf("%+q|%+q|%+q|%+q|%+q", n.Name, n.Epoch, n.Version, n.Release, n.Arch)
}

func orderRandom(args []string) error {
	r := rand.New(rand.NewSource(int64(atoi(args[0]))))
	n := atoi(args[1])
	tr := newTrace(args[2])
	for k := 0; k < n; k++ {
		vs := family(r, 12+r.Intn(28))
		tr.put(map[string]any{"kind": "matrix", "items": quoted(vs),
			"r": matrix(len(vs), func(i, j int) int { return safeVercmp(vs[i], vs[j]) })})
		// sorting versions
		before := family(r, []int{0, 1, 2, 3, 7, 13, 20, 40}[r.Intn(8)])
		after := append([]string(nil), before...)
		stable := r.Intn(2) == 0
		if bad := watch(30*time.Second, func() {
			if s := append([]string(nil), before...); stable {
				sort.Stable(rpmutils.VersionSlice(s))
				after = s
			} else {
				sort.Sort(rpmutils.VersionSlice(s))
				after = s
			}
		}); bad != "" {
			after = []string{bad}
		}
		tr.put(map[string]any{"kind": "sort", "before": quoted(before), "after": quoted(after),
			"r": matrix(len(after), func(i, j int) int { return safeVercmp(after[i], after[j]) })})
		// sorting packages
		nb := randNevras(r, []int{1, 2, 5, 13, 20, 30}[r.Intn(6)])
		na := append([]rpmutils.NEVRA(nil), nb...)
		if bad := watch(30*time.Second, func() {
			s := append([]rpmutils.NEVRA(nil), nb...)
			rpmutils.NEVRASlice(s).Sort()
			na = s
		}); bad != "" {
			na = []rpmutils.NEVRA{{Name: bad}}
		}
		ids := func(l []rpmutils.NEVRA) []string {
			out := make([]string, len(l))
			for i := range l {
				out[i] = nevraID(l[i])
			}
			return out
		}
		tr.put(map[string]any{"kind": "sort", "before": ids(nb), "after": ids(na),
			"r": matrix(len(na), func(i, j int) int { return safeNevraCmp(na[i], na[j]) })})
		// package comparison is by epoch, version, release
		var ev [][]any
		for x := 0; x < 12; x++ {
			a, b := nb[r.Intn(len(nb))], nb[r.Intn(len(nb))]
			ev = append(ev, []any{safeVercmp(a.Epoch, b.Epoch), safeVercmp(a.Version, b.Version),
				safeVercmp(a.Release, b.Release), safeNevraCmp(a, b), nevraID(a), nevraID(b)})
		}
		tr.put(map[string]any{"kind": "nevra", "ev": ev})
	}
	return tr.close()
}
