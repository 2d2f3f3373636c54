// Package zzverif is laid over the module under test at build time
// (go build -overlay); it is never part of it. It holds the registry of
// operations the shims offer and the loop that serves requests.
package zzverif

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Op runs one request and returns what is to be recorded.
type Op func(a json.RawMessage) interface{}

var ops = map[string]Op{}

func Register(name string, op Op) { ops[name] = op }

type request struct {
	ID int             `json:"id"`
	Op string          `json:"op"`
	A  json.RawMessage `json:"a"`
	TO int             `json:"to"` // time limit, ms
}

type response struct {
	ID    int         `json:"id"`
	OK    bool        `json:"ok"`
	Panic string      `json:"panic,omitempty"`
	Hang  bool        `json:"hang,omitempty"`
	None  bool        `json:"none,omitempty"` // no such operation
	R     interface{} `json:"r,omitempty"`
}

// bare: nothing but the calls that are asked for
var bare = os.Getenv("VERIF_BARE") != ""

var stdoutPath = os.Getenv("VERIF_STDOUT")

// Stdout returns what was written to file descriptor 1 since ResetStdout.
func Stdout() []byte {
	b, _ := os.ReadFile(stdoutPath)
	return b
}

func ResetStdout() { syscall.Ftruncate(1, 0) }

func run1(rq request) (rs response) {
	rs.ID = rq.ID
	op, found := ops[rq.Op]
	if rq.Op == "calls" {
		op, found = calls, true
	}
	if rq.Op == "held" {
		op, found = held, true
	}
	if !found {
		rs.None = true
		return
	}
	defer func() {
		if e := recover(); e != nil {
			rs.OK = false
			rs.R = nil
			rs.Panic = fmt.Sprint(e)
			if rs.Panic == "" {
				rs.Panic = "panic"
			}
		}
	}()
	rs.R = op(rq.A)
	rs.OK = true
	return
}

// calls makes the calls of every process, one after another, the processes at
// the same time, and returns the begin and end of every call in the order of
// time. Nothing here orders the calls of different processes, so that the race
// detector sees them as the code under test leaves them.
func calls(a json.RawMessage) interface{} {
	var q struct {
		Procs [][]request `json:"procs"`
	}
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	type event struct {
		P, K int
		At   time.Duration
		R    *response `json:"R,omitempty"`
	}
	logs := make([][]event, len(q.Procs))
	t0 := time.Now()
	start, wg := make(chan bool), sync.WaitGroup{}
	for p := range q.Procs {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			for _, rq := range q.Procs[p] {
				logs[p] = append(logs[p], event{P: p + 1, K: rq.ID, At: time.Since(t0)})
				rs := run1(rq)
				logs[p] = append(logs[p], event{P: p + 1, K: rq.ID, At: time.Since(t0), R: &rs})
			}
		}(p)
	}
	close(start)
	wg.Wait()
	all := []event{}
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].At < all[j].At })
	return map[string]interface{}{"events": all}
}

// holding is what a process has of the system's.
type holding struct {
	Open   []string // what its file descriptors refer to
	Runs   int      // goroutines
	Cwd    string
	Env    []string
	Around []string // files in the directory it was started in, and below
}

func holds(runs int) holding {
	h := holding{Runs: runtime.NumGoroutine()}
	for i := 0; i < 100 && h.Runs > runs; i++ { // those about to end
		time.Sleep(2 * time.Millisecond)
		h.Runs = runtime.NumGoroutine()
	}
	if d, err := os.Open("/proc/self/fd"); err == nil {
		names, _ := d.Readdirnames(-1)
		own := strconv.Itoa(int(d.Fd()))
		for _, n := range names {
			if to, err := os.Readlink("/proc/self/fd/" + n); err == nil && n != own {
				h.Open = append(h.Open, to)
			}
		}
		d.Close()
	}
	sort.Strings(h.Open)
	h.Cwd, _ = os.Getwd()
	h.Env = os.Environ()
	sort.Strings(h.Env)
	filepath.WalkDir(os.Getenv("VERIF_SCRATCH"), func(path string, d fs.DirEntry, err error) error {
		h.Around = append(h.Around, path)
		return nil
	})
	return h
}

// held makes calls one after another and returns what the process holds before
// the first one and after each of them.
func held(a json.RawMessage) interface{} {
	var q struct {
		Calls []request `json:"calls"`
	}
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // nothing is closed because it is forgotten
	type step struct {
		K      int
		Failed bool
		Held   holding
	}
	first := holds(1 << 30)
	steps := []step{}
	for _, rq := range q.Calls {
		rs := run1(rq)
		steps = append(steps, step{rq.ID, rs.Panic != "", holds(first.Runs)})
	}
	return map[string]interface{}{"first": first, "steps": steps}
}

// Main serves the requests of VERIF_IN, one JSON object per line.
func Main() {
	if len(os.Args) > 1 && os.Args[1] == "ops" {
		for n := range ops {
			fmt.Println(n)
		}
		return
	}
	debug.SetMaxStack(256 << 20)
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	w := bufio.NewWriterSize(out, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var rq request
			if e := json.Unmarshal(line, &rq); e != nil {
				panic(e)
			}
			if rq.TO == 0 {
				rq.TO = 10000
			}
			ResetStdout()
			done := make(chan response, 1)
			go func() { done <- run1(rq) }()
			var rs response
			t := time.NewTimer(time.Duration(rq.TO) * time.Millisecond)
			w.Flush() // so that a fatal error leaves all earlier answers behind
			select {
			case rs = <-done:
				t.Stop()
			case <-t.C:
				rs = response{ID: rq.ID, Hang: true}
			}
			b, e := json.Marshal(rs)
			if e != nil {
				panic(e)
			}
			w.Write(b)
			w.WriteByte('\n')
			if rs.Hang {
				w.Flush()
				os.Exit(3)
			}
		}
		if err != nil {
			break
		}
	}
	w.Flush()
}

// ---------------------------------------------------------------- numbers

// Big writes an exact integer the way spec/BigNum.tla represents it.
func Big(x *big.Int) []int {
	s := x.Sign()
	r := []int{s}
	if s == 0 {
		return r
	}
	m := new(big.Int).Abs(x)
	mask := big.NewInt(32767)
	t := new(big.Int)
	for m.Sign() > 0 {
		t.And(m, mask)
		r = append(r, int(t.Int64()))
		m.Rsh(m, 15)
	}
	return r
}

// exponent needed so that f * 2^e is an integer (0 for integers)
func needExp(f float64) int {
	if f == 0 || math.IsInf(f, 0) || math.IsNaN(f) {
		return 0
	}
	fr, e := math.Frexp(f) // f = fr * 2^e, 0.5<=|fr|<1
	m := int64(math.Abs(fr) * (1 << 53))
	k := 53 - e
	for m&1 == 0 {
		m >>= 1
		k--
	}
	if k < 0 {
		return 0
	}
	return k
}

func scale(f float64, e int) *big.Int {
	bf := new(big.Float).SetPrec(2200).SetFloat64(f)
	bf.SetMantExp(bf, e)
	i, _ := bf.Int(nil)
	return i
}

// Exact writes floats as integers over one power of two: value = n / 2^e.
// ok is false (and n empty) when some value is not finite.
type Exact struct {
	OK bool    `json:"ok"`
	E  int     `json:"e"`
	N  [][]int `json:"n"`
}

func Ex(fs ...float64) Exact {
	e := 0
	for _, f := range fs {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return Exact{false, 0, [][]int{}}
		}
		if k := needExp(f); k > e {
			e = k
		}
	}
	n := make([][]int, 0, len(fs))
	for _, f := range fs {
		n = append(n, Big(scale(f, e)))
	}
	return Exact{true, e, n}
}

// Rnd is the value rounded to a multiple of 2^-e, as an exact integer.
func Rnd(f float64, e int) ([]int, bool) {
	if math.IsInf(f, 0) || math.IsNaN(f) || math.Abs(f) > 1e200 {
		return []int{0}, false
	}
	bf := new(big.Float).SetPrec(2200).SetFloat64(f)
	bf.SetMantExp(bf, e)
	h := big.NewFloat(0.5)
	if f < 0 {
		h.Neg(h)
	}
	bf.Add(bf, h)
	i, _ := bf.Int(nil)
	return Big(i), true
}

// F parses the hex/decimal float notation used in requests.
type F float64

func (f *F) UnmarshalJSON(b []byte) error {
	s := string(b)
	if len(s) > 1 && s[0] == '"' {
		s = s[1 : len(s)-1]
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// Bytes turns text into a list of byte values (texts are not always UTF-8).
func Bytes(s string) []int {
	r := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func Text(b []int) string {
	r := make([]byte, 0, len(b))
	for _, x := range b {
		r = append(r, byte(x))
	}
	return string(r)
}

// Warm does other work with the code under test before the call that is
// recorded: whatever it leaves behind must not show. Its own failures do not
// count.
func Warm(f func()) {
	if bare {
		return
	}
	defer func() { recover() }()
	f()
}

// Odd makes the recorded call, does each kind of other work after it and makes
// the call again. Call leaves its result with the code under test and returns
// what reads it: the result is read before and after the other work. A reading
// which differs from the first one is returned, if there is any.
func Odd(call func() func() interface{}, other ...func()) interface{} {
	read := call()
	first := read()
	for _, f := range other {
		Warm(f)
		if r := read(); !reflect.DeepEqual(r, first) {
			return r
		}
		read = call()
		if r := read(); !reflect.DeepEqual(r, first) {
			return r
		}
	}
	return first
}

// Scribble overwrites everything the given results own: a caller may do as it
// likes with what it was given.
func Scribble(vs ...interface{}) {
	for _, v := range vs {
		scribble(reflect.ValueOf(v), 0)
	}
}

func scribble(v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	if v.CanAddr() && !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() && depth == 0 {
			w := v.Slice(0, v.Cap()) // a caller may append, too
			for i := v.Len(); i < w.Len(); i++ {
				scribble(w.Index(i), depth+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), depth+1)
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77.25)
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(1)
		}
	case reflect.Uint32:
		if v.CanSet() {
			v.SetUint(1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	}
}
