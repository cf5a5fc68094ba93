package zzspec

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Contract is a registered executable contract.
type Contract struct {
	Fn  interface{}
	Gen func(r *rand.Rand) []interface{} // custom inputs; nil: by type
}

// Outcome of executing a contract on many inputs.
type Outcome struct {
	Wrapper   string
	Runs      int
	Skipped   int
	Covered   map[string]int
	Label     string
	Input     string
	Detail    string
	FromModel bool
}

type Request struct {
	Wrappers []ReqW
	Seed     int64
	Seconds  float64
}
type ReqW struct {
	Func    string
	Inputs  []map[string]string
	Params  []string
	Seconds float64
}

func runOne(fn reflect.Value, args []reflect.Value) (label, detail string, skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case skipT:
				skipped = true
			case Violation:
				label = v.Label
			default:
				if mayPanic {
					return
				}
				label = "no-panic"
				detail = fmt.Sprint(r) + "\n" + string(debug.Stack())
			}
		}
	}()
	mayPanic = false
	resetRand()
	defer resetFS()
	fn.Call(args)
	return
}

func show(v reflect.Value) string {
	s := ""
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.IsNil() {
				return "nil"
			}
			return "hex:" + hex.EncodeToString(v.Bytes())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		s = "&"
		v = v.Elem()
	}
	s += fmt.Sprintf("%+v", v)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// Serve runs contracts as asked by the request in $ZZ_REQ and writes outcomes to $ZZ_OUT.
func Serve(cs map[string]Contract) {
	var req Request
	if err := json.Unmarshal([]byte(os.Getenv("ZZ_REQ")), &req); err != nil {
		panic(err)
	}
	var outs []Outcome
	for _, w := range req.Wrappers {
		c, ok := cs[w.Func]
		if !ok {
			outs = append(outs, Outcome{Wrapper: w.Func, Detail: "not registered"})
			continue
		}
		if w.Seconds == 0 {
			w.Seconds = req.Seconds
		}
		outs = append(outs, Drive(w, c, req.Seed, w.Seconds))
	}
	b, _ := json.Marshal(outs)
	if err := os.WriteFile(os.Getenv("ZZ_OUT"), b, 0o644); err != nil {
		panic(err)
	}
}

var curFile *os.File

// hung reports a contract that does not return.
func hung(w, in string) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	b, _ := json.Marshal([]Outcome{{Wrapper: w, Runs: 1, Label: "terminates", Input: in, Detail: string(buf)}})
	os.WriteFile(os.Getenv("ZZ_OUT"), b, 0o644)
	os.Exit(1)
}

func Drive(w ReqW, c Contract, seed int64, seconds float64) Outcome {
	o := Outcome{Wrapper: w.Func}
	covered = map[string]int{}
	fn := reflect.ValueOf(c.Fn)
	ft := fn.Type()
	try := func(args []reflect.Value, model bool) bool {
		var in []string
		for i, a := range args {
			n := fmt.Sprint(i)
			if i < len(w.Params) {
				n = w.Params[i]
			}
			in = append(in, n+"="+show(a))
		}
		o.Runs++
		cur := strings.Join(in, ", ")
		if curFile == nil {
			curFile, _ = os.Create(os.Getenv("ZZ_OUT") + ".cur")
		}
		if curFile != nil {
			line := cur
			if len(line) > 2000 {
				line = line[:2000]
			}
			curFile.WriteAt([]byte(line+strings.Repeat(" ", 2000-len(line))), 0)
		}
		dog := time.AfterFunc(100*time.Second, func() { hung(w.Func, cur) })
		defer dog.Stop()
		label, detail, skipped := runOne(fn, args)
		if skipped {
			o.Skipped++
			return false
		}
		if label != "" {
			o.Label, o.Detail, o.FromModel = label, detail, model
			o.Input = cur
			return true
		}
		return false
	}
	finish := func() Outcome { o.Covered = covered; return o }
	Rng = rand.New(rand.NewSource(seed))
	for _, m := range w.Inputs {
		for k := 0; k < 8; k++ {
			args := make([]reflect.Value, ft.NumIn())
			for i := range args {
				n := ""
				if i < len(w.Params) {
					n = w.Params[i]
				}
				args[i] = decode(m[n], ft.In(i), Rng)
			}
			if try(args, true) {
				return finish()
			}
		}
	}
	end := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	for n := 0; time.Now().Before(end) && n < 200000; n++ {
		var args []reflect.Value
		if c.Gen != nil {
			for i, a := range c.Gen(Rng) {
				v := reflect.ValueOf(a)
				if a == nil {
					v = reflect.Zero(ft.In(i))
				}
				args = append(args, v)
			}
		} else {
			for i := 0; i < ft.NumIn(); i++ {
				args = append(args, Random(ft.In(i), Rng, 0))
			}
		}
		if try(args, false) {
			return finish()
		}
	}
	return finish()
}

func decode(s string, t reflect.Type, r *rand.Rand) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case strings.HasPrefix(s, "hex:"):
		b, _ := hex.DecodeString(s[4:])
		switch t.Kind() {
		case reflect.String:
			v.SetString(string(b))
			return v
		case reflect.Slice:
			v.SetBytes(b)
			return v
		case reflect.Array:
			reflect.Copy(v, reflect.ValueOf(b))
			return v
		case reflect.Ptr:
			if t.Elem().Kind() == reflect.Array {
				p := reflect.New(t.Elem())
				reflect.Copy(p.Elem(), reflect.ValueOf(b))
				return p
			}
		}
	case strings.HasPrefix(s, "int:"):
		n := s[4:]
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			i, _ := strconv.ParseInt(n, 10, 64)
			v.SetInt(i)
			return v
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			i, _ := strconv.ParseUint(n, 10, 64)
			v.SetUint(i)
			return v
		}
	case strings.HasPrefix(s, "bool:"):
		v.SetBool(s == "bool:true")
		return v
	case s == "nil":
		return v
	}
	return Random(t, r, 0)
}

var lengths = []int{0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 79, 80, 159, 160, 161, 255, 256}
var edge = []int64{0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 2000, 2001, 65535, 65536, 0xFFFFFE, 0xFFFFFF, 0x1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, -1, -2, 1 << 62}

// RandBytes makes a byte string of an interesting length.
func RandBytes(r *rand.Rand) []byte {
	n := lengths[r.Intn(len(lengths))]
	if r.Intn(4) == 0 {
		n = r.Intn(600)
	}
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		r.Read(b)
	}
	return b
}

// Fill fills b with random bytes, now and then with a run of equal ones at an end or in the middle; at least
// a quarter of longer ones is random.
func Fill(r *rand.Rand, b []byte) {
	r.Read(b)
	if len(b) < 8 || r.Intn(3) > 0 {
		return
	}
	n := 1 + r.Intn(len(b)*3/4)
	at := []int{0, len(b) - n, r.Intn(len(b) - n + 1)}[r.Intn(3)]
	c := []byte{0, 0, 255, byte(r.Intn(256))}[r.Intn(4)]
	for i := range b[at : at+n] {
		b[at+i] = c
	}
}

// Random makes a value of type t.
func Random(t reflect.Type, r *rand.Rand, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := edge[r.Intn(len(edge))]
		if r.Intn(2) == 0 {
			n = int64(r.Intn(40))
		}
		v.SetInt(n)
		if v.Int() != n {
			v.SetInt(int64(r.Uint64()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := edge[r.Intn(len(edge))]
		if r.Intn(2) == 0 {
			n = int64(r.Intn(40))
		}
		v.SetUint(uint64(n))
	case reflect.String:
		words := []string{"", "a", "+491234567", "uuid-1", "x_1", "../x", "00000", "\x00", "äöü", strings.Repeat("z", 70)}
		s := words[r.Intn(len(words))]
		if r.Intn(3) == 0 {
			s = string(RandBytes(r))
		}
		v.SetString(s)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Intn(12) == 0 {
				return v
			}
			v.SetBytes(RandBytes(r))
			return v
		}
		n := r.Intn(4)
		if depth > 4 {
			n = 0
		}
		for i := 0; i < n; i++ {
			v = reflect.Append(v, Random(t.Elem(), r, depth+1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			if t.Elem().Kind() == reflect.Uint8 {
				v.Index(i).SetUint(uint64(r.Intn(256)))
			} else {
				v.Index(i).Set(Random(t.Elem(), r, depth+1))
			}
		}
	case reflect.Ptr:
		if depth > 5 || r.Intn(8) == 0 {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(Random(t.Elem(), r, depth+1))
		return p
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if strings.HasPrefix(n, "XXX_") || n == "state" || n == "sizeCache" || n == "unknownFields" {
				continue // protobuf bookkeeping
			}
			if v.Field(i).CanSet() {
				v.Field(i).Set(Random(t.Field(i).Type, r, depth+1))
			} else {
				f := v.Field(i)
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(Random(f.Type(), r, depth+1))
			}
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		for i := r.Intn(3); i > 0; i-- {
			m.SetMapIndex(Random(t.Key(), r, depth+1), Random(t.Elem(), r, depth+1))
		}
		return m
	}
	return v
}

func sortedNames(m map[string]Contract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
