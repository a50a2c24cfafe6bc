package props

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// VSpec names a typed value: type number and a seed for its content; seed 0 is the zero value.
type VSpec struct {
	T int `json:"t"`
	N int `json:"n"`
}

type MyInt int
type MyStr string
type S0 struct {
	X int
	Y string
}
type S1 struct {
	A int
	B []string
	C map[string]int
	D *int
	E S0
}

// S2 shares some fields with S1.
type S2 struct {
	A int
	B []string
}

// S3 has a field of S1 with another type.
type S3 struct {
	A string
	B int
}

// X1 is a value XML can carry.
type X1 struct {
	A string   `xml:"a,attr"`
	N int      `xml:"n"`
	L []string `xml:"l"`
	S *S0      `xml:"s"`
}

// T1 encodes itself, as a user's type might.
type T1 struct{ s string }

func (t T1) MarshalText() ([]byte, error) { return []byte("t1:" + t.s), nil }
func (t *T1) UnmarshalText(b []byte) error {
	if len(b) < 3 || string(b[:3]) != "t1:" {
		return errors.New("not a T1")
	}
	t.s = string(b[3:])
	return nil
}
func (t T1) GobEncode() ([]byte, error) { return t.MarshalText() }
func (t *T1) GobDecode(b []byte) error  { return t.UnmarshalText(b) }

// MyBytes, MyMap and MyInts are named types over those with special encodings.
// F1 cannot be encoded, which shows only after a part of it has been.
type F1 struct {
	A string
	B []int
	C refuses
	D string
}

type refuses struct{ N int }

var errRefuses = errors.New("refuses to be encoded")

func (refuses) GobEncode() ([]byte, error)                              { return nil, errRefuses }
func (*refuses) GobDecode([]byte) error                                 { return errRefuses }
func (refuses) MarshalJSON() ([]byte, error)                            { return nil, errRefuses }
func (refuses) MarshalXML(e *xml.Encoder, start xml.StartElement) error { return errRefuses }

type MyBytes []byte
type MyMap map[MyStr]MyInt
type MyInts []MyInt

// S4 has an embedded struct, bytes and a time.
type S4 struct {
	S0
	Raw  []byte
	When time.Time
	For  time.Duration
}

const nTypes = 34

// value makes the value; equal specs make equal, unshared values.
func (s VSpec) value() interface{} {
	n := s.N
	z := n == 0
	str := func(i int) string {
		if z {
			return ""
		}
		if n >= 1000 && i == 0 { // a long one
			return strings.Repeat("0123456789abcdef", n/16) + fmt.Sprint(n)
		}
		return []string{"a", "bc", "日本", "x<&>\"'", "", "line1 line2", "0", "null"}[(n+i)%8] + fmt.Sprint(n)
	}
	ip := func() *int {
		if z || n%3 == 0 {
			return nil
		}
		x := n
		return &x
	}
	m := func() map[string]int {
		if z || n%5 == 0 {
			return nil
		}
		out := map[string]int{}
		for i := 0; i < n%4; i++ {
			out[fmt.Sprint("k", (n+i)%6)] = n + i
		}
		return out
	}
	ints := func() []int {
		if z || n%5 == 0 {
			return nil
		}
		out := []int{}
		for i := 0; i < n%5; i++ {
			out = append(out, n*(i+1))
		}
		return out
	}
	strs := func() []string {
		if z || n%5 == 0 {
			return nil
		}
		out := []string{}
		for i := 0; i < n%5; i++ {
			out = append(out, str(i))
		}
		return out
	}
	s0 := func(i int) S0 { return S0{n + i*b2i(!z), str(i)} }
	s1 := func() S1 { return S1{n, strs(), m(), ip(), s0(1)} }
	switch s.T % nTypes {
	case 0:
		return []int{0, 1, -1, 1 << 40, -1 << 62, 255}[n%6] + n
	case 1:
		return str(0)
	case 2:
		return ints()
	case 3:
		return m()
	case 4:
		return s1()
	case 5:
		if z {
			return []byte(nil)
		}
		return []byte(str(0) + "\x00\xff")
	case 6:
		return n%2 == 1
	case 7:
		return float64(n) / 3
	case 8:
		return MyInt(n)
	case 9:
		return S2{n, strs()}
	case 10:
		if z {
			return []S0(nil)
		}
		return []S0{s0(0), s0(1)}
	case 11:
		return [3]int{n, n * 2, -n}
	case 12: // a pointer to a struct
		x := s1()
		return &x
	case 13:
		return uint8(n)
	case 14:
		return MyStr(str(0))
	case 15:
		return strs()
	case 16:
		if z {
			return map[string][]int(nil)
		}
		return map[string][]int{"p": ints(), str(0): {n}}
	case 17:
		return S3{str(0), n}
	case 18: // nothing can encode this
		return make(chan int)
	case 19:
		return X1{str(0), n, strs(), nil}
	case 20:
		x := s0(2)
		return X1{str(1), n, strs(), &x}
	case 21:
		return T1{str(0)}
	case 22:
		return map[int]string{n: str(0), n + 1: str(1)}
	case 23:
		return uint64(1)<<63 + uint64(n)
	case 24:
		return int8(n % 128)
	}
	if s.T%nTypes == 33 {
		return F1{str(0), []int{n}, refuses{n}, str(1)}
	}
	if s.T%nTypes > 25 {
		long := []byte(str(0) + "\x00\xff" + strings.Repeat(str(1), n%7*9))
		switch s.T % nTypes {
		case 26:
			if z {
				return MyBytes(nil)
			}
			return MyBytes(long)
		case 27:
			if z {
				return MyMap(nil)
			}
			return MyMap{MyStr(str(0)): MyInt(n), "": 1}
		case 28:
			if z {
				return MyInts(nil)
			}
			return MyInts{1, MyInt(n)}
		case 29:
			if z {
				return S4{}
			}
			return S4{s0(1), long, time.Date(1970+n, 2, 3, 4, 5, 6, 700+n, time.UTC), time.Duration(n) * 1001}
		case 30:
			if z {
				return time.Time{}
			}
			return time.Date(1+n*100, 2, 3, 4, 5, 6, 700+n, time.UTC)
		case 31:
			return [4]byte{byte(n), 0, byte(n >> 1), 255}
		}
		return []string{"", "\x00", "\r\n", "\u2028 \ufffd", "]]>", strings.Repeat("é", 200+n), "\t ", "%"}[n%8]
	}
	// the empty interface
	return []interface{}{nil, true, "s", 3.5, map[string]interface{}{"a": 1.0, "b": []interface{}{"x"}}, []interface{}{1.0, nil}}[n%6]
}

// dest makes a pointer to a value like value's: a destination with that content.
func (s VSpec) dest() interface{} {
	v := s.value()
	if s.T%nTypes == 12 { // not a pointer to a pointer
		return v
	}
	if s.T%nTypes == 25 {
		return &v
	}
	if s.T%nTypes == 18 {
		return new(chan int)
	}
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

// encodable values only: a type number for which the coder works
func encodable(c int) []int {
	switch c % nCoders {
	case 0: // gob
		return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 26, 27, 28, 29, 30, 31, 32}
	case 1, 3: // json
		return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}
	}
	return []int{0, 1, 6, 7, 8, 9, 13, 14, 17, 19, 20, 21, 23, 24}
}

const nCoders = 4

// typedCoder: the coders of the package and one of a user.
func typedCoder(i int) sessionid.Coder {
	if i%nCoders == 3 {
		return userCoder{}
	}
	return coder(i % nCoders)
}

// userCoder puts a type name before JSON and refuses other types unless they are numbers.
type userCoder struct{}

func (userCoder) Encode(v interface{}) ([]byte, error) {
	b, e := json.Marshal(v)
	if e != nil {
		return nil, e
	}
	return append([]byte{'U', 0}, b...), nil
}
func (userCoder) Decode(b []byte, v interface{}) error {
	if len(b) < 2 || b[0] != 'U' || b[1] != 0 {
		return errors.New("userCoder: bad header")
	}
	return json.Unmarshal(b[2:], v)
}

// scramble changes everything reachable from v in place.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() { // and what lies behind it
			w := v.Slice3(0, v.Cap(), v.Cap())
			for i := v.Len(); i < w.Len(); i++ {
				scramble(w.Index(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			scramble(e)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Int, reflect.Int8, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint8, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	}
}

// show prints a value, following pointers.
func show(v interface{}) string {
	if b, e := json.Marshal(v); e == nil && len(b) < 300 {
		return fmt.Sprintf("%T %s", v, b)
	}
	s := fmt.Sprintf("%T %+v", v, v)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// decodeInto is what decoding the bytes into the destination gives: the
// destination afterwards, or the error.
func decodeInto(c sessionid.Coder, b []byte, d VSpec) (interface{}, error) {
	p := d.dest()
	e := c.Decode(cloneB(b), p)
	return p, e
}

// matches says whether got is what decoding b gives, into a destination as it was or a fresh one.
func matches(c sessionid.Coder, b []byte, d VSpec, got interface{}, e error) bool {
	if errors.Is(e, sessionid.ErrKeyNotExists) {
		return false // not what decoding says
	}
	for _, s := range []VSpec{d, {d.T, 0}} {
		w, we := decodeInto(c, b, s)
		if (we == nil) != (e == nil) {
			continue
		}
		if e != nil || sameValue(w, got) {
			return true
		}
	}
	return false
}

func sameValue(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func genVSpec(t *rapid.T, c int) VSpec {
	s := VSpec{N: rapid.IntRange(0, 24).Draw(t, "vn")}
	if rapid.IntRange(0, 9).Draw(t, "odd") == 9 {
		s.T = rapid.IntRange(0, nTypes-1).Draw(t, "vt")
	} else {
		s.T = rapid.SampledFrom(encodable(c)).Draw(t, "vt")
	}
	if rapid.IntRange(0, 39).Draw(t, "refused") == 39 {
		s.T = rapid.SampledFrom([]int{18, 33, 33}).Draw(t, "vt")
	}
	if c%nCoders == 0 && s.T == 25 || s.T == 25 && s.N%6 == 0 && c%nCoders == 2 {
		s.T = 4
	}
	return s
}
