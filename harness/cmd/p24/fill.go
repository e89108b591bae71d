package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
)

var (
	voucherT = reflect.TypeFor[fdoshared.OwnershipVoucher]()
	timeT    = reflect.TypeFor[time.Time]()
)

// filler makes random values of the stored types.
type filler struct {
	r        *rand.Rand
	vouchers []fdoshared.OwnershipVoucher
	big      int // one byte string in so many is far larger than a database block
	unit     int
	kin      string
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.@ /:\"'\\\x00\n\té中🙂"

func (f *filler) text(n int) string {
	l := []rune(letters)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(l[f.r.IntN(len(l))])
	}
	return b.String()
}

func (f *filler) bytes() []byte {
	n := f.r.IntN(48)
	switch {
	case f.big > 0 && f.r.IntN(f.big) == 0:
		n = 1<<20 + f.r.IntN(1<<20)
	case f.r.IntN(12) == 0:
		n = f.r.IntN(6000)
	case f.r.IntN(8) == 0:
		n = 0
	}
	return kit.Bytes(f.r, n)
}

func (f *filler) fill(v reflect.Value, depth int) {
	r := f.r
	switch v.Type() {
	case voucherT:
		v.Set(reflect.ValueOf(f.vouchers[r.IntN(len(f.vouchers))]))
		return
	case timeT:
		v.Set(reflect.ValueOf(time.Unix(r.Int64N(1<<33), 0)))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(r.Uint64()) >> r.IntN(64)
		for v.OverflowInt(x) {
			x >>= 1
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := r.Uint64() >> r.IntN(64)
		for v.OverflowUint(x) {
			x >>= 1
		}
		v.SetUint(x)
	case reflect.String:
		v.SetString(f.text(r.IntN(24)))
	case reflect.Interface:
		v.Set(reflect.ValueOf(f.bytes()))
	case reflect.Pointer:
		if r.IntN(2) == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		f.fill(v.Elem(), depth+1)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(f.bytes())
			return
		}
		n := r.IntN(4)
		if depth <= 2 && r.IntN(10) == 0 {
			n = r.IntN(30)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			f.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := r.IntN(4); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			f.fill(k, depth+1)
			f.fill(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				f.fill(v.Field(i), depth+1)
			}
		}
	default:
		panic("no filler for " + v.Type().String())
	}
}

func filled[T any](f *filler) (x T) {
	f.fill(reflect.ValueOf(&x).Elem(), 0)
	return
}

// dump writes a value so that equal values, and only those, are written alike. Nil and empty lists are equal.
func dump(b *strings.Builder, v reflect.Value) {
	if v.Type() == timeT {
		fmt.Fprintf(b, "t%d", v.Interface().(time.Time).Unix())
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem())
	case reflect.Array, reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := make([]byte, v.Len())
			if b, ok := v.Interface().([]byte); ok {
				copy(x, b)
			} else {
				for i := range x {
					x[i] = byte(v.Index(i).Uint())
				}
			}
			if len(x) > 4096 {
				h := sha256.Sum256(x)
				fmt.Fprintf(b, "h(%d:%x)", len(x), h)
			} else {
				fmt.Fprintf(b, "h%x", x)
			}
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			dump(&e, it.Key())
			e.WriteString(":")
			dump(&e, it.Value())
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString("{" + strings.Join(l, ",") + "}")
	case reflect.Struct:
		b.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				b.WriteString(f.Name + "=")
				dump(b, v.Field(i))
				b.WriteString(" ")
			}
		}
		b.WriteString(")")
	default:
		panic("no dump for " + v.Type().String())
	}
}

// text of a stored value or of a pointer to one.
func text(x any) string {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	var b strings.Builder
	dump(&b, v)
	return b.String()
}

func digest(x any) string {
	h := sha256.Sum256([]byte(text(x)))
	return hex.EncodeToString(h[:16])
}

// diff shows where two texts part.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(len(s), i-60)):min(len(s), i+60)] }
	return fmt.Sprintf("…%s… instead of …%s…", cut(b), cut(a))
}
