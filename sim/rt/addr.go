package simrt

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

// Addresses differ from one execution of a seed to the next. Code that looks at
// one (to put two locks into an order, say) is given a number instead that
// depends on the order in which the objects were first looked at.
var addrs = struct {
	sync.Mutex
	m map[unsafe.Pointer]uintptr // keeps the objects alive, so that no address is reused
}{m: map[unsafe.Pointer]uintptr{}}

func resetAddrs() {
	addrs.Lock()
	if len(addrs.m) > 0 {
		addrs.m = map[unsafe.Pointer]uintptr{}
	}
	addrs.Unlock()
}

// Addr is the simulated address of an object.
func Addr(p unsafe.Pointer) uintptr {
	if p == nil {
		return 0
	}
	addrs.Lock()
	defer addrs.Unlock()
	a, ok := addrs.m[p]
	if !ok {
		n := uintptr(len(addrs.m))
		// neither ascending nor descending
		a = 0xc000000000 + (n*0x9e3779b1%(1<<24))<<6 + n<<30
		if n%2 == 1 {
			a -= 1 << 36
		}
		addrs.m[p] = a
	}
	return a
}

// AddrV is the simulated address of what a reflect.Value refers to.
func AddrV(v reflect.Value) uintptr { return Addr(v.UnsafePointer()) }

// AddrAny is the simulated address of a pointer to be printed.
func AddrAny(v any) uintptr {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.Map, reflect.UnsafePointer, reflect.Func, reflect.Slice:
		return Addr(r.UnsafePointer())
	}
	return 0
}

// Key is a map key: the addresses in it are looked at now.
func Key[K any](k K) K {
	switch r := reflect.ValueOf(k); r.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		Addr(r.UnsafePointer())
	case reflect.Struct, reflect.Array, reflect.Interface:
		Stable(k)
	}
	return k
}

// Stable renders a comparable value without its real addresses.
func Stable(v any) string {
	var b strings.Builder
	stable(&b, reflect.ValueOf(v))
	return b.String()
}

func stable(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%s@%x", v.Type(), Addr(v.UnsafePointer()))
	case reflect.Interface:
		stable(b, v.Elem())
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			stable(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			stable(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	default:
		fmt.Fprintf(b, "%s:%v", v.Type(), v)
	}
}
