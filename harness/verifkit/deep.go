package verifkit

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// rvalue mirrors the layout of reflect.Value, so that unexported fields can be read and copied.
type rvalue struct {
	typ  unsafe.Pointer
	ptr  unsafe.Pointer
	flag uintptr
}

const flagRO = (1 << 5) | (1 << 6)

func unRO(v reflect.Value) reflect.Value {
	(*rvalue)(unsafe.Pointer(&v)).flag &^= flagRO
	return v
}

// opaque types are shared by DeepCopy and printed by name by Dump.
func opaque(t reflect.Type) bool {
	s := t.String()
	switch s {
	case "secp256k1.BitCurve", "elliptic.CurveParams", "time.Location", "sync.Mutex", "sync.RWMutex", "atomic.Value":
		return true
	}
	return strings.HasPrefix(s, "elliptic.") || strings.HasPrefix(s, "nistec.")
}

// DeepCopy copies a value with everything it refers to; aliasing of pointers and maps is preserved.
func DeepCopy(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(x), map[unsafe.Pointer]reflect.Value{}).Interface()
}

func deepCopy(v reflect.Value, memo map[unsafe.Pointer]reflect.Value) reflect.Value {
	v = unRO(v)
	t := v.Type()
	if opaque(t) {
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || opaque(t.Elem()) {
			return v
		}
		p := unsafe.Pointer(v.Pointer())
		if m, ok := memo[p]; ok && m.Type() == t {
			return m
		}
		n := reflect.New(t.Elem())
		nv := n
		if n.Type() != t {
			nv = n.Convert(t)
		}
		memo[p] = nv
		n.Elem().Set(deepCopy(v.Elem(), memo))
		return nv
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(t).Elem()
		n.Set(deepCopy(v.Elem(), memo))
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		p := unsafe.Pointer(v.Pointer())
		if m, ok := memo[p]; ok && m.Type() == t {
			return m
		}
		n := reflect.MakeMapWithSize(t, v.Len())
		memo[p] = n
		it := v.MapRange()
		for it.Next() {
			n.SetMapIndex(deepCopy(it.Key(), memo), deepCopy(it.Value(), memo))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(t, v.Len(), v.Len())
		switch t.Elem().Kind() {
		case reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Int, reflect.Int64, reflect.Uint32:
			reflect.Copy(n, v)
		default:
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(deepCopy(v.Index(i), memo))
			}
		}
		return n
	case reflect.Array:
		n := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), memo))
		}
		return n
	case reflect.Struct:
		n := reflect.New(t).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := unRO(n.Field(i))
			if opaque(f.Type()) {
				continue
			}
			switch f.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
				f.Set(deepCopy(v.Field(i), memo))
			}
		}
		return n
	default:
		return v
	}
}

// Dump prints a value canonically: maps sorted, nil and empty containers alike, pointers followed.
// Fields named in skip are left out. Values with a GobEncode method are printed in that form.
func Dump(x interface{}, skip ...string) string {
	d := dumper{skip: map[string]bool{}, onPath: map[unsafe.Pointer]bool{}}
	for _, s := range skip {
		d.skip[s] = true
	}
	var b strings.Builder
	d.dump(&b, reflect.ValueOf(x))
	return b.String()
}

type dumper struct {
	skip   map[string]bool
	onPath map[unsafe.Pointer]bool
}

type gobEncoder interface{ GobEncode() ([]byte, error) }

func (d *dumper) dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	v = unRO(v)
	t := v.Type()
	if opaque(t) {
		b.WriteString(t.String())
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			p := unsafe.Pointer(v.Pointer())
			if d.onPath[p] {
				b.WriteString("<cycle>")
				return
			}
			d.onPath[p] = true
			defer delete(d.onPath, p)
			if opaque(t.Elem()) {
				b.WriteString(t.String())
				return
			}
			switch e := v.Interface().(type) {
			case *big.Int:
				fmt.Fprintf(b, "%s", e.String())
				return
			case gobEncoder:
				if data, err := e.GobEncode(); err == nil {
					b.WriteString("gob:")
					b.WriteString(hex.EncodeToString(data))
					return
				}
			}
		}
		d.dump(b, v.Elem())
	case reflect.Map:
		var items []string
		it := v.MapRange()
		for it.Next() {
			var kb strings.Builder
			d.dump(&kb, it.Key())
			kb.WriteString("=>")
			d.dump(&kb, it.Value())
			items = append(items, kb.String())
		}
		sort.Strings(items)
		b.WriteString("{")
		b.WriteString(strings.Join(items, ", "))
		b.WriteString("}")
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			buf := make([]byte, v.Len())
			for i := range buf {
				buf[i] = byte(v.Index(i).Uint())
			}
			b.WriteString("x")
			b.WriteString(hex.EncodeToString(buf))
			return
		}
		fallthrough
	case reflect.Array:
		if v.Kind() == reflect.Array && t.Elem().Kind() == reflect.Uint8 {
			buf := make([]byte, v.Len())
			for i := range buf {
				buf[i] = byte(v.Index(i).Uint())
			}
			b.WriteString("x")
			b.WriteString(hex.EncodeToString(buf))
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			d.dump(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Struct:
		if t.String() == "big.Int" || t.String() == "time.Time" {
			n := reflect.New(t)
			n.Elem().Set(v)
			if t.String() == "big.Int" {
				fmt.Fprintf(b, "%s", n.Interface().(*big.Int).String())
			} else {
				b.WriteString("time")
			}
			return
		}
		if reflect.PtrTo(t).Implements(reflect.TypeOf((*gobEncoder)(nil)).Elem()) {
			n := reflect.New(t)
			n.Elem().Set(v)
			if data, err := n.Interface().(gobEncoder).GobEncode(); err == nil {
				b.WriteString("gob:")
				b.WriteString(hex.EncodeToString(data))
				return
			}
		}
		b.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			name := t.Field(i).Name
			if d.skip[name] || name == "state" || name == "sizeCache" || name == "unknownFields" {
				continue
			}
			b.WriteString(name)
			b.WriteString(":")
			d.dump(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString(")")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%t", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%g", v.Float())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(t.String())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}
