package vsched

import (
	"math"
	"reflect"
	"unsafe"
)

// Hash is a hash of everything that is reachable from the pointers, the unused
// capacity of slices included.
func Hash(roots ...interface{}) uint64 {
	w := &walker{seen: map[visit]bool{}, h: 14695981039346656037}
	for _, r := range roots {
		w.walk(reflect.ValueOf(r), 0)
	}
	return w.h
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

type walker struct {
	seen map[visit]bool
	h    uint64
}

func (w *walker) add(x uint64) {
	for i := 0; i < 8; i++ {
		w.h = (w.h ^ (x & 255)) * 1099511628211
		x >>= 8
	}
}

func (w *walker) bytes(b []byte) {
	h := w.h
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	w.h = h
	w.add(uint64(len(b)))
}

// open makes a value of an unexported field usable.
func open(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (w *walker) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 60 {
		w.add(1)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.add(2)
		} else {
			w.add(3)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		w.add(math.Float64bits(v.Float()))
	case reflect.String:
		w.bytes([]byte(v.String()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		w.add(uint64(v.Pointer()))
	case reflect.Ptr:
		if v.IsNil() {
			w.add(4)
			return
		}
		k := visit{unsafe.Pointer(v.Pointer()), v.Type()}
		w.add(uint64(v.Pointer()))
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		if foreign(v.Type().Elem()) {
			return
		}
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			w.add(5)
			return
		}
		w.walk(v.Elem(), depth+1)
	case reflect.Slice:
		w.add(uint64(v.Pointer()))
		w.add(uint64(v.Len()))
		w.add(uint64(v.Cap()))
		if v.Cap() == 0 {
			return
		}
		k := visit{unsafe.Pointer(v.Pointer()), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.bytes(unsafe.Slice((*byte)(unsafe.Pointer(v.Pointer())), v.Len()))
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			w.walk(full.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if foreign(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(open(v.Field(i)), depth+1)
		}
	case reflect.Map:
		w.add(uint64(v.Pointer()))
		w.add(uint64(v.Len()))
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			e := &walker{seen: w.seen, h: 14695981039346656037}
			e.walk(it.Key(), depth+1)
			e.walk(it.Value(), depth+1)
			sum += e.h
		}
		w.add(sum)
	}
}

// foreign are types of the standard library that guard themselves.
func foreign(t reflect.Type) bool {
	switch t.PkgPath() {
	case "sync", "sync/atomic", "os", "internal/poll", "runtime", "reflect", "time":
		return true
	}
	return false
}
