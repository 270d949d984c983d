// Package verifmap decides the order of map iterations in packages rewritten by maporder.
package verifmap

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
)

var (
	mu    sync.RWMutex
	picks = map[int64]func(n int) []int{}
)

// With runs f with pick deciding the order of all map iterations of this goroutine: it gets the
// number of keys and returns a permutation of the sorted keys.
func With(pick func(n int) []int, f func()) {
	g := gid()
	mu.Lock()
	old := picks[g]
	picks[g] = pick
	mu.Unlock()
	defer func() {
		mu.Lock()
		if old == nil {
			delete(picks, g)
		} else {
			picks[g] = old
		}
		mu.Unlock()
	}()
	f()
}

func gid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Keys returns the keys of a map in the chosen order.
func Keys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	if v.Len() == 0 {
		return nil
	}
	type kv struct {
		s string
		k interface{}
	}
	var ks []kv
	for _, k := range v.MapKeys() {
		x := k.Interface()
		s := ""
		switch k.Kind() {
		case reflect.Int, reflect.Int64, reflect.Int32:
			s = fmt.Sprintf("%020d", uint64(k.Int())^1<<63)
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			s = fmt.Sprintf("%020d", k.Uint())
		default:
			s = fmt.Sprintf("%#v", x)
		}
		ks = append(ks, kv{s, x})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	r := make([]interface{}, len(ks))
	mu.RLock()
	pick := picks[gid()]
	mu.RUnlock()
	if pick == nil {
		for i := range ks {
			r[i] = ks[i].k
		}
		return r
	}
	for i, j := range pick(len(ks)) {
		r[i] = ks[j].k
	}
	return r
}
