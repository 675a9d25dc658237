package eng

import (
	"errors"
	"math"
	"math/bits"
	"reflect"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
)

const nVals = 131

type custom struct {
	A int
	B string
}

// AnyVals are values for generic trees.
func AnyVals() []interface{} {
	one, two := 1, 2
	l := []interface{}{
		nil, 0, "", true, false, &one, &two, (*int)(nil), struct{}{}, [2]int{1, 2},
		custom{}, custom{1, "x"}, &custom{}, (*custom)(nil), 0.5, uint8(0), uint64(0),
		(*numtree.Node32)(nil), (*numtree.Node64)(nil), (*domaintree.Node)(nil),
		(*strtree.Tree)(nil), (*iptree.Tree)(nil), new(domaintree.Node), new(strtree.Tree), new(numtree.Node64),
		error(nil), "v", "nil", 'x', -1, uint8(255), ^uint64(0),
	}
	// error(nil) is the same as nil
	var u []interface{}
	seenNil := false
	for _, v := range l {
		if v == nil {
			if seenNil {
				continue
			}
			seenNil = true
		}
		u = append(u, v)
	}
	for i := 0; len(u) < nVals; i++ {
		u = append(u, 1000+i)
	}
	return u
}

type tagged struct {
	Tags []string
}

// OpaqueVals are values which are easy to spoil by looking at them: not comparable, equal
// but different, unequal to themselves.
func OpaqueVals() []interface{} {
	var np *custom
	var ne error
	a := []int{1, 2, 3}
	return []interface{}{
		nil, a, a[:2], []int(nil), []int{}, map[string]int{"a": 1}, map[string]int(nil), func() int { return 1 }, (func())(nil),
		math.NaN(), 0.0, math.Copysign(0, -1), tagged{[]string{"x"}}, &tagged{}, [1]interface{}{[]int{1}}, np, &ne,
		errors.New("e"), make(chan int), struct{}{}, 0, false, "", domaintree.Node{}, iptree.Pair{Value: []int{1}},
		(*numtree.Node64)(nil), &numtree.Node64{Leaf: true}, (*iptree.Tree)(nil), domain.Name{},
	}
}

// Same tells if two values are the same one, which is more than equality.
func Same(a, b interface{}) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case int:
		b, ok := b.(int)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case float64:
		b, ok := b.(float64)
		return ok && math.Float64bits(a) == math.Float64bits(b)
	case []int:
		b, ok := b.([]int)
		return ok && len(a) == len(b) && cap(a) == cap(b) && (a == nil) == (b == nil) && (cap(a) == 0 || &a[:1][0] == &b[:1][0])
	case map[string]int:
		b, ok := b.(map[string]int)
		return ok && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	case func() int:
		b, ok := b.(func() int)
		return ok && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	case func():
		b, ok := b.(func())
		return ok && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	case tagged:
		b, ok := b.(tagged)
		return ok && len(a.Tags) == len(b.Tags) && (len(a.Tags) == 0 || &a.Tags[0] == &b.Tags[0])
	case [1]interface{}:
		b, ok := b.([1]interface{})
		return ok && Same(a[0], b[0])
	case iptree.Pair:
		b, ok := b.(iptree.Pair)
		return ok && a.Key == b.Key && Same(a.Value, b.Value)
	}
	return a == b
}

type unsigned interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64
}

// UintVals are values for trees of unsigned integers: zero and the maximum first, then
// patterns with high bits.
func UintVals[V unsigned](w uint) []interface{} {
	max := ^uint64(0) >> (64 - w)
	seen := map[uint64]bool{}
	var u []interface{}
	add := func(x uint64) {
		x &= max
		if !seen[x] && len(u) < nVals {
			seen[x] = true
			u = append(u, V(x))
		}
	}
	add(0)
	add(max)
	add(1 << (w - 1))
	add(1)
	add(0x5555555555555555)
	add(0xaaaaaaaaaaaaaaaa)
	add(max >> 1)
	for i := uint(0); i < w; i++ {
		add(1 << (w - 1 - i))
	}
	for i := uint64(3); len(u) < nVals; i++ {
		add(bits.RotateLeft64(i*0x9e3779b97f4a7c15, int(i%64)) ^ i)
		add(i)
	}
	return u
}

func as[V any](x interface{}) V {
	v, _ := x.(V)
	return v
}
