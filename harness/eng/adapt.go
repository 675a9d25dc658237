package eng

import (
	"fmt"
	"net"

	"vsched"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
	dt16 "github.com/infobloxopen/go-trees/uintX/domaintree16"
	dt32 "github.com/infobloxopen/go-trees/uintX/domaintree32"
	dt64 "github.com/infobloxopen/go-trees/uintX/domaintree64"
	dt8 "github.com/infobloxopen/go-trees/uintX/domaintree8"
	it16 "github.com/infobloxopen/go-trees/uintX/iptree16"
	it32 "github.com/infobloxopen/go-trees/uintX/iptree32"
	it64 "github.com/infobloxopen/go-trees/uintX/iptree64"
	it8 "github.com/infobloxopen/go-trees/uintX/iptree8"
	st16 "github.com/infobloxopen/go-trees/uintX/strtree16"
	st32 "github.com/infobloxopen/go-trees/uintX/strtree32"
	st64 "github.com/infobloxopen/go-trees/uintX/strtree64"
	st8 "github.com/infobloxopen/go-trees/uintX/strtree8"
)

type strTree[T any, V any] interface {
	Insert(string, V) T
	InplaceInsert(string, V)
	Get(string) (V, bool)
	Delete(string) (T, bool)
	IsEmpty() bool
	Dot() string
}

// drain limits: an enumeration that delivers more is broken.
const drainLimit = 1 << 20

// Stream gives items of an enumeration one by one; ok is false when the channel is
// closed.
type Stream func() (key string, val interface{}, ok bool)

// stream wraps a channel of an enumeration.
func stream[P any](ch <-chan P, conv func(P) (string, interface{})) Stream {
	return func() (string, interface{}, bool) {
		p, ok := vsched.Recv2(ch)
		if !ok {
			return "", nil, false
		}
		k, v := conv(p)
		return k, v, true
	}
}

// Fn drains an enumeration.
func (e EnumOp) Fn(t interface{}) (ks []string, vs []interface{}) {
	st := e.Open(t)
	for {
		k, v, ok := st()
		if !ok {
			return
		}
		ks = append(ks, k)
		vs = append(vs, v)
		if len(ks) > drainLimit {
			return
		}
	}
}

func mkStr[T strTree[T, V], V any](name string, vals []interface{}, zero interface{}, news []NamedNew, enum func(T) Stream, isNil func(T) bool) *Impl {
	im := &Impl{Name: name, New: news, Zero: zero, Vals: vals}
	im.Ins = []InsOp{
		{"Insert", Human, false, func(t, k, v interface{}) interface{} { return t.(T).Insert(k.(string), as[V](v)) }},
		{"InplaceInsert", Human, true, func(t, k, v interface{}) interface{} {
			t.(T).InplaceInsert(k.(string), as[V](v))
			return t
		}},
	}
	im.Gets = []GetOp{{"Get", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Get(k.(string)) }}}
	im.Dels = []DelOp{{"Delete", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Delete(k.(string)) }}}
	im.Enums = []EnumOp{{"Enumerate", Human, func(t interface{}) Stream { return enum(t.(T)) }}}
	im.IsEmpty = func(t interface{}) bool { return t.(T).IsEmpty() }
	im.Dot = func(t interface{}) string { return t.(T).Dot() }
	im.IsNil = func(t interface{}) bool { return isNil(t.(T)) }
	return im
}

// Cmp is a comparison function for string trees, nil for the default one.
type Cmp struct {
	Name string
	Fn   func(a, b string) int
}

// Variants of value types: 0 for generic trees.
var Variants = []int{0, 8, 16, 32, 64}

// StrImpl makes an adapter for string trees.
func StrImpl(variant int, cmp Cmp) *Impl {
	nm := fmt.Sprintf("strtree%s", vs(variant))
	if cmp.Fn != nil {
		nm += "(" + cmp.Name + ")"
	}
	mk := "NewTree()"
	if cmp.Fn != nil {
		mk = "NewTreeWithCustomComparison(" + cmp.Name + ")"
	}
	switch variant {
	case 0:
		im := mkStr(nm, AnyVals(), nil, []NamedNew{
			{"strtree." + mk, func() interface{} {
				if cmp.Fn != nil {
					return strtree.NewTreeWithCustomComparison(cmp.Fn)
				}
				return strtree.NewTree()
			}}},
			func(t *strtree.Tree) Stream {
				return stream(t.Enumerate(), func(p strtree.Pair) (string, interface{}) { return p.Key, p.Value })
			}, func(t *strtree.Tree) bool { return t == nil })
		if cmp.Fn == nil {
			im.New = append(im.New, NamedNew{"(*strtree.Tree)(nil)", func() interface{} { return (*strtree.Tree)(nil) }})
		}
		return im
	case 8:
		im := mkStr(nm, UintVals[uint8](8), uint8(0), []NamedNew{
			{"strtree8." + mk, func() interface{} {
				if cmp.Fn != nil {
					return st8.NewTreeWithCustomComparison(cmp.Fn)
				}
				return st8.NewTree()
			}}},
			func(t *st8.Tree) Stream {
				return stream(t.Enumerate(), func(p st8.Pair) (string, interface{}) { return p.Key, p.Value })
			}, func(t *st8.Tree) bool { return t == nil })
		if cmp.Fn == nil {
			im.New = append(im.New, NamedNew{"(*strtree8.Tree)(nil)", func() interface{} { return (*st8.Tree)(nil) }})
		}
		return im
	case 16:
		im := mkStr(nm, UintVals[uint16](16), uint16(0), []NamedNew{
			{"strtree16." + mk, func() interface{} {
				if cmp.Fn != nil {
					return st16.NewTreeWithCustomComparison(cmp.Fn)
				}
				return st16.NewTree()
			}}},
			func(t *st16.Tree) Stream {
				return stream(t.Enumerate(), func(p st16.Pair) (string, interface{}) { return p.Key, p.Value })
			}, func(t *st16.Tree) bool { return t == nil })
		if cmp.Fn == nil {
			im.New = append(im.New, NamedNew{"(*strtree16.Tree)(nil)", func() interface{} { return (*st16.Tree)(nil) }})
		}
		return im
	case 32:
		im := mkStr(nm, UintVals[uint32](32), uint32(0), []NamedNew{
			{"strtree32." + mk, func() interface{} {
				if cmp.Fn != nil {
					return st32.NewTreeWithCustomComparison(cmp.Fn)
				}
				return st32.NewTree()
			}}},
			func(t *st32.Tree) Stream {
				return stream(t.Enumerate(), func(p st32.Pair) (string, interface{}) { return p.Key, p.Value })
			}, func(t *st32.Tree) bool { return t == nil })
		if cmp.Fn == nil {
			im.New = append(im.New, NamedNew{"(*strtree32.Tree)(nil)", func() interface{} { return (*st32.Tree)(nil) }})
		}
		return im
	case 64:
		im := mkStr(nm, UintVals[uint64](64), uint64(0), []NamedNew{
			{"strtree64." + mk, func() interface{} {
				if cmp.Fn != nil {
					return st64.NewTreeWithCustomComparison(cmp.Fn)
				}
				return st64.NewTree()
			}}},
			func(t *st64.Tree) Stream {
				return stream(t.Enumerate(), func(p st64.Pair) (string, interface{}) { return p.Key, p.Value })
			}, func(t *st64.Tree) bool { return t == nil })
		if cmp.Fn == nil {
			im.New = append(im.New, NamedNew{"(*strtree64.Tree)(nil)", func() interface{} { return (*st64.Tree)(nil) }})
		}
		return im
	}
	panic("unknown variant")
}

func vs(variant int) string {
	if variant == 0 {
		return ""
	}
	return fmt.Sprint(variant)
}

// DLImpl makes an adapter for label trees.
func DLImpl() *Impl {
	type T = *dltree.Tree
	im := &Impl{Name: "dltree", Vals: AnyVals()}
	im.New = []NamedNew{
		{"dltree.NewTree()", func() interface{} { return dltree.NewTree() }},
		{"(*dltree.Tree)(nil)", func() interface{} { return (*dltree.Tree)(nil) }},
	}
	im.Ins = []InsOp{
		{"Insert", Human, false, func(t, k, v interface{}) interface{} { return t.(T).Insert(k.(string), v) }},
		{"RawInsert", Raw, false, func(t, k, v interface{}) interface{} { return t.(T).RawInsert(k.(string), v) }},
		{"InplaceInsert", Human, true, func(t, k, v interface{}) interface{} { t.(T).InplaceInsert(k.(string), v); return t }},
		{"RawInplaceInsert", Raw, true, func(t, k, v interface{}) interface{} { t.(T).RawInplaceInsert(k.(string), v); return t }},
	}
	im.Gets = []GetOp{
		{"Get", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Get(k.(string)) }},
		{"RawGet", Raw, false, func(t, k interface{}) (interface{}, bool) { return t.(T).RawGet(k.(string)) }},
	}
	im.Dels = []DelOp{
		{"Delete", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Delete(k.(string)) }},
		{"RawDelete", Raw, false, func(t, k interface{}) (interface{}, bool) { return t.(T).RawDelete(k.(string)) }},
	}
	pair := func(p dltree.Pair) (string, interface{}) { return p.Key, p.Value }
	im.Enums = []EnumOp{
		{"Enumerate", Human, func(t interface{}) Stream { return stream(t.(T).Enumerate(), pair) }},
		{"RawEnumerate", Raw, func(t interface{}) Stream { return stream(t.(T).RawEnumerate(), pair) }},
	}
	im.IsEmpty = func(t interface{}) bool { return t.(T).IsEmpty() }
	im.Dot = func(t interface{}) string { return t.(T).Dot() }
	im.IsNil = func(t interface{}) bool { return t.(T) == nil }
	return im
}

type domTree[T any, V any] interface {
	Insert(domain.Name, V) T
	InplaceInsert(domain.Name, V)
	Get(domain.Name) (V, bool)
	Delete(domain.Name) (T, bool)
	DeleteSubdomains(domain.Name) (T, bool)
}

func mkDom[T domTree[T, V], V any](name string, vals []interface{}, zero interface{}, mk, null func() T, enum func(T) Stream, isNil func(T) bool) *Impl {
	im := &Impl{Name: name, Zero: zero, Vals: vals}
	im.New = []NamedNew{
		{"new(" + name + ".Node)", func() interface{} { return mk() }},
		{"(*" + name + ".Node)(nil)", func() interface{} { return null() }},
	}
	im.Ins = []InsOp{
		{"Insert", Human, false, func(t, k, v interface{}) interface{} { return t.(T).Insert(k.(domain.Name), as[V](v)) }},
		{"InplaceInsert", Human, true, func(t, k, v interface{}) interface{} {
			t.(T).InplaceInsert(k.(domain.Name), as[V](v))
			return t
		}},
	}
	im.Gets = []GetOp{{"Get", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Get(k.(domain.Name)) }}}
	im.Dels = []DelOp{
		{"Delete", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).Delete(k.(domain.Name)) }},
		{"DeleteSubdomains", Human, true, func(t, k interface{}) (interface{}, bool) {
			return t.(T).DeleteSubdomains(k.(domain.Name))
		}},
	}
	im.Enums = []EnumOp{{"Enumerate", Human, func(t interface{}) Stream { return enum(t.(T)) }}}
	im.IsNil = func(t interface{}) bool { return isNil(t.(T)) }
	return im
}

// DomImpl makes an adapter for domain trees.
func DomImpl(variant int) *Impl {
	switch variant {
	case 0:
		type N = *domaintree.Node
		return mkDom[N, interface{}]("domaintree", AnyVals(), nil, func() N { return new(domaintree.Node) }, func() N { return nil },
			func(t N) Stream {
				return stream(t.Enumerate(), func(p domaintree.Pair) (string, interface{}) { return CanonText(p.Key), p.Value })
			}, func(t N) bool { return t == nil })
	case 8:
		type N = *dt8.Node
		return mkDom[N, uint8]("domaintree8", UintVals[uint8](8), uint8(0), func() N { return new(dt8.Node) }, func() N { return nil },
			func(t N) Stream {
				return stream(t.Enumerate(), func(p dt8.Pair) (string, interface{}) { return CanonText(p.Key), p.Value })
			}, func(t N) bool { return t == nil })
	case 16:
		type N = *dt16.Node
		return mkDom[N, uint16]("domaintree16", UintVals[uint16](16), uint16(0), func() N { return new(dt16.Node) }, func() N { return nil },
			func(t N) Stream {
				return stream(t.Enumerate(), func(p dt16.Pair) (string, interface{}) { return CanonText(p.Key), p.Value })
			}, func(t N) bool { return t == nil })
	case 32:
		type N = *dt32.Node
		return mkDom[N, uint32]("domaintree32", UintVals[uint32](32), uint32(0), func() N { return new(dt32.Node) }, func() N { return nil },
			func(t N) Stream {
				return stream(t.Enumerate(), func(p dt32.Pair) (string, interface{}) { return CanonText(p.Key), p.Value })
			}, func(t N) bool { return t == nil })
	case 64:
		type N = *dt64.Node
		return mkDom[N, uint64]("domaintree64", UintVals[uint64](64), uint64(0), func() N { return new(dt64.Node) }, func() N { return nil },
			func(t N) Stream {
				return stream(t.Enumerate(), func(p dt64.Pair) (string, interface{}) { return CanonText(p.Key), p.Value })
			}, func(t N) bool { return t == nil })
	}
	panic("unknown variant")
}

type ipTree[T any, V any] interface {
	InsertNet(*net.IPNet, V) T
	InplaceInsertNet(*net.IPNet, V)
	InsertIP(net.IP, V) T
	InplaceInsertIP(net.IP, V)
	GetByNet(*net.IPNet) (V, bool)
	GetByIP(net.IP) (V, bool)
	DeleteByNet(*net.IPNet) (T, bool)
	DeleteByIP(net.IP) (T, bool)
}

// OnNet is called for each network that comes from a tree, after it has been read.
var OnNet func(n *net.IPNet, text string)

// NetText is an exact text of a network as enumerations must return it.
func NetText(n *net.IPNet) string {
	s := netText(n)
	if OnNet != nil {
		OnNet(n, s)
	}
	return s
}

func netText(n *net.IPNet) string {
	if n == nil {
		return "nil"
	}
	return fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
}

// lend makes a copy of a network for an insertion, the copy is spoiled afterwards:
// callers are free to reuse their buffers.
func lend(n *net.IPNet) (*net.IPNet, func()) {
	if n == nil {
		return nil, func() {}
	}
	c := &net.IPNet{IP: append(net.IP(nil), n.IP...), Mask: append(net.IPMask(nil), n.Mask...)}
	return c, func() {
		for i := range c.IP {
			c.IP[i] ^= 0xa5
		}
		for i := range c.Mask {
			c.Mask[i] ^= 0xff
		}
	}
}

func mkIP[T ipTree[T, V], V any](name string, vals []interface{}, zero interface{}, mk, null, empty func() T, enum func(T) Stream, isNil func(T) bool) *Impl {
	im := &Impl{Name: name, Zero: zero, Vals: vals}
	im.New = []NamedNew{
		{name + ".NewTree()", func() interface{} { return mk() }},
		{"(*" + name + ".Tree)(nil)", func() interface{} { return null() }},
		{"new(" + name + ".Tree)", func() interface{} { return empty() }},
	}
	im.Ins = []InsOp{
		{"InsertNet", Human, false, func(t, k, v interface{}) interface{} {
			n, done := lend(k.(*net.IPNet))
			h := t.(T).InsertNet(n, as[V](v))
			done()
			return h
		}},
		{"InplaceInsertNet", Human, true, func(t, k, v interface{}) interface{} {
			n, done := lend(k.(*net.IPNet))
			t.(T).InplaceInsertNet(n, as[V](v))
			done()
			return t
		}},
		{"InsertIP", Raw, false, func(t, k, v interface{}) interface{} { return t.(T).InsertIP(k.(net.IP), as[V](v)) }},
		{"InplaceInsertIP", Raw, true, func(t, k, v interface{}) interface{} {
			t.(T).InplaceInsertIP(k.(net.IP), as[V](v))
			return t
		}},
	}
	im.Gets = []GetOp{
		{"GetByNet", Human, false, func(t, k interface{}) (interface{}, bool) { return t.(T).GetByNet(k.(*net.IPNet)) }},
		{"GetByIP", Raw, false, func(t, k interface{}) (interface{}, bool) { return t.(T).GetByIP(k.(net.IP)) }},
	}
	im.Dels = []DelOp{
		{"DeleteByNet", Human, true, func(t, k interface{}) (interface{}, bool) { return t.(T).DeleteByNet(k.(*net.IPNet)) }},
		{"DeleteByIP", Raw, true, func(t, k interface{}) (interface{}, bool) { return t.(T).DeleteByIP(k.(net.IP)) }},
	}
	im.Enums = []EnumOp{{"Enumerate", Human, func(t interface{}) Stream { return enum(t.(T)) }}}
	im.IsNil = func(t interface{}) bool { return isNil(t.(T)) }
	return im
}

// IPImpl makes an adapter for IP trees.
func IPImpl(variant int) *Impl {
	switch variant {
	case 0:
		type T = *iptree.Tree
		return mkIP[T, interface{}]("iptree", AnyVals(), nil, iptree.NewTree, func() T { return nil }, func() T { return new(iptree.Tree) },
			func(t T) Stream {
				return stream(t.Enumerate(), func(p iptree.Pair) (string, interface{}) { return NetText(p.Key), p.Value })
			}, func(t T) bool { return t == nil })
	case 8:
		type T = *it8.Tree
		return mkIP[T, uint8]("iptree8", UintVals[uint8](8), uint8(0), it8.NewTree, func() T { return nil }, func() T { return new(it8.Tree) },
			func(t T) Stream {
				return stream(t.Enumerate(), func(p it8.Pair) (string, interface{}) { return NetText(p.Key), p.Value })
			}, func(t T) bool { return t == nil })
	case 16:
		type T = *it16.Tree
		return mkIP[T, uint16]("iptree16", UintVals[uint16](16), uint16(0), it16.NewTree, func() T { return nil }, func() T { return new(it16.Tree) },
			func(t T) Stream {
				return stream(t.Enumerate(), func(p it16.Pair) (string, interface{}) { return NetText(p.Key), p.Value })
			}, func(t T) bool { return t == nil })
	case 32:
		type T = *it32.Tree
		return mkIP[T, uint32]("iptree32", UintVals[uint32](32), uint32(0), it32.NewTree, func() T { return nil }, func() T { return new(it32.Tree) },
			func(t T) Stream {
				return stream(t.Enumerate(), func(p it32.Pair) (string, interface{}) { return NetText(p.Key), p.Value })
			}, func(t T) bool { return t == nil })
	case 64:
		type T = *it64.Tree
		return mkIP[T, uint64]("iptree64", UintVals[uint64](64), uint64(0), it64.NewTree, func() T { return nil }, func() T { return new(it64.Tree) },
			func(t T) Stream {
				return stream(t.Enumerate(), func(p it64.Pair) (string, interface{}) { return NetText(p.Key), p.Value })
			}, func(t T) bool { return t == nil })
	}
	panic("unknown variant")
}

// P is a prefix for integer radix trees.
type P struct {
	Key  uint64
	Bits int
}

type numNode[K any, T any] interface {
	comparable
	Insert(K, int, interface{}) T
	InplaceInsert(K, int, interface{}) T
	Match(K, int) (interface{}, bool)
	ExactMatch(K, int) (interface{}, bool)
	FindNode(K, int) T
	Delete(K, int) (T, bool)
	Dot() string
	Enumerate() chan T
}

func mkNum[K ~uint32 | ~uint64, T numNode[K, T]](name string, size int, get func(T) (uint64, int, bool, interface{})) *Impl {
	im := &Impl{Name: name, Vals: AnyVals(), NilOK: true}
	var null T
	im.New = []NamedNew{{"(*numtree." + name + ")(nil)", func() interface{} { return null }}}
	im.Ins = []InsOp{
		{"Insert", Human, false, func(t, k, v interface{}) interface{} { p := k.(P); return t.(T).Insert(K(p.Key), p.Bits, v) }},
		{"InplaceInsert", Human, true, func(t, k, v interface{}) interface{} {
			p := k.(P)
			return t.(T).InplaceInsert(K(p.Key), p.Bits, v)
		}},
	}
	im.Gets = []GetOp{
		{"Match", Human, false, func(t, k interface{}) (interface{}, bool) { p := k.(P); return t.(T).Match(K(p.Key), p.Bits) }},
		{"ExactMatch", Human, true, func(t, k interface{}) (interface{}, bool) { p := k.(P); return t.(T).ExactMatch(K(p.Key), p.Bits) }},
		{"FindNode", Human, true, func(t, k interface{}) (interface{}, bool) {
			p := k.(P)
			n := t.(T).FindNode(K(p.Key), p.Bits)
			if n == null {
				return nil, false
			}
			key, b, leaf, v := get(n)
			w := p.Bits
			if w < 0 {
				w = 0
			}
			if w > size {
				w = size
			}
			if !leaf || b != w || maskTo(key, b, size) != maskTo(p.Key, w, size) {
				return fmt.Sprintf("wrong node %#x/%d leaf=%v", key, b, leaf), true
			}
			return v, true
		}},
	}
	im.Dels = []DelOp{{"Delete", Human, true, func(t, k interface{}) (interface{}, bool) { p := k.(P); return t.(T).Delete(K(p.Key), p.Bits) }}}
	im.Enums = []EnumOp{{"Enumerate", Human, func(t interface{}) Stream {
		return stream(t.(T).Enumerate(), func(n T) (string, interface{}) {
			if n == null {
				return "nil node", nil
			}
			key, b, leaf, v := get(n)
			s := PText(maskTo(key, b, size), b, size)
			if !leaf {
				s += " without data"
			}
			return s, v
		})
	}}}
	im.Dot = func(t interface{}) string { return t.(T).Dot() }
	im.IsNil = func(t interface{}) bool { return t.(T) == null }
	return im
}

// PText writes a prefix.
func PText(key uint64, bits, size int) string {
	if size == 32 {
		return fmt.Sprintf("%08x/%d", key, bits)
	}
	return fmt.Sprintf("%016x/%d", key, bits)
}

func maskTo(key uint64, bits, size int) uint64 {
	if bits < 0 {
		bits = 0
	}
	if bits > size {
		bits = size
	}
	if size == 32 {
		key &= 0xffffffff
	}
	if bits == 0 {
		return 0
	}
	return key &^ (1<<uint(size-bits) - 1)
}

// NumImpl makes an adapter for integer radix trees of given key size.
func NumImpl(size int) *Impl {
	if size == 32 {
		return mkNum[uint32, *numtree.Node32]("Node32", 32, func(n *numtree.Node32) (uint64, int, bool, interface{}) {
			return uint64(n.Key), int(n.Bits), n.Leaf, n.Value
		})
	}
	return mkNum[uint64, *numtree.Node64]("Node64", 64, func(n *numtree.Node64) (uint64, int, bool, interface{}) {
		return n.Key, int(n.Bits), n.Leaf, n.Value
	})
}
