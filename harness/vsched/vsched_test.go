package vsched

import "testing"

func TestLostUpdate(t *testing.T) {
	for bound, want := range []bool{false, true, true} {
		seen := map[int]int{}
		var v int
		st := Explore(Limits{Bound: bound}, func() []func() {
			v = 0
			f := func() { Point(); x := v; Point(); v = x + 1; Point() }
			return []func(){f, f}
		}, func(o *Outcome) {
			if o.Bad() != "" {
				t.Fatal(o.Bad())
			}
			seen[v]++
		})
		t.Log(bound, st, seen)
		if (seen[1] > 0) != want {
			t.Fatal(seen)
		}
	}
}

func TestChan(t *testing.T) {
	for bound := 0; bound < 4; bound++ {
		st := Explore(Limits{Bound: bound}, func() []func() {
			var a, b []int
			f := func(p *[]int) func() {
				return func() {
					ch := make(chan int)
					Go(func() {
						defer Close(ch)
						for i := 0; i < 3; i++ {
							SendTo(ch)(i)
						}
					})
					for it, x := Range(ch); it.Next(&x); {
						*p = append(*p, x)
					}
					if len(*p) != 3 || (*p)[2] != 2 {
						panic("bad")
					}
				}
			}
			return []func(){f(&a), f(&b)}
		}, func(o *Outcome) {
			if o.Bad() != "" {
				t.Fatal(o.Bad())
			}
		})
		t.Log(bound, st)
	}
}

func TestDead(t *testing.T) {
	n := 0
	st := Explore(Limits{Bound: 2}, func() []func() {
		ch := make(chan int)
		return []func(){func() { SendTo(ch)(1); SendTo(ch)(2) }, func() { Recv(ch) }}
	}, func(o *Outcome) {
		if o.Deadlock == "" {
			t.Fatal("no deadlock")
		}
		n++
	})
	t.Log(st, n)
	p := 0
	st = Explore(Limits{Bound: 2}, func() []func() {
		ch := make(chan int, 1)
		return []func(){func() { Close(ch); Point() }, func() { SendTo(ch)(1) }}
	}, func(o *Outcome) {
		if o.Panic != "" {
			p++
		}
	})
	t.Log(st, p)
	if p == 0 {
		t.Fatal()
	}
}

func TestSelect(t *testing.T) {
	for bound := 0; bound < 4; bound++ {
		seen := map[string]int{}
		cur := ""
		st := Explore(Limits{Bound: bound}, func() []func() {
			cur = ""
			return []func(){func() {
				a, b, q := make(chan int), make(chan int), make(chan bool)
				Go(func() { SendTo(a)(1) })
				Go(func() { SendTo(b)(2) })
				Go(func() { Close(q) })
				for i := 0; i < 3; i++ {
					x, y, z := SRecv(a), SRecv(b), SRecv(q)
					switch Select(false, x, y, z) {
					case 0:
						if x.Get() != 1 {
							panic("a")
						}
						cur += "a"
						a = nil
					case 1:
						if v, ok := y.Get2(); v != 2 || !ok {
							panic("b")
						}
						cur += "b"
						b = nil
					case 2:
						if v, ok := z.Get2(); v || ok {
							panic("q")
						}
						cur += "q"
						q = nil
					}
				}
				if Select(true, SRecv(a)) != -1 {
					panic("default")
				}
			}}
		}, func(o *Outcome) {
			if o.Bad() != "" {
				t.Fatal(o.Bad(), cur)
			}
			seen[cur]++
		})
		t.Log(bound, st, seen)
		if bound == 3 && len(seen) != 6 {
			t.Fatal(seen)
		}
	}
	// two selects meet
	st := Explore(Limits{Bound: 2}, func() []func() {
		a, b := make(chan int), make(chan int)
		f := func() {
			for n := 0; n < 2; n++ {
				x := SRecv(b)
				switch Select(false, SSend(a)(n), x) {
				}
			}
		}
		g := func() {
			for n := 0; n < 2; n++ {
				x := SRecv(a)
				switch Select(false, SSend(b)(n), x) {
				}
			}
		}
		return []func(){f, g}
	}, func(o *Outcome) {
		if o.Bad() != "" {
			t.Fatal(o.Bad())
		}
	})
	t.Log(st)
}
