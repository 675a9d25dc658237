package eng

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// DotNode is a node of a parsed dump.
type DotNode struct {
	Label string
	Attr  string
	Kids  []int
	Nil   bool
	Red   bool
}

// ParseDot parses a Graphviz dump and checks that it is well formed: numbers are
// consecutive from N0 and unique, edges lead to declared nodes, every node but N0 has
// one parent and comes after it.
func ParseDot(s string) ([]DotNode, error) {
	lines := strings.Split(s, "\n")
	if len(lines) < 3 || strings.TrimSpace(lines[0]) != "digraph d {" || lines[len(lines)-1] != "" || lines[len(lines)-2] != "}" {
		return nil, fmt.Errorf("not a digraph: %q", s)
	}
	var nodes []DotNode
	type edge struct{ from, to int }
	var edges []edge
	hasEdges := map[int]bool{}
	for _, l := range lines[1 : len(lines)-2] {
		i := strings.IndexByte(l, ' ')
		if i < 2 || l[0] != 'N' {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		n, err := strconv.Atoi(l[1:i])
		if err != nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		rest := l[i+1:]
		if strings.HasPrefix(rest, "-> { ") && strings.HasSuffix(rest, " }") {
			if hasEdges[n] {
				return nil, fmt.Errorf("more than one edge line for N%d", n)
			}
			hasEdges[n] = true
			for _, f := range strings.Fields(rest[5 : len(rest)-2]) {
				if f[0] != 'N' {
					return nil, fmt.Errorf("unexpected line %q", l)
				}
				to, err := strconv.Atoi(f[1:])
				if err != nil {
					return nil, fmt.Errorf("unexpected line %q", l)
				}
				edges = append(edges, edge{n, to})
			}
			continue
		}
		if !strings.HasPrefix(rest, "[label=") || !strings.HasSuffix(rest, "]") {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		rest = rest[len("[label=") : len(rest)-1]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return nil, fmt.Errorf("label isn't a quoted string in %q", l)
		}
		if n != len(nodes) {
			return nil, fmt.Errorf("node N%d is declared where N%d is expected", n, len(nodes))
		}
		a := strings.TrimSpace(rest[len(q):])
		lb, err := strconv.Unquote(q)
		if err != nil {
			return nil, fmt.Errorf("label isn't a quoted string in %q", l)
		}
		nodes = append(nodes, DotNode{Label: lb, Attr: a, Red: strings.Contains(a, "fillcolor=red"), Nil: lb == "nil"})
	}
	parent := make([]int, len(nodes))
	for _, e := range edges {
		if e.from < 0 || e.from >= len(nodes) || e.to < 0 || e.to >= len(nodes) {
			return nil, fmt.Errorf("edge N%d -> N%d to undeclared node", e.from, e.to)
		}
		if e.to == 0 {
			return nil, fmt.Errorf("N0 has a parent")
		}
		parent[e.to]++
		if parent[e.to] > 1 {
			return nil, fmt.Errorf("N%d has several parents", e.to)
		}
		if e.to <= e.from {
			return nil, fmt.Errorf("edge N%d -> N%d makes a cycle", e.from, e.to)
		}
		nodes[e.from].Kids = append(nodes[e.from].Kids, e.to)
	}
	for i := 1; i < len(nodes); i++ {
		if parent[i] == 0 {
			return nil, fmt.Errorf("N%d has no parent", i)
		}
	}
	for i := range nodes {
		if nodes[i].Nil && len(nodes[i].Kids) > 0 {
			return nil, fmt.Errorf("nil node N%d has children", i)
		}
	}
	return nodes, nil
}

// InOrder returns labels in search order (binary nodes only).
func InOrder(ns []DotNode) ([]int, error) {
	var out []int
	var rec func(i int) error
	rec = func(i int) error {
		n := &ns[i]
		if n.Nil && len(n.Kids) == 0 {
			return nil
		}
		if len(n.Kids) != 0 && len(n.Kids) != 2 {
			return fmt.Errorf("N%d has %d children", i, len(n.Kids))
		}
		if len(n.Kids) == 2 {
			if err := rec(n.Kids[0]); err != nil {
				return err
			}
		}
		out = append(out, i)
		if len(n.Kids) == 2 {
			return rec(n.Kids[1])
		}
		return nil
	}
	if len(ns) == 0 {
		return nil, nil
	}
	err := rec(0)
	return out, err
}

// CheckRB checks red-black properties of a dump with n entries and its height.
func CheckRB(ns []DotNode, n int) error {
	if len(ns) == 0 {
		return nil
	}
	if ns[0].Red {
		return fmt.Errorf("the root is red")
	}
	var rec func(i int) (black, depth int, err error)
	rec = func(i int) (int, int, error) {
		x := &ns[i]
		if x.Nil {
			return 0, 0, nil
		}
		var bl [2]int
		d := 0
		for k, c := range x.Kids {
			if k > 1 {
				return 0, 0, fmt.Errorf("N%d has more than two children", i)
			}
			if x.Red && ns[c].Red && !ns[c].Nil {
				return 0, 0, fmt.Errorf("red node N%d (%s) has red child N%d (%s)", i, x.Label, c, ns[c].Label)
			}
			b, dd, err := rec(c)
			if err != nil {
				return 0, 0, err
			}
			bl[k] = b
			if dd > d {
				d = dd
			}
		}
		if len(x.Kids) > 0 && bl[0] != bl[1] {
			return 0, 0, fmt.Errorf("N%d (%s) has %d and %d black nodes on its paths", i, x.Label, bl[0], bl[1])
		}
		b := bl[0]
		if !x.Red {
			b++
		}
		return b, d + 1, nil
	}
	_, d, err := rec(0)
	if err != nil {
		return err
	}
	return CheckDepth(d, n)
}

// CheckDepth checks depth <= 2*log2(n+1), that is 2^depth <= (n+1)^2.
func CheckDepth(d, n int) error {
	hi, lo := bits.Mul64(uint64(n+1), uint64(n+1))
	if d >= 63 || hi == 0 && uint64(1)<<uint(d) > lo {
		return fmt.Errorf("an entry of %d is at depth %d", n, d)
	}
	return nil
}
