package main
import (
	"fmt"
	"os"
	"strings"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
)

func main() {
	t := strtree32.NewTreeWithCustomComparison(func(a, b string) int { return strings.Compare(b, a) })
	t = t.Insert("a", 1).Insert("b", 2).Insert("c", 3).Insert("d", 4)
	t, _ = t.Delete("d")
	for i, k := range []string{"a", "b", "c"} {
		if v, ok := t.Get(k); !ok || v != uint32(i+1) {
			fmt.Println(k, v, ok)
			os.Exit(1)
		}
	}
}
