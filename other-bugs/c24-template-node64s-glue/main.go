package main
import (
	"fmt"
	"net"
	"os"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

func n(s string) *net.IPNet {
	_, r, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return r
}

func main() {
	t := iptree8.NewTree()
	t.InplaceInsertNet(n("2001:db8::/34"), 1)
	t.InplaceInsertNet(n("2001:db8:4000::/34"), 2)
	t.InplaceInsertNet(n("2001:db8::/33"), 3)
	if v, ok := t.GetByNet(n("2001:db8::/33")); !ok || v != 3 {
		fmt.Println(v, ok)
		os.Exit(1)
	}
}
