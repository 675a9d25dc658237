From 29bfd33a69ae40dad267a702882a30c81b7de1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 1/7] fix: make domain tree lookups see the value of the root
 domain

---
 domaintree/domaintree.go                      | 6 ++++++
 uintX/domaintree16/domaintree.go              | 6 ++++++
 uintX/domaintree32/domaintree.go              | 6 ++++++
 uintX/domaintree64/domaintree.go              | 6 ++++++
 uintX/domaintree8/domaintree.go               | 6 ++++++
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..e23dfef 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -96,6 +96,12 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 	var value interface{}
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
 		if !ok {
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..3fe3f4b 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -94,6 +94,12 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 	var value uint16
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if !ok {
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..78d9fd0 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -94,6 +94,12 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 	var value uint32
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if !ok {
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..67490da 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -94,6 +94,12 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 	var value uint64
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if !ok {
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..52a6ea5 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -94,6 +94,12 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 	var value uint8
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if !ok {
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..05fd689 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -94,6 +94,12 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 	var value uint{{.bits}}
 	hasValue := false
 
+	// The root domain contains any other one.
+	if n.hasValue {
+		value = n.value
+		hasValue = true
+	}
+
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if !ok {
-- 
2.43.0


From d67ea46ddcdb1f560fbb8b475a8437f795dd7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 2/7] fix: let InplaceInsert add subdomains below nodes made by
 Insert

---
 domaintree/domaintree.go                      | 5 +++++
 uintX/domaintree16/domaintree.go              | 5 +++++
 uintX/domaintree32/domaintree.go              | 5 +++++
 uintX/domaintree64/domaintree.go              | 5 +++++
 uintX/domaintree8/domaintree.go               | 5 +++++
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index e23dfef..f753ac8 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -59,6 +59,11 @@ func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = dltree.NewTree()
+		}
+
 		item, ok := n.branches.RawGet(label)
 		if ok {
 			n = item.(*Node)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 3fe3f4b..28eeb48 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -57,6 +57,11 @@ func (n *Node) InplaceInsert(d domain.Name, v uint16) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 78d9fd0..2a182f8 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -57,6 +57,11 @@ func (n *Node) InplaceInsert(d domain.Name, v uint32) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 67490da..e4b0edd 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -57,6 +57,11 @@ func (n *Node) InplaceInsert(d domain.Name, v uint64) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 52a6ea5..98ca6c9 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -57,6 +57,11 @@ func (n *Node) InplaceInsert(d domain.Name, v uint8) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index 05fd689..184ea60 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -57,6 +57,11 @@ func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
 	}
 
 	d.GetLabels(func(label string) error {
+		// Nodes made by Insert have no branches until they get a subdomain.
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
-- 
2.43.0


From 2cafd35ddab75a0d4560b4c96adeb1b637755c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 3/7] fix: do not panic on deletion of a domain name with 127
 labels

---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index f753ac8..b69fe96 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -131,8 +131,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -159,8 +159,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 28eeb48..1e0167d 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -129,8 +129,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -157,8 +157,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 2a182f8..8cb7c8e 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -129,8 +129,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -157,8 +157,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index e4b0edd..edcfb8e 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -129,8 +129,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -157,8 +157,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 98ca6c9..d47d9f2 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -129,8 +129,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -157,8 +157,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index 184ea60..18ffa05 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -129,8 +129,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -157,8 +157,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From c8c7d6c99ddb2573f4444b657255af01d5f3464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 4/7] fix: delete IPv6 networks contained by a network which is
 not in the tree itself

---
 uintX/iptree16/iptree.go              | 7 ++++++-
 uintX/iptree32/iptree.go              | 7 ++++++-
 uintX/iptree64/iptree.go              | 7 ++++++-
 uintX/iptree8/iptree.go               | 7 ++++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 7 ++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..90bd2d5 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..2f342f6 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..d757585 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..a5a00df 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..20ff2a5 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From 680e30a7849143675df543e753592e6984c42f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 5/7] fix: do not panic on too long labels ending with
 uppercase letters

---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0


From b36f197b2597c8d2b4295f64fd8fda3d5ab4abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 6/7] fix: return nil value rather than typed nil pointer for
 lookups in empty tree

---
 numtree/node32.go | 2 +-
 numtree/node64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8c30e6c 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -108,7 +108,7 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 	// If tree is empty -
 	if n == nil {
 		// report nothing.
-		return n, false
+		return nil, false
 	}
 
 	// Adjust bits.
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..a0b3553 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -112,7 +112,7 @@ func (n *Node64) Enumerate() chan *Node64 {
 // Match locates node which key is equal to or "contains" the key passed as argument.
 func (n *Node64) Match(key uint64, bits int) (interface{}, bool) {
 	if n == nil {
-		return n, false
+		return nil, false
 	}
 
 	if bits < 0 {
-- 
2.43.0


From d431a2c92b2e5f74ea68d20b4075d1d70e4fa1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 7/7] fix: make UpdateDescendants ignore nil network and nil
 tree as other methods do

---
 iptree/iptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..79e5b05 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -117,6 +117,10 @@ func updateNode64(MSIP net.IP, n *numtree.Node64, callback UpdateDescendantsCall
 
 // UpdateDescendants accepts a target network (node) and a callback, and updates all the descendants of the target node if the callback returns true as its second return value
 func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallback) {
+	if t == nil || n == nil {
+		return
+	}
+
 	if key, bits := iPv4NetToUint32(n); bits >= 0 {
 		target := t.root32.FindNode(key, bits)
 		if target == nil {
-- 
2.43.0

