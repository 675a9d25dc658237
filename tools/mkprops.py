#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})
ST=["strtree/strtree.go","strtree/node.go","uintX/strtree8/node.go","uintX/strtree16/node.go","uintX/strtree32/node.go","uintX/strtree64/node.go"]
DL=["dltree/dltree.go","dltree/node.go"]
DT=["domaintree/domaintree.go"]+["uintX/domaintree%d/%s.go"%(b,f) for b in (8,16,32,64) for f in ("domaintree","dltree","node")]
NT=["numtree/node32.go","numtree/node64.go"]
IP=["iptree/iptree.go"]+["uintX/iptree%d/%s.go"%(b,f) for b in (8,16,32,64) for f in ("iptree","node32","node64","node64s")]
DN=["domain/name.go","domain/label.go"]
p("C01","String-keyed trees are ordered maps",
 "After any history of Insert, InplaceInsert and Delete, a string-keyed tree (generic or uint-valued, default or custom comparison) answers Get for every key as a map would, keys that compare equal being one key, and IsEmpty is true exactly when it holds no key. Enumerate yields every held key exactly once, in comparison order, with its latest value. Delete reports true exactly when the key was held and removes only that key; a miss reports the zero value and false.",
 ["inputs","histories"],"every history of insertions and deletions over any keys, every value, every consistent comparison, generic and uint8/16/32/64 trees",
 "The tests insert a few fixed key sequences (up to a few hundred keys) and delete in a few fixed orders; red-black deletion and insertion have dozens of shape- and colour-dependent cases, most reached only by particular histories.",
 ST,[("top-down red-black insertion and deletion","strtree/node.go insert, inplaceInsert, del, get")],["strtree.Tree.Get","strtree.Tree.Enumerate","strtree.Tree.Delete","strtree.Tree.IsEmpty"])
p("C02","The domain-label tree is an ordered map under label equality",
 "After any history of insertions and deletions, the label tree behaves as a map in which two keys are the same exactly when they denote the same label (ASCII case, escapes and one ending dot do not matter), whichever of the human-readable and raw methods are used. Enumerate and RawEnumerate yield every held label exactly once with its latest value, shorter labels first and equally long ones bytewise, the former in escaped lower-case form, the latter in binary form. Delete and RawDelete report true exactly when the label was held and remove only it.",
 ["inputs","histories"],"every history over every valid label (any bytes, 0-63 long), in every spelling",
 "Tests use fixed ASCII labels; label order, escapes, case folding and the red-black cases interact, and only a handful of combinations are sampled.",
 DL+DN,[("length-then-bytes ordering","dltree/node.go"),("label canonicalisation","domain/label.go MakeLabel")],["dltree.Tree.Get/RawGet","dltree.Tree.Enumerate/RawEnumerate","dltree.Tree.Delete/RawDelete"])
p("C03","Red-black trees stay balanced whatever the history",
 "After any history of insertions and deletions, the string and label trees with n entries hold no entry deeper than 2*log2(n+1), and the dump shows a valid red-black tree (black root, no red node with a red child, equally many black nodes on every path). Consequently a lookup, insertion or deletion in a string tree calls the comparison function O(log n) times.",
 ["histories"],"every history of copying and in-place insertions and deletions, any tree size",
 "No test looks at tree height; the tests compare a few dumps of small trees. A wrong recolouring keeps every lookup right and only degrades the tree after particular later operations.",
 ST+DL,[("recolouring and rotations","insert, inplaceInsert, del, single, double in strtree/node.go and dltree/node.go")],["strtree.Tree.Dot","dltree.Tree.Dot","calls of the custom comparison"])
p("C04","Copying updates never change earlier versions",
 "Insert, InsertNet, InsertIP, Delete, DeleteSubdomains, DeleteByNet and DeleteByIP of every tree leave the tree they are called on, and every version obtained earlier, exactly as it was: all lookups, enumerations and dumps of old versions keep giving the same answers. Versions derived from a common base do not influence each other.",
 ["histories"],"every history of copying updates that may branch from any earlier version, on all seven kinds of trees",
 "The tests re-check a few old roots after a few updates; sharing mistakes corrupt an older version only for particular shapes and are noticed only if that version is read again.",
 ST+DL+DT+NT+IP,[("copy-on-write of the path from root to the changed node","insert/del of every node.go, node32.go, node64.go; Node.copy/copyBranch in domaintree.go")],["all read methods of old versions"])
p("C05","In-place insertion has the same effect as copying insertion",
 "On any tree reached by any mix of copying insertions, in-place insertions and deletions, an in-place insertion succeeds and gives that tree exactly the contents that the copying insertion of the same key and value would return. Later operations of either kind behave the same on the result.",
 ["histories"],"every history mixing both kinds of insertion with deletions, all kinds of trees",
 "Tests build a tree either in place or by copying, from scratch; they do not mix them, and the two are separate code paths with separate cases.",
 ST+DL+DT+NT+IP,[("separate in-place code paths","inplaceInsert/InplaceInsert/InplaceInsertNet in every tree")],["InplaceInsert* followed by all read methods"])
p("C06","Integer radix trees find the longest stored prefix",
 "In a 32- or 64-bit radix tree Match returns the value of the longest stored prefix that contains the queried key/length (false and nil if there is none), ExactMatch and FindNode only the one equal to it, for every key, every length and any bits after the significant ones. Lengths below 0 count as 0 and above the key size as the key size. Enumerate yields every stored prefix once with its latest value, in order of address and then length.",
 ["inputs","histories"],"every set of prefixes inserted in every order, every query; both key sizes and every bit position",
 "Tests insert fixed sets at a few bit positions; the mask table alone has 33 and 65 entries, and path compression depends on the relation of every pair of prefixes.",
 NT,[("prefix comparison through mask tables and leading zeroes","numtree/node32.go, numtree/node64.go insert, match, exactMatch")],["Node32/Node64 Match, ExactMatch, FindNode, Enumerate, Insert, InplaceInsert"])
p("C07","Integer radix tree deletion removes exactly the contained prefixes",
 "Delete with a key and a length removes every stored prefix contained in it (including itself) and nothing else, whether or not it is stored itself, and reports true exactly when something was removed. All lookups, enumerations and later updates of the result behave as if the removed prefixes had never been inserted.",
 ["inputs","histories"],"every reachable tree, every key and length, both key sizes",
 "Tests delete a handful of prefixes; collapsing of inner nodes after deletion depends on shape and on which inner nodes carry values.",
 NT,[("subtree removal and collapsing of inner nodes","numtree/node32.go del, numtree/node64.go del")],["Node32/Node64 Delete then Match, ExactMatch, Enumerate"])
p("C08","IP trees return the value of the most specific containing network",
 "For any stored IPv4 and IPv6 networks, GetByNet and GetByIP return the value last inserted for the longest stored network that equals or contains the queried network or address, and the zero value and false when there is none; host bits in a network never matter. This holds for every prefix length, including IPv6 networks shorter than, equal to and longer than 64 bits mixed in one tree, and the two address families never affect each other.",
 ["inputs","histories"],"every set of networks, insertion order, queried network or address; generic and uint-valued trees",
 "Tests query about a dozen networks; IPv6 keys are split into two 64-bit halves kept in two levels of trees, whose interplay depends on lengths around 64.",
 IP+NT,[("split of IPv6 keys in two halves and fallback to shorter networks","iptree/iptree.go GetByNet, InsertNet; uintX/iptree*/iptree.go")],["GetByNet","GetByIP"])
p("C09","IP tree deletion removes exactly the contained networks",
 "DeleteByNet and DeleteByIP remove every stored network contained in the given one, whether or not the given one is stored itself, and nothing else; they report true exactly when something was removed, and the result answers all queries as if the removed networks had never been inserted. This holds for both families and for every IPv6 prefix length on either side of 64 bits, in the generic and the uint-valued trees.",
 ["inputs","histories"],"every reachable tree and every deleted network",
 "Tests delete networks that are stored and leave few others; deletion takes different paths for IPv4, for short and for long IPv6 prefixes.",
 IP+NT,[("deletion on two levels of trees","DeleteByNet in iptree/iptree.go and uintX/iptree*/iptree.go")],["DeleteByNet","DeleteByIP","GetByNet","Enumerate"])
p("C10","IP tree enumeration lists exactly the stored networks",
 "Enumerate of an IP tree yields every stored network exactly once with its latest value, as a canonical network (host bits cleared, mask of the stored length, 4-byte form for IPv4 and 16-byte for IPv6). IPv4 networks come before IPv6 ones, each family ordered by address and then by prefix length.",
 ["inputs","histories"],"every reachable tree, every prefix length, generic and uint-valued trees",
 "One fixed tree of a few networks is enumerated per package.",
 IP,[("re-assembly of IPv6 networks from two halves","iptree/iptree.go enumerate, uintX/iptree*/iptree.go enumerate")],["Enumerate"])
p("C11","UpdateDescendants visits exactly the networks below the target",
 "For a stored target network, UpdateDescendants calls back exactly once for every stored network strictly inside it, with that network and its current value, replaces the value exactly when the callback returns true, and leaves the target and every other network alone. For a network that is not stored, any network visited is stored, strictly inside it and visited at most once. Nil trees and nil or unusable networks are ignored.",
 ["inputs","histories"],"every reachable tree, every target, every pattern of accepted and refused updates",
 "About ten fixed scenarios exist; targets at, above and below 64 bits take three different paths.",
 ["iptree/iptree.go"]+NT,[("traversal of both levels with skipping of the target","iptree/iptree.go UpdateDescendants, updateNode64")],["callback invocations","Enumerate afterwards"])
p("C12","IP trees ignore unusable keys and accept either IPv4 form",
 "A nil network or address, a network whose address is neither 4 nor 16 bytes, whose mask has the wrong length or is not contiguous, never changes a tree, is never found and deletes nothing, and never panics; nil and empty trees answer every query with a miss and accept insertions. An IPv4 address given in 4-byte or in 16-byte form is the same key as its /32 network.",
 ["inputs","histories"],"every malformed network or address against every reachable tree, all IP trees",
 "Tests pass nil and one malformed network in a few methods of few packages.",
 IP,[("validation of addresses and masks","iPv4NetToUint32, iPv6NetToUint64Pair, newIPNetFromIP in every iptree.go")],["all methods of Tree"])
p("C13","Domain names parse exactly according to the documented rules",
 "MakeNameFromString accepts a string exactly when, after decoding of backslash escapes (backslash and three digits up to 255, or backslash and another character), it is empty, a single dot, or at most 127 non-empty labels of at most 63 bytes taking at most 255 bytes in total with one length byte per label, an ending dot allowed. An accepted name yields exactly those labels, ASCII letters folded to upper case, and String returns the original text; a rejected one returns an error that names one of its faults, and no input panics.",
 ["inputs"],"every byte string",
 "About fifteen fixed strings; limits (63/64, 127/128, 255/256), escapes at label boundaries and their combinations are sampled once each.",
 DN,[("two passes with an escape state machine each","domain/label.go markLabels, getLabel; domain/name.go MakeNameFromString")],["MakeNameFromString","Name.GetLabels","Name.String"])
p("C14","Label rendering and parsing are inverse and memory-safe",
 "For every label of up to 63 bytes, MakeHumanReadableLabel gives printable text (letters in lower case, dot, backslash and non-printable bytes escaped) from which MakeLabel returns the same label with ASCII letters in upper case. MakeLabel decodes any text without unescaped inner dots by the same rules as names, rejecting bad escapes and labels over 63 bytes with the matching error. For longer input MakeHumanReadableLabel returns the rendering of the longest prefix that fits 252 bytes and never panics.",
 ["inputs"],"every byte string as label, every text",
 "Six fixed strings; the output buffer arithmetic depends on position and class of every byte.",
 ["domain/label.go"],[("escaping with fixed-size buffers","domain/label.go MakeHumanReadableLabel, MakeLabel, getLabel")],["MakeLabel","MakeHumanReadableLabel"])
p("C15","Name label walking and construction by reflection are consistent",
 "For every valid name GetLabels passes its labels from the top-level one down, exactly once each, and stops at and returns the first error of the callback; following GetLabel from offset 0 gives the same labels, ends with offset 0 after the last one, and gives an empty label and offset 0 for the root. Offsets that are negative or past the end give -1. MakeNameFromReflection of a Name, a valid string or a pointer to one of them gives an equal name, and panics for anything else.",
 ["inputs"],"every valid name, every offset, every position of a callback error, every kind of reflected value",
 "Tests walk one three-label name and the root.",
 ["domain/name.go"],[("walking of length-prefixed labels","domain/name.go GetLabel, GetLabels, MakeNameFromReflection")],["Name.GetLabel","Name.GetLabels","MakeNameFromReflection"])
p("C16","Domain trees find the closest stored enclosing domain",
 "For any set of stored domains, including the root and names with 127 labels, Get returns the value last inserted for the longest stored domain that equals the queried name or is one of its parents, and the zero value and false when there is none. Label boundaries are respected: only whole trailing labels are compared.",
 ["inputs","histories"],"every set of stored domains, insertion order and queried name; generic and uint-valued trees",
 "Tests query nine names in a tree of six; the root domain was never looked up and deep names never used.",
 DT+DL+DN,[("walk from the top-level label down","Get in domaintree.go")],["domaintree.Node.Get and the four typed variants"])
p("C17","Domain tree deletions remove exactly what they promise",
 "Delete removes the value of the given domain only and DeleteSubdomains the given domain with all stored domains below it, for every name up to 127 labels and for the root. Both report true exactly when something was removed, and every other domain stays with its value; the result behaves as if the removed domains had never been inserted.",
 ["inputs","histories"],"every reachable tree and every deleted name; generic and uint-valued trees",
 "Tests delete a few names from one tree; pruning of empty inner nodes and keeping of valueless inner nodes depends on siblings and ancestors.",
 DT+DL,[("path copying with pruning","Delete, DeleteSubdomains, getBranch, copyBranch in domaintree.go")],["Delete","DeleteSubdomains","Get","Enumerate"])
p("C18","Domain tree enumeration lists exactly the stored domains",
 "Enumerate of a domain tree yields every stored domain exactly once with its latest value, in text that parses back to the same name whatever bytes its labels contain (the root as empty text). The order depends only on the stored names: a domain precedes its subdomains, and sibling subtrees follow each other with shorter labels first and equally long ones bytewise.",
 ["inputs","histories"],"every reachable tree, all label contents; generic and uint-valued trees",
 "Fixed ASCII names in small trees; escaping and the label tree's shape are not varied.",
 DT+DL+DN,[("nested enumeration with escaped labels","enumerate in domaintree.go")],["Enumerate"])
p("C19","Typed trees mirror the generic ones and keep every value bit",
 "The uint8/16/32/64 variants of string, domain and IP trees give the same results as the generic trees on every history: same hits and misses, same deletion flags, same enumeration order. Every value of the full width, zero and the maximum included, comes back unchanged and is distinguished from absence.",
 ["inputs","histories","configurations"],"every history run in lockstep on the five variants of each tree; every 8- and 16-bit value and every single- and two-bit pattern of 32 and 64 bits",
 "Tests of typed variants use values below 256 and do not compare variants with each other.",
 ST+DT+IP,[("generated copies of the same code","uintX/*")],["all methods of the typed variants"])
p("C20","Trees and names may be used concurrently without locking",
 "Any number of goroutines may call lookups, enumerations, dumps and copying updates on the same tree version (or derived ones), and parse or render names, at the same time without locks: there is no data race and every call returns what it would return alone. In particular readers of an old version are not disturbed by goroutines deriving new ones.",
 ["schedules","histories"],"every interleaving of concurrent read and copying calls on shared versions",
 "All tests are single-threaded.",
 ST+DL+DT+NT+IP+DN,[("immutability of published nodes, no shared scratch state","all packages")],["results of concurrent calls","race detector"])
p("C21","Enumeration always delivers a fixed snapshot and ends",
 "Draining the channel returned by any Enumerate delivers all pairs, the channel is then closed and no goroutine is left behind, for nil and empty trees too. Several enumerations of one tree may run interleaved in any way and each delivers the complete sequence; copying updates made while an enumeration is in progress do not change what it delivers.",
 ["schedules","histories"],"every interleaving of consumers, the enumeration's own goroutines and copying updates",
 "Tests drain one enumeration at a time on an otherwise idle tree.",
 ST+DL+DT+NT+IP,[("producer goroutine with unbuffered channel closed on exit","Enumerate of every tree")],["channels returned by Enumerate and RawEnumerate"])
p("C22","Graphviz dumps describe the tree faithfully",
 "Dot of string, label and integer trees gives a digraph in which every node is declared exactly once with consecutive numbers from N0, every edge line leads to two declared nodes, and every node but N0 has exactly one parent. Its labels list every stored key exactly once (with its value), in search order for red-black trees and with every child prefix inside its parent's for radix trees; an empty tree dumps as a single nil node.",
 ["inputs","histories"],"every reachable tree shape",
 "A few dumps of small fixed trees are compared literally.",
 ST+DL+NT,[("breadth-first numbering through the queue length","dot/Dot in node.go, node32.go, node64.go")],["Dot"])
p("C23","The template generator expands a catalogue completely and only that",
 "For any template file or directory tree, in a directory whose own path contains no template syntax, and any YAML mapping as data, etc creates next to the template a file or directory for every entry, with name and content executed as templates with the data selected by the dotted selector (the whole document if empty), and exits successfully; templates and unrelated files stay as they were. A missing template argument, an unreadable or malformed data file, a selector that is absent or passes through a non-map, or a template whose name has nothing to expand makes it exit with failure without creating or overwriting anything.",
 ["inputs","configurations","programs"],"every catalogue of templates, data document and selector",
 "Only the path-splitting helpers are tested; the generator itself is never run by tests.",
 ["etc/main.go","etc/file.go","etc/data.go","etc/template.go","etc/names.go","etc/config.go"],[("recursive execution with template expansion of absolute paths","etc/main.go execute"),("selector","etc/data.go sel")],["files written by the etc command","exit status"])
p("C24","Regenerating the typed trees gives working, equivalent packages",
 "Running etc on the template directories under uintX with uintX.yaml gives, for every width, packages that build and satisfy the same map, lookup, deletion, enumeration, persistence and in-place insertion guarantees as the generic trees, with values of the full width.",
 ["programs","histories"],"every generated package and every history on it",
 "The templates are not compiled or run by the build or the tests at all; only the committed copies are.",
 ["uintX/strtree{{.bits}}/node.{{.ext}}","uintX/strtree{{.bits}}/strtree.{{.ext}}","uintX/domaintree{{.bits}}/domaintree.{{.ext}}","uintX/domaintree{{.bits}}/node.{{.ext}}","uintX/domaintree{{.bits}}/dltree.{{.ext}}","uintX/iptree{{.bits}}/iptree.{{.ext}}","uintX/iptree{{.bits}}/node32.{{.ext}}","uintX/iptree{{.bits}}/node64.{{.ext}}","uintX/iptree{{.bits}}/node64s.{{.ext}}","uintX/uintX.yaml","etc/main.go"],
 [("templates and their data","uintX/*{{.bits}}, uintX/uintX.yaml")],["packages generated from the templates"])
p("C25","The spelling of a domain name or label never matters",
 "Names that differ only in ASCII letter case, in escaping of characters or in an ending dot are the same key in every operation of domain trees and label trees: inserting under one spelling is found, replaced, deleted and enumerated through any other. Names whose decoded labels differ are different keys even if their texts look alike (an escaped dot is not a separator).",
 ["inputs","histories"],"every pair of spellings for every operation and tree variant",
 "Tests vary letter case in two places only.",
 DT+DL+DN,[("canonical upper-case binary form","domain/label.go, domain/name.go")],["domaintree and dltree methods"])
p("C26","IP trees neither change nor depend on their callers' memory",
 "No method of an IP tree modifies the networks or addresses passed to it, whatever their form, nor spare capacity behind them, and none keeps them: the caller may overwrite or reuse them as soon as the call has returned, with no effect on the tree. Networks delivered by Enumerate or passed to an UpdateDescendants callback belong to the receiver: they stay as delivered whatever the tree does later, and overwriting them affects neither the tree, nor the rest of the enumeration, nor other enumerations.",
 ["inputs","histories"],"every reachable tree, every operation with every form of network or address, every received network",
 "Tests make a fresh network for each call from a text and never touch it, or one received, afterwards; aliasing of byte slices shows only when one side writes.",
 IP,[("conversion between byte slices and integer keys","IPv4NetToUint32, IPv6NetToUint64Pair and enumerate of every iptree.go"),("networks for UpdateDescendants callbacks","iptree/iptree.go UpdateDescendants")],["arguments after each call","networks from Enumerate and UpdateDescendants","GetByNet, GetByIP, Enumerate after overwriting them"])
p("C27","Values are opaque: what was stored last comes back",
 "The generic trees store any Go value and never look into it: nil, typed nil pointers, values which are not comparable (slices, maps, functions), NaN, zeros of either sign and values equal to, but different from, the ones they replace are all stored, replaced and deleted like any other. Every lookup and enumeration gives the very value stored last for the key, and a stored nil is told from an absent key by the reported flag.",
 ["inputs","histories"],"every value, every pair of an old value and its replacement, every history, all generic trees",
 "Tests store strings and small integers, nearly always one value per key; comparing values, or taking nil for absence, passes all of them.",
 ["strtree/node.go","dltree/node.go","domaintree/domaintree.go","numtree/node32.go","numtree/node64.go","iptree/iptree.go"],[("values kept as interface{} next to a flag or node that tells presence","Leaf in numtree, hasValue in domaintree, node existence in strtree and dltree")],["values and flags from every lookup, values from Enumerate, after Insert, InplaceInsert, UpdateDescendants, Delete"])
p("C28","Trees keep nothing but what they store",
 "After any history a tree version refers to exactly the values stored in it: a value that was replaced or deleted is not reachable from the resulting version, so it can be reclaimed once older versions are dropped. Insertions and deletions that leave the contents as they were don't make the tree bigger, however often they are repeated and whatever keys they use. A radix tree has no nodes but its stored prefixes and the points where two of them part.",
 ["histories"],"every history of insertions and deletions, generic and uint-valued trees",
 "No test looks at memory or at shapes after deletions; garbage left behind changes no lookup.",
 ST+DL+DT+NT+IP,[("pruning and collapsing on deletion, replacement of values","del in every node.go, node32.go, node64.go; Delete, DeleteSubdomains, copyBranch in domaintree.go; DeleteByNet in iptree.go")],["memory reachable from a tree version","Dot of numtree"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
