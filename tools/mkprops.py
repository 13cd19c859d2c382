import json
I="include/boost/intrusive/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("C01","Doubly linked ring operations perform exactly the documented sequence edit",
 "For every circular doubly linked list, each node-level operation (init, link before/after, unlink of one node or a range, transfer, swap of nodes or lists, reverse, rotation by n, counting, traversal) leaves rings whose forward order is exactly the documented edit of the previous order and whose backward order is its mirror. Nodes not named by the operation's documentation keep their links unchanged. Only nodes that belong to the rings involved are ever dereferenced.",
 ["inputs","histories"],"all ring sizes, all positions, all contents of the rest of the heap, any conforming node representation",
 "Tests run a few fixed lists of 5 or so elements; aliasing cases (adjacent nodes, one-element rings, range ending at the insertion point, rotation amounts larger than the length) are unbounded in number.",
 ["circular_list_algorithms.hpp"],[("circular_list_algorithms","circular_list_algorithms.hpp")],[("next/prev links","ring order","circular_list_algorithms.hpp")]))
L.append(P("C02","Singly linked node operations perform exactly the documented sequence edit",
 "For every circular and every null-terminated singly linked list, each node-level operation (link/unlink after, incorporate and transfer after, swap, reverse, rotation by n, previous-node search, counting, emptiness and uniqueness queries) leaves exactly the documented sequence and returns the documented node. Links of nodes outside the affected lists never change. Every search loop terminates and never dereferences a node outside the list.",
 ["inputs","histories"],"all list lengths, positions and rotation amounts, any conforming node representation",
 "Tests sample a handful of short lists; the statement is over every length, split point and aliasing pattern.",
 ["circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp"],[("circular_slist_algorithms","circular_slist_algorithms.hpp"),("linear_slist_algorithms","linear_slist_algorithms.hpp"),("common_slist_algorithms","detail/common_slist_algorithms.hpp")]))
L.append(P("C03","List containers behave as sequences under every operation history",
 "After any sequence of valid operations on doubly and singly linked list containers (insert, erase, push, pop, splice, merge, sort, reverse, unique, remove, assign, shift, swap), traversal in each supported direction yields exactly the elements a plain sequence subjected to the same operations would hold, with stable order where documented. The returned iterators and counts are those documented. This holds for every configuration (constant-time size or not, linear or circular, cached last or not).",
 ["inputs","histories","configurations"],"all operation sequences, contents and container options",
 "Tests execute short scripted sequences on fixed contents for a few option combinations; sort/merge/splice interactions and aliasing positions are not enumerated.",
 ["list.hpp","slist.hpp"],[("list_impl","list.hpp"),("slist_impl","slist.hpp")]))
L.append(P("C04","Tree operations preserve link consistency and the exact in-order sequence",
 "For every binary-tree-based container and tree kind, any insertion, erasure, unlink, rebalance, or positional insertion leaves a tree whose parent/child links agree, whose cached first, last and root are right, and whose in-order sequence is exactly the old sequence with the documented element added or removed at the documented place. No other tree or node is modified. In-order successor and predecessor steps follow that sequence and terminate.",
 ["inputs","histories"],"all tree shapes, positions, histories, any conforming node representation",
 "Structural corruption may only show for particular shapes (successor being or not being the right child, erased node being first/last/root); tests exercise few shapes and mostly compare contents.",
 ["bstree_algorithms.hpp","detail/bstree_algorithms_base.hpp","bstree.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree_algorithms.hpp","splaytree_algorithms.hpp","treap_algorithms.hpp"],
 [("bstree_algorithms::link / erase / insert_commit","bstree_algorithms.hpp"),("next_node / prev_node","detail/bstree_algorithms_base.hpp")],[("header","parent=root, left=first, right=last","bstree_algorithms.hpp")]))
L.append(P("C05","Ordered lookups and insertion points are exact",
 "On any tree whose elements are ordered consistently with a key under a strict weak ordering, lower bound, upper bound, equal range, bounded range, find and count return exactly the positions and number defined by that ordering. Insertion of equivalent elements goes after (upper), before (lower), or at the documented hint-relative position; unique insertion reports exactly whether an equivalent element exists and which one. Comparator calls never modify the container.",
 ["inputs","histories"],"all tree shapes, all strict weak orderings, all keys, hints and duplicates",
 "Tests look up a few integer keys in small trees; boundary keys, duplicates spread over both subtrees and adversarial hints are not enumerated.",
 ["bstree_algorithms.hpp","bstree.hpp","splaytree_algorithms.hpp"],[("lower_bound/upper_bound/equal_range/bounded_range","bstree_algorithms.hpp"),("insert_*_check","bstree_algorithms.hpp")]))
L.append(P("C06","Red-black trees keep their balance invariant after every operation",
 "After any history of operations on red-black tree containers, no red element has a red parent, the root is black, and every root-to-leaf path carries the same number of black elements. Hence lookup depth is at most logarithmic in the number of elements.",
 ["inputs","histories"],"all histories and tree shapes, any conforming node representation (plain or compacted colour)",
 "The existing tests never measure depth; a lost recolouring or rotation keeps order and contents intact.",
 ["rbtree_algorithms.hpp","rbtree.hpp"],[("rebalance_after_insertion / rebalance_after_erasure","rbtree_algorithms.hpp")],[("node colour","red/black","detail/rbtree_node.hpp")]))
L.append(P("C07","AVL trees keep exact balance factors and the height bound",
 "After any history of operations on AVL tree containers, each element's stored balance equals the difference of its subtrees' heights and that difference is never more than one.",
 ["inputs","histories"],"all histories and tree shapes, any conforming node representation",
 "Wrong balance metadata only degrades later operations; tests check element order on small samples.",
 ["avltree_algorithms.hpp","avltree.hpp"],[("rebalance_after_insertion / rebalance_after_erasure / rotations","avltree_algorithms.hpp")],[("node balance","height difference","detail/avltree_node.hpp")]))
L.append(P("C08","Treaps keep the priority heap order after every operation",
 "After any history of operations on treap containers, no element precedes its parent in priority order while the in-order sequence stays the documented one. The element of foremost priority is reported as the top element.",
 ["inputs","histories"],"all histories, key and priority assignments (including equal priorities)",
 "Tests use a fixed priority function over few elements.",
 ["treap_algorithms.hpp","treap.hpp"],[("rotate_up_n / erase / insert_commit","treap_algorithms.hpp")]))
L.append(P("C09","Splay operations keep the sequence and bring what is accessed to the root",
 "Every splaying lookup, insertion, erasure or explicit splay leaves the in-order sequence unchanged apart from the documented insertion or removal, and answers as an ordinary ordered container would. The accessed element (or a neighbour of the search position when absent) becomes the root. Non-splaying accesses leave the tree unchanged.",
 ["inputs","histories"],"all tree shapes, keys and access histories",
 "Top-down splaying rearranges half the tree with many special cases (empty left/right remainder, single node, extreme keys); tests touch few shapes.",
 ["splaytree_algorithms.hpp","splaytree.hpp"],[("splay_down / splay_up / erase","splaytree_algorithms.hpp")]))
L.append(P("C10","Scapegoat and explicit rebalancing keep order and bound height",
 "After any history on scapegoat containers the height stays within the configured balance factor's bound for the largest size since the last full rebuild, and sequence and links stay exact. Explicitly rebalancing a whole tree or a subtree yields a tree of minimal height with the same in-order sequence.",
 ["inputs","histories","configurations"],"all histories, sizes, balance factors (float and integer arithmetic variants)",
 "Tests never measure height; broken thresholds or rebuilds only cost depth.",
 ["sgtree_algorithms.hpp","sgtree.hpp","bstree_algorithms.hpp"],[("insert_commit / erase with alpha","sgtree_algorithms.hpp"),("rebalance / rebalance_subtree","bstree_algorithms.hpp")]))
L.append(P("C11","Hash containers find, insert and erase exactly the right elements",
 "On every hash container configuration, find, count, equal range, insertion (unique and equivalent), erasure by key/iterator/range and traversal behave exactly as a mathematical multiset of elements: each element is reachable once, equivalent elements are contiguous, and unique insertion refuses exactly when an equivalent element exists. This is independent of how hash values collide.",
 ["inputs","histories","configurations"],"all histories, hash functions, collision patterns, bucket counts, option combinations (stored hash, compare-hash, multikey grouping, cached begin, linear or incremental buckets, power-of-two or fast modulo)",
 "Tests use a fixed well-spread hash over a few values; group splitting needs colliding unequal keys at particular places.",
 ["hashtable.hpp","unordered_set.hpp"],[("insertion/erasure/group splitting","hashtable.hpp")]))
L.append(P("C12","Rehashing keeps every element, findable in the right bucket",
 "Any full or incremental rehash, to any admissible bucket array (same buffer or a new one, growing or shrinking), keeps exactly the same elements, each findable, with equivalent elements still contiguous, and the bucket and size counters correct.",
 ["inputs","histories","configurations"],"all contents, hash functions, bucket count transitions, partially-split states",
 "Tests rehash a few fixed tables once or twice.",
 ["hashtable.hpp"],[("rehash / full_rehash / incremental_rehash","hashtable.hpp")]))
L.append(P("C13","Bucket index and integer arithmetic are exact",
 "The bucket index computed from a hash is always below the bucket count and depends only on the hash and the bucket configuration, equals the mathematical remainder in modulo modes, and in incremental mode equals the bucket of the split state. Suggested bucket counts are valid and not below (respectively above) the request whenever one exists. The integer helpers (floor/ceil log2, next power of two, square-root powers) compute their mathematical definitions for every argument in their domain.",
 ["inputs","configurations"],"every machine integer argument and every table entry",
 "The argument space is 2^32 or 2^64; tests try a handful.",
 ["hashtable.hpp","detail/math.hpp"],[("hash_to_bucket_split / fastmod / prime tables","hashtable.hpp"),("floor_log2, ceil_pow2","detail/math.hpp")]))
L.append(P("C14","Hooks always tell the truth about membership and link modes keep their promises",
 "A safe-link or auto-unlink hook reports linked exactly while its element is a member of a container, for every hook type; after any erase, clear, unlink, pop, dispose or container destruction the released hooks report unlinked and can be inserted again. Destroying or unlinking an auto-unlink hook removes exactly that element from its container and nothing else.",
 ["inputs","histories","configurations"],"all histories over all hook types and containers",
 "Tests check the flag after few operations for few hook kinds.",
 ["detail/generic_hook.hpp","any_hook.hpp","list_hook.hpp","set_hook.hpp","bs_set_hook.hpp","avl_set_hook.hpp","slist_hook.hpp","unordered_set_hook.hpp"],[("generic_hook","detail/generic_hook.hpp"),("node algorithms' inited/unique/unlink","detail/any_node_and_algorithms.hpp")]))
L.append(P("C15","Representation mappings are lossless",
 "Converting element to node and back, hook to element, member to enclosing object, and reading back any link, flag, colour, balance or type tag stored in a node (including representations that hide flags in pointer bits) always returns exactly what was stored, for each field independently of the others. Storing one field never alters another field of the same or any other node.",
 ["inputs","configurations"],"all addresses permitted by alignment, all flag values, all shipped node types and value traits",
 "Tests see a few stack addresses and values.",
 ["pointer_plus_bits.hpp","detail/parent_from_member.hpp","parent_from_member.hpp","member_value_traits.hpp","derivation_value_traits.hpp","trivial_value_traits.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp","detail/tree_node.hpp","detail/list_node.hpp","detail/slist_node.hpp","detail/any_node_and_algorithms.hpp","detail/hashtable_node.hpp","detail/hook_traits.hpp"],[("pointer_plus_bits","pointer_plus_bits.hpp"),("parent_from_member","detail/parent_from_member.hpp"),("node traits","detail/rbtree_node.hpp")]))
L.append(P("C16","Reported size always equals the number of elements",
 "On every container and in each size mode, the reported size equals the number of elements reachable by traversal, and emptiness equals size zero, after any history of operations including splices, merges, swaps, ranges, bulk removals and operations that throw.",
 ["inputs","histories","configurations"],"all histories and options",
 "Counter drift needs particular range operations; tests check sizes after few of them.",
 ["list.hpp","slist.hpp","bstree.hpp","sgtree.hpp","splaytree.hpp","treap.hpp","hashtable.hpp","detail/size_holder.hpp"],[("size_holder","detail/size_holder.hpp")]))
L.append(P("C17","Exceptions thrown by user functors leave containers intact",
 "If a user comparator, hash, equality, predicate, priority function or cloner throws during any operation, every container involved is left structurally valid: no element is lost or duplicated beyond what is documented, operations documented as strong leave the container unchanged, and partially cloned elements are all disposed exactly once.",
 ["inputs","fault_sequences","histories"],"every call of a user functor as a throwing point, in every operation and shape",
 "Tests contain no throwing functors.",
 ["bstree_algorithms.hpp","bstree.hpp","treap_algorithms.hpp","treap.hpp","list.hpp","slist.hpp","hashtable.hpp","detail/exception_disposer.hpp","splaytree_algorithms.hpp"],[("insert_check/insert_commit split","bstree_algorithms.hpp"),("exception disposers","detail/exception_disposer.hpp")]))
L.append(P("C18","Cloning yields an independent, equal container",
 "Cloning any container yields one with the same sequence of (cloned) elements, equally well-formed and balanced, each source element cloned exactly once, previous target elements disposed exactly once, and the source (when only read) unchanged.",
 ["inputs","histories","configurations"],"all source shapes, sizes, target states, including empty ones",
 "Tests clone a few small containers and compare contents only.",
 ["bstree_algorithms.hpp","bstree.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","list.hpp","slist.hpp","hashtable.hpp","treap.hpp","sgtree.hpp"],[("clone_from / clone","bstree_algorithms.hpp")]))
L.append(P("C19","Disposing operations hand each removed element to the disposer exactly once",
 "Every erase-and-dispose, clear-and-dispose, remove-and-dispose-if, unique-and-dispose and clone target cleanup calls the disposer exactly once for each element removed and never for another, and after the removed element has been unlinked, so that the disposer may free it. The number removed is reported correctly where a count is returned.",
 ["inputs","histories"],"all container shapes, ranges and predicates",
 "Double or missed disposal occurs for particular shapes/ranges only.",
 ["bstree_algorithms.hpp","bstree.hpp","list.hpp","slist.hpp","hashtable.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp"],[("detach_and_dispose / dispose_subtree / unlink_leftmost_without_rebalance","bstree_algorithms.hpp")]))
L.append(P("C20","Iterators visit each element once and convert back and forth with elements",
 "In every container, iterating from begin to end visits each element exactly once in order (and exactly in reverse order backwards for bidirectional ones), ++ and -- are inverse, and an iterator obtained from an element or from a container's end designates that element or container. Iterators other than those to removed elements stay valid through unrelated modifications.",
 ["inputs","histories","configurations"],"all container kinds, shapes and positions",
 "Tests iterate a few small containers.",
 ["detail/tree_iterator.hpp","detail/list_iterator.hpp","detail/slist_iterator.hpp","detail/iterator.hpp","hashtable.hpp","detail/bstree_algorithms_base.hpp","detail/reverse_iterator.hpp"],[("iterators","detail/tree_iterator.hpp")]))
L.append(P("C21","Swapping and moving transfer whole contents exactly",
 "Swapping two containers (in any combination of empty, one-element and larger) exchanges exactly their contents, sizes, comparators and balance state; move construction leaves the source empty and usable and the target with all elements; move assignment gives the target all of the source's elements. No element is lost or shared, and auto-unlink and iterators keep working afterwards.",
 ["inputs","histories","configurations"],"all pairs of container states and kinds",
 "Tests swap a few non-empty containers.",
 ["bstree_algorithms.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","list.hpp","slist.hpp","bstree.hpp","hashtable.hpp"],[("swap_tree / swap_nodes","bstree_algorithms.hpp")]))
L.append(P("C22","Merging ordered containers moves exactly the mergeable elements",
 "Merging one ordered container into another moves every element (equivalent mode) or exactly those with no equivalent in the target (unique mode), leaves the rest in the source in order, and keeps both containers well-formed, balanced, and correctly sized. Relative order of equivalent elements is as documented.",
 ["inputs","histories"],"all pairs of contents and shapes",
 "Tests merge a few fixed sets.",
 ["bstree.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","treap.hpp","sgtree.hpp"],[("merge_unique / merge_equal / transfer_unique / transfer_equal","bstree.hpp")]))
L.append(P("C23","Replacing and swapping nodes in place preserve position and balance metadata",
 "Replacing an element by another in a tree puts the newcomer at exactly the position of the old one with its balance metadata and removes the old one, and swapping two elements (same tree in any relation, or different trees) exchanges exactly their positions. All links, cached first/last/root and balance information stay consistent.",
 ["inputs"],"all shapes and all relations of the two nodes (parent/child, siblings, ends, roots, different trees)",
 "Adjacency special cases are numerous; tests do not enumerate them.",
 ["bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","bstree.hpp"],[("swap_nodes / replace_node","bstree_algorithms.hpp")]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'])
print(len(L))
