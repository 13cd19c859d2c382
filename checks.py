"""per-property configuration of check.py"""
GEN = ['every wrapper in /verif/tu instantiates the real templates of /repo with an abstract NodeTraits whose getters/setters are uninterpreted; no algorithm code is re-written',
       'node addresses are modelled as an uninterpreted sort; integers are mathematical with explicit modular wrap where an overflow is not excluded',
       'a container holds fewer than 2^60 elements (address-space bound)',
       'LLVM passes used for normalisation preserve semantics']
TREE_BASE = ['Minimum', 'Maximum', 'NextNode', 'PrevNode', 'GetHeader', 'IsHeader', 'BeginNode', 'EndNode', 'RootNode', 'Size', 'UniqueN', 'Inited', 'InitN', 'InitHeader']
TREE_LOOK = ['LowerBound', 'UpperBound', 'Find', 'CountK', 'EqualRange', 'LowerBoundRange', 'BoundedRange', 'UniqueCheck', 'UniqueCheckHint']
TREE_INS = ['InsertCommit', 'InsertUB', 'InsertLB', 'InsertHint', 'InsertBefore', 'PushBack', 'PushFront']
TREE_REM = ['Erase', 'Unlink', 'UnlinkLeftmost']
BAL = TREE_INS + ['Erase', 'Unlink']
TREE_SWAP = ['SwapNodes', 'SwapNodes2', 'ReplaceNode', 'ReplaceNode2', 'SwapTree']
SL_ALL = 'CInit LInit CInitHeader LInitHeader CSetSentinel LSetSentinel CInited LInited CUnique LUnique CIsSentinel LIsSentinel CIsEmpty LIsEmpty CEndNode LEndNode CUnlinkAfter LUnlinkAfter CUnlinkAfter2 LUnlinkAfter2 CLinkAfter LLinkAfter CIncorporateAfter LIncorporateAfter CTransferAfter LTransferAfter LSwapTrailing CGetPrev2 LGetPrev2 CGetPrev1 CGetPP1 CGetPP2 CCount LCount CDistance LDistance CUnlink CLinkBefore CTransferAll LTransferAll CSwapNodes CCReverse LLReverse LLReverseNull LMoveBack LMoveFwd CCMoveBack CCMoveFwd CDispose LDispose CDetachDispose LDetachDispose CPartition LPartition'.split()
def H(src, prop, name=None, case=None, **k):
    a = ['--prop', prop] + (['--case', case] if case else []) + (['--limit', str(k.pop('limit'))] if 'limit' in k else [])
    return dict(name=name or 'h_' + src + ('' if 'std' not in k else '_' + k['std']), src='h_%s.cpp' % src, args=a, **k)
KN = ['bs', 'rb', 'avl', 'sg', 'splay', 'treap']
def HT(prop, kinds=(0, 1, 2, 3, 4, 5)):
    return [H('tree', prop, 'h_tree_' + KN[k], defs=['KIND=%d' % k]) for k in kinds]
def HH(prop, parts=(0, 1, 2, 3)):
    return [H('hash', prop, 'h_hash_%d' % p, defs=['PART=%d' % p]) for p in parts]
TBOUND = 'every container configuration in the harness; all histories up to the length coded in the program over small element sets, then seeded random histories until the time limit'
def B(harness, functions, level='exploration', units=(), **k):
    return dict(level=level, units=list(units), harness=harness, bounded=functions, bound=TBOUND, assumptions=GEN + k.pop('extra', []), **k)
PROPS = {
 'C01': B([H('clist', 'C01')], ['circular_list_algorithms::stable_partition, sort helpers'], 'proof', [('clist', None), ('slist', ['DPartition'])]),
 'C02': B([H('slist', 'C02')], ['slist_impl members'], 'proof', [('slist', SL_ALL), ('lemmas', ['ModFacts'])]),
 'C03': B([H('seq', 'C03')], ['slist_impl members; list_impl::merge, sort, remove_if, unique, reverse, shift, assign'], 'proof', [('dlist', None)]),
 'C04': B(HT('C04'), ['tree container members of all six kinds'], 'proof', [('tree', TREE_BASE + TREE_INS + TREE_REM), ('lemmas', ['Adjacency'])]),
 'C05': B(HT('C05'), ['tree container lookups of all six kinds'], 'proof', [('tree', ['Minimum', 'Maximum', 'NextNode', 'PrevNode'] + TREE_LOOK), ('lemmas', ['Adjacency'])], extra=['the comparator is a strict weak ordering consistent with the element order (documented precondition)']),
 'C06': B(HT('C06', [1]), ['container wrappers (rbtree, set, multiset), clone'], 'proof', [('rbal', ['RbInsert', 'RbErase'] + ['RbT' + n for n in BAL]), ('lemmas', ['RbHeight', 'Pow2Mono'])]),
 'C07': B(HT('C07', [2]), ['container wrappers (avltree, avl_set, avl_multiset), clone'], 'proof', [('rbal', ['AvlInsert', 'AvlErase'] + ['AvlT' + n for n in BAL]), ('lemmas', ['AvlHeight'])]),
 'C08': B(HT('C08', [5]) + [H('tree', 'C08', 'h_tree_treap_finding', 'finding treap auto_unlink', defs=['KIND=5'])], ['container wrappers (treap, treap_set, treap_multiset), clone, transfer_unique/transfer_equal'], 'proof', [('treap', None)]),
 'C09': B(HT('C09', [4]), ['splaytree container wrappers, transfer_unique/transfer_equal, clone; that non-splaying accesses leave the tree alone'], 'proof', [('splay', None)]),
 'C10': B(HT('C10', [0, 3]), ['sgtree_algorithms, bstree rebalance'], 'exploration', [('hmath', ['CalcH', 'Alpha075', 'Sqrt2', 'FloorLog2'])]),
 'C11': B(HH('C11'), ['hashtable_impl']),
 'C12': B(HH('C12'), ['hashtable_impl::rehash, incremental_rehash, full_rehash']),
 'C13': B([H('math', 'C13')] + HH('C13'), ['container members calling these functions (bucket index reported by the containers)'], 'proof', [('hmath', None)]),
 'C14': B([H('hooks', 'C14'), H('hooks', 'C14', 'h_hooks_find1', 'finding linear slist'), H('hooks', 'C14', 'h_hooks_find2', 'finding linear_buckets'), H('seq', 'C14')] + HT('C14') + HH('C14'), ['generic_hook, any_hook, container erase paths'], 'proof', [('dlist', r'(Push|Pop|Erase|Clear|Insert|Dtor|CloneFrom|MoveAssign).*_safe'), ('clist', r'Init|Inited|Unlink'), ('slist', r'[CL]Inited|[CL]Init'), ('tree', ['UniqueN', 'Inited', 'InitN'])]),
 'C15': B([H('hooks', 'C15')], ['node types with non-raw pointers'], 'proof', [('hrepr', None)]),
 'C16': B([H('seq', 'C16')] + HT('C16') + HH('C16'), ['container size bookkeeping'], 'proof', [('dlist', r'.*_ct'), ('slist', ['CCount', 'LCount', 'CDistance', 'LDistance']), ('tree', ['Size'])]),
 'C17': B([H('seq', 'C17')] + HT('C17') + HH('C17'), ['container members that call user functors'], 'exploration', [('dlist', r'CloneFrom_.*')]),
 'C18': B([H('seq', 'C18')] + HT('C18') + HH('C18'), ['clone_from and algorithm clone functions'], 'exploration', [('dlist', r'CloneFrom_.*')]),
 'C19': B([H('seq', 'C19')] + HT('C19') + HH('C19'), ['*_and_dispose members'], 'proof', [('dlist', r'(PopBackD|PopFrontD|EraseD|EraseRangeD|ClearD|CloneFrom)_.*'), ('slist', ['CDispose', 'LDispose', 'CDetachDispose', 'LDetachDispose'])]),
 'C20': B([H('seq', 'C20')] + HT('C20') + HH('C20'), ['iterators'], 'proof', [('dlist', r'(Inc|Dec|IteratorTo)_ct_safe|(Begin|End|RBegin)_.*'), ('tree', ['NextNode', 'PrevNode', 'BeginNode', 'EndNode', 'GetHeader']), ('lemmas', ['Adjacency'])]),
 'C21': B([H('seq', 'C21')] + HT('C21') + HH('C21'), ['swap, move construction and assignment'], 'proof', [('dlist', r'(Swap|MoveCtor|MoveAssign)_.*'), ('tree', ['SwapTree']), ('rbal', ['RbTSwapTree', 'AvlTSwapTree'])]),
 'C22': B(HT('C22'), ['tree merge members']),
 'C23': B(HT('C23'), ['replace_node, swap_nodes of all tree kinds'], 'proof', [('tree', ['GetHeader', 'IsHeader'] + TREE_SWAP), ('rbal', [k + n for k in ('RbT', 'AvlT') for n in TREE_SWAP])]),
}
