#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON well formed)."""
import json, os
L='src/lib.rs'; I='src/iter.rs'; R='src/rle.rs'; G='src/generic_impl/gap_buffer.rs'; O='src/generic_impl/ord.rs'; P='src/generic_impl/rope.rs'; Q='src/generic_impl/len_finder.rs'
def p(id,title,st,over,qt,why,files,mech,state,obs,hook):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x,meaning='state the guarantee depends on',where=files[0]) for x in state],observe_at=obs,hook_needed=('read-only structural dump of nodes, parents, slots and caches under cfg(generic_btree_verif)' if hook else None)))
ST=["in_nodes (parent, parent_slot, children)","leaf_nodes (elem, parent)","root","root_cache","Child.cache of every child"]
props=[
p("C01","Rope behaves as the text it stores",
  "After any sequence of Rope::insert, Rope::delete_range and Rope::clear calls (at character boundaries), to_string() equals the String obtained by applying the same byte-indexed edits to a plain String, and len()/is_empty() agree with it. No such call with an in-range index panics.",
  ["histories","inputs"],"every edit history, every index and range, every text length relative to the 128-byte chunk size",
  "the chunk layout, the gap position inside each chunk and the remembered cursor all depend on the whole edit history; the suite replays a few recorded ones, with a chunk size of 12 instead of the shipped 128",
  [P,G,L,I,Q],[("Rope::insert/delete_range with a remembered cursor",P),("GapBuffer",G),("update_leaf, update_leaf_by_search, insert_many_by_cursor, Drain",L+", "+I)],
  ["Rope.cursor","GapBuffer.gap_start/gap_len","tree"],["Rope::to_string()","Rope::len()"],False),
p("C02","OrdTreeMap and OrdTreeSet are sorted maps and sets",
  "After any sequence of insert and delete calls, OrdTreeMap iterates exactly the bindings a sorted map would hold, in ascending key order: insert adds or replaces the value of that key alone, delete returns and removes the binding of exactly that key and changes nothing when the key is absent. len() and is_empty() always count the bindings; OrdTreeSet does the same for keys.",
  ["histories","inputs"],"every sequence of inserts and deletes over every totally ordered key type",
  "the outcome depends on where node boundaries fall relative to the key and on keys that are absent, below the minimum or above the maximum; the tests only delete keys that are present",
  [O,L],[("OrdTreeMap::insert/delete",O),("OrdTrait query by (min,max) caches",O),("remove_leaf, split",L)],ST+["OrdTreeMap.len"],["OrdTreeMap::iter/len/delete","OrdTreeSet::iter/len/delete"],False),
p("C03","Insertion splices data exactly at the given position",
  "insert, insert_by_path, push, prepend and insert_many_by_cursor leave the in-order content of the tree equal to the old content with the new data spliced in, in order, at exactly the given position (end for push, start for prepend). Nothing else is lost, duplicated, altered or moved, and the returned cursor denotes the place where the inserted data begins.",
  ["histories","inputs"],"every reachable tree, every valid cursor (leaf start, middle, end), every element and every lawful element type, whether it merges, absorbs via try_insert, or splits the leaf",
  "which of the merge / try_insert / split-leaf / split-node / split-root paths runs depends on the tree shape the history produced",
  [L,R],[("insert_by_path, push, prepend, insert_many_by_cursor",L),("split_leaf_if_needed, split_node, inner_insert_node, split_root",L)],ST,["BTree::iter()","BTree::get_elem(cursor.leaf)","returned Cursor"],False),
p("C04","The tree stays a well-formed balanced B-tree",
  "After every public operation all leaves are at the same depth, every node and leaf is reachable from the root exactly once, its recorded parent (and, for internal nodes, parent slot) names the child entry that refers to it, and only the root may be empty. Every node stays below its fixed child capacity, so the next insertion always has room, and no node or leaf is left behind in the arenas.",
  ["histories","inputs"],"every sequence of public operations on every lawful element type",
  "a stale parent pointer, slot or leaked node is silent until a much later operation walks through it; check() does not look for leaks or over-full nodes and is only called at the end of a few tests",
  [L,I],[("split_node/inner_insert_node/split_root/update_children_parent_slot_from",L),("handle_lack_single_layer/try_reduce_levels/purge/remove_internal_node",L),("Drain::drop",I),("create_subtrees_from_elem, from_iter",L)],ST,["verif_dump() hook","BTree::check()","BTree::node_len()"],True),
p("C05","Every cached summary equals the summary of its subtree",
  "After every public mutation each child entry's cache equals the cache recomputed from that child's own subtree, and root_cache() equals the cache recomputed over the whole tree, for element types using cache diffs and for those that do not. In particular length queries and Rope::len never see a stale or drifted summary.",
  ["histories","inputs"],"every sequence of public operations, both USE_DIFF modes, every cache monoid satisfying the trait's laws",
  "a cache can be wrong in one entry on one path while all answers the tests look at stay right; incremental diffs accumulate error only along particular histories",
  [L,I,P,O],[("recursive_update_cache, recursive_update_cache_with_diff, update_dirty_cache_map",L),("calc_cache at split/merge/borrow",L),("Drain::drop cache repair",I)],ST,["BTree::root_cache()","verif_dump() hook (Child.cache)"],True),
p("C06","Queries land on the element a linear scan would find",
  "query (with LengthFinder) for position p returns the leaf and offset that a left-to-right scan of the elements would reach: the lengths before the leaf plus the offset equal p, found is true exactly when p is smaller than the total length, and a position past the end answers with the last leaf. query on an empty tree returns None, and range() and drain_by_query use the same positions.",
  ["inputs","histories"],"every reachable tree, every position from 0 to beyond the end, trees of any height",
  "the search combines one decision per level with the cached summaries; an off-by-one at a node boundary needs a particular shape and position",
  [L,Q],[("query_with_finder_return",L),("LengthFinder::find_node/confirm_elem",Q)],ST,["BTree::query()","QueryResult"],False),
p("C07","Leaf handles stay valid and keep naming the same element",
  "A LeafIndex obtained from the tree keeps referring to the same element through every later operation that does not remove or edit that element, however nodes are split, merged or rebalanced around it. A handle whose element was removed answers None from get_elem and remove_leaf and never aliases another element.",
  ["histories"],"every history between obtaining a handle and using it",
  "rebalancing clones and moves child entries between nodes; only histories that hold handles across splits and merges can see a mix-up",
  [L,I],[("get_elem, get_elem_mut, remove_leaf",L),("split_node, handle_lack_single_layer, Drain::drop",L+", "+I)],["leaf_nodes keys","LeafNode.parent"],["BTree::get_elem(handle)","BTree::remove_leaf(handle)"],False),
p("C08","remove_leaf removes exactly the named element",
  "remove_leaf returns the element of exactly that leaf and leaves all other elements in their order, however many levels of merging, borrowing and root shrinking it triggers; on a handle already removed it returns None and changes nothing. The tree can be emptied this way and then refilled.",
  ["histories","inputs"],"every reachable tree and every leaf in it, in every removal order",
  "the borrow, merge-left, merge-right, single-child and empty-node cases depend on the sizes of neighbouring nodes, which depend on the history",
  [L],[("remove_leaf, remove_internal_node",L),("handle_lack_recursively, handle_lack_single_layer, pair_neighbor, try_reduce_levels",L)],ST,["BTree::iter()","returned element"],False),
p("C09","drain yields and removes exactly the range",
  "drain and drain_by_query yield exactly the content between start and end in order, and afterwards the tree holds exactly the content before start followed by the content after end, whether the iterator is exhausted, partly consumed or dropped at once. Empty ranges, ranges touching either end, whole-tree ranges and empty trees are all handled without panicking.",
  ["histories","inputs"],"every reachable tree, every start<=end pair including leaf boundaries and mid-leaf positions, every number of items consumed before drop",
  "the drop handler removes whole subtrees along two paths whose relation (same node, same parent, different heights of divergence, emptied nodes) varies with the shape",
  [I,L],[("Drain::new/next/drop, seal, handle_lack_on_path_to_leaf",I),("split_leaf_if_needed, purge, delete_range",L)],ST,["items yielded by Drain","BTree::iter() after drop"],False),
p("C10","Navigation follows the in-order sequence",
  "first_leaf, last_leaf, next_elem, prev_elem, prefer_left, prefer_right, start_cursor, end_cursor and iter all agree with one left-to-right order of the elements: next and prev are inverse, step over every element once and stop at the ends, and compare_pos orders cursors as that order does. shift_path_by_one_offset moves a cursor forward by exactly one position of content, skipping empty elements.",
  ["inputs","histories"],"every reachable tree, every leaf and every offset",
  "crossing a node boundary at some level is needed to exercise the recursive step, and at several levels at once for the deep cases",
  [L],[("next_same_level_in_node, prev_same_level_in_node, next_sibling",L),("compare_pos, shift_path_by_one_offset, iter, first_path",L)],ST,["returned cursors","BTree::iter()"],False),
p("C11","Range traversals visit exactly the requested part",
  "iter_range yields exactly the elements from the start to the end cursor in order, with start/end offsets on the first and last element only; visit_previous_caches visits caches whose total is exactly the content before the cursor; iter_with_filter yields exactly the leaves all of whose ancestor caches pass the filter, each with the accumulated value of everything before it at the visited levels.",
  ["inputs","histories"],"every reachable tree, every pair of cursors, every filter",
  "the traversals start and stop in the middle of nodes at every level; only particular pairs of paths show an off-by-one",
  [L,I],[("iter_range, _iter_range, visit_previous_caches, iter_with_filter",L),("iter::Iter",I)],ST,["yielded ElemSlice sequence","visited caches"],False),
p("C12","In-place updates touch exactly the addressed elements",
  "update applies the function to exactly the content of the given cursor range, update_leaf and update_leaf_by_search to exactly the addressed leaf (placing returned extra elements right after it and dropping removable ones), and update_leaves_with_arg_in_ranges to exactly the given non-empty ranges; all other content keeps its value and order. Split-off leaves are reported.",
  ["histories","inputs"],"every reachable tree, every range or leaf, every outcome of the callback (unchanged, grown, removable, with one or two extra elements)",
  "leaf splitting at both ends, removal and overflow interact with the node shapes; the source itself notes the missing test coverage",
  [L],[("update, update_leaf, update_leaf_by_search, update_leaves_with_arg_in_ranges, update_dirty_cache_map",L)],ST,["BTree::iter()","returned SplittedLeaves"],False),
p("C13","Bulk construction equals element-by-element construction",
  "Collecting an iterator into a BTree, or inserting many elements at once into an empty or non-empty tree, yields a well-formed tree whose content is exactly the given elements in order (adjacent ones possibly merged when they may merge), with correct caches, and which accepts further operations like any other tree.",
  ["inputs"],"every number of elements, in particular around multiples of the node capacity at every level, and every pattern of mergeable neighbours",
  "the bulk builders have their own node-filling code whose boundary cases lie at exact multiples of the fan-out and are not exercised by single insertions",
  [L],[("FromIterator::from_iter",L),("insert_many_by_cursor, create_subtrees_from_elem, merge_adj",L)],ST,["BTree::iter()","BTree::check()","later insertions"],True),
p("C14","Slicing, splitting and merging preserve content",
  "For the rle traits' provided methods and for the rope's chunk buffer, slice(a..b) is exactly the content from a to b for every kind of range bound, split(p) partitions the content at p, update_with_split changes exactly the given range and returns the remaining parts in order, and merging or inserting chunks concatenates or splices their bytes. Operations that do not fit report failure and change nothing.",
  ["inputs"],"every content, every gap position, every position and range, every kind of range bound",
  "each operation has several arithmetic cases (gap before, inside, after; inclusive and exclusive bounds) and tests pick one point in each",
  [R,G],[("Sliceable::slice/slice_/split/update_with_split",R),("GapBuffer shift_at/insert_bytes/delete/split/_slice/merge/try_insert",G)],["GapBuffer.buffer, gap_start, gap_len"],["Rope::to_string()","rle trait results"],True),
p("C15","clear and clone give independent fresh trees",
  "After clear the tree is indistinguishable from a new one (no elements, no leftover nodes, neutral caches, old handles dead unless reissued) and works as one; a clone has the same content, handles and caches as the original, and later operations on either never affect the other.",
  ["histories"],"every history before and after clear or clone",
  "leftover state (caches, remembered cursors, stale nodes) only shows in operations after the reset",
  [L,P],[("BTree::clear, Clone",L),("Rope::clear",P)],ST+["Rope.cursor"],["BTree::iter/root_cache/node_len","Rope::to_string()"],False),
p("C16","Valid calls never panic",
  "Every public operation called with valid arguments (cursors of live leaves with offset within the element, ranges in order) returns normally, including on an empty tree, a single-element tree, at the first and last position, right after the tree was emptied, and on trees of any height that fits in memory.",
  ["histories","inputs"],"every sequence of valid calls",
  "the code unwraps arena lookups, slot positions, fixed-capacity vectors and iterator results throughout; each is safe only under an invariant over all histories",
  [L,I,O,P,Q,G],[("HeaplessVec push/insert unwraps",L),("arena lookups by parent/child index",L),("NodePath capacity",L),("Drain::drop",I)],ST,["return versus panic"],False),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in props:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
