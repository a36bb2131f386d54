#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

V='src/vector.rs'; F='src/focus.rs'; S='src/sort.rs'; B='src/node_impls/basic.rs'; C='src/circular.rs'; T='src/size_table.rs'; N='src/node_traits.rs'

p('C01','Every editing operation equals the same edit on a plain list',
 'After any sequence of push, pop, append, prepend, split, slice, extract, insert, remove, reverse, reverse_range, constant, collect and clone operations on any number of vectors, each vector contains exactly the elements, in exactly the order, that the same operations produce on ordinary lists, and every value returned (popped, removed, extracted, split-off, length) is the list\'s. This holds for every size and for the single-threaded and the thread-safe flavour alike.',
 ['histories','inputs'],'all finite histories of editing operations over several vectors that are appended to, split from and cloned from one another (also a vector appended to itself), for all lengths and positions, both pointer flavours',
 'The one history test (vector::random_u64) draws push/extend/slice/concat on one vector; insert, remove, extract, reverse, prepend, constant, self-append, moved/cloned operands and the thread-safe flavour are only touched by three-element doc examples, and unbalanced (relaxed) or tall trees are hardly reached.',
 [V,B,C,T,N],[('spine push/pop and root raising','src/vector.rs complete_leaf, empty_leaf/pop_side'),('root-to-leaf merging with packing','src/vector.rs append, src/node_impls/basic.rs pack_children'),('spine cutting','src/vector.rs split_off'),('cumulative child sizes','src/size_table.rs')],
 ['return values','len()','iter()'])

p('C02','Clones are isolated snapshots',
 'Once a vector has been cloned (or its parts shared by appending clones, splitting or extracting), no later operation on either side -- editing, element mutation through any mutable accessor, iterator or focus, sorting, reversing, dropping -- changes what the other side contains. This holds even when the same nodes occur several times inside one vector.',
 ['histories'],'all histories that create clones and then mutate any of the sharing vectors through any mutable path, in any order',
 'No existing test mutates a vector while a clone of it is alive and compares the clone.',
 [V,B,F,C],[('copy-on-write before every mutable load','src/node_impls/basic.rs Entry::load_mut (make_mut)'),('leaf copy','src/circular.rs Clone for CircularBuffer'),('size tables shared by pointer','src/node_impls/basic.rs sizes')],
 ['iter()/get() of the vectors that were not operated on'])

p('C03','Every way of reading a position agrees',
 'For every vector and every index below its length, get, indexing, front/back, random access through a focus in any order of indices, and the mutable getters all yield the same element, the one at that position of the sequence; at or past the length, the fallible readers yield nothing. Reading never changes the vector.',
 ['inputs','histories'],'all tree shapes reachable by histories of operations, all indices, all access orders through a focus',
 'Tests read vectors that were built by pushes only, mostly in increasing order; relaxed nodes, wrapped leaves, empty roots and jumps between spines are not read back systematically.',
 [V,F,T,B,C],[('index to child translation','src/size_table.rs position_info_for'),('spine lookup','src/vector.rs find_node_info_for_index'),('cached path and spine movement','src/focus.rs move_focus, refocus')],
 ['get','Index','front','back','Focus::get','Focus::index','get_mut','get_mut_guarded'])

p('C04','A read focus is a window onto its sub-sequence',
 'However a read focus was obtained -- on the whole vector, on a range, by repeatedly narrowing, splitting or cloning -- it behaves as the slice it denotes: its length and emptiness are the slice\'s, position i yields element i of the slice whatever was accessed before, and no position outside the slice is ever readable. Narrowing and splitting are relative to the focus they are applied to.',
 ['inputs','histories'],'all tree shapes, all nestings of narrow/split/clone including empty ranges, all access sequences',
 'Three doc examples on three-element vectors exercise narrow and split_at once on a whole-vector focus.',
 [F],[('range bookkeeping','src/focus.rs narrowed_tree, narrow, split_at'),('movement between spine nodes','src/focus.rs refocus')],
 ['Focus::get','Focus::index','Focus::len','Focus::is_empty','Focus::narrow','Focus::split_at'])

p('C05','Mutable foci and iterators reach exactly the addressed element',
 'A mutable focus, any focus obtained from it by nested splitting, and the other mutable accessors (mutable iteration from both ends, get_mut, the guarded getter, indexing, front_mut/back_mut) let the caller overwrite exactly the element at the requested position of the focused part and nothing else; positions outside yield nothing, sibling foci are disjoint and together cover the parent, and all writes are visible in the vector afterwards. Accesses may come in any order, also after a failed access, and a parent focus is usable again once its parts are gone.',
 ['inputs','histories'],'all tree shapes, all trees of splits, all interleavings of accesses on sibling foci, in and out of range',
 'Tests split one push-built vector once in the middle and sweep it in increasing order.',
 [F,B,C,V],[('borrowed node splitting','src/focus.rs InnerFocusMut::split_at, src/node_impls/basic.rs split_at_position'),('cached path invalidation','src/focus.rs move_focus, drop_path_nodes'),('borrowed buffers with a range','src/circular.rs BorrowedBuffer')],
 ['FocusMut::get/index/split_at/len','IterMut','get_mut','get_mut_guarded','IndexMut','front_mut','back_mut','final contents'])

p('C06','Sorting sorts: ordered, a permutation, only inside the range',
 'Each sort operation leaves the requested range ordered by the given comparator or key, holding exactly the elements it held before (none lost, duplicated or altered), and every element outside the range where it was. It completes for every input, including long runs of equal elements, already sorted or reversed data, using a number of comparisons and a stack depth that stay far below quadratic and linear in the range.',
 ['inputs'],'all contents (any duplication and presortedness), all ranges, all comparators that are total orders, all tree shapes including shared ones',
 'One test sorts random 32-bit integers (almost no duplicates) over the full range of a push-built vector.',
 [S,V,F],[('three-way partition quicksort over split foci','src/sort.rs do_single_sort'),('range to focus translation','src/vector.rs sort_range_by, sort_range_by_key')],
 ['contents after sort, sort_by, sort_range, sort_range_by, sort_range_by_key','number of comparator calls'])

p('C07','Dual sort applies one permutation to both vectors',
 'A dual sort orders the requested range of the primary vector exactly as C06 demands and rearranges the same range of the secondary vector by the very same permutation, so that elements at equal positions stay paired; everything outside the range in both vectors is untouched. The two vectors may have different element types, tree shapes and pointer flavours, and the secondary may be longer.',
 ['inputs'],'all contents, ranges, comparators and pairs of tree shapes, element types and flavours',
 'Only doc examples with ten distinct elements and one proptest-free example use the dual sorts.',
 [S,V,F],[('mirrored swaps','src/sort.rs do_dual_sort'),('range to focus translation','src/vector.rs dual_sort_range_by, dual_sort_range_by_key')],
 ['contents of both vectors after dual_sort, dual_sort_by, dual_sort_range, dual_sort_range_by, dual_sort_range_by_key'])

p('C08','Searching a sorted range finds exactly the matching run',
 'On a (sub)range sorted with respect to the comparator, the equal-range and between-range searches return Ok with precisely the maximal run of matching positions inside the searched range when one exists, and otherwise Err with the position at which a match would keep the order. The indexed variant returns the run around the index, or an empty range if that element does not match or lies outside. Every way of writing the searched range (inclusive, exclusive, open, empty) is honoured.',
 ['inputs'],'all sorted contents with any duplication, all probe values and bounds, all range kinds, all tree shapes',
 'Doc examples on one nine-element vector.',
 [V],[('binary search and expansion','src/vector.rs equal_range_in_range_by, equal_range_for_index_in_range_by'),('bounds to comparator','src/vector.rs between_range_in_range')],
 ['return values of equal_range*, between_range*'])

p('C09','Equality, ordering and hashing see only the sequence',
 'Two vectors are equal, compare, partially compare and hash exactly as their element sequences do, however differently they were built and whatever they share; equal vectors have equal hashes, unequal sequences are never equal, and ordering is lexicographic. Converting from an iterator and default construction give the sequence they say.',
 ['inputs','histories'],'all pairs of contents (equal, prefix, differing in one place) and all pairs of construction histories',
 'Tests only compare push-built vectors against one another with equality.',
 [V],[('element-wise comparison through iterators','src/vector.rs PartialEq, PartialOrd, Ord, Hash impls')],
 ['==','partial_cmp','cmp','Hash'])

p('C10','Every element is dropped exactly once and only live ones are seen',
 'Over any history every element instance handed to, or cloned by, a vector is dropped exactly once: when it is popped or removed and dropped by the caller, or when the last vector holding it lets go of it; nothing leaks and nothing is dropped twice, and once all vectors, iterators and foci are gone no memory stays allocated. No operation ever exposes an element that is uninitialised or already dropped, also for consuming iterators dropped half way.',
 ['histories'],'all histories of editing, cloning, mutating, sorting and consuming operations, with elements that account for each construction, clone and drop',
 'The tests use integers; drops are never observed and no memory checker is run.',
 [C,B,V,F],[('uninitialised slots and wrap-around drop loops','src/circular.rs'),('ManuallyDrop and raw-pointer borrows','src/focus.rs InnerFocusMut'),('shared ownership','archery SharedPointer')],
 ['per-instance life-cycle of the elements','process memory errors'])

p('C11','The documented tree shape holds after every operation',
 'After every public operation the tree satisfies the documented invariants: spines of equal length, a free slot in every inner spine node, non-empty spine leaves, two free slots in an inner root, and, below an empty root, spine tops that differ by at most one slot and could not be merged; all leaves are at the same depth, no node inside the tree is empty or over-full, and every recorded size equals the number of elements actually below.',
 ['histories'],'the state after each step of any history of operations',
 'The invariants are asserted only along push/extend/slice/concat histories of one vector and after pushes.',
 [V,B,T],[('spine completion and root raising','src/vector.rs complete_leaf'),('spine top repair','src/vector.rs fixup_spine_tops'),('size tables','src/size_table.rs')],
 ['tree shape through a read-only hook'],
 'cfg(librrb_verif): InternalVector::verif_shape walks the tree read-only')

p('C12','Structure is shared: copying is cheap and mutation copies little',
 'Cloning a vector copies no element and allocates an amount of memory that depends on the height only, not on the length; reading, comparing, hashing and searching copy no element either. As long as no node is shared, no operation copies any element, and on a vector that shares its nodes one point mutation copies at most one leaf\'s worth of elements, a push or pop at most two, a single access through a mutable focus at most three, however long the vector is.',
 ['histories','inputs'],'all histories and sizes; elements count their own copies and a counting allocator measures memory',
 'No test observes element copies or memory.',
 [V,B,C],[('reference-counted nodes','src/node_traits.rs NodeRc'),('copy-on-write','src/node_impls/basic.rs load_mut')],
 ['number of element clones','bytes allocated'])

p('C13','Thread-safe vectors can be shared and split across threads',
 'With the thread-safe flavour, clones of one vector can be read, edited and dropped concurrently on different threads, one vector can be read by several threads at once, and the parts of a split mutable focus can be written on different threads; every thread sees exactly what it would see alone, and no element is lost, corrupted or dropped twice.',
 ['schedules','histories'],'all assignments of operation histories on sharing vectors to threads, and all thread interleavings the platform produces',
 'One test moves one half of a split focus to another thread; nothing edits sharing vectors concurrently.',
 [F,B,C,V],[('atomic reference counts','archery ArcK'),('Send/Sync declarations','src/circular.rs, src/focus.rs'),('disjoint borrowed nodes','src/focus.rs split_at')],
 ['per-thread results against a sequential model','element life-cycle'])

p('C14','A panic in user code never corrupts memory or other vectors',
 'If an element\'s Clone, a comparator or a key function panics in the middle of an operation, no element is dropped twice or exposed uninitialised, then or later, and every other vector sharing nodes with the one being operated on is unchanged. After a panicking comparator the vector under sort still holds exactly its elements; after a panicking Clone during an in-place element mutation it is unchanged, and after one during a push or a pop it holds the elements from before or from after that push or pop.',
 ['fault_sequences','histories'],'all histories and all points (the n-th user callback) at which the callback panics',
 'No test lets user code panic.',
 [C,B,S,V,F],[('copy completed before the shared node is replaced','src/circular.rs Clone, src/node_impls/basic.rs load_mut'),('swap-only sorting','src/sort.rs')],
 ['contents of the other vectors','element life-cycle','contents after a failed sort'])

p('C15','Out-of-range requests are refused cleanly',
 'Popping or peeking at an empty vector, getting or removing at or past the end, yields nothing and changes nothing; splitting, slicing or extracting past the end behaves as at the end, and inserting past the end appends. Indexing, splitting a focus, narrowing, sorting or reversing outside the valid range panics without changing the contents of any vector, and the vector stays fully usable.',
 ['inputs'],'all out-of-range positions and ranges on all tree shapes, including empty vectors and the far end of the index type',
 'Doc examples show get past the end and the empty vector\'s pops only.',
 [V,F,S],[('bounds tests','src/vector.rs get, remove, split_off; src/focus.rs get, split_at, narrow')],
 ['return values','panics','contents before and after'])

p('C16','Iterators yield every element once, from both ends',
 'The shared, mutable and consuming iterators yield each element exactly once in order, whatever mixture of front and back steps is taken, report the exact number of remaining elements before every step, keep returning nothing once exhausted, and a cloned iterator continues independently. The consuming iterator of a vector that shares nodes with others yields the same elements and leaves the others unchanged.',
 ['inputs','histories'],'all tree shapes and all mixtures of next/next_back/nth/clone steps, stopping anywhere',
 'Tests iterate push-built vectors fully, from one end at a time.',
 [V,F],[('front/back counters over a focus','src/vector.rs Iter, IterMut'),('popping iterator','src/vector.rs IntoIter')],
 ['sequence of yielded elements','size_hint/len'])

p('C17','Trees stay shallow and operations stay local',
 'The height of a vector is logarithmic in the number of elements that it, or a vector it was made from, holds or has held, whatever pushes, pops, cuts, insertions, removals and concatenations it was made by and however many they were, and appending a vector adds at most one level to the taller of the two. Pushes and pops allocate a small amortised amount of memory per element, point reads allocate a bounded amount independent of length, and slicing, appending, inserting, removing and extracting allocate in proportion to the height, not to the length. No operation on one position takes time in proportion to the length of a vector.',
 ['histories','inputs'],'all histories of end operations, cuts and concatenations at all sizes up to some hundred thousand elements',
 'No test observes height or cost; a degenerate tree returns the right elements.',
 [V,B],[('root raising and lowering','src/vector.rs complete_leaf, fixup_spine_tops, empty_leaf'),('packing on append','src/vector.rs append')],
 ['height through a read-only hook','bytes and blocks allocated','processor time of single operations on long vectors'],
 'cfg(librrb_verif): InternalVector::verif_shape reports the height')

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
