import json
INC="include/fixed_containers/"
P=[]
def add(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[INC+f for f in files],"mechanism":[{"name":n,"where":INC+w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","FixedVector and FixedStack behave as a bounded std::vector / std::stack",
 "After any sequence of operations, a FixedVector holds exactly the elements, in the order, that a std::vector given the same operations would hold: size(), iteration in both directions, indexing, data(), front()/back(), comparisons and every return value (returned iterators, references, counts) agree. FixedStack is the same as a std::stack over it. This includes arguments that refer to the container's own elements and element types that are move-only, non-trivial or trivially copyable.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations, element type category, capacity and fill level, including operations that failed before",
 "Tests sample short scripts on one or two element types; wrong results depend on the combination of fill level, position, range length, element category and what the history left in the slots.",
 ["fixed_vector.hpp","fixed_stack.hpp","stack_adapter.hpp"],
 [("FixedVectorBase insert/erase/assign/resize","fixed_vector.hpp"),("StackAdapter","stack_adapter.hpp"),("relocation helpers","algorithm.hpp"),("FixedVectorBuilder and data()/span access","fixed_vector.hpp")])
add("C02","FixedDeque and FixedQueue behave as a bounded std::deque / std::queue",
 "After any sequence of operations at both ends and in the middle, a FixedDeque holds exactly the elements, in the order, that a std::deque given the same operations would hold, wherever the sequence happens to start inside the ring: size(), iteration and iterator arithmetic, indexing, comparisons and every return value agree. FixedQueue is the same as a std::queue over it.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations and therefore every start offset and wrap-around position",
 "The ring offset is the residue of the whole history; tests reach few (offset, size, position) combinations.",
 ["fixed_deque.hpp","fixed_queue.hpp","queue_adapter.hpp","circular_indexing.hpp","integer_range.hpp"],
 [("ring indexing","circular_indexing.hpp"),("FixedDequeBase","fixed_deque.hpp"),("QueueAdapter","queue_adapter.hpp")])
add("C03","FixedCircularDeque and FixedCircularQueue keep the most recent elements",
 "A FixedCircularDeque (of non-zero capacity) behaves as a deque of unlimited size that is trimmed back to its capacity after each operation: adding at the back (or inserting) into a full deque drops elements from the front, adding at the front drops from the back, and it is never rejected for being full. Everything else (order, iteration, erase, return values, and arguments that refer to an element about to be dropped) is as for a deque; FixedCircularQueue is a queue over it.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations, every start offset, every amount of overflow",
 "Overwriting depends on the offset, fill level and insert position at once, and on which element the argument aliases.",
 ["fixed_circular_deque.hpp","fixed_circular_queue.hpp","fixed_deque.hpp","queue_adapter.hpp"],
 [("overwrite on full","fixed_circular_deque.hpp"),("FixedCircularQueue","fixed_circular_queue.hpp")])
add("C04","FixedList behaves as a bounded std::list",
 "After any sequence of operations, a FixedList holds exactly the elements, in the order, that a std::list given the same operations would hold; forward and reverse iteration, counts returned by remove/remove_if/erase_if and returned iterators agree. Slots freed by erasing are reusable for ever: the list accepts an element exactly when it holds fewer than its capacity.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations, every free-list order",
 "The internal slot order is a permutation determined by the whole history.",
 ["fixed_list.hpp","fixed_doubly_linked_list.hpp","fixed_index_based_storage.hpp"],
 [("index linked list","fixed_doubly_linked_list.hpp"),("free-slot pool","fixed_index_based_storage.hpp")])
add("C05","FixedString behaves as a bounded std::string and is always null-terminated",
 "After any sequence of operations a FixedString holds exactly the characters a std::string given the same operations would hold (content, size, comparisons, substr, starts_with/ends_with, view conversion, return values), and c_str()/data() is followed by a null character at index size() at all times. Arguments that refer to the string's own characters in assign and append give the std::string result.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations, lengths from empty to exactly full, embedded nulls, every memory content the object is created over",
 "Stale characters behind the end, terminator placement and full-capacity boundaries depend on the preceding history.",
 ["fixed_string.hpp"],[("FixedString over FixedVector","fixed_string.hpp"),("null_terminate_at / length checks","fixed_string.hpp")])
add("C06","FixedMap and FixedSet behave as bounded std::map / std::set",
 "After any sequence of operations a FixedMap/FixedSet holds exactly the entries a std::map/std::set with the same comparator would hold, iterated in comparator order in both directions; lookups (find, at, contains, count, lower_bound, upper_bound, equal_range, also heterogeneous), returned iterators and flags, comparisons and erased counts agree. This holds for every storage layout offered (pool, contiguous, compact nodes) and every order of insertions and erasures. A map of references maps each key to the very object it was given, until it is erased or assigned anew.",
 ["histories","inputs","schedules"],"for every insertion/erasure history (every tree shape and slot permutation), comparator and storage template",
 "Red-black tree shapes and slot moves on deletion grow combinatorially; tests check particular shapes.",
 ["fixed_map.hpp","fixed_set.hpp","fixed_red_black_tree.hpp","fixed_red_black_tree_ops.hpp","fixed_red_black_tree_nodes.hpp","fixed_red_black_tree_storage.hpp","fixed_index_based_storage.hpp"],
 [("red-black tree operations","fixed_red_black_tree.hpp"),("rebalancing","fixed_red_black_tree_ops.hpp"),("node storage","fixed_red_black_tree_storage.hpp"),("map API","fixed_map.hpp"),("set API","fixed_set.hpp")])
add("C07","FixedUnorderedMap/FixedUnorderedSet are a correct map/set under any hash",
 "Whatever the hash function returns (constant, clustered, adversarial) and whatever the bucket count, a FixedUnorderedMap/FixedUnorderedSet holds exactly the entries a reference map/set given the same operations would hold: every key inserted and not erased is found, no erased or absent key is found, iteration visits each entry exactly once, and sizes, flags, comparisons and erased counts agree. The container accepts a new key exactly when it holds fewer than its capacity. A map of references maps each key to the very object it was given.",
 ["histories","inputs"],"for every history, hash function and bucket count",
 "Probe-distance errors only show for particular collision chains combined with erasures; tests use one hash.",
 ["fixed_unordered_map.hpp","fixed_unordered_set.hpp","fixed_robinhood_hashtable.hpp","fixed_doubly_linked_list.hpp"],
 [("robin-hood insertion and backward-shift deletion","fixed_robinhood_hashtable.hpp"),("value list","fixed_doubly_linked_list.hpp")])
add("C08","EnumMap, EnumSet and EnumArray behave as map/set/array keyed by the enum",
 "After any sequence of operations an EnumMap/EnumSet holds exactly the entries a std::map/std::set keyed by the enumerators would hold, iterated in enumerator order in both directions, with agreeing lookups, flags, counts, returned iterators and comparisons; EnumArray always holds one value for each enumerator. Factories that require all entries reject missing or duplicate enumerators, and all()/none()/complement and the copying of either give exactly the corresponding set.",
 ["histories","inputs","fault_sequences"],"for every history over every subset of enumerators, including enums with gaps and non-monotonic values",
 "The presence bits and the stored values must agree after every history, including failed copies.",
 ["enum_map.hpp","enum_set.hpp","enum_array.hpp","filtered_integer_range_iterator.hpp","enum_utils.hpp"],
 [("EnumMap presence array","enum_map.hpp"),("EnumSet presence array","enum_set.hpp"),("EnumArray","enum_array.hpp"),("skipping iterator","filtered_integer_range_iterator.hpp")])
add("C09","References and iterators stay valid exactly as documented",
 "A reference, pointer or iterator to an element stays valid and keeps designating that same element across every operation that the corresponding std container's rules (or the container's documentation) say does not invalidate it: node-like containers (FixedList, FixedMap/FixedSet with pool storage, FixedUnorderedMap/Set, EnumMap) until that element is erased, FixedVector for elements before the point of change, FixedDeque references when adding or removing at the ends.",
 ["histories","schedules"],"for every interleaving of handle taking with later operations",
 "A handle broken by a later, unrelated operation needs a specific history between taking and using it.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_unordered_set.hpp","enum_map.hpp","fixed_red_black_tree_storage.hpp"],
 [("stable slots","fixed_index_based_storage.hpp"),("index-based iterators","fixed_red_black_tree.hpp"),("list iterators","fixed_list.hpp")])
add("C10","Misuse is reported through the checking policy before any effect",
 "An operation that cannot be performed (capacity exceeded, index or iterator out of range, empty container, absent key, excessive length) calls the matching function of the container's checking policy instead of going on, and does so before the container changed (for range assignment: leaving a valid container), and before a value given as an rvalue to push, insert into a sequence or try_emplace is consumed. An operation that can be performed never calls the policy; the sizes, indices and keys reported are the offending ones. Where the library checks by assertion instead (dereferencing an end iterator or comparing iterators of different containers in deques and lists, reversed erase ranges), it aborts before any effect.",
 ["histories","inputs","fault_sequences"],"for every container, fill level, argument and history; the policy's function never returns to the caller",
 "Tests see only that an exception or abort happens; the state the container is left in when the policy abandons the caller, and every boundary, is not sampled.",
 ["sequence_container_checking.hpp","map_checking.hpp","fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","enum_map.hpp","preconditions.hpp"],
 [("checking policies","sequence_container_checking.hpp"),("map policies","map_checking.hpp"),("capacity checks","fixed_vector.hpp")])
add("C11","Every element is constructed and destroyed exactly once",
 "Through every history, each element object the container creates is destroyed exactly once, is used only while alive, and the live elements inside the container are exactly its contents; no element is assigned over raw memory, moved onto itself, leaked by erase/assign/clear/overwrite, or left behind after destruction of the container. Construction failures do not change this.",
 ["histories","fault_sequences"],"for every history including failing element constructors and rejected operations",
 "Needs accounting of every special-member call over long histories on non-trivial types; tests count a few.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_index_based_storage.hpp","fixed_robinhood_hashtable.hpp","enum_map.hpp","algorithm.hpp","memory.hpp","optional_storage.hpp"],
 [("construct/destroy helpers","memory.hpp"),("OptionalStorage","optional_storage.hpp"),("relocation","algorithm.hpp")])
add("C12","A throwing element operation leaves every container valid",
 "If an element's constructor, copy, comparison or a predicate (not a move or destructor) throws in a container operation that may throw (insertion into maps and sets, and modification of ordered ones, may not), the exception propagates, nothing is leaked, and the container is still valid: it can be read, modified and destroyed and exposes only live elements. Adding one element at an end (vector, deque, list), inserting one into a list, and comparisons have no effect at all when they fail.",
 ["fault_sequences","crash_points","histories"],"for every operation and every callback inside it at which the failure can strike",
 "A failure at the k-th copy of a particular range insert into a particular fill level is one of thousands of fault points; tests inject none.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_circular_deque.hpp","fixed_list.hpp","fixed_doubly_linked_list.hpp","fixed_index_based_storage.hpp","fixed_robinhood_hashtable.hpp","enum_map.hpp"],
 [("insert gap handling","fixed_vector.hpp"),("slot guard","fixed_index_based_storage.hpp"),("copy constructors","fixed_doubly_linked_list.hpp")])
add("C13","No dynamic allocation; elements live inside the object",
 "No container operation allocates or frees dynamic memory, whatever the history, also when allocation would fail; every element lies inside the container object's own bytes and no operation writes outside them.",
 ["histories","fault_sequences"],"for every operation, with the allocator failing on each request",
 "A path that allocates (or overflows) only in one rarely reached branch is invisible to tests.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_unordered_map.hpp","enum_map.hpp","optional_storage.hpp"],
 [("inline storage","fixed_vector.hpp"),("pool storage","fixed_index_based_storage.hpp"),("tree storage","fixed_red_black_tree_storage.hpp")])
add("C14","A memory image of a container is the container",
 "A container of trivially copyable elements is fully described by its bytes: after any history, its bytes copied to another address and with the original lost (crash, process restart, file, shared memory) are a container with the same contents that continues to work, independently of the original. The raw views over such bytes read exactly the same contents in the same order.",
 ["crash_points","histories","configurations"],"for every point of every history at which only the bytes survive, at any new address",
 "Pointers into itself or state outside the object only show after the object has moved with the original destroyed, at a particular state.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_unordered_map.hpp","fixed_deque_raw_view.hpp","fixed_doubly_linked_list_raw_view.hpp","fixed_map_raw_view.hpp","fixed_unordered_map_raw_view.hpp","fixed_unordered_set_raw_view.hpp"],
 [("index-based links","fixed_doubly_linked_list.hpp"),("raw views","fixed_map_raw_view.hpp"),("tree node indices","fixed_red_black_tree_nodes.hpp")])
add("C15","Const use is safe concurrently and instances are independent",
 "Operations on distinct containers, and any number of const operations on the same container, can interleave at every callback without affecting each other's results; a task abandoned in the middle of a const operation leaves the container unchanged. Const operations write neither to the container nor to anything shared, and no instance shares mutable state with another.",
 ["schedules","histories","fault_sequences"],"for every interleaving of up to four tasks at callback granularity and every abandonment point of a reader",
 "Needs control of the interleaving; tests are single-threaded.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_unordered_set.hpp","enum_map.hpp"],
 [("const members","fixed_red_black_tree.hpp"),("const lookup","fixed_robinhood_hashtable.hpp"),("iterators","arrow_proxy.hpp" if False else "random_access_iterator_transformer.hpp")])
add("C16","Copies, moves, assignments and comparisons are those of values",
 "Copy construction/assignment (also copying from another capacity where offered) yields an equal, independent container and leaves the source as it was; move construction/assignment transfers exactly the contents and leaves a source that can be destroyed and reassigned; swap exchanges contents; assigning a container to itself, by copy or by move, changes nothing. Comparator, hash and key-equal objects travel with the contents, and ==, != and <=> agree with the reference containers, also between containers of different capacity or policy. What is given as an rvalue, or only changes its place, is moved and never copied.",
 ["histories","inputs","fault_sequences"],"for every pair of source and destination states reachable by any history",
 "Requires all pairs of (source state, target state), including wrapped rings, permuted pools and stateful functors.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_unordered_set.hpp","enum_map.hpp","enum_set.hpp"],
 [("copy/move of list storage","fixed_doubly_linked_list.hpp"),("hashtable copy","fixed_robinhood_hashtable.hpp"),("tree copy","fixed_red_black_tree.hpp")])
add("C17","Operations finish within their complexity bound",
 "Every operation completes within the number of element operations and comparisons its std counterpart allows: constant work at the ends of vectors/deques/lists and for list insertion and erasure, linear for shifting and ranges, logarithmic comparisons for ordered lookups/insertions/erasures (the tree stays balanced), at most linear probing for unordered lookups under any hash. No operation does hidden work: whatever is constant or logarithmic costs far fewer steps than the container has elements, however full or large it is. Nothing loops for ever, whatever the history.",
 ["histories","inputs"],"for every history and fill level; bounds counted in element callbacks and in executed steps",
 "Imbalance and endless probing need particular long histories; tests do not count work.",
 ["fixed_red_black_tree.hpp","fixed_red_black_tree_ops.hpp","fixed_robinhood_hashtable.hpp","fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp"],
 [("rebalancing","fixed_red_black_tree_ops.hpp"),("probe loop","fixed_robinhood_hashtable.hpp"),("shift helpers","algorithm.hpp")])
add("C18","Single-pass input sources are consumed exactly once, in order",
 "Constructing, assigning or inserting from a single-pass input range reads every element exactly once, in order, never past its end, and produces the same container as the same elements given as a list; a source that ends early gives the shorter result and one that fails midway leaves a valid container.",
 ["inputs","fault_sequences","crash_points"],"for every source length, position, fill level and failure point of the source",
 "Range insertion buffers and rotates; errors depend on length, position and remaining room together, and on where the source stops.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_circular_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_string.hpp"],
 [("input-iterator insert","fixed_vector.hpp"),("deque input insert","fixed_deque.hpp"),("range constructors","fixed_map.hpp")])
add("C19","FixedString stream I/O is exact on any stream",
 "With default formatting, writing a FixedString to an ostream and reading one from an istream behave as for std::string on any stream, however it delivers its characters (in chunks, short, failing or throwing midway): operator>> skips whitespace, extracts exactly one word and leaves everything after it in the stream, sets failbit/eofbit as std::string does, and the string is null-terminated and valid at every point. A word longer than the capacity is reported as a length error with the string valid.",
 ["inputs","fault_sequences"],"for every text, chunking, failure point and stream state",
 "Tests read from stringstreams holding one word; chunk boundaries, trailing delimiters, failures and capacity-long words are not sampled.",
 ["fixed_string.hpp"],[("operator>>","fixed_string.hpp"),("operator<<","fixed_string.hpp")])
add("C20","Constant evaluation gives the same results as run time",
 "Every operation that can be evaluated at compile time produces there exactly the result it produces at run time.",
 ["inputs"],"for every constant expression over the containers",
 "Tests evaluate particular constant expressions; the separate code paths for constant evaluation are only exercised on those.",
 ["fixed_vector.hpp","memory.hpp","algorithm.hpp"],[("constant-evaluation branches","memory.hpp")])
add("C21","Enum utilities and reflection mirror the declarations",
 "Enum helpers (rich enums, values, names, ordinals and their inverses) and structure reflection (field names, counts, nested paths and decomposition) mirror the declared types exactly.",
 ["inputs","configurations"],"for every enum and aggregate type",
 "Each type is a separate instantiation; tests cover a handful of types.",
 ["enum_utils.hpp","reflection.hpp","recursive_reflection.hpp","struct_decomposition.hpp","type_name.hpp"],
 [("rich enums","enum_utils.hpp"),("reflection","reflection.hpp")])
add("C22","Containers keep the type properties of their elements",
 "A container of a trivially copyable, trivially destructible, standard-layout or structural element type has that property itself wherever documented, and operations an element cannot support are not offered.",
 ["configurations"],"for every element type",
 "A family of compile-time facts, one for each element type.",
 ["fixed_vector.hpp","optional_storage.hpp","concepts.hpp"],[("conditionally trivial special members","fixed_vector.hpp")])
add("C23","OptionalReference is nothing, or exactly the object it was bound to",
 "After any sequence of binding, rebinding, copying, moving, swapping, resetting and assigning, an OptionalReference either has no value or designates exactly the object it was last bound to: has_value(), operator bool, *, ->, value() and value_or() agree on that object's identity, and writes through it reach that object only. Assignment rebinds and never copies, moves, destroys or otherwise touches a referent. Access without a value goes to the checking policy, without effect. Comparisons with other OptionalReferences, with values and with nullopt follow std::optional's rules, and a failing element comparison has no effect.",
 ["histories","inputs","fault_sequences"],"for every history over any number of references sharing any referents, const or not, including comparisons that throw and accesses that are rejected",
 "Tests bind, copy and compare once; mixing up identity and value, or a stale binding, needs a history of several references over shared, equal-valued and changing referents.",
 ["optional_reference.hpp","optional_reference_checking.hpp"],
 [("binding and rebinding","optional_reference.hpp"),("comparison operators","optional_reference.hpp"),("bad_optional_access_error","optional_reference_checking.hpp")])
add("C24","A struct view names exactly the super struct's current fields",
 "sub_struct_view_of makes every pointer of the sub struct point at the field or element of the same path in the super struct, gives the sub struct's resizable containers the super struct's current sizes (when they fit), its optionals the same presence and its enum fields the current names - after any history of changes to the super struct, whatever the sub struct was a view of before, wherever the objects now are and whatever their memory held. The super struct is only read, and nothing is touched but objects that exist. A StructView's paths, offsets and dimensions do not depend on the contents of the instance it was built from; get_field, for_each_field, contains, at, try_add_path(s) agree with the declared layout; ContiguousRangeSubStructView designates the fields of the i-th element. A field of another type, an unknown path and an index past the end abort.",
 ["histories","inputs","crash_points"],"for every history of resizes, resets and writes of nested vectors, optionals and arrays, every earlier view, and every memory content",
 "Tests view a freshly made struct once or twice; stale sizes, stale optionals and elements that do not exist depend on the history of both structs and on leftover memory.",
 ["struct_view.hpp","recursive_reflection.hpp"],
 [("sub_struct_view_of","struct_view.hpp"),("path properties extraction","struct_view.hpp"),("ContiguousRangeSubStructView","struct_view.hpp"),("for_each_path_dfs","recursive_reflection.hpp")])
add("C25","Elements are used only through what a container may ask of them",
 "Whatever else an element, key or value type defines - its own unary & or comma operator, its own placement operator new, constructors taking std::initializer_list, a constructor that converts from anything - a container finds elements by their real address, builds each one as T(args...) from exactly the arguments given (never T{args...}, never from the container's own helper arguments such as iterators or locations), copies and moves it as the value it is, and so behaves, in every history and with every fault, as it does for plain elements.",
 ["histories","inputs","fault_sequences"],"for every operation, history, rejection and throw, with element types that define & , comma, operator new, initializer-list and converting constructors",
 "The test suite's element types are plain ints and simple structs, for which T(x) and T{x}, & and std::addressof are the same.",
 ["fixed_vector.hpp","fixed_deque.hpp","fixed_circular_deque.hpp","fixed_list.hpp","fixed_set.hpp","fixed_set_adapter.hpp","stack_adapter.hpp","queue_adapter.hpp","optional_storage.hpp","index_or_value_storage.hpp"],
 [("emplace (sets)","fixed_set.hpp"),("emplace (unordered sets)","fixed_set_adapter.hpp"),("OptionalStorage","optional_storage.hpp"),("IndexOrValueStorage","index_or_value_storage.hpp"),("copy and move of the linked storage","fixed_doubly_linked_list.hpp"),("range constructors","stack_adapter.hpp")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
