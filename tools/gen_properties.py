#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
V = "include/boost/variant/variant.hpp"
D = "include/boost/variant/detail/"
B = "include/boost/variant/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))
W = ("which_ / storage_", "discriminator (negative: content is a heap backup) and aligned buffer", V)

p("C01", "A variant is never empty: it always holds one live value of a bounded type",
  "After every construction, assignment and swap, whether it succeeded or failed because an operation of a bounded type or a memory allocation threw at any point, the variant holds exactly one fully constructed value, of the bounded type its reported index names, and it can still be visited, copied, assigned, swapped and destroyed normally.",
  ["histories", "fault_sequences", "inputs"],
  "for every sequence of construct/copy-assign/move-assign/convert-assign/swap operations on variants, every choice of bounded types by which of their operations can throw, every point at which an operation throws, and every content value",
  "variant_nonempty_check.cpp runs a few fixed single assignments with one throw each; it never continues using a variant after the failure in combination with others and never mixes fault points.",
  [V, D + "backup_holder.hpp", D + "visitation_impl.hpp"],
  [("assigner / move_assigner / backup_assigner", V), ("backup_holder", D + "backup_holder.hpp"), ("find_fallback_type, construct_fallback", V)],
  [W], ["variant::which", "apply_visitor", "get"])
p("C02", "Contained objects and heap blocks are each destroyed exactly once",
  "Over the life of any set of variants, including after failures, every contained object that was constructed is destroyed exactly once and every heap block is released exactly once; no operation reads, assigns, visits or destroys an object before its construction or after its destruction, and no live object is overwritten by constructing another over it.",
  ["histories", "fault_sequences"],
  "for every operation sequence and every throw point, until all variants are destroyed",
  "Tests count instances in a handful of fault-free runs (jobs.h, class_a); no test checks lifetimes along failing paths or in the heap-backup state.",
  [V, D + "backup_holder.hpp", B + "recursive_wrapper.hpp"],
  [("destroyer, destroy_content", V), ("backup_holder ownership", D + "backup_holder.hpp"), ("recursive_wrapper ownership", B + "recursive_wrapper.hpp")],
  [W], ["element constructors/destructors", "operator new/delete"])
p("C03", "A failed assignment leaves the old value or, where available, a fallback value",
  "When assigning a value of a different bounded type fails, the exception reaches the caller and: if no bounded type is nothrow-default-constructible the variant still holds its previous type and value; otherwise it holds either its previous value or a default-constructed nothrow-default-constructible bounded type, which is boost::blank whenever blank is one of the bounded types. A same-type assignment that fails keeps the contained type, and a failed copy never modifies the source.",
  ["fault_sequences", "inputs", "histories"],
  "for every pair of source and destination type, every combination of throwing/non-throwing copy, move and default construction, every throw point and every value, also when the destination already went through an earlier failure",
  "variant_nonempty_check.cpp checks which() after a few failures with one value; it does not check that the old value survives, nor second failures.",
  [V], [("assigner::assign_impl overloads", V), ("move_assigner::assign_impl overloads", V), ("backup_assigner::backup_assign_impl", V), ("find_fallback_type", V)],
  [W], ["variant::operator="])
p("C04", "Copying yields an equal, independent variant and leaves the source alone",
  "After copy construction or copy assignment the destination has the source's index and a value equal to the source's, the source is unchanged, and later changes to either do not affect the other; when both already hold the same type, in the variants themselves, the destination's existing object is assigned to rather than replaced.",
  ["inputs", "histories"],
  "for every bounded type, every value, every prior state of both variants including states left by failed assignments",
  "Tests copy a few hand-picked values between freshly built variants and never from a variant that survived a failed assignment.",
  [V], [("copy_into", V), ("assign_storage", V), ("assigner", V)], [W], ["variant(const variant&)", "operator=(const variant&)"])
p("C05", "Moving transfers the value, does not copy, and leaves the source usable",
  "After move construction or move assignment the destination has the source's former index and value; the source keeps its index, holds a moved-from but live value, and can be reassigned or destroyed; bounded types that are nothrow-movable are moved and never copied by these operations, including when a value (not a variant) is moved in.",
  ["inputs", "histories"],
  "for every bounded type, value, value category and prior state of both variants",
  "rvalue_test.cpp uses concrete move-counting types on fresh variants only.",
  [V, D + "initializer.hpp", D + "move.hpp"], [("move_into", V), ("move_storage", V), ("move_assigner", V), ("direct_mover", V), ("initializer rvalue overload", D + "initializer.hpp")], [W],
  ["variant(variant&&)", "operator=(variant&&)", "operator=(T&&)"])
p("C06", "swap exchanges the contents of two variants",
  "After a successful swap (member or free function) each variant has the other's former index and value, whatever types they held and however those values are stored; contents of the same type are exchanged by their type's own swap where it has one, so that such a swap fails only if that does; a swap that fails leaves both variants holding valid values.",
  ["inputs", "histories", "fault_sequences"],
  "for every pair of contained types and values, every prior state including after failed assignments, and every throw point inside the swap",
  "variant_swap_test.cpp swaps a few fixed values with no faults.",
  [V, D + "move.hpp", B + "recursive_wrapper.hpp"], [("variant::swap, swap_with", V), ("move_swap", D + "move.hpp")], [W], ["variant::swap", "boost::swap"])
p("C07", "Self-assignment, self-swap and assigning a variant its own content are safe",
  "Assigning a variant to itself, swapping it with itself, or assigning to it the value (or a copy-converted part) it currently contains leaves it holding that value, with no object used after its destruction.",
  ["inputs", "histories"],
  "for every contained type and value and every prior state",
  "No test assigns a variant to itself or to its own content.",
  [V, B + "recursive_wrapper.hpp"], [("variant_assign", V), ("assign / move_assign via temporary", V), ("swap_with", V)], [W], ["operator=", "swap"])
p("C08", "get returns the content exactly when the requested type is the held type",
  "get, strict_get and relaxed_get given a pointer return the address of the contained value if the variant holds the requested type and null otherwise (also for a null pointer), and given a reference return that same object or throw bad_get; this holds for const, non-const and rvalue variants and never modifies the variant.",
  ["inputs", "histories"],
  "for every held type, requested type, constness, value and prior state of the variant",
  "variant_get_test.cpp uses literal values in fresh variants; states left by failures and wrapped content are not combined with every overload.",
  [B + "get.hpp", D + "element_index.hpp"], [("get_visitor", B + "get.hpp"), ("relaxed_get/strict_get/get overloads", B + "get.hpp"), ("holds_element", D + "element_index.hpp")], [W], ["boost::get", "boost::strict_get", "boost::relaxed_get"])
p("C09", "polymorphic_get succeeds exactly for the held type and its bases",
  "polymorphic_get (strict and relaxed) given a pointer returns the address of the contained value, converted to the requested type, if the held type is that type or derives from it, and null otherwise; given a reference it returns that object or throws bad_polymorphic_get; constness is respected.",
  ["inputs", "histories"],
  "for every held type, every requested base or exact type (including bases at a non-zero offset), constness and value",
  "variant_polymorphic_get_test.cpp checks one hierarchy with one value each and only zero-offset bases.",
  [B + "polymorphic_get.hpp"], [("get_polymorphic_visitor", B + "polymorphic_get.hpp"), ("holds_element_polymorphic", B + "polymorphic_get.hpp")], [W], ["boost::polymorphic_get"])
p("C10", "apply_visitor invokes the visitor once, on the content itself",
  "apply_visitor calls the visitor's operator exactly once, with a reference to the variant's current content typed as its bounded type (wrappers removed), non-const only for non-const variants and as an rvalue only for rvalue variants, returns the visitor's result unchanged, lets its exceptions through, and changes nothing else.",
  ["inputs", "histories"],
  "for every held type, value, visitor form (static visitor, const/non-const, generic lambda), value category and prior state",
  "variant_visit_test, auto_visitors and const_ref_apply_visitor use fixed values in fresh variants.",
  [V, D + "visitation_impl.hpp", D + "apply_visitor_unary.hpp", D + "cast_storage.hpp"],
  [("internal_apply_visitor, invoke_visitor", V), ("visitation_impl", D + "visitation_impl.hpp"), ("result_wrapper1", D + "apply_visitor_unary.hpp")], [W], ["apply_visitor"])
p("C11", "Multi-variant visitation passes every content once, in argument order",
  "Visiting two, three or more variants calls the visitor exactly once with the contents in the order the variants were given, each as the content of its own variant (lvalue operands by reference to the content itself, rvalue operands as rvalues with the content's value), and returns its result.",
  ["inputs"],
  "for every combination of held types and values of 2 to 5 variants, const and non-const visitors, lvalue and rvalue operands, visitors with and without result_type",
  "variant_multivisit_test.cpp checks a few type combinations by asserting inside hand-written overloads.",
  [D + "apply_visitor_binary.hpp", D + "multivisitors_cpp11_based.hpp", D + "multivisitors_cpp14_based.hpp"],
  [("apply_visitor_binary_unwrap/invoke", D + "apply_visitor_binary.hpp"), ("one_by_one_visitor_and_value_referer", D + "multivisitors_cpp11_based.hpp"), ("one_by_one_visitor_and_value_referer_cpp14", D + "multivisitors_cpp14_based.hpp")],
  observe=["apply_visitor"])
p("C12", "Visitor adapters (delayed visitor, visitor_ptr) act as direct visitation",
  "The function object returned by apply_visitor(visitor) gives, when called with one or more variants, the result and effects of apply_visitor(visitor, variants...); a visitor_ptr visitor calls the wrapped function with the content and returns its result if the content is of the function's parameter type and otherwise throws bad_visit without calling it.",
  ["inputs"],
  "for every held type, value, function parameter form (value, reference, const reference) and number of operands",
  "Tests use each adapter with a couple of constants.",
  [D + "apply_visitor_delayed.hpp", B + "visitor_ptr.hpp", B + "bad_visit.hpp"],
  [("apply_visitor_delayed_t", D + "apply_visitor_delayed.hpp"), ("visitor_ptr_t", B + "visitor_ptr.hpp")], observe=["apply_visitor", "visitor_ptr"])
p("C13", "Comparison is by held type index, then by content",
  "Two variants are equal exactly when they hold the same bounded type and their contents are equal, and one is less than the other exactly when its index is smaller or, for equal indexes, its content is less; !=, >, <= and >= agree with these, so that equality is an equivalence and < a strict weak order consistent with it whenever the contents' operators are.",
  ["inputs", "histories"],
  "for all values and held types of two and three variants, in every prior state",
  "variant_comparison_test.cpp compares a few constants.",
  [V], [("operator==, operator<, comparer", V), ("equal_comp, less_comp", V), ("known_get", V)], [W], ["variant::operator==", "variant::operator<", "!= > <= >="])
p("C14", "Equal variants have equal hashes; the hash depends on content and index",
  "hash_value, boost::hash and std::hash of a variant agree, are a function only of the held type's index and the hash of the content (so equal variants hash equally, whatever their history), and variants with equal content hashes but different indexes hash differently.",
  ["inputs", "histories"],
  "for every held type, value and prior state",
  "hash_variant_test.cpp compares a few constants in fresh variants.",
  [D + "hash_variant.hpp", D + "std_hash.hpp"], [("variant_hasher, hash_value", D + "hash_variant.hpp"), ("std::hash specialization", D + "std_hash.hpp")], [W], ["boost::hash_value", "std::hash"])
p("C15", "which(), type() and empty() describe the actual content",
  "which() is the zero-based position, in the list of bounded types, of the type actually held, type() identifies that same type, and empty() is false, after every operation, successful or failed.",
  ["histories", "fault_sequences"],
  "for every operation sequence, throw point and held type, with and without RTTI",
  "Tests query them for fresh variants or after one operation.",
  [V], [("which, indicate_which, indicate_backup_which", V), ("reflect", V)], [W], ["variant::which", "variant::type", "variant::empty"])
p("C16", "Converting construction/assignment pick the best bounded type and value",
  "Constructing or assigning a variant from a value selects the bounded type that overload resolution over the bounded types selects and stores that conversion of the value; if the variant already holds exactly the operand's type, the existing object is assigned in place; an lvalue operand is not modified, and default construction holds the default value of the first bounded type.",
  ["inputs", "histories"],
  "for every operand value, type and value category, and every prior state of the variant",
  "Tests check a list of constants (test2, test5, overload_selection).",
  [V, D + "initializer.hpp"], [("initializer", D + "initializer.hpp"), ("convert_construct, assign, move_assign, direct_assigner, direct_mover", V)], [W], ["variant(T)", "operator=(T)"])
p("C17", "Variant-to-variant conversion converts the content; bounded variants stay whole",
  "Constructing or assigning a variant from a variant with different bounded types gives the best conversion of the source's current content, wherever that content is stored; a copied-from source is left unchanged, and the content of an rvalue source is moved, not copied (in assignments, when its type is nothrow-movable), so that move-only contents convert too; if the source variant type is itself a bounded type, the source is stored as that alternative.",
  ["inputs", "histories"],
  "for every source held type, value, value category and prior state of source and destination",
  "test3/test4/test7 convert constants from fresh variants.",
  [V], [("convert_copy_into, convert_move_into", V), ("convert_construct_variant", V)], [W], ["variant(variant<U...>)", "operator=(variant<U...>)"])
p("C18", "Recursive variants have deep value semantics",
  "recursive_wrapper always owns exactly one value of its own: copying a recursive variant copies the whole tree, moving transfers it, swapping exchanges, the parts of the source and destination are never shared, and no wrapper becomes empty, including when an allocation or a copy inside the tree fails.",
  ["inputs", "histories", "fault_sequences"],
  "for every tree up to the stated depth, every leaf value, every operation sequence and every throw or allocation-failure point",
  "recursive_variant_test.cpp builds a few fixed trees and sums them; failures and sharing are not examined.",
  [B + "recursive_wrapper.hpp", B + "recursive_variant.hpp", D + "enable_recursive.hpp", D + "substitute.hpp"],
  [("recursive_wrapper constructors, assignment, swap", B + "recursive_wrapper.hpp"), ("enable_recursive", D + "enable_recursive.hpp")],
  [("p_", "pointer to the owned value", B + "recursive_wrapper.hpp")], ["recursive_wrapper", "make_recursive_variant"])
p("C19", "A reference alternative always designates the object it was bound to",
  "A variant holding a reference alternative yields, through get and visitation, the very object it was constructed from; copies designate the same object, writing through them changes that object and nothing else, and destroying the variant does not touch it.",
  ["inputs", "histories"],
  "for every bound object, value, and copy/move/visit sequence",
  "variant_reference_test.cpp binds a few constants.",
  [V, D + "initializer.hpp", B + "get.hpp"], [("reference_content handling in initializer and invoke_visitor", V)], observe=["get", "apply_visitor"])
p("C20", "noexcept operations never fail, and noexcept follows the bounded types",
  "No operation declared noexcept (destructor, queries, pointer get, and move construction or move assignment when declared so) ever lets an exception escape or terminates the program because a bounded type threw; move construction is noexcept exactly when every bounded type is nothrow move constructible, move assignment exactly when every one is also nothrow move assignable, and default construction exactly when the first is nothrow default constructible.",
  ["programs", "fault_sequences"],
  "for every mix of bounded types with throwing and non-throwing operations and every throw point",
  "variant_noexcept tests check the static traits for a few types; nothing runs throwing operations through each noexcept function.",
  [V], [("is_variant_move_noexcept_constructible / assignable", V), ("BOOST_NOEXCEPT_IF on special members", V), ("assign_impl dispatch on nothrow traits", V)], observe=["noexcept(...)", "std::terminate"])
p("C21", "Content is stored in place, in bounds and aligned; heap use is as documented",
  "The contained value lies entirely inside the variant object at an address aligned for its type (after a successful construction, assignment or swap, unless an earlier assignment to that variant failed and the value it kept is merely assigned to or swapped), whatever the sizes and alignments of the bounded types; a variant with a nothrow-default-constructible bounded type, or whose bounded types are all nothrow-copyable or nothrow-movable, never allocates from the heap, and heap storage is otherwise used only to preserve a value across an assignment that can fail.",
  ["histories", "fault_sequences", "programs"],
  "for every mix of sizes, alignments and throwing properties of bounded types, every operation sequence and throw point",
  "No test looks at addresses or allocations.",
  [V], [("make_storage, max_value, add_alignment", V), ("never_uses_backup", D + "visitation_impl.hpp")], [W], ["address of content", "operator new"])
p("C22", "Every alternative of a variant with many bounded types is reachable and distinct",
  "For variants with few or many bounded types, however specified (argument list, type sequence, joint view), each alternative has its own index equal to its position, and construction, copying, visitation, get, comparison and destruction all act on that alternative.",
  ["inputs", "programs"],
  "for every index of variants with 1 to 100 alternatives and every value, across the boundaries of the internal dispatch unrolling",
  "Tests use at most about 20 alternatives and visit few of them.",
  [D + "visitation_impl.hpp", D + "initializer.hpp", V], [("visitation_impl unrolling", D + "visitation_impl.hpp"), ("make_variant_over", V)], [W], ["which", "apply_visitor", "get"])
p("C23", "Streaming a variant streams its content, once",
  "operator<< on a variant inserts the content into the given stream exactly once using the content's own inserter, inserts nothing else, recurses into contained variants, returns the same stream, and does not modify the variant.",
  ["inputs", "histories"],
  "for every held type, value and prior state",
  "Tests print a few constants.",
  [D + "variant_io.hpp"], [("printer", D + "variant_io.hpp")], observe=["operator<<"])
p("C24", "Documented configuration macros do not change observable behaviour",
  "Building with BOOST_VARIANT_MINIMIZE_SIZE, with another visitation unrolling limit, with assertions disabled, without RTTI, with relaxed get by default, or under another language standard leaves the results of the same operation sequence unchanged.",
  ["configurations", "histories", "inputs"],
  "for every configuration listed, every operation sequence, throw point and value",
  "The test suite builds the default configuration (plus RTTI off for three programs); BOOST_VARIANT_MINIMIZE_SIZE is never built.",
  [V, D + "visitation_impl.hpp", B + "get.hpp"], [("which_t selection", V), ("unrolling limit", D + "visitation_impl.hpp")], [W], ["whole API"])
p("C25", "Exceptions from contents and visitors propagate; nothing else is thrown",
  "An operation on a variant throws exactly when an operation of a bounded type, a memory allocation or the visitor that it invoked threw, and what reaches the caller is that same exception; a failed construction leaves no object behind, and visitation, comparison, hashing and get that fail leave the variants as they were.",
  ["fault_sequences", "inputs"],
  "for every operation, held type, throw point and thrown value",
  "Tests check that some exception is thrown in a few cases.",
  [V, D + "backup_holder.hpp"], [("BOOST_TRY/BOOST_CATCH/BOOST_RETHROW in assignment", V)], [W], ["all members"])
p("C26", "In a recursive variant the placeholder stands for the variant itself, everywhere",
  "make_recursive_variant and make_recursive_variant_over give a variant whose bounded types, in the listed order, are those listed with recursive_variant_ replaced by that variant wherever it occurs (template arguments at any depth, pointers, function pointers, nested variants); each such value can be stored, got, visited, copied, moved, assigned and swapped as a value of the replaced type, forms that contain the variant by value are held through memory they own, and pointers and forms without the placeholder are held in place.",
  ["programs", "inputs", "fault_sequences"],
  "for every listed form, every value and every operation, with any part or allocation failing",
  "Tests build a few recursive variants and copy some of them.",
  [B + "recursive_variant.hpp", D + "substitute.hpp", D + "enable_recursive.hpp"], [("substitute", D + "substitute.hpp"), ("enable_recursive", D + "enable_recursive.hpp")], [W], ["get", "apply_visitor", "which", "operator new"])
p("C27", "Reading a variant, and using different variants, never races",
  "Operations that only read a variant (which, type, empty, const visitation, get through a const variant, comparison, hashing, copying from it, converting from it) write neither the variant, its content, nor any hidden shared state, and operations on one variant touch no other variant's state; so any number of threads may read the same variant and use variants of their own at the same time, as with const objects of built-in types.",
  ["schedules", "inputs", "histories"],
  "for every interleaving of any number of threads, every held type and value, also when the content is in a heap backup",
  "The test suite has no threads, and a race shows only under some schedules.",
  [V, B + "get.hpp", D + "hash_variant.hpp", D + "visitation_impl.hpp"], [("which()", V), ("visitation", D + "visitation_impl.hpp")], [W], ["which", "type", "apply_visitor", "get", "operator==", "hash_value", "copy construction"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
