#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
D = "src/datatypes/"; T = "src/traits/"; X = "src/transformers/"; U = "src/utils/"; E = "src/error/"
CARR = "Option, Result, Vec, Box, Maybe, Either, Id, Validated, Choice, Writer and the wrapper newtypes"

p("C01", "Functor: mapping touches every value exactly once and nothing else",
  "For every data type that can be mapped over (" + CARR + "), mapping a function replaces every contained success value by the function's result on that value, in place and in order, and leaves the shape, errors and logs exactly as they were. Mapping the identity changes nothing, and mapping g after f equals mapping their composition.",
  ["inputs", "programs"], "every value of every mappable type (every variant, every length) and every function passed to it",
  "The tests sample a few i32 values and closures per type; the laws quantify over all element types, all container shapes and all functions.",
  [T+"functor.rs", D+"maybe.rs", D+"either.rs", D+"id.rs", D+"validated/traits.rs", D+"choice.rs", D+"writer.rs"],
  [("Functor::fmap / fmap_owned and FunctorExt implementations", "src/traits/functor.rs and each datatypes module")], ["Functor::fmap", "Functor::fmap_owned", "FunctorExt"])
p("C02", "Applicative: arguments reach the function in order, failures propagate",
  "For every applicative type, applying a wrapped function, or lifting a 2- or 3-argument function, yields the function applied to the contained values in argument order when all arguments succeed, and otherwise the failure the type's definition selects (the first failing argument for short-circuiting types). Apply and lift agree with each other, and identity, homomorphism and interchange hold.",
  ["inputs", "programs"], "every combination of variants of all arguments, every wrapped function",
  "Tests cover a handful of variant combinations with commutative functions such as addition; swapped arguments or the wrong failing argument in one combination stay invisible.",
  [T+"applicative.rs", D+"maybe.rs", D+"either.rs", D+"id.rs", D+"choice.rs", D+"writer.rs"],
  [("Applicative::apply / lift2 / lift3 implementations", "src/traits/applicative.rs and each datatypes module")], ["Applicative"])
p("C03", "Monad: left identity, right identity and associativity of bind",
  "For every monadic data type, binding a wrapped value is calling the function on it, binding the wrapping function changes nothing, and chaining two functions gives the same result however the chain is nested; join flattens exactly one layer and agrees with bind.",
  ["inputs", "programs"], "every value and every pair of functions, including functions that return failures or empty results",
  "Law tests draw integers and total functions, so cases where a middle function fails, is empty, or returns a different variant are barely reached.",
  [T+"monad.rs", D+"maybe.rs", D+"either.rs", D+"id.rs", D+"choice.rs", D+"writer.rs"],
  [("Monad::bind / join implementations", "src/traits/monad.rs and each datatypes module")], ["Monad"])
p("C04", "By-value and by-reference forms of an operation agree",
  "Every operation that exists both in a borrowing form and in a consuming form produces the same result from the same inputs in both forms, including the order of elements, the selected failure and the functions called.",
  ["inputs", "programs"], "every pair of borrowing and consuming forms of one operation and every input to them",
  "Tests exercise mostly one of the two forms, on values where a difference in one variant does not show.",
  [T+"functor.rs", T+"applicative.rs", T+"monad.rs", T+"semigroup.rs", D+"validated/traits.rs", D+"choice.rs", D+"either.rs", D+"writer.rs"],
  [("the *_owned methods beside their borrowing siblings", "all trait implementations")], ["fmap/fmap_owned", "bind/bind_owned", "apply/apply_owned", "combine/combine_owned"])
p("C05", "Validated accumulates every error, once, in argument order",
  "Combining validated values yields the combined success value only if every argument is valid; otherwise the result is invalid and carries every error of every invalid argument exactly once, in argument order, and no other error. Collecting, traversing or sequencing a collection of validations obeys the same rule.",
  ["inputs"], "every combination of valid and invalid arguments and every number of errors in each",
  "Accumulation is tested with one or two errors per side; dropping or duplicating an error in one branch of the three- and four-way combinations needs a particular combination of invalid arguments.",
  [D+"validated/core.rs", D+"validated/traits.rs"],
  [("lift2/lift3/apply/combine_errors/sequence/collect", "src/datatypes/validated")], ["Validated::lift2", "Validated::lift3", "Validated::apply", "Validated::sequence", "Validated::collect"])
p("C06", "Semigroup and monoid: operands combine in order, empty is neutral",
  "For every combinable type, combining is associative and keeps the left operand on the left, the empty value is neutral on both sides for the types that declare one, and the derived operations (combining many, repeating, folding a list) equal the plain left-to-right combination of exactly the given operands.",
  ["inputs"], "all operands of every Semigroup/Monoid implementation, including Option, Result, tuples, maps and the wrapper newtypes, and all lists given to the derived operations",
  "Tests use commutative numbers or two operands; order or multiplicity mistakes need non-commutative operands and more than two of them.",
  [T+"semigroup.rs", T+"monoid.rs", D+"wrapper/first.rs", D+"wrapper/last.rs", D+"wrapper/sum.rs", D+"wrapper/product.rs", D+"wrapper/max.rs", D+"wrapper/min.rs"],
  [("Semigroup/Monoid implementations and their Ext traits", "src/traits/semigroup.rs, src/traits/monoid.rs, src/datatypes/wrapper")], ["Semigroup::combine", "Monoid::empty", "SemigroupExt", "MonoidExt"])
p("C07", "Alternative: the first success wins and nothing else is consulted",
  "Choosing between alternatives returns the first one that succeeds (or every alternative in order, for the multi-valued types), the failing alternative is neutral, and a guard or filter keeps a value exactly when its condition holds for that value.",
  ["inputs", "programs"], "every combination of succeeding and failing alternatives and every predicate",
  "Tests cover a few variant pairs; the result for both-succeed and both-fail combinations and for each type is not enumerated.",
  [T+"alternative.rs", T+"monad_plus.rs", D+"maybe.rs", D+"either.rs", D+"choice.rs"],
  [("Alternative::alt/empty_alt/guard and MonadPlus::mplus/mzero", "src/traits/alternative.rs, src/traits/monad_plus.rs")], ["Alternative", "MonadPlus"])
p("C08", "Error recovery runs only on failure and sees the actual error",
  "Recovering from, mapping or replacing an error leaves a successful value exactly as it was without calling the handler, and on failure calls the handler exactly once with the error that occurred and returns what the handler produced.",
  ["inputs", "programs"], "every success and failure value and every handler",
  "Tests check single examples per type and never count handler invocations on the success path.",
  [T+"monad_error.rs", D+"maybe.rs", D+"either.rs", D+"validated/core.rs", U+"error_utils.rs", E+"convert.rs"],
  [("MonadError::catch/throw, map_error, recover, or_else families", "src/traits/monad_error.rs and datatypes")], ["MonadError", "ErrorMapper"])
p("C09", "State computations thread the state through every step exactly once",
  "Running a composed stateful computation passes the initial state to the first step, the state each step produces to the next one, each exactly once and in program order, and returns the last state; get, put, modify and the evaluation helpers read, replace and project exactly that state.",
  ["inputs", "programs"], "every composition of stateful computations, every initial state, every base monad",
  "Tests run fixed programs over counters where dropping or reordering an intermediate state often cancels out.",
  [D+"state.rs", X+"state_t.rs"], [("State::bind/fmap/apply, StateT::bind_with/fmap_with", "src/datatypes/state.rs, src/transformers/state_t.rs")], ["State::run_state", "StateT::run_state"])
p("C10", "Reader computations see one unchanged environment",
  "Every step of a composed reader computation receives the same environment the caller supplied, a locally modified environment is visible only to the computation it wraps and is modified exactly once, and results flow between steps in program order.",
  ["inputs", "programs"], "every composition of reader computations, every environment and every local modification",
  "Tests use integer environments and short chains in which a doubly modified or leaked environment is not observable.",
  [D+"reader.rs", X+"reader_t.rs"], [("Reader/ReaderT bind, fmap, combine, local", "src/datatypes/reader.rs, src/transformers/reader_t.rs")], ["Reader::run_reader", "ReaderT::run_reader"])
p("C11", "Writer logs are complete and in program order",
  "Running a composed writer computation returns the final value together with the logs of all its steps, each exactly once and in program order; mapping a value never touches the log.",
  ["inputs", "programs"], "every composition of writer computations and every log monoid, including non-commutative ones",
  "Tests chain two steps with string or vector logs on one of several operations; the order in each of the consuming and borrowing forms is not covered.",
  [D+"writer.rs"], [("Writer bind/apply/lift/join/combine", "src/datatypes/writer.rs")], ["Writer::run", "Writer::exec"])
p("C12", "Continuations are composed in order and called exactly once",
  "Running a continuation computation passes each step's result to the rest of the program exactly once, binding composes steps in program order, and returning a value hands exactly that value to the final continuation.",
  ["programs", "inputs"], "every composition of continuation computations and every final continuation",
  "Tests run small arithmetic chains with an identity continuation.",
  [D+"cont.rs", X+"cont_t.rs"], [("Cont/ContT bind, fmap, apply, call_cc", "src/datatypes/cont.rs, src/transformers/cont_t.rs")], ["Cont::run", "ContT::run"])
p("C13", "IO and async actions run deferred, in order, once per run",
  "Building or composing IO and async computations runs no effect; running the composition performs each constituent effect exactly once, in program order, and feeds each result to the next step; recovery handlers run only after a failure. An IO made from a future runs that future once, and every run of it, concurrent or not, returns its result.",
  ["programs", "schedules"], "every composition of IO/async actions and every effect",
  "Tests observe results, not the number, time and order of effects, and only for a few compositions.",
  [D+"io.rs", D+"async_monad.rs"], [("IO::bind/fmap/apply/run, AsyncM::bind/fmap/apply/zip/try_get", "src/datatypes/io.rs, src/datatypes/async_monad.rs")], ["IO::run", "AsyncM::try_get"])
p("C14", "Memoizer: one stored result per key, computed under exclusion",
  "A memoizer returns, for any key, the value of the first computation stored for that key until it is cleared: a present key is answered from the cache without calling the function, and concurrent requests for one key compute it once and never store two different results.",
  ["schedules", "histories"], "every interleaving of get-or-compute and clear calls from any number of threads",
  "A test run samples one schedule; the check-then-insert race needs a particular interleaving.",
  [D+"wrapper/memoizer.rs"], [("read-lock lookup, then re-check and insert under the write lock", "Memoizer::get_or_compute")], ["Memoizer::get_or_compute", "Memoizer::clear"])
p("C15", "Optics: get, set, modify and composition obey the optics laws' wiring",
  "A lens or prism built from accessors reads through exactly its getter and writes through exactly its setter: modifying is setting the function of what was read, composing optics reads outer then inner and writes back inner then outer, and a prism that does not match leaves the structure unchanged.",
  ["programs", "inputs"], "every lens/prism/iso optic built by users, every structure and every modification",
  "Tests use one or two structs; composition order and the no-match path are sampled.",
  [D+"lens.rs", D+"prism.rs", D+"iso_lens.rs", D+"iso_prism.rs"], [("Lens/Prism/IsoLens/IsoPrism constructors, modify, compose", "src/datatypes/{lens,prism,iso_lens,iso_prism}.rs")], ["Lens", "Prism", "IsoLens", "IsoPrism"])
p("C16", "Isomorphisms: round trips, inversion and composition",
  "Each provided isomorphism maps every value forward and back to itself, inverting swaps its two directions, and composing applies the first then the second forward and the second then the first backward.",
  ["inputs", "programs"], "every variant of both sides of each provided isomorphism and every pair composed",
  "Round trips are tested on single values of some variants.",
  [T+"iso.rs", D+"iso_lens.rs", D+"iso_prism.rs"], [("Iso::forward/backward, InverseIso, ComposedIso and provided isos", "src/traits/iso.rs")], ["Iso"])
p("C17", "Function composition and arrows apply stages in the documented order",
  "Composing or piping functions applies each stage exactly once in the documented order, identity is neutral, composition is associative, and first/second/split/combine act on exactly the designated component.",
  ["programs", "inputs"], "every chain of functions and every input",
  "Tests compose two or three integer functions, often commuting ones.",
  ["src/category/function_category.rs", T+"category.rs", T+"arrow.rs", U+"functions.rs", U+"categorical_utils.rs"], [("FunctionCategory compose/arrow/first/second/split, compose!/pipe!", "src/category/function_category.rs")], ["Category", "Arrow"])
p("C18", "Error contexts: none lost, newest first, built only on failure",
  "Adding context to a failing computation keeps the original error and all earlier contexts in their order and adds the new one at the documented end, a successful computation passes unchanged, and a lazily supplied context is built only when there is a failure.",
  ["inputs", "programs"], "every result and every sequence of context additions",
  "Tests check two contexts on one error type; whether a lazy context is built on success is not observed.",
  [E+"core.rs", E+"context.rs", E+"types.rs", E+"convert.rs", D+"state.rs", X+"state_t.rs", X+"reader_t.rs"], [("ComposableError::with_context, ErrorPipeline, LazyContext, with_context_result", "src/error")], ["ComposableError", "ErrorPipeline", "with_context_result"])
p("C19", "Conversions between success/failure carriers keep the payload",
  "Converting between optional, result, either, validated and maybe values maps success to success and failure to failure with exactly the payload the source held, and converting there and back restores the original value wherever the target can represent it.",
  ["inputs"], "every variant of every source type of every conversion",
  "Each conversion is tested on one or two values.",
  [E+"convert.rs", U+"error_utils.rs", D+"maybe.rs", D+"either.rs", D+"validated/core.rs"], [("From impls, to_result/to_option/from_result families", "src/error/convert.rs, src/utils/error_utils.rs, datatypes")], ["to_result", "to_option", "From"])
p("C20", "Bifunctor: each side is mapped by its own function only",
  "Mapping one side of a two-sided type applies the function to that side only and leaves the other side untouched; mapping both sides applies the first function to the first side and the second to the second, equal to doing the two one after the other.",
  ["inputs", "programs"], "every variant of every two-sided type and every pair of functions",
  "Tests use same-typed sides or a single variant.",
  [T+"bifunctor.rs", D+"either.rs", D+"validated/traits.rs", D+"writer.rs"], [("Bifunctor::first/second/bimap", "src/traits/bifunctor.rs, datatypes")], ["Bifunctor"])
p("C21", "Folds visit every element exactly once in order",
  "Folding a foldable value visits each contained element exactly once, left to right for left folds and right to left for right folds, starting from the given initial value; the derived queries (length, any, all, find, to-vector, fold-map) are consistent with that sequence.",
  ["inputs", "programs"], "every foldable value of any length and every folding function",
  "Tests fold commutative sums over short vectors.",
  [T+"foldable.rs", D+"maybe.rs", D+"either.rs", D+"choice.rs", D+"validated/traits.rs"], [("Foldable::fold_left/fold_right and FoldableExt", "src/traits/foldable.rs, datatypes")], ["Foldable", "FoldableExt"])
p("C22", "Sequencing and traversing collections: order kept, first failure wins",
  "Sequencing or traversing a collection of fallible steps yields all results in input order when every step succeeds and otherwise the first failure in input order; partitioning and collecting utilities put every element into exactly one output, in input order.",
  ["inputs", "programs"], "every list of steps of any length with failures at any positions",
  "Tests use lists of three with one failure.",
  [U+"error_utils.rs", U+"hkt_utils.rs", U+"transform_utils.rs", E+"convert.rs", T+"traversable.rs"], [("sequence/traverse/partition/filter_map utilities", "src/utils, src/error")], ["sequence", "traverse", "partition"])
p("C23", "Persistent vectors never change once created",
  "No operation on a persistent vector changes the contents observable through any other vector value, however much structure the two share, and a vector shared between threads cannot be written.",
  ["histories", "schedules"], "every history of operations on any number of vectors sharing structure, from any number of threads",
  "Tests look at a few versions after a few updates; aliasing bugs need a particular sharing history.",
  ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"], [("all updates clone the path; nodes are only reachable through Arc without interior mutability", "src/pvec")], ["PersistentVector"])
p("C24", "Persistent vector operations agree with the element sequence",
  "Every operation on a persistent vector returns the elements a plain sequence would give for the same operation: indexing, first, last, pushing, popping, updating, inserting, removing, slicing, splitting, concatenating, mapping, filtering, sorting and iterating, whatever history of operations built the vector.",
  ["histories", "inputs"], "every history of operations that built the vector and every argument of the next one",
  "Tests build vectors by pushing a few hundred elements and use one operation at a time; mistakes need trees joined by concatenation, boundary lengths and sequences of different operations.",
  ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs", "src/pvec/iter.rs"], [("PersistentVector operations and the relaxed tree below them", "src/pvec")], ["PersistentVector"])
p("C25", "Persistent vector equality, order and hash depend on contents only",
  "Two persistent vectors with the same element sequence are equal, compare equal and hash equally whatever history of operations built them, and vectors with different sequences are not equal.",
  ["histories", "inputs"], "every pair of vectors and every history that produced them",
  "Tests compare vectors built in the same way.",
  ["src/pvec/core.rs", "src/pvec/traits.rs"], [("PartialEq/Eq/Ord/Hash of PersistentVector", "src/pvec/core.rs")], ["PartialEq", "Ord", "Hash"])
p("C26", "Memory and thread safety: no unchecked code, thread-safe types stay so",
  "No use of the library's safe interface can cause undefined behaviour such as a double free or a data race: the library contains no unchecked memory operation, and the types documented as shareable between threads are so exactly when their contents are.",
  ["programs", "schedules"], "every program using the public interface",
  "Undefined behaviour in one generic function only shows for heap-owning type arguments and often not at all.",
  ["src/lib.rs", X+"reader_t.rs", D+"state.rs", D+"io.rs", "src/pvec/core.rs"], [("absence of unsafe code; auto traits of public types", "whole crate")], ["whole crate"])
p("C27", "Comonad, contravariant and predicate laws",
  "Extracting, extending and duplicating obey the comonad laws, contravariant mapping feeds the mapped input to the original consumer, and predicate operators agree with the boolean connectives applied to the same input.",
  ["inputs", "programs"], "every value, function and predicate",
  "Tests sample single integers.",
  [T+"comonad.rs", T+"contravariant_functor.rs", D+"wrapper/predicate.rs", D+"id.rs"], [("Comonad/ContravariantFunctor/Predicate implementations", "src/traits, src/datatypes/wrapper/predicate.rs")], ["Comonad", "Predicate"])
p("C28", "Choice keeps all its alternatives in order",
  "Every operation on a multi-alternative value keeps every alternative that it is not documented to remove, exactly once and in order, with the primary alternative first.",
  ["inputs", "programs"], "every Choice value of any length and every function, predicate and index",
  "Tests use up to three alternatives with functions that do not return empty results.",
  [D+"choice.rs"], [("Choice constructors, add/remove/filter/flatten/bind/iter", "src/datatypes/choice.rs")], ["Choice"])
p("C29", "Public operations panic only in the documented cases",
  "Every public operation of the crate, and every closure, iterator or future it returns, returns normally on every input value (every variant, empty collections, any index), provided the functions passed to it do. The exceptions are the partial operations, which panic exactly in their documented cases: the unwrap family and value/into_value on an absent value, AsRef on an absent value, the *_ref/*_mut/*_value accessors of the wrong side, indexing out of range, removing or swapping an alternative that does not exist, flattening a Choice whose first item is empty, building an Invalid from no errors, combining the errors of two valid values, combining all of nothing, and running or combining a StateT that has no base monad.",
  ["inputs"], "every variant and size of every argument of every public operation",
  "A panic hides in one variant or size combination that no test uses.",
  ["src/datatypes", "src/traits", "src/utils", "src/error", "src/pvec", "src/transformers"], [("matches, unwraps, indexing and unsigned subtraction of every public function", "whole crate")], ["whole public API"])
p("C30", "Deferred values and value accessors hand over exactly the value they hold",
  "Evaluating a deferred value runs its computation exactly once per evaluation and never at construction, evaluation combinators pass on exactly the evaluated value, the identity transformation changes nothing, and the optional accessors return the contained value when there is one and nothing (without panicking) when there is none.",
  ["inputs", "programs"], "every deferred computation, every value of every type with a value accessor (every variant), and every function passed to an evaluation combinator",
  "Tests read the value of a present case; the absent variants and the number of evaluations are not checked.",
  [T+"evaluate.rs", T+"identity.rs", T+"natural_transformation.rs", D+"wrapper/thunk.rs", D+"either.rs", D+"maybe.rs", D+"choice.rs", D+"validated/traits.rs"], [("Evaluate/EvaluateExt, Thunk, Identity implementations", "src/traits/evaluate.rs, src/traits/identity.rs, src/datatypes")], ["Evaluate", "EvaluateExt", "Identity", "Thunk"])
p("C31", "Values are equal, ordered and hashed by everything they hold",
  "Two values of the library's own data types (Either, Maybe, Validated, Choice, Id, Writer, the wrapper types, the error types) are equal exactly when they are the same variant and every part they hold is equal; the order is the lexicographic order of those parts with the documented variant order; equal values hash alike.",
  ["inputs"], "every pair of values of these types, every variant combination, any element type with its own equality, order and hash",
  "Tests compare a few equal and unequal values; they do not vary each part separately, and they never compare across every pair of variants.",
  [D+"either.rs", D+"maybe.rs", D+"choice.rs", D+"id.rs", D+"writer.rs", D+"validated/core.rs", D+"wrapper", "src/error/types.rs", "src/utils/error_utils.rs"], [("the PartialEq, PartialOrd, Ord and Hash implementations", "src/datatypes, src/error/types.rs, src/utils/error_utils.rs")], ["PartialEq", "Ord", "Hash", "AppError", "ComposableError"])
p("C32", "Text forms write everything a value holds, once and in order",
  "Displaying or debug-printing a value of the library (the wrapper types, Choice, Maybe, Either, Validated, Id, the error types and error chains) writes exactly what the value holds: the frame of its variant, every contained value once, in the value's own order (contexts newest first, the primary choice before the alternatives), with nothing missing, repeated or taken from elsewhere; error texts name the actual index, length, range or message.",
  ["inputs"], "every value of every type with a text form: every variant, every number of alternatives or contexts, any element type with its own text form",
  "Tests print a few values, mostly with one alternative or one context, and often only look for a substring.",
  [D+"wrapper", D+"choice.rs", D+"maybe.rs", D+"either.rs", D+"io.rs", "src/error/types.rs", "src/utils/error_utils.rs", "src/pvec/error.rs"], [("the Display and Debug implementations", "src/datatypes, src/error/types.rs, src/pvec/error.rs, src/utils/error_utils.rs")], ["Display", "Debug", "error_chain"])
p("C33", "A copy holds and does what the original does; a default is the documented start value",
  "Cloning any value of the library gives a value that holds exactly what the original holds (the same variant, the same contents in the same order, the same primary choice, pending contexts and log) and, for computations, lenses, prisms and predicates, that behaves on every input as the original does; cloning into an existing value forgets what that value held; the original is unchanged by being cloned. The default of a type is its documented empty or default-holding value.",
  ["inputs"], "every value (every variant, any number of contents) of every clonable type; every state, environment, argument and input given to a cloned computation; every existing value that is overwritten by clone_from",
  "Tests clone a value and compare it with the original through the type's own equality or a single field; they never check the behaviour of cloned computations on every input.",
  [D+"choice.rs", D+"validated/core.rs", D+"maybe.rs", D+"id.rs", D+"io.rs", D+"state.rs", D+"reader.rs", D+"cont.rs", D+"async_monad.rs", D+"wrapper", "src/pvec", "src/transformers", "src/error/types.rs"], [("the Clone and Default implementations", "src/datatypes, src/pvec, src/transformers, src/error/types.rs")], ["Clone", "Default"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
