#!/usr/bin/env python3
"""Writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

SP="fieldx/src/sync/fxproxy.rs"; SL="fieldx/src/sync/fxlock.rs"; AP="fieldx/src/async/fxproxy.rs"; AL="fieldx/src/async/fxlock.rs"
CS="fieldx_derive/src/codegen/sync.rs"; CP="fieldx_derive/src/codegen/plain.rs"; CT="fieldx_derive/src/codegen/codegen_trait.rs"; CG="fieldx_derive/src/codegen.rs"
SE="fieldx_derive/src/codegen/serde.rs"; FC="fieldx_derive/src/ctx/field.rs"; GC="fieldx_derive/src/ctx/codegen.rs"; FF="fieldx_derive/src/fields.rs"; AR="fieldx_derive/src/util/args.rs"
HOOK="std shadowed by the controlled primitives with --cfg fieldx_mc"

p("C01","A sync lazy builder runs exactly once per initialization",
  "However many threads touch an unset lazy field of a sync struct at once (accessor, mutable accessor, reader), its builder is never active in two threads at a time and a builder run whose value is delivered is never repeated until the field is cleared. All of them observe the very same built value. A field which already has a value (set by the object builder, a setter or a writer guard) never runs its builder.",
  ["schedules"],"all interleavings of two and three threads with up to two operations each, within a preemption bound, for every accessor flavour of a lazy field",
  "Tests start a few threads and sample whatever interleavings the OS produces; a check-then-act window between the read and the write phase of initialization is almost never hit.",
  [SP,CS],[("double-checked initialization under an upgradable read lock",SP+" read_or_init")],["accessors","builder runs"],HOOK)
p("C02","Operations on sync fields are linearizable",
  "Any concurrent mix of operations on a lazy, optional or lock-protected field of a sync struct (accessors, setters, clearers, predicates, reader and writer guards) yields results that some sequential order of these operations, consistent with real time, would produce. In particular no update is lost, a setter or clearer returns exactly the value it displaced, and once all is quiet predicate, accessor and clearer agree on the state.",
  ["schedules","histories"],"all programs of 2x2 and 3x1 operations over the full helper alphabet, all their interleavings within a preemption bound, every initial state",
  "Linearizability is over all schedules; tests check single-threaded sequences and one stress loop per feature.",
  [SP,SL,CS],[("value lock held across every state change",SP),("is_set flag updated under the write lock",SP),("generated helpers",CS)],["return values of helpers"],HOOK)
p("C03","A failed lazy builder leaves no trace",
  "When a lazy builder returns an error or panics, the error (or panic) reaches the operation that ran the builder and no other one, the field is left unset and no value appears in it, and locks are released. The next access runs the builder anew and can succeed. This holds in plain, sync and async structs and under concurrency.",
  ["schedules","fault_sequences"],"all success/error/panic scripts of the builder up to a length, in all interleavings of concurrent accesses and in all sequences of operations",
  "Tests have one builder that fails once, on one thread, with no concurrent access and no panic.",
  [SP,AP,CP,CS],[("error propagation out of initialization before any state change",SP+" read_or_init; "+AP+" read_or_init"),("get_or_try_init",CP)],["Result of accessors","predicate"],HOOK)
p("C04","Operations on sync and async structs never deadlock",
  "As long as lazy builders depend on each other without a cycle and a thread asks for nothing while it holds a guard, every operation on sync and async objects completes whatever other threads do at the same time. This includes builders that read other lazy fields, comparing objects with themselves and with each other in any order, cloning and debug output while writers are waiting.",
  ["schedules"],"all interleavings of up to four threads that initialize dependent fields, write, clear, compare, clone and print, with a lock model where waiting writers block new readers",
  "A lock-order or writer-starvation deadlock needs a particular interleaving of three or four parties; tests never wait for it.",
  [SP,SL,AP,AL],[("lock acquisition order and recursive reads",SP+" PartialEq; "+SL+" PartialEq; "+AL+" PartialEq")],["completion of every call"],HOOK)
p("C05","Guards of sync fields isolate their holders",
  "While a read guard of a lazy, optional or lock-protected field is alive its target does not change, and guards of other readers may coexist with it. While a write guard is alive no other thread sees or changes the field: a multi-step update through a mutable accessor or writer guard becomes visible all at once when the guard is dropped.",
  ["schedules"],"all interleavings of guard holders that look twice or update in several steps with all other operations",
  "Tests never examine a value twice under a guard while others write.",
  [SP,SL,CS],[("guards map the lock's own guard",SP+" read, read_mut, write"),("downgrade/upgrade instead of unlock/lock",SP)],["values seen under guards"],HOOK)
p("C06","Async lazy fields: one builder run, linearizable operations",
  "However many tasks touch a field of an async struct at once, the lazy builder of a field is never active twice at a time, even when it suspends, and is not repeated once its value was delivered, until the field is cleared. Results of concurrent accessors, setters, clearers, predicates, readers and writers of lazy, optional and locked fields are those of some sequential order consistent with real time, and every operation completes.",
  ["schedules"],"all interleavings of two and three tasks with up to two operations each, builders with 0 to 2 suspension points",
  "Tests run one schedule of one executor.",
  [AP,AL,CS],[("initialization under the async write lock",AP+" read_or_init")],["return values of helpers"],HOOK)
p("C07","Cancelling an async operation is harmless",
  "Dropping the future of any helper of an async struct at any of its suspension points (including those of the lazy builder) leaves the field either as it was or as the completed operation would have left it. Locks are released, no value leaks or is dropped twice, and later operations of this and other tasks proceed normally, including another run of the builder.",
  ["schedules","crash_points"],"every suspension point of every operation as a cancellation point, in all interleavings with a second task and in all short sequences",
  "No test drops a pending future.",
  [AP,AL],[("state is only changed after the last await",AP+" read_or_init")],["state after a dropped future"],HOOK)
p("C08","Clones, comparisons and output are consistent snapshots",
  "Each lazy, optional or locked field of a cloned object equals a state the source's field had at one moment of the call, its predicate agrees with its content, and the two are independent afterwards: operations on one never show up in the other and an unset lazy field of the clone runs its own builder. Comparing two fields yields true exactly when their contents are equal (an unset field equals only an unset one) at some moment of the call, and neither comparing, cloning nor debug output initializes a lazy field.",
  ["schedules","histories"],"clone, ==, and {:?} in all interleavings with writers, and at every point of all short histories",
  "Tests clone an object once, in one state, with no concurrent writer.",
  [SP,SL,AP,AL],[("Clone, PartialEq and Debug of field containers under the read lock",SP+", "+SL+", "+AP+", "+AL)],["clones","=="],HOOK)
p("C09","Lazy field life cycle in every mode",
  "After any sequence of operations a lazy field in plain, sync or async mode behaves as its reference model: the first access of an unset field runs the builder once and all accesses return its value; setting, storing through a writer and updating through a mutable accessor replace it; clearing returns the old value (or none) and makes the next access build again; the predicate reports whether a value is there and never builds. Builders may read other lazy fields of the object.",
  ["histories","configurations"],"all operation sequences up to a depth, for every combination of accessor mode, fallibility, default value, builder, into and concurrency mode",
  "Tests run one hand-written sequence on a handful of attribute combinations.",
  [CP,CS,SP,AP],[("helpers generated for lazy fields",CP+", "+CS)],["return values of helpers"])
p("C10","Optional field life cycle in every mode",
  "An optional field starts empty (or with its default), the setter stores a value and returns the previous one, the clearer empties it and returns what was there, the predicate says whether it has a value, and accessors and mutable accessors show exactly the current state. It is the same for `optional` given explicitly or implied by a clearer or predicate, with or without a lock or inner mutability, and for copy, clone and as_ref accessors.",
  ["histories","configurations"],"all operation sequences up to a depth for every attribute combination",
  "Tests run one hand-written sequence on a handful of attribute combinations.",
  [CP,CS,FC],[("helpers generated for optional fields",CP+", "+CS)],["return values of helpers"])
p("C11","Always-valued fields: plain, locked, inner mutable",
  "A field that is neither lazy nor optional always holds exactly the value last stored: accessors (by reference, copy, clone, guard) return it, the setter replaces it and returns the previous one, changes through mutable accessors, writer guards and inner-mutability borrows are seen by all subsequent reads. Copy and clone accessors never hand out aliases: changing the field later does not affect values handed out before.",
  ["histories","configurations"],"all operation sequences up to a depth for every attribute combination",
  "Tests cover a few combinations with one sequence each.",
  [CP,CS],[("helpers generated for bare, lock and inner_mut fields",CP+", "+CS)],["return values of helpers"])
p("C12","new() and Default deliver declared initial states",
  "An object made by new() or Default::default() has every field in its declared initial state: explicit default values (literals, strings converted to String, paths, calls) where given, Default of the type otherwise, empty optionals, lazy fields unset and not built until accessed. A lazy field with a default starts with that value and builds only after it is cleared. It is the same in plain, sync and async structs, and objects share no state.",
  ["configurations","histories"],"all field kinds x default forms x modes, followed by all short operation sequences",
  "Tests construct a few structs.",
  [CG,CT,CP,CS],[("default generation",CT+" field_default_value; field_value_wrap of "+CP+" and "+CS)],["fields of new objects"])
p("C13","The object builder delivers exactly what it was given",
  "For every subset of builder methods called, in any order and with repetitions, build() succeeds if and only if every required field was given a value, and the object has in each field the value given last, or else its default, or is empty, or (lazy) unset. Fields with a default, optional and lazy fields are not required unless marked so, builder(off) fields take their defaults, and a failed build() names a field that is required and missing.",
  ["inputs","configurations","histories"],"all call sequences of builder methods up to a depth x all field kinds and modes",
  "Tests try one complete and one incomplete call per struct.",
  [CT,CG,CP,CS],[("required-value checks",CT+" field_builder_value_required"),("value transfer",CT+" field_builder_value_for_set; field_builder_setter of "+CP+" and "+CS)],["build() result and fields"])
p("C14","Builder errors, post_build and custom error types",
  "build() reports a missing value with the standard error, with the user's error type converted from it, or with the user's error variant carrying the field name, as configured. post_build is called exactly once per successful construction, after all fields are in place and never when a value is missing; what it returns is what build() returns, including its errors. With reference counting the object post_build sees is the one delivered.",
  ["inputs","configurations"],"all subsets of builder calls x error configuration x post_build outcome x mode x reference counting",
  "Tests take one path through one configuration.",
  [CG,CT,GC],[("build() generation",CG+" builder_impl"),("construction",CT+" maybe_ref_counted_create")],["build() result","post_build calls"])
p("C15","Serialization round trip loses nothing",
  "Serializing an object and deserializing the result gives an object with the same observable content for plain, sync and structs with optional, lazy, locked, inner mutable and generic fields, whatever operations led to its state. A lazy field which is not set is built on serialization, an optional one is serialized as absent value and comes back empty (with its `default` if it has one and the struct is plain); fields excluded from serialization come back with their initial state.",
  ["histories","configurations"],"all operation sequences up to a depth before the round trip, all field kinds and modes",
  "Tests serialize one or two states of a few structs.",
  [SE,CP,CS],[("conversion to and from the shadow struct",SE),("field_from_struct / field_from_shadow",CP+", "+CS)],["serialized text","deserialized object"])
p("C16","Deserialization of partial input follows declared defaults",
  "For every subset of fields present in the input, a present field gets the given value; a missing one gets its serde default if there is one, is left empty or unset if it is optional or lazy with no serde default (in plain structs it gets its own `default`, if it has one), and is an error otherwise. Struct-level serde default supplies missing fields from the given object. Renamed fields go by their new name in both directions, fields with serde off, deserialize off or serialize off are ignored in the direction that is off.",
  ["inputs","configurations"],"all subsets of present fields (and explicit nulls) x default forms x modes",
  "Tests feed one or two documents per struct.",
  [SE,"fieldx_aux/src/serde_helper.rs"],[("shadow struct attributes",SE+" serde_field_attribute, serde_shadow_default_fn")],["serialized text","deserialized object"])
p("C17","Reference counted objects know themselves",
  "An object of a struct with `rc` is delivered by new() and by the builder inside of Rc (plain) or Arc (sync, async); its self reference and weak self reference, under the default or a custom name, always denote that very object, also inside of lazy builders and post_build, and never another one. Self references keep no object alive: after the last outside reference is gone the object is dropped, once, and weak references yield nothing.",
  ["histories","configurations"],"all sequences of constructing, cloning, dropping references, upgrading and lazy initialization up to a depth, all modes",
  "Tests check pointer equality once.",
  [CG,CT,GC],[("cyclic construction",CT+" maybe_ref_counted_create"),("self reference methods",CG+" myself_methods")],["pointer identity, reference counts, drops"])
p("C18","Values are neither lost nor dropped twice nor kept",
  "Every value that goes into an object (by its builder, setters, writers, lazy builders, defaults, deserialization) is dropped exactly once: replaced and cleared values are handed to the caller, what remains is dropped with the object, and nothing else keeps a value alive. Values given to an object builder that is dropped or fails are dropped with it.",
  ["histories","configurations"],"all operation sequences up to a depth with instrumented values, for every field kind and mode",
  "Tests do not count drops.",
  [SP,AP,CP,CS,CT],[("take/replace semantics of containers and helpers",SP+", "+AP+", "+CP+", "+CS)],["live instances"])
p("C19","Helpers are named and enabled by documented rules",
  "A helper method exists if its argument is enabled for the field, or at struct level with the field not turning it off; field level always wins. Its name is the field's explicit helper name, or else the struct level prefix (default: none for accessors and builder methods, set_, clear_, has_, build_, read_, write_) followed by the field name or its rename, with _mut for mutable accessors; accessor mode (copy, clone, as_ref) and into follow the same order of precedence.",
  ["configurations"],"all combinations of field-level and struct-level settings (absent, on, off, named) for each helper, in each mode",
  "Tests use a dozen of hand-picked combinations out of thousands.",
  [CT,FC,FF,AR,"fieldx_derive/src/helper.rs"],[("name resolution",CT+" helper_name"),("enabling",FC+" needs_*")],["methods present on the type"])
p("C20","Contradicting arguments are rejected, others are accepted",
  "Arguments that exclude each other (public and private, copy and clone, concurrency modes, lazy with optional or inner_mut, fallible with lock, optional or inner_mut, serde with rc), at the level where they do, unknown arguments and malformed values make compilation fail with an error at the attribute, and never produce a struct that silently ignores one of them. All pairs of arguments outside of these groups are accepted.",
  ["configurations"],"all pairs of arguments at struct and field level",
  "Tests have about a dozen of files that must not compile.",
  [FF,AR,"fieldx_aux/src/util.rs","fieldx_derive_support/src/lib.rs"],[("validate_exclusives","fieldx_aux/src/util.rs")],["compiler verdict"])
p("C21","Generated items have the requested visibility",
  "Each helper method (those of the object builder aside) is exactly as visible as the most specific setting says: helper argument, then field level, then struct level helper argument, then struct level public/private, else the struct's own visibility; modes are public, public(crate), public(super), public(in path) and private. Field declarations keep the visibility they were written with.",
  ["configurations"],"all combinations of visibility settings at four levels for each helper and mode, probed from inside of the module, its parent, crate and another crate",
  "Tests probe one private accessor.",
  [FC,CG],[("visibility resolution",FC+" vis_tok")],["compiler verdict of uses from each place"])
p("C22","Skipped fields are left alone",
  "A field with `skip` keeps its declared type whatever other arguments the field or the struct have (except that they contradict each other), gets no helper methods and no method of the object builder, needs no lazy builder, gets its default (`default` of the field, otherwise that of its type) from new(), Default, the object builder and deserialization, and is never serialized.",
  ["configurations"],"all single arguments and pairs at struct level and at field level x forms of default x mode x position of skip x way of construction",
  "Tests have two structs with a skipped field.",
  [FC,CG,CT,CP,CS],[("is_skipped",FC+", "+CT+" field_methods"),("initialization",CG+" builder_impl")],["type of the field, methods present, value after construction"])
p("C23","Custom attributes reach the items they are meant for",
  "attributes_fn of a field's helper applies to exactly that helper method, that of the field to its helper methods that have no own, that of a struct level helper to all methods of this kind which have neither. `attributes` of builder, serde (or the struct, for those without their own) reach the object builder struct or shadow struct; those of a field's builder or serde argument reach the field of that struct; attributes_impl reach the impl. All attributes of a list arrive, whatever their form (a path, with arguments, with a value), and no other item gets them. Shadow fields get the attributes listed in forward_attrs.",
  ["configurations"],"all combinations of attribute arguments at helper, field and struct level, each helper, mode and reference counting",
  "Tests use one custom attribute per kind.",
  [CT,CG,SE,"fieldx_aux/src/attributes.rs",AR],[("resolution of attributes_fn",CT+" attributes_fn"),("parsing","fieldx_aux/src/attributes.rs")],["items present, marks left by attribute and derive macros of the harness"])
p("C24","Generic structs work as concrete ones do",
  "A struct with type parameters (bounds inline or in a where clause, default types), const and lifetime parameters accepts the same arguments as a concrete one; its constructors, accessors, setters, lazy builders, object builder, reference counting and serialization are available for every instance which meets the declared bounds, need no further ones, and behave as those of the concrete struct. (Deserialization of borrowed data is not covered; serialization needs what serde's derive needs.)",
  ["configurations"],"all struct-level arguments x field kinds x forms of generics x modes",
  "Tests have a handful of generic structs with one or two kinds of fields.",
  [CG,CT,SE,CP,CS],[("generics of the impl blocks and of the builder",CG+" builder_struct, finalize"),("shadow struct generics",SE)],["compiler verdict, results of the script of operations"])
p("C25","Objects can be sent and shared between threads as their fields allow",
  "Structs in sync and async mode, reference counted or not, are Send and Sync whenever the types of their fields are; a lock makes a field of a Send and Sync type shareable and nothing makes a type that isn't Send or Sync pass as such. Plain structs are Send if their fields are, and are Sync only without lazy and inner_mut fields; those with `rc` are neither. Object builders of structs without rc are Send and Sync as their fields are. Futures of the helpers of async fields can be sent between threads. Guards of async fields, and those of sync fields with the feature send_guard, can be sent to another thread and released there, and tasks may hold guards of async fields while they wait.",
  ["configurations"],"all kinds of fields x Send/Sync of the field's type x field-level and struct-level mode x reference counting",
  "Tests share a few structs of thread-safe types.",
  ["fieldx/src/sync/fxproxy.rs","fieldx/src/async/fxproxy.rs",CG,CS],[("containers","fieldx/src/sync/fxproxy.rs, fieldx/src/async/fxproxy.rs, fxlock.rs"),("choice of containers",CS+", "+CP)],["auto traits of struct, builder and futures"])
p("C26","Cargo features add abilities and change nothing else",
  "With any combination of the features sync, async and serde, declarations which use none of the disabled ones compile and behave as with all features enabled; switching something off (sync(off), serde(off) ...) takes no feature. A declaration which asks for a disabled feature by the keyword sync, async or serde, for the struct or a field, is rejected with an error that names the feature, never silently reduced to one without.",
  ["configurations"],"all combinations of features x mode at struct or field level x struct-level arguments x kinds of fields",
  "Tests are run with all features enabled.",
  [AR,FF,"fieldx_derive/src/util.rs","fieldx/Cargo.toml",CS,SE],[("feature_required","fieldx_derive/src/util.rs"),("cfg(feature)",AR+", "+FF+", "+CG)],["compiler verdict, results of the script of operations"])
p("C27","Argument types of fieldx_aux parse what is documented",
  "Each argument type of the auxiliary crate makes of any argument, as a keyword, with a list or with a value, exactly what its syntax says: settings are found in any order, off, names, visibility, nested lists and values arrive unaltered and the original tokens are kept; arguments given twice, unknown, in conflict or malformed yield an error and never a panic; conversions from and to bool agree with is_true().",
  ["configurations"],"all argument lists up to a length over a vocabulary for each type",
  "Tests use these types only by way of a few dozen of declarations.",
  ["fieldx_aux/src","fieldx_derive_support/src/lib.rs"],[("helpers","fieldx_derive_support/src/lib.rs"),("argument types","fieldx_aux/src/*.rs")],["results of FromMeta, accessors and conversions"])
p("C28","Fallibility follows documented rules and errors get through",
  "A lazy builder may fail exactly if `fallible` of the field, or else of the struct, says so and isn't off; its error type is that of the field, or else of the struct, and a fallible lazy field without any is rejected. All helpers which run the builder then return Result with this type and deliver the error unaltered; the field remains unset, nothing is cached and the next use runs the builder again. Fields which aren't lazy aren't affected by struct-level fallible.",
  ["configurations","histories"],"all combinations of fallible, off and error at both levels x ways to be lazy x helper x mode, with two failures and then success",
  "Tests have three structs with a fallible field each.",
  [FC,FF,AR,CP,CS,SP,AP],[("is_fallible, fallible_error",FC),("fallible accessors",CP+", "+CS)],["types and results of helpers, number of builder runs"])
p("C29","Constructors and traits are generated exactly when they should be",
  "new() exists unless no_new or default(off); Default is implemented if the struct has `default`, or, without default(off), if new() is generated, a field has a default value or a sync struct has a lazy field; builder() exists if struct or field ask for it; Serialize and Deserialize are implemented as serde, serialize(off), deserialize(off) say; derives of the user are kept and no others appear. new(), Default and the builder deliver what the declaration says, inside of Rc or Arc with rc, also for structs without fields, and field types need Default only where a default value is taken.",
  ["configurations"],"all combinations of no_new, default, builder, serde, rc, lazy (absent, on, off) x kind of field x mode x derives",
  "Tests use new() or builder() of structs for which both exist.",
  [CG,GC,AR],[("needs_default",GC),("struct_extras, default_impl, builder_impl",CG)],["items present, their types, values of new objects"])
p("C30","Containers used directly agree with the helpers",
  "The containers of lazy and locked fields (FXProxySync, FXProxyAsync, their write guards, FXRwLockSync, FXRwLockAsync), used directly by the methods of the struct's author, and the helpers see one and the same cell in any order of use: read, read_mut, try_read, try_read_mut build the value when there is none, and only then, write, store, clear and Debug never do; lazy_init initializes and keeps quiet about errors, read and read_mut panic on them, the try_ variants deliver them and leave the container empty and usable; is_set, into_inner, Clone, comparison and conversions agree with the content.",
  ["histories"],"all sequences of direct and helper operations up to a depth",
  "Tests use direct access in two places.",
  [SP,AP,SL,AL],[("FXProxySync",SP),("FXProxyAsync",AP),("locks",SL+", "+AL)],["results, builder runs, content at the end"])
p("C31","The struct remains what was declared",
  "After expansion the struct has exactly the declared fields, in their order and with their names, plus one weak self reference with rc; each field keeps its declared visibility and attributes (documentation, lint levels, those of other derives, cfg_attr), the struct its name, visibility and attributes, for whichever derive or attribute macro comes next; fields which need no container (neither lazy, optional, locked nor with inner mutability) keep their declared type.",
  ["configurations"],"all struct-level arguments x kinds of fields x mode x attributes x visibilities x position of the field",
  "Tests look at neither attributes nor order of fields.",
  [CG,CT,CP,CS,FC,"fieldx_derive/src/fields.rs"],[("field declaration",CT+" field_decl"),("struct",CG+" rewrite")],["tokens of the struct as a derive macro sees them"])
p("C32","Declarations work wherever and however they are written",
  "A declaration means the same whatever the order of its arguments, their distribution over several #[fieldx] attributes, trailing commas and comments; in a crate of edition 2018, 2021 or 2024; in a module, in a function or block with types local to it, in modules where other items hide the names of the standard library's types, crates and macros, and when a macro_rules! macro made it or passed its attributes through; it causes no compiler warnings of its own; fields may have any name, raw and non-ASCII identifiers included, and types which mention Self in any way. Anything that isn't a struct with named fields is refused with an error.",
  ["configurations"],"all pairs of struct-level arguments and kinds of fields x mode x place and form",
  "Tests declare structs in one form, at module level.",
  [CG,CT,CP,CS,FC,"fieldx_derive/src/fields.rs","fieldx_derive/src/lib.rs"],[("names of helpers",FC),("Self in types","fieldx_derive/src/ctx.rs"),("struct",CG+" rewrite")],["compiles or not, values, accessors"])
p("C33","A panic of the user's code costs nothing",
  "When user code called by an operation panics (Clone, Into, Default, Debug, PartialEq, Serialize, Deserialize, Drop of values, lazy builders, post_build) or a holder of a reference or guard does, the panic reaches the caller, and afterwards every field holds the value from before or from after the operation (or one written explicitly in between); no lock stays held and none is poisoned, predicates and later builder runs agree with the content, no value is lost, leaked, dropped twice or used after its drop, and all later operations work as usual.",
  ["faults","histories"],"each call of user code within each sequence of operations up to a depth; pairs of calls one operation less deep",
  "Tests have no panics at all, apart from builders in two places.",
  [CP,CS,CG,SP,AP,SL,AL],[("setters",CP+" field_setter"),("containers",SP+", "+AP)],["results, propagation of the panic, content, values alive"])
p("C34","References to inner mutable fields are respected",
  "While a caller holds references into an inner_mut field (shared ones by its accessor, an exclusive one by its mutable accessor), every holder keeps seeing the value, or what it stored itself; helpers, clones, comparisons and serialization which don't conflict with the references go on and give right results; those which conflict panic at once and have no effect, none of them skips its work silently or gives a wrong answer; other fields aren't affected. After a reference is released everything works as before.",
  ["histories","configurations"],"all sequences of operations up to a depth, with up to three references held in between",
  "Tests release each reference in the statement which takes it.",
  [CP,CT],[("accessors, setters, predicates",CP+" field_accessor, field_accessor_mut, field_setter, field_predicate, field_clearer")],["results and panics of helpers, content seen through held references"])
p("C35","Attributes of serde work as in a plain struct",
  "Serde's own attributes, given on a field directly or by serde(attributes(serde(...))) of the field or the struct, have the effect they have in a struct of the same fields which derives serde (where lazy and optional fields are an Option): rename, rename_all, alias, default, skip, skip_serializing(_if), skip_deserializing, with, flatten, deny_unknown_fields, tag. The same documents are accepted, with the same content, and rejected with the same errors, objects in the same state are serialized to the same text, whatever kind of field it is and together with the macro's own renaming, default, serialize(off), deserialize(off) and forward_attrs.",
  ["configurations","inputs"],"all pairs of attributes of field and struct and arguments of the macro x kind of field x mode; all subsets of keys x forms of value; several states",
  "Tests use two of the attributes, each on a field without arguments, and three documents.",
  [SE,CT],[("shadow fields",SE+" serde_shadow_field"),("shadow struct",SE+" serde_shadow_struct")],["accepted documents, errors, content, serialized text"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
