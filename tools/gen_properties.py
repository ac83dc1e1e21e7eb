#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand, output is committed)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = [observe or "public API results"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CAST="src/internal/cast/mod.rs"; PRIM="src/internal/cast/primitive.rs"; OWN="src/internal/owned.rs"; OB="src/owned.rs"
FMT="src/internal/fmt.rs"; SV="src/internal/sval/v2.rs"; SE="src/internal/serde/v1.rs"; SEQ="src/internal/seq.rs"
MOD="src/internal/mod.rs"; IMP="src/impls.rs"; VIS="src/visit.rs"; FIL="src/fill.rs"; ERR="src/internal/error.rs"; LIB="src/lib.rs"

p("C01","Integer casts return the exact value or nothing",
  "For every integer put into a bag, by any constructor, conversion, capture method, deferred fill, or through sval or serde, each integer cast and each fallible conversion to an integer type returns exactly that integer when the target type can represent it, and nothing otherwise. A cast to a float returns a value only when it equals the integer exactly (and always does for integers of at most 32 bits), while the lossy float cast returns the nearest float. This stays true after the bag is cloned, borrowed, buffered or shared.",
  ["inputs","histories","configurations"],
  "every integer type x boundary-complete value set (all 8/16-bit values, every power of two and of ten +-2) x every way in x every cast out x clone/by_ref/to_owned/to_shared, under inline and by-reference 128-bit storage",
  "Tests cast a handful of small constants; a wrong edge in one route, one width, one sign or one feature set (say values between i64::MAX and u64::MAX arriving through serde and buffered) is not sampled.",
  [CAST,IMP,LIB,SV,SE,OWN],
  [("checked conversion between every stored and requested width",CAST),("narrowing conversions",IMP),("bridging of sval/serde integers into casts",SV+", "+SE)])

p("C02","Float, bool, char and empty casts never coerce or lose bits",
  "A float put into a bag comes back with the same bits (a 32-bit float exactly widened), a bool or char comes back as itself, and an absent optional or unit comes back as empty; no value of one primitive kind, integers and text included, ever satisfies a cast to a different kind (apart from the exact integer to float cast), and a lossy float cast of anything that is not a number is NaN. This holds for every way in that carries the kind and survives clone, borrow, buffering and sharing.",
  ["inputs","histories","configurations"],
  "every char, every bool, every float exponent with boundary mantissas (all 2^32 f32 in the thorough tier), NaN payloads, infinities, signed zeros, empties x ways in x casts x transformations",
  "Tests check one or two values per kind; they never check that the off-diagonal of the kind x cast matrix is empty after buffering or through a bridge.",
  [CAST,PRIM,IMP,LIB,OWN],
  [("kind-specific cast arms",CAST),("widening constructors",LIB),("empty handling for optionals",IMP)])

p("C03","Text comes back exact, and borrowed text is the caller's own memory",
  "Text put into a bag is returned by the string casts byte for byte, for any length and any content, before and after buffering or sharing. Text borrowed from the caller is returned as a borrow of the caller's own memory, and text that only lives for the duration of a callback is never handed out as a longer borrow but returned as an owned copy instead.",
  ["inputs","histories","configurations"],
  "all string lengths across inline-storage boundaries and all UTF-8 widths, fragmented or whole, x ways in x string casts x transformations x string-storage features",
  "Tests use two or three short ASCII literals, which are static and hide both storage boundaries and lifetime mistakes.",
  [CAST,IMP,SV,SE,OWN,SEQ],
  [("borrowed versus transient text paths",MOD),("text buffering when bridging fragments",SV),("inline and boxed string storage",OWN)],
  "to_borrowed_str, to_str, conversions to &str/String/Cow, visit_borrowed_str, sval borrowed fragments")

p("C04","Capturing recognises exactly the well-known primitives",
  "Capturing a well-known primitive or an optional of one through any capturing method gives a bag that casts, visits, formats and serializes exactly like one converted from that primitive directly, with absent optionals becoming empty. Only shared captures of text, and of 128-bit integers without inline storage for them, are kept as opaque values. A value of any other type, however similar its layout, is never mistaken for a primitive, and capturing itself never runs the value's formatting or serialization code.",
  ["inputs","programs","configurations"],
  "every primitive type and its optional x every capturing method (by reference, shared, fallible) plus a family of look-alike types",
  "Tests capture a few types by one or two methods; the type table is duplicated for borrowed and owned captures and per feature, so one wrong or missing row passes.",
  [PRIM,CAST,OB,FMT,SV,SE],
  [("type-identity dispatch with unchecked reinterpretation",PRIM),("fallback to the captured trait",FMT+", "+SV+", "+SE+", "+OB)])

p("C05","Downcasting returns the captured object itself and only at its type",
  "A bag made by a capturing method from a value that is not a well-known primitive can be downcast to exactly that value's type, yielding the caller's own object (or the shared object), and to no other type. This stays true across clone, re-borrow and, for shared captures, across owned handles; bags made without capturing support never downcast.",
  ["inputs","histories","programs"],
  "every capturing method x a family of captured types x every requested type x transformation histories",
  "Tests downcast one or two types immediately after capture; they do not check object identity, wrong types, or histories of borrowed and shared handles.",
  [CAST,MOD,OB,FMT,SV,SE,ERR],
  [("type-checked downcast per representation",CAST),("re-borrow keeps the shared representation",MOD)])

p("C06","A deferred value is indistinguishable from the value it fills",
  "A bag built from a fill callback gives, for every cast, visit, format, serialization, sequence extraction and buffering operation, the same result as a bag built directly from the value the callback supplies, however deeply fills are nested. Only emptiness, downcasting and the borrowing error accessor look at the bag itself and don't run the callback. The callback is run once per observation and not at all when the bag is built, cloned or re-borrowed.",
  ["inputs","histories","programs"],
  "every fill method x value alphabet x every observer x nesting depth x transformations",
  "Tests fill one value and look at it through one consumer; each consumer handles fills separately.",
  [FIL,MOD,CAST,FMT,SV,SE,SEQ,VIS,OWN],
  [("each consumer hands the slot its own visitor","every consumer of a bag"),("slot consumed by filling",FIL)])

p("C07","Visiting makes exactly one call, to the right method, and relays its result",
  "Visiting a bag calls the visitor exactly once: the method for the primitive kind the value has (including primitives arriving through sval or serde and errors), and the catch-all method with an equivalent bag for everything else. Methods the visitor does not override fall back to a more general one that receives the same value, and an error returned by the visitor is what visiting returns.",
  ["inputs","programs","fault_sequences"],
  "every value kind x every way in x every subset of overridden visitor methods x success or failure of the call",
  "Tests use one visitor that overrides everything or nothing and never one that fails.",
  [VIS,SV,SE,MOD],
  [("kind dispatch",VIS),("bridging of sval/serde primitives with a catch-all fallback",VIS+", "+SV+", "+SE)],
  "sequence of visitor callbacks and the returned result")

p("C08","Formatting a bag is formatting the value, flags included",
  "Formatting an unbuffered bag with Debug or Display and any combination of formatting flags writes exactly what formatting the underlying value (primitives in their widened form) with those flags writes; values with only one of the two traits use it for both, sequences format like lists and empty bags as None. Once buffered, formatted values show what they formatted to without flags when they were buffered. How a framework's own formatter writes the other framework's values, buffered errors in Debug form, and text collected by serde once buffered is left open.",
  ["inputs","programs","histories"],
  "value alphabet x {Debug, Display} x all combinations of width, alignment, fill, sign, zero, precision, alternate and hex-debug flags x ways in x transformations",
  "Tests use plain {} and {:?} on a few values; flags are never combined.",
  [FMT,OWN,SV,SE,ERR,SEQ],
  [("formatter handed through to the inner value",FMT),("owned text buffers",FMT)])

p("C09","Structured values pass through their own framework unchanged",
  "Serializing a bag that holds a serde value makes exactly the serializer calls the value itself makes, and streaming a bag that holds an sval value makes exactly the stream calls the value itself makes: same order, types, names, lengths, hints, tags and human-readability. Buffering changes at most the human-readable setting seen by the value, whether text is borrowed or fragmented, missing length hints (filled in), skipped fields and tags of labels (dropped).",
  ["inputs","histories","programs"],
  "all value trees over the full serde and sval data models up to a depth and width bound x ways in x transformations",
  "Tests compare a few fixed structs; the data models have about thirty shapes each and compose.",
  [SV,SE,OWN,MOD],
  [("erased pass-through to the caller's serializer or stream",SE+", "+SV),("buffering of structured values",OWN)],
  "sequence of calls on the caller's serializer or stream")

p("C10","Structured values cross between frameworks without losing structure",
  "A value captured with sval and consumed with serde, or captured with serde and consumed with sval, is seen as the same document: the same nulls, booleans, numbers, texts, sequences, maps, records and variants, in the same order and nesting (values with unlabelled sval tags, which serde cannot name, aside). Bags holding primitives, text, errors and sequences are seen as the same document by both frameworks.",
  ["inputs","histories","configurations"],
  "all value trees up to a depth and width bound x {sval, serde} captured x {sval, serde} consumed x transformations",
  "Tests bridge one or two fixed values in each direction.",
  [SV,SE,SEQ],
  [("framework bridge calls",SV+", "+SE),("sequence emission",SV+", "+SE)],
  "normalized document seen by the consumer")

p("C11","A buffered value says what the original said and no longer needs it",
  "Converting a bag to an owned or shared bag keeps every observation of it: casts, text, formatted output, serialized document, sequence elements, error messages and emptiness, apart from the documented differences (formatting flags, human-readable serde form, downcasting, integer widening, the Debug form of errors, length hints and skipped fields). The owned value keeps saying so after the source has been changed or destroyed.",
  ["inputs","histories","configurations"],
  "value alphabet and value trees x every way in x {to_owned, to_shared, into_shared} x every observer, with the source overwritten and freed before observing, under every storage feature set",
  "Tests buffer a few values that stay alive and unchanged and check one observation of each.",
  [OWN,OB,FMT,SV,SE,SEQ,ERR],
  [("one buffering arm per kind",OWN),("framework buffers",SV+", "+SE)],
  "all observers before and after buffering")

p("C12","Buffered text is byte-exact for every length and write pattern",
  "Buffering a string, or a value that formats itself in any number of writes of any sizes, yields exactly the concatenation of what was written, for every total length and every split into writes and with any characters. Whether the text ends up stored inline, boxed or shared makes no observable difference.",
  ["inputs","histories","configurations"],
  "all sequences of writes over chunk sizes around every storage boundary (up to a depth bound), all total lengths 0..=200, all UTF-8 widths, x {to_owned, to_shared} x string-storage features",
  "Tests use at most three lengths and single writes; the buffer is a small state machine (inline, full, spilled) over unsafe copies.",
  [OWN,FMT],
  [("bounded inline buffer with spill to heap",OWN),("recompression into the inline form",FMT)],
  state=[("write buffer","bytes so far, inline or spilled",OWN)])

p("C13","Cloning, borrowing, owning and sharing never change what is observed",
  "Starting from any bag, every finite sequence of clone, re-borrow, buffer, share and convert-back steps leads to a bag with the same observations as the first one, up to the documented differences introduced by the first buffering step and none introduced by later ones. Intermediate bags and handles can be dropped in any order without affecting the others.",
  ["histories","inputs","configurations"],
  "all operation sequences up to a length bound over {clone, by_ref, to_owned, to_shared, into_shared, owned clone, conversion from owned, drop of intermediates} from every representation",
  "Tests take one step from one representation; there are about forty representations with separate transition arms.",
  [MOD,OWN,OB],
  [("re-borrow mapping between representations",MOD),("owned and shared conversions",OWN)])

p("C14","Shared values are stored once, dropped once and never re-evaluated",
  "A value put into a shared bag is moved in once and dropped exactly once, when the last bag or handle derived from it is dropped and not before. Cloning, re-borrowing, owning or sharing it again shares the same object without running its code, and a value buffered by sharing is evaluated exactly once.",
  ["histories"],
  "all histories of clone, own, share, re-borrow, observe and drop over a bounded number of handles, for every shared capture method and every buffered kind",
  "Tests clone one shared value once; they count neither drops nor evaluations.",
  [OB,OWN,MOD],
  [("reference-counted storage reused by every conversion",OWN),("re-borrow of shared handles",MOD)],
  "drop and evaluation counters of the stored value, object identity")

p("C15","Sequence extraction yields one converted entry per element, in order",
  "Extracting a sequence of any primitive kind from a bag holding a sequence yields exactly one entry per top-level element, in order, each being what casting that element alone gives, with elements that do not convert (including nested sequences and maps) giving an absent entry. A bag that does not hold a sequence yields nothing, whichever way the value got in.",
  ["inputs","histories","configurations"],
  "all sequences up to a length bound over an alphabet of primitives, text, empties, nested sequences and maps x {slice, array, vec, fill, shared, sval, serde, buffered} x every extraction",
  "Tests extract a few flat homogeneous sequences; nesting and mixed kinds are separate code per framework.",
  [SEQ,SV,SE],
  [("element visitor and extension",SEQ),("depth tracking in the sval bridge",SV),("element bridge for serde",SE)],
  "contents of the extracted collections")

p("C16","A failing consumer stops the bag at once and gets its error reported",
  "When the writer, stream, serializer or visitor consuming a bag fails at any of its calls, the operation reports failure to its caller and makes no further output calls on the failed consumer. For formatting of serde values the failure may instead be noted in the output by the formatter used, and a bridge between frameworks may report an error of its own making. Up to that point the consumer has seen exactly the prefix of calls it would have seen without the failure, and a later observation of the bag is unaffected.",
  ["fault_sequences","inputs"],
  "every call index of every consumer kind x value alphabet and value trees x ways in",
  "Tests never inject consumer failures.",
  [FMT,SV,SE,SEQ,VIS,MOD],
  [("error propagation through every visitor",MOD),("early exit from sequence visitors",SV+", "+SE+", "+FMT)],
  "calls seen by the failing consumer and the returned result")

p("C17","A failing value is reported, never panics and never becomes other data",
  "When a captured value's own code fails at any point (formatting, streaming, serializing or filling), casts and extractions return nothing (an element that fails by itself gives at most an absent entry among the others), formatting, serialization and visiting through that code report failure (formatting of serde values by noting it in the output), and no operation of the bag panics (its testing helper aside). Failures after the value is already complete may go unnoticed. Buffering such a value yields a bag that still shows the failure (an error from serialization and visiting, or a placeholder text for formatted values) rather than a partial, empty or different value.",
  ["fault_sequences","inputs","configurations"],
  "every failure point of every kind of user implementation x value shapes x every observer x {direct, owned, shared} x feature sets",
  "Tests cover one failing Display and one failing buffer in a single feature set.",
  [OWN,FMT,ERR,SV,SE,SEQ,CAST,FIL],
  [("poisoned state of owned bags",OWN),("placeholder for failed formatting",OWN),("errors ignored by casts",CAST)],
  "results of every observer on the failing bag and on its owned forms")

p("C18","Errors keep their message and full cause chain",
  "An error put into a bag is observable as an error with the same message and the same chain of causes, of any depth, through error visiting and formatting, and for errors held by the bag itself and not shared through the error accessor. Buffering or sharing keeps the message of every error in the chain, in order and with nothing added or missing.",
  ["inputs","histories"],
  "all cause chains up to a depth bound (distinct, equal and empty messages) x ways in x transformations x observers",
  "Tests use one error without causes.",
  [ERR,OWN,VIS,OB],
  [("recursive buffering of the cause chain",ERR),("error dispatch when visiting",VIS)],
  "to_borrowed_error, conversion to an error reference, visit_error/visit_borrowed_error, Display")

p("C19","Concurrent and re-entrant use behaves as if each operation ran alone",
  "Operations on bags from several threads, on the same shared bag or different ones, give for every interleaving with the users' own callbacks the results each gives alone, and none waits for another. The same holds when a value's formatting, streaming, serializing or filling code itself uses bags, to any nesting.",
  ["schedules","programs"],
  "all interleavings, at every entry into user code and every write to a consumer, of two and three threads each running one of the observing or buffering operations, and all nestings of one operation inside another's callback",
  "Tests are single-threaded and never re-enter.",
  [OWN,OB,FMT,SV,SE,SEQ,CAST],
  [("no shared mutable state besides reference counts","whole crate"),("per-operation visitors and buffers",OWN+", "+FMT)],
  "result of each operation under each schedule")

p("C20","Storage and optional features never change what is observed",
  "Every observation that exists under two feature configurations of the crate gives the same result under both, for every value and every history of operations. In particular the inline-storage features and the presence of unrelated integrations are invisible apart from sizes, lifetimes of borrows, what shared captures recognise, and text that cannot be kept without an allocator.",
  ["configurations","inputs","histories"],
  "pairs of feature configurations x value alphabet x ways in x transformations x observers",
  "Tests assert fixed results separately in a few configurations and never compare configurations on the same inputs.",
  [LIB,MOD,OWN,CAST,PRIM,FMT,SEQ,"Cargo.toml"],
  [("conditional compilation of storage and arms","src/")],
  "digest of all observations per configuration")

p("C21","Observing a bag is repeatable and leaves no trace",
  "Any sequence of observations of a bag, in any order and with any repetition, gives for each observation the same result as making that observation alone on a fresh bag. Observing one bag does not affect any clone, re-borrow or owned handle of it, or any other bag.",
  ["histories","inputs"],
  "all ordered sequences of observers up to a length bound x every representation x clones and handles",
  "Tests make one observation per bag.",
  [CAST,FMT,SV,SE,SEQ,VIS,OWN],
  [("observers take the bag by shared reference and keep no state","whole crate")],
  "results of each observation in each sequence")

p("C22","No use of bags touches memory it shouldn't, or leaves memory behind",
  "No use of the safe interface, for any value, storage size, nesting, history of clone, borrow, buffer, share and drop steps or number of threads, makes an invalid memory access: out of bounds, uninitialised, dangling, mistyped or racing with another thread. Borrowed data handed out stays valid for as long as its lifetime says, also after the bag it came from is gone. Once every bag and handle is dropped, nothing they allocated is left, also when the value failed or panicked.",
  ["histories","inputs","schedules"],
  "text lengths around every buffer size x cuts, all primitive types and their lookalikes x ways in x downcasts, handle histories, pairs of uses by two threads, failing and panicking values",
  "Tests look at results; an invalid access or a leak usually leaves them as they were.",
  [OWN,CAST,SEQ,FMT],
  [("casts between types that are the same","src/internal/cast/primitive.rs"),("text copied into and read out of inline buffers","src/internal/owned.rs, src/internal/fmt.rs"),("slices reborrowed as sequences","src/internal/seq.rs")],
  "what the interpreter reports; live bytes before and after")

p("C23","All conversions of a value into or out of a bag agree with each other",
  "Every conversion of a value into a bag (by value, by reference, through a present optional, a reference to a trait object, a string or sequence container, or an owned bag) gives a bag that cannot be told apart from the one the matching constructor gives, also once buffered or shared. An absent optional of any type gives an empty bag. Every conversion out of a bag succeeds exactly when the matching cast gives a value that fits, with that value, and fails with an error otherwise.",
  ["inputs","configurations"],
  "every conversion x value alphabet x every observer x {direct, owned, shared}; every conversion out of a bag x value alphabet",
  "Tests convert one value of a few of the types, and look at one result.",
  [IMP,FMT,SEQ,SV,ERR,LIB],
  [("conversions delegate to the constructors and casts",IMP+", "+SEQ+", "+FMT+", "+SV+", "+ERR),("optionals",LIB)],
  "every observer, and results of conversions")

p("C24","Testing tokens are of the kind the value was given as and hold its value",
  "The token the testing helper gives for a bag is of the kind its value was given as: the integer (of that sign and width), float, bool, char, text, empty, error, sequence, or framework it came from, and formatted values give their exact text. Primitives are held exactly, and cloning, borrowing, deferring, buffering or sharing gives the same token, except that integers may get wider and a structured value that is just a primitive may become that primitive.",
  ["inputs","histories"],
  "value alphabet x ways in x transformations",
  "Tests use the helper to look at one value of each kind, and never look at the helper.",
  ["src/test.rs",MOD,OWN],
  [("one visitor method per kind","src/test.rs")],
  "to_test_token")

p("C25","Errors of the crate keep the message they were made with",
  "An error made from a message, from any other error (boxed, converted from an I/O error, or from one of its own type) or from a formatting failure displays exactly as what it was made from, under every formatting flag, through any error interface and on any thread. An error that a visitor returns comes out of the visit with its message for every kind of value, and the error of a deferred value that fails comes out of visiting it or serializing it with serde.",
  ["inputs","fault_sequences"],
  "ways of making errors x messages x flags; visitor errors x value alphabet x ways in; errors of deferred values",
  "Tests never look at the message of an error.",
  ["src/error.rs",VIS,FIL,SE],
  [("representations of an error","src/error.rs"),("errors relayed by visitors",VIS+", "+MOD)],
  "Display of the error, directly and after it was relayed")

p("C26","Values that aren't structured serialize as exactly what they are",
  "Serializing a bag of a primitive makes exactly the one serializer or stream call for its kind, with its exact value: integers, floats and booleans as themselves in their widened form, chars as chars (text for sval), an empty bag as serde's none and sval's null, and text, formatted values and errors as their text. A sequence is one sequence with one entry for each element in order, each serialized as it is alone. This holds for every way in, however often it is deferred, cloned, borrowed, buffered (integers may then be wider) or shared, and text lent by the caller is lent on to sval streams that read the bag by reference.",
  ["inputs"],
  "value alphabet x integers around every power of two x texts and sequences of every length x derivations x consumers",
  "Tests serialize a handful of values, once each and not after buffering.",
  [SE,SV,OWN],
  [("serialization of each kind",SE),("streaming of each kind",SV)],
  "calls seen by a recording serde serializer and sval stream")

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
