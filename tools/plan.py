"""What is run for each property: feature configurations, bounds and assumptions."""

CONFIGS = {
    "full": "inline-i128,inline-str-l,std,owned,seq,sval2,serde1,error,test",
    "std": "std,owned,seq,sval2,serde1,error,test",
    "ils": "inline-str,std,owned,seq,sval2,serde1,error,test",
    "nostd": "owned,seq,sval2,serde1,inline-i128",
    "sval": "sval2,seq",
    "serde": "serde1,seq",
    "svo": "std,owned,seq,sval2",
    "seo": "std,owned,seq,serde1",
    "err": "error,owned,inline-str",
    "min": "",
}

ALL = list(CONFIGS)

COMMON = [
    "the frameworks (sval, serde, erased-serde, sval_buffer, serde_buf) and std behave as documented",
    "64-bit target, as built here",
]

PROPERTIES = {}

PROPERTIES["C01"] = {
    "configs": ["full", "std", "nostd"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every 8-bit integer and every +-2^k+d (k<128, |d|<=2) and +-10^k+d of every integer type, "
        "through every constructor, capture, fill and framework route, each through 9 clone/borrow/own/share "
        "derivations; every 16-bit integer through the plain conversion; all 19 casts and conversions of each",
        "thorough": "as quick, with every 16-bit integer through every route and derivation and every 32-bit integer "
        "through the plain conversions",
    },
    "assumptions": COMMON
    + ["128-bit integers in shared captures are only recognised with inline-i128 (there is nowhere to keep them otherwise)"],
}

PROPERTIES["C02"] = {
    "configs": ["full", "std", "nostd"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every sign and exponent of f64 with 56 mantissas and of f32 with 27 mantissas, every char, both bools and the absent "
        "optional of every primitive through the plain conversion; every 64th exponent and the special ones, every char below 0x300 and at "
        "each UTF-8 width boundary through every route and 9 derivations plus 6 bag-in-bag nestings; all casts of each",
        "thorough": "as quick with all exponents through every route and every one of the 2^32 f32 bit patterns",
    },
    "assumptions": COMMON + ["is_empty of a null arriving through a framework or a fill isn't specified"],
}

PROPERTIES["C03"] = {
    "configs": ["full", "std", "ils", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "bounds": {
        "quick": "every byte length 0..140 of characters of 1, 2, 3 and 4 bytes (and mixed), every string of at most 3 characters over a "
        "10 character alphabet with quotes, NUL, control and wide characters; through every route of text into a bag (including text in two "
        "fragments cut everywhere) and 9 derivations; identity of the memory for every borrow",
        "thorough": "as quick up to length 1100 and 4 characters, and some very long texts",
    },
    "assumptions": COMMON,
}

PROPERTIES["C04"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "bounds": "every 8-bit integer, every single-bit pattern of every wider integer type and its complement, the special floats, chars and texts "
    "of every length below 70, and the absent optional of every primitive, through every capturing method, compared with the direct conversion "
    "on all observers; 17 look-alike wrappers of each of 18 primitive types and 30 further types, captured and observed; evaluation counters "
    "during capture for every capturing method",
    "assumptions": COMMON + ["shared captures don't recognise text, nor 128-bit integers without inline-i128"],
}

PROPERTIES["C05"] = {
    "configs": ["full", "std", "nostd", "svo", "seo", "min", "err"],
    "thorough_configs": ALL,
    "bounds": {
        "quick": "12 types of equal and different layouts captured by every capturing method, downcast to those types, 4 wrappers of each and 24 "
        "others, after every sequence of at most 3 of 7 clone, borrow, own and share steps",
        "thorough": "as quick, up to 4 steps",
    },
    "assumptions": COMMON
    + ["what a shared sequence or a fill of a captured value downcasts to isn't specified", "borrowed objects aren't reachable after buffering"],
}

PROPERTIES["C06"] = {
    "configs": ["full", "std", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space (30 primitives, 24 formatted values, 6 errors, every constructor of the structured data "
        "model over every leaf and over pairs of leaves through every framework route, sequences, bags in bags, shared captures), filled "
        "through 1, 2 and 3 levels, through fill_any and the slot method for its kind; every observer of the bag itself and of 8 "
        "clone/borrow/own/share derivations; fill counts of each observation; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick, with one more level of nesting in structured values, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + [
        "is_empty, downcasting and the borrowing error accessor look at the bag itself and not at what it fills",
        "values lent to a slot aren't borrowed for longer, so without an allocator text lent through sval isn't seen as text",
    ],
}

PROPERTIES["C07"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "min", "err"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space with 26 sets of overridden visitor methods (none, all, each alone, all but each), and one "
        "value of every kind through every way in with all 4096 sets; on the bag itself and 8 clone/borrow/own/share derivations; with "
        "visitors that succeed and that fail, passed by reference, behind references to references and as trait objects; every other conversion "
        "of a recipe with the 26 sets; "
        "large values of 70 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick, with one more level of nesting in structured values, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + ["whether newtypes, unit structs and variants arriving through a framework count as what they wrap isn't specified"],
}

PROPERTIES["C08"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "all 1344 combinations of fill and alignment (7), sign (3), alternate, zero padding, width, precision and Display, Debug, "
        "lower and upper hexadecimal Debug, with widths 0, 3, 30 and precisions 0, 2, for every recipe of the common space with flat "
        "structured values and 40 special floats, chars and texts, on the bag itself, 8 derivations, the owned handles themselves and every other conversion; without flags for structured "
        "values one level deeper; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with 7 widths and 6 precisions, structured values one level deeper, and three levels deeper without flags, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + [
        "how one framework shows a value of the other isn't specified",
        "text that serde collects by formatting is shown as any other text once buffered",
        "the Debug form of a buffered error isn't specified",
    ],
}

PROPERTIES["C09"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "svo", "seo"],
    "profile": "fast",
    "bounds": {
        "quick": "every leaf of the structured data model (40), every constructor over every leaf and over pairs of leaves, and constructors "
        "over constructors, through 8 routes per framework and 9 clone/borrow/own/share derivations; every call on serializers for people and "
        "for machines and on streams, with names, variants, tags, indices, lengths and the identity of borrowed text; "
        "large values of 300 elements, fields, fragments or characters, and of 150 levels",
        "thorough": "as quick with constructors over constructors over constructors and pairs of them, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + ["buffers drop the tags of labels and skipped fields, fill in lengths and merge text: compared up to that once buffered"],
}

PROPERTIES["C10"] = {
    "configs": ["full", "sval", "serde", "svo", "seo", "nostd"],
    "thorough_configs": ["full", "std", "ils", "nostd", "sval", "serde", "svo", "seo"],
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space with structured values three constructors deep, read by serde and by sval, on the bag "
        "itself and 8 clone/borrow/own/share derivations, and through bags inside bags to two levels by each framework; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with structured values four constructors deep and three levels of bags in bags, large values of 1000 elements and 120 levels",
    },
    "assumptions": COMMON + ["the bridge from sval to serde has no form for a tag without a label"],
}

PROPERTIES["C11"] = {
    "configs": ["full", "std", "nostd", "svo", "seo", "err"],
    "thorough_configs": ["full", "std", "ils", "nostd", "svo", "seo", "err"],
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space against 6 owned and shared derivations on every observer, again after the source is "
        "destroyed and its memory reused; a source that changes, through 16 ways into a bag with short and long text, and every history of at "
        "most 4 changes, buffers, clones and drops over at most 3 handles; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with structured values one constructor deeper and histories of at most 6 steps, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + ["the Debug form of a buffered error and the notation of text serde collects by formatting aren't specified"],
}

PROPERTIES["C12"] = {
    "configs": ["full", "std", "ils", "nostd", "svo", "seo", "err"],
    "profile": "fast",
    "bounds": {
        "quick": "texts of every byte length 0..=700; a wide character at every position and every split in two writes up to 140 bytes, every "
        "split in three up to 72, every sequence of at most 4 writes of 14 sizes around the inline capacities; through Display, Debug, sval "
        "text, serde text, errors, their causes, sequences and plain strings, to owned and shared bags",
        "thorough": "lengths to 3000, positions and two-way splits to 300, three-way to 140, sequences of at most 5 writes of 18 sizes",
    },
    "assumptions": COMMON,
}

PROPERTIES["C13"] = {
    "configs": ["full", "std", "nostd", "svo", "seo", "err"],
    "thorough_configs": ["full", "std", "ils", "nostd", "svo", "seo", "err"],
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space after every history of at most 2 of 7 clone, borrow, own and share steps; one recipe of each "
        "kind after every history of at most 4 steps; every history of at most 4 clones, buffers and drops over at most 3 live handles, "
        "each of them observed afterwards; every pair of 5 steps alternating 300 times for one recipe of each kind; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with 3, 5 and 5 steps, large values of 1000 elements and 150 levels, 5000 steps",
    },
    "assumptions": COMMON + ["errors that are shared can't be borrowed for longer than the handle"],
}

PROPERTIES["C14"] = {
    "configs": ["full", "std", "nostd", "svo", "seo", "err"],
    "thorough_configs": ["full", "std", "ils", "nostd", "svo", "seo", "err"],
    "profile": "fast",
    "bounds": {
        "quick": "6 kinds of shared capture under every history of at most 5, and 50 buffered values under every history of at most 4, of 9 "
        "clone, own, share, refill, list, borrow, observe and drop operations over at most 3 live handles; counts of evaluations, clones and drops and "
        "the address of the value after every step",
        "thorough": "as quick with 6 and 5 steps",
    },
    "assumptions": COMMON,
}

PROPERTIES["C15"] = {
    "configs": ["full", "std", "sval", "serde", "svo", "seo", "nostd"],
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space; typed slices of every primitive; all sequences of at most 2 of 26 structured elements and "
        "of about 22 bags, through every way a sequence gets into a bag, 9 derivations and all 12 extractors; a nested element at every "
        "position of sequences of at most 20; whose memory texts in all sequences of at most 3 elements are in; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with sequences of at most 3 structured elements and positions up to 70, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON
    + [
        "values that frameworks wrap in names or variants, and binary, may or may not count as sequences",
        "without an allocator computed text through sval isn't seen as text",
    ],
}

PROPERTIES["C16"] = {
    "configs": ["full", "std", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every recipe of the common space on the bag itself, 8 derivations and 6 bag-in-bag nestings, written to 10 consumers "
        "(plain, pretty, padded and nested formatting, I/O, sval by value and by reference, serde for people and for machines) that fail at "
        "every one of their calls in turn, and to visitors that fail; the same for the owned handles themselves, and for values that fail "
        "or refuse themselves at a later point; "
        "large values of 40 elements, fields, fragments or characters, and of 20 levels",
        "thorough": "as quick with structured values one constructor deeper, large values of 140 elements and 70 levels",
    },
    "assumptions": COMMON
    + [
        "serde_fmt notes an error in the output instead of returning it",
        "the bridge between the frameworks makes up its own error messages",
    ],
}

PROPERTIES["C17"] = {
    "configs": ["full", "std", "sval", "serde", "svo", "seo"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "6 texts that fail to format through every way in, failing errors, fills that refuse in 4 ways alone, nested, in bags in bags "
        "and at every position of a sequence, every structured value two constructors deep failing at every one of its steps through every "
        "framework route, failing elements of sequences; on 9 clone/borrow/own/share derivations and 6 bag-in-bag nestings with theirs; every "
        "history of at most 3 of 7 steps; error chains of at most 4 with a failing message at every position",
        "thorough": "as quick with structured values three constructors deep, histories of 4 steps and chains of 6",
    },
    "assumptions": COMMON
    + [
        "serde_fmt notes an error in the output instead of returning it",
        "whether failures after a value is complete count isn't specified; the bridge from sval to serde ignores them",
        "text buffered in place of text that failed to format is text to a framework",
    ],
}

PROPERTIES["C18"] = {
    "configs": ["full", "std", "ils", "err"],
    "profile": "fast",
    "bounds": {
        "quick": "every chain of at most 4 errors over 5 messages of different lengths, chains of every length up to 150 and of 1000, of one "
        "type, alternating types, boxed and reference counted causes, through 8 ways in, the conversions of error objects, 9 clone/borrow/own/share derivations, bags in bags "
        "and histories of 3 steps: messages, length, order, downcasting and identity as far as they're kept",
        "thorough": "as quick with chains of at most 6, every length to 400 and histories of 4 steps",
    },
    "assumptions": COMMON + ["the accessor for the error looks at the bag itself, not at fills and shared errors"],
}

PROPERTIES["C19"] = {
    "configs": ["full", "std", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "profile": "fast",
    "thorough_wall": 5400,
    "bounds": {
        "quick": "13 operations on 16 values (shared data, shared owned bags and fills), each of which gives up its thread wherever it runs "
        "code of the value, the fill or the consumer: all pairs on two threads under every schedule of at most 3 preemptions, 4 triples per "
        "value on three threads of at most 2; 5 scripts of cloning, reading and dropping handles on two threads under every schedule and "
        "on three of at most 1 preemption, with the drop of the value observed; all pairs of operations within each other's callbacks, "
        "a fifth by a seventh of all triples, and each operation (alone and with the others) 3 to 260 levels deep; each operation (alone and "
        "with the others) on 4 to 140 threads, all of them inside of it at once",
        "thorough": "8, 4 and 3 preemptions, a third of all triples of nested operations, 600 levels and 300 threads",
    },
    "assumptions": COMMON
    + ["threads give up control where code outside of the crate is called, so races within the crate's own code between two such points aren't seen"],
}

PROPERTIES["C20"] = {
    "configs": ["full", "std", "ils", "nostd", "sval", "serde", "svo", "seo", "min", "err"],
    "profile": "fast",
    "compare": True,
    "bounds": {
        "quick": "every observation that isn't about borrows of every recipe of the common space and of texts of 0 to 59 characters of 1, 2 "
        "and 4 bytes in 6 forms, on 9 clone/borrow/own/share derivations and 6 bag-in-bag nestings, and after every history of at most 3 steps of "
        "50 recipes, compared between all pairs of configurations that have it; "
        "large values of 300 elements, fields, fragments or characters, and of 40 levels",
        "thorough": "as quick with structured values one constructor deeper and histories of 4 steps, large values of 1000 elements and 100 levels",
    },
    "assumptions": COMMON
    + [
        "shared captures recognise 128-bit integers only with inline-i128",
        "without an allocator text computed through sval can't be kept, and isn't compared where it would have to be",
    ],
}

PROPERTIES["C21"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "min"],
    "thorough_configs": ALL,
    "profile": "fast",
    "bounds": {
        "quick": "every ordered pair of about 55 observations, cut short ones included, in one run on every recipe of the common space; "
        "every ordered triple on a third of 60 recipes; every pair on two handles of the same value out of 7, and on two different bags; "
        "values that panic while they're observed; two values one after the other in the same memory, in 5 forms",
        "thorough": "as quick with triples on all 60 recipes",
    },
    "assumptions": COMMON,
}

PROPERTIES["C23"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "err", "min"],
    "thorough_configs": ALL,
    "bounds": {
        "quick": "every recipe of the common space with trees of depth 2 that has other conversions, through all of them; 5 numbers of each "
        "narrow type through 7 conversions; arrays, slices and vectors (and optionals of them) of 17 element types and lengths 0 to 3 and 33; "
        "the absent optional of 25 types; compared with the constructor on every observer, as they are, owned and shared; 19 conversions out "
        "of every recipe, owned and shared, compared with the cast; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with trees of depth 3, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON,
}

PROPERTIES["C24"] = {
    "configs": ["full", "std", "ils"],
    "thorough_configs": ["full", "std", "ils"],
    "bounds": {
        "quick": "every recipe of the common space, trees of depth 3 through both frameworks, every 2^k+d (k<128, |d|<=1) as integer of each "
        "kind, float and char, and text of every length below 140; through 9 derivations, 6 bag-in-bag nestings and every other conversion; "
        "large values of 300 elements, fields, fragments or characters, and of 70 levels",
        "thorough": "as quick with trees of depth 4, and of depth 2 through every way in, large values of 1000 elements and 150 levels",
    },
    "assumptions": COMMON + ["the helper only exists with the feature for testing", "it may panic for values that fail"],
}

PROPERTIES["C25"] = {
    "configs": ["full", "std", "nostd", "serde", "err", "min"],
    "thorough_configs": ALL,
    "bounds": {
        "quick": "errors made in 10 ways with 7 messages, displayed with every combination of formatting flags, as errors of other interfaces, "
        "after a change of thread, and within a bag; each of the 10 returned by visitors of 4 forms from every recipe of the common space with "
        "trees of depth 2, its derivations and nestings; and by values filled on demand",
        "thorough": "as quick with trees of depth 3",
    },
    "assumptions": COMMON + ["what an error looks like for debugging isn't specified"],
}

PROPERTIES["C26"] = {
    "configs": ["full", "std", "nostd", "sval", "serde", "svo", "seo"],
    "thorough_configs": ["full", "std", "ils", "nostd", "sval", "serde", "svo", "seo"],
    "profile": "fast",
    "bounds": {
        "quick": "every unstructured recipe of the common space, every 2^k+d (k<128, |d|<=1) and its complement as integer of each kind, float, "
        "char and text, formatted values, texts, error messages and sequences of every length below 140, all sequences of two elements, and "
        "large values of 300 elements and 70 levels; through every other conversion, 9 clone/borrow/own/share derivations and the owned "
        "handles themselves, into serializers for people and for machines and into streams by value and by reference",
        "thorough": "as quick with lengths below 1000, sequences of three, and large values of 2000 elements and 150 levels",
    },
    "assumptions": COMMON + ["lengths of sequences may or may not be given upfront", "integers get wider when they're buffered"],
}

PROPERTIES["C22"] = {
    "configs": ["full", "ils", "std", "nostd", "err", "min"],
    "thorough_configs": ALL,
    "shards": {"full": 8, "err": 2},
    "wall": 380,
    "thorough_wall": 9000,
    "bounds": {
        "quick": "interpreted: text of every length within 2 of 0, 22, 46 and 64 bytes and every 8th up to 70, of characters of each width, whole "
        "and cut in two; every primitive, its lookalikes and slices through every way in, downcast to 63 types; values that fail or panic, "
        "at 6 lengths; every history of 3 clone, own, share and drop steps on every kind of storage; every pair of 9 uses of one value by "
        "two threads; every recipe of a small space read in 13 ways, borrowed, owned and outliving its source. Natively, for what is left "
        "allocated: the same with every length up to 140, every cut, histories of 4 steps and trees of depth 2",
        "thorough": "interpreted with the bounds that are otherwise native",
    },
    "assumptions": COMMON
    + [
        "the interpreter (Miri) decides which accesses are valid; the aliasing rules it can also apply aren't judged, as they aren't settled",
        "a race is found from what orders the accesses of the one schedule each execution takes",
    ],
}
