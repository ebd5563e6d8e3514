"""Per-property configuration of the checks."""

PUMP = "Pumped families repeat a part k times for every k up to about 280 and around powers of two, to reach every buffer and counter size."

PROPS = {
    "C01": {"optional": {"YS_NO_LIST": "decoding through the bidirectional iterators of a std::list"},
            "what": "Plain, checked and view decoders at every cursor position of every string, in both directions, through string, string_view and bidirectional iterators, against a byte-level UTF-8 segmentation."},
    "C02": {"what": "from_utf32, append, to_utf32 and is_valid_utf8 against the reference encoder and segmentation."},
    "C03": {"optional": {"YS_NO_LIST": "skipping through the bidirectional iterators of a std::list",
                         "YS_NO_FORWARD": "skip_next with the forward iterators of a std::forward_list"},
            "what": "Skipping forwards and backwards from every boundary, counting and removing, against the reference segmentation."},
    "C04": {"what": "Both overloads of replace_invalid_utf8 against the reference segmentation."},
    "C05": {"what": "Every character function at every code point boundary and position against the reference partition; every code point in every role."},
    "C06": {"what": "All index pairs on every string against slices of the list of code points or characters."},
    "C07": {"what": "Breadth-first search of the strings reachable by edits, and all edit chains, against the same edits on lists."},
    "C08": {"what": "All texts, patterns and offsets against a naive search."},
    "C09": {"what": "All texts, character lists, sets, predicates and offsets against a linear scan."},
    "C10": {"what": "All strings and offsets against a scan for the eight line ends."},
    "C11": {"what": "All strings and sets against a scan from the ends; results compared by address."},
    "C12": {"what": "All texts, patterns, replacements and limits against a naive list of occurrences."},
    "C13": {"optional": {"YS_NO_LIST": "join of a std::list", "YS_NO_FORWARD": "join of a std::forward_list",
                         "YS_NO_SINGLE_PASS": "join with input iterators"},
            "what": "All texts, separators, limits and flags against a naive splitter, results compared by address; join; rebuilding the text."},
    "C14": {"what": "Token iterators driven through every call sequence up to the bound (next and observers), against a model of the iterator; the model's every transition is a call of the real iterator."},
    "C15": {"what": "Case mappings of every value, and strings, against UnicodeData 16.0.0."},
    "C16": {"what": "compare, equal and less for all pairs against lexicographic comparison of upper-cased code points; order axioms on all triples of representatives."},
    "C17": {"what": "All texts and patterns over alphabets chosen for their case mappings, every offset and limit, against naive search of upper-cased code points."},
    "C18": {"what": "All histories of additions up to the bound against a reference set, queried after each step."},
    "C19": {"what": "Class and predicates of every value against UnicodeData 16.0.0."},
    "C20": {"what": "decompose of every value and to_decomposed of strings against recursive expansion of UnicodeData 16.0.0."},
    "C21": {"what": "to_composed against left-to-right merging of the pairs of UnicodeData 16.0.0."},
    "C22": {"what": "escape_json, its queries and unescape as its inverse against a byte-wise model."},
    "C23": {"what": "unescape (both overloads), has_escaped_chars and find_first_escaped_char against a model of the escape grammar."},
    "C24": {"what": "unescape_next driven call by call to the end of every string (past errors), against a model of the remaining text."},
    "C25": {"what": "Every public function on every string, compiled with AddressSanitizer, UndefinedBehaviorSanitizer and library assertions; arguments in heap blocks of exactly their size; results must lie inside the argument.",
            "mode": "asan",
            "assumptions": ["Built with -fsanitize=address,undefined; reads of uninitialized memory are not detected, except where they change a result."]},
    "C29": {"what": "Every public function on every string of the families, under a memory checker that follows which bits were ever written: the first branch or address that depends on an unwritten bit ends the run. Every byte of every result is used in a branch.",
            "mode": "memcheck",
            "assumptions": ["Built with -O0, so that the compiler does not choose a value for an unwritten variable.", "valgrind's memcheck is trusted to follow definedness."]},
    "C30": {"what": "Fault injection: for every call of the families, its n-th allocation fails, for every n until the call makes no n-th one (beyond 200 allocations, the last ones). The result, the live memory before and after, the arguments, and the same call made again afterwards are examined.",
            "mode": "alloc",
            "assumptions": ["operator new and the library's own calls of malloc, calloc and realloc are the allocations; those libstdc++ makes to throw an exception do not fail.", "Memory that only the first of several identical calls keeps is taken for a cache, not for a leak."]},
    "C31": {"what": "Every call of the families in the C locale, in six others (single-byte, double-byte and UTF-8; with Turkish case rules, grouped digits, decimal commas) and with C++ facets that call bytes from 80 on letters, digits and spaces: the results and the locale itself must not change. The other locales are made by localedef from the system's sources.",
            "prepare": lambda m, pid, out, tier: m.build_locales(pid, out)},
    "C32": {"what": "Every call of the families with its arguments in blocks of exactly their size, and then inside longer buffers at every alignment, between bytes that would continue, start or end a code point, a character, an escape or a line; lists of code points inside longer lists; second arguments that share the storage of the first. The results must be the same."},
    "C33": {"what": "Strings of more than 2^31 and 2^32 bytes, made by mapping one small file again and again between two pages of their own and in front of an unreadable page; results known from the construction.",
            "assumptions": ["Not every input of this size is explored, but every function once for each direction and kind of position, with what is to be found at the far end."]},
    "C34": {"what": "The library and the same calls built in 18 configurations (g++ and clang++, -O0, -O2, -O3, signed and unsigned char, all combinations; debug containers, patterns in unset variables, whole-program optimization and others) and loaded into one process; every result must be that of the first configuration.",
            "prepare": lambda m, pid, out, tier: m.build_configs(pid, out, tier)},
    "C35": {"what": "The library is built to count basic blocks, copied, compared, searched and allocated bytes. Every function on arguments that double three times: the increase of the cost may double each time, not quadruple.",
            "mode": "cost",
            "assumptions": ["The cost of throwing an exception is not counted.", "With two arguments that both grow, only functions that compare or splice are judged; searching may take the product of the two lengths."]},
    "C36": {"what": "Recording predicates and finders that throw at every possible call, against a model of the scan; observers of the iterator after each exception; library calls inside the callbacks."},
    "C37": {"what": "Ranges of all pairs of boundary values against their definition; histories of two sets against two lists; printed sets read back."},
    "C38": {"what": "Every call of the families while the kernel hands its system calls to the harness (syscall user dispatch), with the C library's functions for environment, clock and random numbers replaced by ones that take note, buffered output flushed inside the call, arguments in memory that cannot be written, and the settings of the process compared before and after.",
            "assumptions": ["System calls for memory and locks (brk, anonymous mmap, munmap, mremap, madvise, futex) are allowed."]},
    "C39": {"what": "Every function that interprets code points, against a model that reads as far as the answer needs and fails at the first malformed stretch; functions on bytes must not fail at all. Where looking further than needed is natural (behind a \\r, at the end of a match), the model takes a choice, and the result must be among those of all its choices."},
    "C40": {"what": "The digests of the results of all calls of an item in main against those in each other state of the program. For the beginning and the end of the program the harness runs itself again and makes the calls from the first constructor or the last destructor; the results come back through a memory file.",
            "assumptions": ["Two results with the same 64-bit digest are taken for equal."]},
    "C26": {"what": "The library and the calls are one shared object; its writable memory is the global state. Histories of calls in fresh processes; results compared with those of the first call of a fresh process. If no call changes the global state, the state graph has one state and histories of any length are covered.",
            "prepare": lambda m, pid, out, tier: m.build_so(pid, out),
            "assumptions": ["State kept outside the shared object (in the heap, reachable from no static pointer, or in the C library) would only be seen through the results of the enumerated histories."]},
    "C27": {"what": "Two threads under a controlled scheduler; every access compiled in is watched for data races, every synchronization operation is a scheduling point. states: schedules run plus scheduling points passed; transitions: schedules.",
            "prepare": lambda m, pid, out, tier: m.build_sched(pid, out),
            "assumptions": ["Sequentially consistent interleavings of synchronization operations; every data race is reported, so code without one has no other behaviours.",
                            "Accesses inside libstdc++.so and libc are not watched, except for the C functions with hidden state that the scheduler wraps.",
                            "The library is compiled by clang (g++ if that fails) with -fsanitize=thread; the run-time functions are the scheduler's own. Its self-test (7 faulty and 7 correct programs) runs first."]},
    "C28": {"what": "The generator of the working tree is run in every configuration; every different output replaces the tables of a copy of the library, which is built and swept.",
            "prepare": lambda m, pid, out, tier: m.build_regenerated(pid, out, tier),
            "assumptions": ["The reference here is the data file in the working tree itself."]},
}
for _k, _p in PROPS.items():
    if _k not in ("C19", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C37", "C38", "C40", "C26", "C27", "C28"):
        _p["what"] += " " + PUMP
