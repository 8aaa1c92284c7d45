TECHNIQUE.update({
    "C01": "runtime monitoring: generated diffs of the real code, each spelled back into its two inputs by an independent reader",
    "C02": "runtime monitoring: patches made, copied to plain data and applied by the real code and by an independent applier; content accounted against the diff",
    "C03": "runtime monitoring: every diff replayed top-down against an independent longest-common-block computation",
    "C04": "runtime monitoring: every answer compared with an independent window search",
    "C05": "runtime monitoring: every answer compared with an independent window intersection",
    "C06": "runtime monitoring: every answer compared with a direct scan",
    "C07": "runtime monitoring: machine instructions (valgrind/callgrind with client requests) and peak allocation (tracemalloc) measured at doubled sizes; growth exponents judged",
    "C08": "runtime monitoring under stress: inputs deeper than the interpreter's (or a lowered) recursion limit, judged by the oracles of small inputs",
    "C09": "runtime monitoring: merges compared with the result the identity prescribes",
    "C10": "runtime monitoring: merges compared with a positional composition of the branches' own diffs",
    "C11": "runtime monitoring: token-by-token conservation accounting over merges of identifiable tokens, and differential runs with renamed tokens",
    "C12": "runtime monitoring: changes of the branches classified by position; conflict reports and the form of every merge judged",
    "C13": "runtime monitoring: metamorphic runs with the branches swapped",
    "C14": "runtime monitoring: one tokenizer object fed document sequences, compared with an independent model of its codes",
    "C15": "runtime monitoring: the line view flattened to marked characters and compared with the underlying diff",
    "C16": "runtime monitoring: tools run in-process on generated files; output files parsed back by independent parsers",
    "C17": "runtime monitoring: tools run in-process on a captured console; text and SGR state compared character by character with the diff",
    "C18": "runtime monitoring: histories on real stores, reads checked against a model after every step",
    "C19": "runtime monitoring: recording storage under real stores; stored sets, writes and information judged after every step",
    "C20": "runtime monitoring: all paths of the real trees judged after every step of a history",
    "C21": "runtime monitoring: differential runs of both trees on one history",
    "C22": "runtime monitoring: model-based runs with injected SQL faults; a second connection observes durability",
    "C23": "fault injection at every storage, tree, tokenizer and SQL operation of an addition, all earlier versions read back after it",
    "C24": "runtime monitoring: streams compared with an independent encoder/decoder of SQLite's varints; streams truncated at every byte",
    "C25": "runtime monitoring: commit histories on real stores, checkouts checked against a model",
    "C26": "runtime monitoring: sequences of calls (in order, interleaved, from several threads, on short-lived arguments) compared with each call alone in a fresh (forked, or new with another hash seed) process; arguments compared before and after",
    "C28": "runtime monitoring: metamorphic oracle; results of the real code for two spellings of one input, compared after the tokens have been translated back",
    "C29": "runtime monitoring: cost monitors; machine instructions counted by callgrind and allocated bytes by tracemalloc around calls of the real code at two sizes",
    "C27": "runtime monitoring: leak detection; memory blocks, collected objects and open descriptors counted after rounds of calls on ever new arguments",
})
_B = "Held on every execution of the run; the evidence counts them and what the oracle saw. "
NOTES.update({
    "C01": _B + "Exhaustive for pairs of short words over small alphabets, sampled beyond.",
    "C03": _B + "The oracle is a quadratic-space-free longest common block, inputs to some hundreds of tokens.",
    "C07": _B + "Input families and sizes are a fixed list; growth is judged between two sizes, not proved.",
    "C08": _B + "Prefix-deep inputs run with a lowered recursion limit, because their size is quadratic in their depth.",
    "C16": "Held on every run of the tools; texts that contain the markup itself are left out (their files are ambiguous by design).",
    "C17": "Held on every run of the tools; texts with the ESC character are left out with color (the capture is ambiguous).",
    "C23": "Every fault point of every generated addition is enumerated, one fault per run, at the storage, tree, tokenizer and SQL layers; storage that keeps failing while the addition is undone is outside.",
    "C28": _B + "White space is kept by the replacements of characters in line views, as these treat it specially.",
    "C29": "Families of texts and the two sizes are a fixed list; growth between them is judged by its exponent. Texts that differ in many places at even distances, or have nothing but chance matches in common, take quadratic work by design and are outside.",
    "C27": "Growth is judged over at least 5 and up to 16 rounds of 40 to 150 calls; a cache that holds more than some 2000 entries would count as a leak.",
})
