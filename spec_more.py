claim("C07", "Every byte value is an ordinary symbol, except the documented special ones",
      "The tools treat their input as bytes: 0xff, bytes above 0x7f, line breaks, blanks and invalid UTF-8 are symbols like any other. No byte "
      "value other than the documented special values (0 as the terminator that text tools refuse, the digit 0 for rle -z) is dropped, "
      "replaced, merged, decoded as text, or treated differently.",
      ["inputs"], "every tool that reads an input, every byte value at every position",
      "The tests use short ASCII words; 256 values at every position and invalid UTF-8 are not sampled.",
      [CORE, IO] + B("mtf", "rle", "escape", "count_sigma", "entropy", "entropy_kmer", "is_stringattractor", "bwt"),
      [("alphabet tables", "src/bin/mtf.rs mtf_transform, count_sigma.rs, entropy.rs"), ("byte streams", "src/bin/escape.rs main")],
      "type-directed dataflow of input bytes into comparisons, arithmetic, tables and calls",
      NOTE + "Decides how bytes are used, not that the computed transform is right.")

claim("C08", "Counts, lengths and positions do not overflow on long inputs or long runs",
      "No count, length or position wraps around, saturates or is cut down because the input is long or repetitive: a run of more than 255 (or "
      "65535, or 2^32) equal bytes, an alphabet of all 256 byte values, and inputs of several gigabytes are counted correctly, where the "
      "algorithm itself does not limit the length.",
      ["inputs"], "every tool that reads an input, every length and every run length",
      "No test has an input longer than a few kilobytes or a run longer than 255; overflow needs sizes tests cannot afford.",
      [CORE] + B("rle", "count_sigma", "entropy", "entropy_kmer", "mtf", "count_runs", "count_r"),
      [("run counters", "src/bin/rle.rs, src/core.rs number_of_runs"), ("symbol counters", "src/bin/entropy.rs, entropy_kmer.rs, count_sigma.rs")],
      "interval/type analysis of additions and narrowing conversions with dominating bounds",
      NOTE + "The suffix sorter's i32 positions bound the text on the paths through it; 64-bit counters are taken as unbounded.")

claim("C09", "The documented command lines are accepted with the documented meaning",
      "Each tool declares the documented options with their short and long names, whether they take a value, their defaults and list separators; "
      "no two options clash (clap panics at start if they do); and every command line in README.md, compute_stats.sh and gen_artificial.sh names an "
      "existing tool and options and word names it accepts.",
      ["configurations"], "every tool, every declared and documented option",
      "The tests do not start any tool; a clash of option names is found by clap only when that tool starts in a debug build.",
      ["README.md", "compute_stats.sh", "gen_artificial.sh"] + B("rle", "escape", "word", "entropy", "lyndonwords", "randomstring", "enumerate"),
      [("argument declarations", "struct Args in each src/bin/*.rs"), ("documented uses", "README.md, compute_stats.sh, gen_artificial.sh")],
      "constant propagation over the clap builder calls in MIR, matched against the documented invocations",
      NOTE + "Trusts clap's documented semantics of the builder calls.")

claim("C10", "A measuring tool prints one well-formed RESULT line with the documented keys",
      "count_sigma, count_r, count_z, count_lexparse, entropy, entropy_kmer, mus and lyndonfactorization end successfully only after printing exactly one line that starts with RESULT and "
      "consists of blank-separated key=value pairs with the documented, distinct keys, and print nothing else on standard output; length is the "
      "length of the text that was read, time_ms is an elapsed time in milliseconds, the measured values depend on the text, and options and "
      "file names are reported as given.",
      ["inputs", "configurations"], "every measuring tool, every path to a successful ending",
      "The tests never look at what a tool prints; compute_stats.sh parses these lines with sed and silently yields empty fields.",
      B("count_sigma", "count_r", "count_z", "count_lexparse", "entropy", "entropy_kmer", "mus", "lyndonfactorization") + ["compute_stats.sh"],
      [("RESULT lines", "println! in main of each tool"), ("consumer", "compute_stats.sh sed expressions")],
      "path-sensitive counting of print events and provenance dataflow of every printed value",
      NOTE + "Which number is right is not decided; where it comes from is.")

claim("C11", "Logging starts once, before it is used, goes to standard error, obeys RUST_LOG",
      "Every tool that logs initialises the logger exactly once and before the first log event or level test, the logger is configured from "
      "RUST_LOG alone and writes to standard error, so log lines never mix with data on standard output and no message is lost.",
      ["configurations", "inputs"], "every tool, every feasible path",
      "The tests never run a tool's main; a lost message or a second init shows only at run time with RUST_LOG set.",
      B("bwt", "count_r", "count_z", "count_lexparse", "entropy", "mus", "reverse", "mtf", "rle", "escape", "word", "lyndonwords"),
      [("initialisation", "env_logger::init() at the start of each main")],
      "typestate of the logger over all feasible MIR paths",
      NOTE)

claim("C12", "Output depends only on input and options: no randomness, clock or hash order",
      "Every tool except randomstring writes the same bytes whenever it is run on the same input with the same options, apart from the time_ms "
      "value and log messages: nothing depends on a random source, the clock, process identity, environment variables other than RUST_LOG, pointer values or the "
      "iteration order of a hash table (not even the last digits of a floating-point sum).",
      ["schedules", "inputs"], "every tool, every run",
      "A hash table's order differs between processes, not within one; a test compares within one process and with rounding.",
      [CORE, WORD] + B("entropy_kmer", "escape", "randomstring", "count_sigma", "mus"),
      [("hash tables", "src/core.rs, src/bin/escape.rs, entropy_kmer.rs"), ("clock", "Instant::now() in the measuring tools")],
      "effect analysis and taint dataflow over everything reachable from each main",
      NOTE)

claim("C14", "Analyses see exactly the input plus, where documented, one terminator",
      "The text a tool analyses or transforms is exactly the bytes it read, in order, with exactly one 0 byte appended in the tools that work on "
      "a terminated text (bwt and count_r unless --no-dollar, entropy, mus, is_stringattractor) and nothing appended in the others; reverse "
      "writes all bytes in reverse order. No byte is dropped, trimmed, duplicated or read from a partial slice.",
      ["inputs", "configurations"], "every tool that loads its input, every text, both settings of --no-dollar",
      "The tests call the algorithms with texts they terminate themselves; what a tool's main does to the text is never tested.",
      B("bwt", "count_r", "entropy", "entropy_kmer", "mus", "is_stringattractor", "reverse", "count_z", "count_lexparse", "lyndonfactorization", "count_sigma"),
      [("terminator", "text.push(0) in main of each tool"), ("terminated variants", CORE + " bwt_from_text, entropy")],
      "dataflow from the read to every use of the text, tracking the operations applied on the way",
      NOTE)

claim("C17", "word writes exactly the word its options name",
      "For every documented word name the tool calls the generator of that name with the option -k unchanged and writes exactly its result, "
      "nothing added, nothing dropped, for every name accepted on the command line.",
      ["configurations"], "every word name, every k",
      "The tests call the generators, never the tool's dispatch; a swapped pair of generators goes unnoticed.",
      [WORD] + B("word"),
      [("dispatch", "src/bin/word.rs main"), ("names", "enum WordName in src/bin/word.rs")],
      "constant-specialised call-graph and dataflow analysis, once per word name",
      NOTE)

claim("C15", "A text containing the zero byte never reaches suffix sorting unnoticed",
      "bwt, count_r and entropy stop with a failure status, before any suffix sorting and in every build profile, when the text contains the byte 0 "
      "anywhere else than as its terminator; the whole text is checked, wherever the zero byte is. They never report a result for such a text.",
      ["inputs", "configurations"], "every text with a zero byte at any position, both settings of --no-dollar and every order of the entropy",
      "The tests sort texts without zero bytes; a check that is off by one or active in debug builds only passes all of them.",
      [CORE] + B("bwt", "count_r", "entropy"),
      [("check", "text[..text.len()-1] ... assert_eq / unwrap in main of the tools"), ("sorter", CORE + " bwt_from_text_by_sa, entropy.rs kth_order_entropy")],
      "dominator and dataflow analysis of the guards of every suffix-sort call over MIR",
      NOTE + "A guard is a branch with a side that cannot end normally whose condition compares bytes of the text with 0; which side it takes is not decided.")

claim("C16", "Arguments outside the documented domain are refused, those inside are accepted",
      "Out-of-range arguments end with a failure status instead of a result: entropy_kmer accepts orders 1..7 only, lyndonwords alphabet sizes 1..159, "
      "enumerate alphabet sizes 1..26 with 1 <= minimum length <= maximum length; escape refuses mappings that unescaping cannot revert (lists of different "
      "length, escape symbol among --from or --to, a symbol in both, repeated --to symbols). Arguments in range are accepted. is_stringattractor refuses "
      "positions beyond the text.",
      ["inputs", "configurations"], "every value of the named arguments",
      "The tests never run a tool with arguments; release builds skip debug assertions and wrap around silently.",
      [CORE, WORD] + B("entropy_kmer", "lyndonwords", "enumerate", "escape", "is_stringattractor"),
      [("argument checks", "assert!s at the start of main of each tool")],
      "conditional constant propagation per boundary argument value",
      NOTE + "Ranges are checked at their boundaries and at values that wrap to accepted ones (2^8+1, 2^32+1, 2^64-1), not at every value.")

claim("C27", "Option values never wrap around into a different, silently accepted request",
      "A numeric option value that the program cannot honour (because a shift, sum, product or narrowing conversion on it would overflow) ends in an error in "
      "every build profile; it never wraps around so that the tool quietly answers another request, such as `word -k 65` writing the word for k = 1.",
      ["inputs", "configurations"], "every numeric option, every value of its type, debug and release builds",
      "Overflow checks are off in release builds, and the tests use small parameters in a debug build.",
      [WORD] + B("word", "lyndonwords", "count_sigma", "entropy_kmer", "randomstring", "escape"),
      [("word lengths", WORD + " power_of_two, fibonacci_word, binary_debruijn_word"), ("option types", "src/bin/word.rs Args")],
      "interval analysis (abstract interpretation) of option-value arithmetic on release MIR",
      NOTE + "Covers arithmetic directly on option values and constants; values that also depend on the text, or accumulate over loops, are not covered.")

claim("C13", "The unsafe code never reads or writes outside initialised memory",
      "No input, option or call of the library makes the crate's own unsafe code touch memory outside an allocation or read memory that was not "
      "initialised: every unsafe operation written in the workspace has its condition established by the code before it.",
      ["inputs"], "every unsafe operation in the library and the tools, every execution that reaches it",
      "An out-of-bounds length shows only for the k that exceeds the estimate, and undefined behaviour may pass any test.",
      [WORD, CORE],
      [("shrinking by set_len", WORD + " kolakoski_word")],
      "inductive bound proof by dataflow on MIR for every unsafe operation of the type-checked program",
      NOTE + "The C code behind cdivsufsort and the unsafe code inside dependencies are trusted. Proofs are inductive: bounds-checked accesses that dominate.")

claim("C24", "Library functions depend on their arguments alone and have no side effects",
      "The functions of the core and word modules compute their result from their arguments alone: they print nothing (log messages apart), open "
      "no file, read no environment variable or clock, never end the process, keep no state between calls, and use no randomness "
      "(RandomStringGenerator excepted). Only the io module touches files and the standard streams.",
      ["inputs", "histories"], "every public function of core and word, every sequence of calls",
      "The tests compare results only; an effect, or a dependence on an earlier call, shows up in none of them.",
      [CORE, WORD],
      [("core functions", CORE), ("word functions", WORD)],
      "transitive effect analysis over the call graph; freeze analysis of statics",
      NOTE + "Panics on documented preconditions are allowed; a value computed once from nothing (OnceLock) is allowed.")

claim("C25", "No input can exhaust the stack",
      "The depth of the call stack is bounded by a constant for every input: nothing is computed by recursion over the text or its length, no data "
      "structure is dropped recursively, and no function keeps a huge array on the stack.",
      ["inputs"], "every function of the library and the tools, every input length",
      "The tests use words of a few hundred characters; a recursion over the text overflows only on long inputs.",
      [CORE, WORD] + B("is_stringattractor", "count_z", "enumerate_lexparse"),
      [("suffix tree traversal", "src/bin/is_stringattractor.rs")],
      "cycle detection in the interprocedural call graph and in the ownership graph of the types",
      NOTE + "Foreign code (sorts, the suffix sorter) is taken to use bounded stack. Recursions on a decreasing 8-bit or halved number are bounded and allowed.")

claim("C30", "The verdict, the exit status and the reports of is_stringattractor agree",
      "When is_stringattractor has checked a text, it prints 'valid attractor' and ends with status 0 exactly if it reported no uncovered substring; if it "
      "reported at least one ('substring ... not covered!' on standard output, before the verdict), it prints 'not a valid attractor' and ends with status 2. "
      "It prints one verdict, never both, and never ends successfully without one.",
      ["inputs"], "every text, every set of positions, every number and order of uncovered substrings",
      "The tests call the deciding function on valid attractors only; which substring is met last, and how many are uncovered, decides between the paths.",
      B("is_stringattractor"), [("verdict", "src/bin/is_stringattractor.rs main, is_attractor")],
      "path-sensitive typestate over all feasible paths (automaton: reported, verdict, status)",
      NOTE + "Whether a substring really is uncovered is N07. If the verdict depends on a value the facts domain does not follow (a collection), the check says so in the evidence and decides the exit status alone.")

claim("C26", "The end of the input is final: no tool reads on or waits after it",
      "Once a read has reported the end of the input, the tool never reads the input again: it finishes its output and ends. So it does not spin "
      "at the end of a file and does not wait for a terminal or pipe that has ended.",
      ["inputs", "schedules"], "every tool that reads, every read that can meet the end of the input",
      "The tests read from slices, which report their end again and again; a loop that ignores the end shows only on a stream.",
      [IO, CORE] + B("rle", "mtf", "escape", "count_runs"),
      [("read_char", IO + " read_char"), ("reading loops", "src/bin/rle.rs, mtf.rs, escape.rs, src/core.rs number_of_runs")],
      "path-sensitive forward dataflow from each read that returned 0 bytes",
      NOTE + "Bulk reads (read_to_end) end by themselves.")

claim("C29", "The streaming tools need constant memory",
      "count_runs, mtf, rle and escape process their input byte by byte in memory that does not depend on its length: they neither load the input "
      "as a whole nor collect anything per byte of it, so inputs larger than the memory and endless streams work.",
      ["inputs"], "the four streaming tools, every input length",
      "No test has an input large enough to notice the memory it takes.",
      [IO, CORE] + B("rle", "mtf", "escape", "count_runs"),
      [("stream_or_stdin", IO), ("reading loops", "src/bin/rle.rs, mtf.rs, escape.rs, src/core.rs number_of_runs")],
      "dataflow from growing calls to loop-carried containers in the loops that read",
      NOTE + "A container keyed by a byte, or shrunk in the same loop, is taken as bounded.")

claim("C18", "Once an iterator has returned None, every later call returns None",
      "The generators of the library (LyndonWordGenerator, BinaryStringGenerator, ConjugateIterator, RandomStringGenerator) stay exhausted: after "
      "next() has returned None once, it returns None on every further call, however often and whatever they were constructed with.",
      ["histories", "inputs"], "every iterator of the library, every construction, every history of calls",
      "A for loop never calls next() again after None; adaptors such as zip, chain, cycle or a manual loop do.",
      [CORE],
      [("next() methods", CORE + " LyndonWordGenerator, BinaryStringGenerator, ConjugateIterator, RandomStringGenerator")],
      "typestate analysis: conditional constant propagation of next() from the state it left with None",
      NOTE + "A next() that hands on the None of a standard range or slice iterator relies on that being fused.")

claim("C23", "Log level and build profile never change what a tool writes or how it ends",
      "RUST_LOG and the presence of debug assertions decide only about log messages and self-checks: the data a tool writes, the files it creates and "
      "the numbers it reports are the same at every log level, and on inputs for which no self-check fails also in debug and release builds.",
      ["configurations", "inputs"], "every tool, every branch on the log level or on cfg!, every function compiled differently by build profile",
      "The tests run in one build at one log level.",
      B("count_z", "lyndonfactorization", "count_lexparse", "is_stringattractor", "mus") + [CORE],
      [("debug-only code", "src/bin/lyndonfactorization.rs main, src/bin/is_stringattractor.rs, src/core.rs"),
       ("log-level code", "src/bin/count_z.rs main, src/bin/count_lexparse.rs main")],
      "information-flow analysis from the log level and cfg! to outputs; diff of assignments between both builds' MIR",
      NOTE + "Arithmetic overflow, which only debug builds detect, is not covered here (see C27).")

claim("C22", "LZ77 and lexparse factors tile the text, and -o lists exactly them as (pos,len)",
      "The factors that count_z and count_lexparse (and enumerate_lexparse) find cover the text from its first to its last byte without gap or overlap: each "
      "starts where the one before ends, a factor of length 0 stands for one byte and carries exactly the byte at its place as pos, and the search ends only "
      "when the whole text is covered. The number printed as factors= is the number of these factors, and with -o the file holds every one of them once, in "
      "order, as (pos,len) in decimal and nothing else.",
      ["inputs"], "every text, every round of the loop that finds the factors",
      "Which branch a round takes depends on the whole text; the tests decode small texts inside the process and never read the file that -o writes.",
      B("count_z", "count_lexparse", "enumerate_lexparse"),
      [("LZ77", "src/bin/count_z.rs compute_lz77"), ("lexparse", "src/bin/count_lexparse.rs compute_lexparse, src/bin/enumerate_lexparse.rs"),
       ("output", "src/bin/count_z.rs main, src/bin/count_lexparse.rs main")],
      "inductive path proof over the factor loop in MIR, typed search for changes of the list, path-wise output text",
      NOTE + "That the copied earlier occurrence really equals the text, and that no longer one exists, depends on the index arrays: see N02 and N03. "
      "Debug and release MIR.")

claim("C20", "Run-length codes decode to the input; count_runs prints its number of runs",
      "For every input, what rle writes decodes to exactly that input: as pairs (byte, length-1), with --onlyzero as bytes in which every '0' is "
      "followed by its run length minus 1, and with --human as a sequence of (character,length). Runs longer than a length byte can say are split. "
      "The number printed by count_runs is the number of maximal runs of equal bytes of the input, 0 for an empty one.",
      ["inputs"], "every input of rle (three formats) and count_runs, every run length, every byte value",
      "The tests never run rle; a run of exactly 255 or 256 bytes, a run at the very start or end, or one specific byte value is not sampled.",
      B("rle", "count_runs") + [CORE],
      [("encoders", "src/bin/rle.rs rle, rle_zero, rle_text"), ("run counter", CORE + " number_of_runs")],
      "inductive invariant over all MIR paths between two reads, discharged by affine and interval abstract domains",
      NOTE + "The control flow between reads is covered path by path; a rewrite that keeps its state in a shape not recognised (a buffer, a closure) is reported as not decided in the evidence, without a verdict.")

claim("C21", "Arrays derived from a suffix array follow it entry by entry",
      "Given the sorted order (the suffix array, or the sorted rotations), what is derived from it in one step follows its definition at every entry: the column "
      "computed by bwt_from_text_by_sa, bwt_by_matrix_naive and bwt_from_sa has n entries and its i-th entry is, for every rank i, the byte of the text cyclically before the start "
      "position of the i-th suffix (rotation), the terminator's position included; inverse_permutation gives inv[arr[i]] = i for every i; compute_phi gives "
      "phi[sa[i]] = sa[i-1] for every i > 0 and phi[sa[0]] = sa[n-1]; compute_lcp gives lcp[i] = plcp[sa[i]] for every i. "
      "No entry is skipped, shifted, doubled or overwritten.",
      ["inputs"], "every text and every suffix array, every entry",
      "The tests compare a few short words; an entry lost at a border, at a large index or for one byte value is not sampled.",
      [CORE] + B("bwt", "count_r"),
      [("last column", CORE + " bwt_from_text_by_sa, bwt_by_matrix_naive, bwt_from_sa (used by bwt and count_r)"),
       ("arrays", CORE + " inverse_permutation, compute_phi, compute_lcp")],
      "symbolic summary of array loops (affine index maps over iteration counters) compared with the definition",
      NOTE + "That the suffix array itself is sorted is N01. An array built in a shape the loop summaries do not follow is reported as not decided in the evidence.")

claim("C28", "lyndonfactorization -o writes every factor once, in order, under its heading",
      "The file written by lyndonfactorization -o holds the factors the tool found one after another: the slices of the text written tile it from its first byte "
      "to the end of the last factor without gap or overlap, each under a heading with its number (from 1, in order) and, from the second on, its start and end. "
      "No factor is left out, except that a last factor which is the single NUL byte at the end of the text may be.",
      ["inputs"], "every text, every number and length of factors",
      "No test looks at the file; a factor of length 1, the last factor, or a text of one factor takes another branch.",
      B("lyndonfactorization"), [("output", "src/bin/lyndonfactorization.rs main")],
      "symbolic summary of the writing loop (affine slice bounds per round) with path conditions for skipped rounds",
      NOTE + "That the factors are the Lyndon factors is N04. A loop in a shape not recognised is reported as not decided in the evidence.")

claim("C31", "mtf writes the move-to-front rank of every byte",
      "For every input, mtf writes exactly one byte per byte read, in order: the place, counted from 0, of the byte in a table of all 256 byte values that starts "
      "as 0,1,..,255 and in which, after each byte, that byte is moved to the front while the ones before it move back by one place and the others stay.",
      ["inputs"], "every input, every byte value, every state of the table",
      "The test encodes words of at most four letters 'a' and 'b'; ranks above 128, the byte 255, or a table disturbed far from its front are not sampled.",
      B("mtf"), [("mtf", "src/bin/mtf.rs mtf")],
      "inductive symbolic summary of one round of the table update (initial table, search, shift, front, output)",
      NOTE + "A table kept in a shape not recognised is reported as not decided in the evidence.")

claim("C32", "conjugates, binary strings and enumerate list exactly their words, in order",
      "ConjugateIterator returns, for a text of length n, the words text[i..] followed by text[..i] for i = 0,..,n-1, each once, and then None. "
      "BinaryStringGenerator of length n < 64 returns all 2^n strings of '0' and '1' in increasing order, each once, and then None. "
      "enumerate writes, for every length from min_len to max_len (min_len if it is not given) in this order, every word over the first alphabet_size "
      "letters from 'a' on, in lexicographic order, each as one line.",
      ["inputs"], "every text, every length below 64, every alphabet size, minimum and maximum length enumerate accepts",
      "No test runs any of the three; samples of small lengths cannot show a word that is missed only in a long list.",
      [CORE] + B("enumerate"), [("next()", CORE + " ConjugateIterator, BinaryStringGenerator"), ("enumerate", "src/bin/enumerate.rs enumerate_for_length")],
      "inductive symbolic summary: each way through next(), and through a round of enumerate, takes the i-th word to the next one",
      NOTE + "A way of writing that is not recognised is reported as not decided in the evidence.")

claim("C33", "reverse writes the input backwards, count_sigma counts its byte values",
      "For every input, reverse writes exactly the bytes read, from the last to the first. count_sigma reports as sigma the number of different byte values "
      "in the text: a byte adds one to the count exactly if the same value has not been seen before.",
      ["inputs"], "every input, every byte value",
      "The test of count_sigma uses four texts of at most three letters; reverse has no test. A text with many byte values, or a long one, is not sampled.",
      B("reverse", "count_sigma"), [("reverse", "src/bin/reverse.rs main"), ("count_sigma", "src/bin/count_sigma.rs count_sigma")],
      "order-of-bytes dataflow over the value graph; inductive symbolic summary of one round of the counting loop",
      NOTE + "A count or a reversal in a shape not recognised (a set, a sorted copy, a bit vector, exchanges) is reported as not decided in the evidence; exchanges are C14's.")

VAL = ("the result is a value computed by an algorithm over the whole text (%s); deciding it needs a functional-correctness proof, "
       "which no dataflow, effect or typestate abstraction in reach can supply")

na("N01", "The suffix sorting behind bwt, bbwt and the index tools is right",
   "The suffix arrays and sorted conjugates used list the suffixes (conjugates) in lexicographic order, so that the column bwt derives from them (C21) is the Burrows-Wheeler transform and inverts to the text.",
   ["inputs"], "every text", "The tests compare two implementations on short words.", B("bwt") + [CORE],
   [("sorting", CORE + " suffixarray_naive, bwt_by_matrix, bbwt_naive and calls of cdivsufsort")], VAL % "suffix sorting")
na("N02", "LZ77 factors decode to the text and are greedy",
   "Every factor of count_z -o with a length copies an earlier occurrence of that part of the text, and none can be extended (that they tile the text is C22).",
   ["inputs"], "every text", "Samples only.", B("count_z") + [CORE], [("factorization", "src/bin/count_z.rs main")], VAL % "longest previous factors")
na("N03", "lexparse factors decode to the text and are maximal",
   "Each factor of count_lexparse -o is the longest common prefix with the lexicographic predecessor (that they tile the text is C22).",
   ["inputs"], "every text", "Samples only.", B("count_lexparse") + [CORE], [("PLCP", CORE + " compute_phi, compute_plcp")], VAL % "PLCP array")
na("N04", "The Lyndon factorization is the unique non-increasing one into Lyndon words",
   "duval, duval_algo2 and isa_lyndon_factorization return the end positions of the factors of the unique factorization (that they are written out properly is C28).",
   ["inputs"], "every text", "Samples only.", [CORE] + B("lyndonfactorization"), [("duval", CORE + " duval, duval_algo2")], VAL % "Duval's algorithm")
na("N05", "Borders, periods, squares, primitivity and Lyndon tests are right",
   "Each predicate and array function of the core module agrees with its definition.",
   ["inputs"], "every text", "Samples only.", [CORE], [("border_array", CORE + " border_array, smallest_period, is_primitive, is_square, is_lyndonword, ...")], VAL % "border arrays")
na("N06", "mus lists exactly the minimal unique substrings",
   "The MUS reported are unique in the text and every proper substring of them is not.", ["inputs"], "every text", "Samples only.",
   B("mus") + [CORE], [("mus", "src/bin/mus.rs main")], VAL % "LCP minima")
na("N07", "is_stringattractor accepts exactly the string attractors",
   "The verdict agrees with the definition: every distinct substring has an occurrence that covers a marked position.", ["inputs"],
   "every text and position set", "Samples only.", B("is_stringattractor"), [("check", "src/bin/is_stringattractor.rs")], VAL % "suffix tree traversal")
na("N08", "The word families have the letters and lengths of their definitions",
   "Fibonacci, Thue-Morse, Kolakoski, de Bruijn, power-2 and the other families follow their recurrences for every k.", ["inputs"], "every k",
   "A few prefixes are compared.", [WORD], [("families", WORD)], VAL % "morphism fixpoints and recurrences")
na("N09", "entropy and entropy_kmer report the k-th order empirical entropy",
   "The number printed is the entropy up to floating-point error.", ["inputs"], "every text and k", "Samples only.", B("entropy", "entropy_kmer"),
   [("entropy", "src/bin/entropy.rs, entropy_kmer.rs")], VAL % "context counts and logarithms")
na("N11", "LyndonWordGenerator lists every Lyndon word up to its length once, in order",
   "LyndonWordGenerator lists exactly the Lyndon words of its definition (that it stays at its end is C18; the other generators are C32).", ["inputs"], "every length and alphabet",
   "Counts for a few lengths.", [CORE], [("generators", CORE)], VAL % "successor functions")
na("N12", "The combinatorial loops terminate on every input",
   "Duval's algorithm, the PLCP loop, the suffix tree traversal and the word generators end for every input.", ["inputs"], "every text",
   "Tests end on samples.", [CORE, WORD], [("loops", CORE)],
   "the loop variants are relations between several indices and array contents that no ranking-function synthesis over MIR available here finds; only the end of reading (C26) is decided")
claim("C19", "escape followed by its reversal with the same options restores the input",
      "For every input and every accepted --escape-symbol, --from and --to (no prefix length), the output of escape, given to escape --is-reversion "
      "with the same options, yields exactly the input: the escape symbol is written twice, a --from symbol as the escape symbol and its --to symbol at "
      "the same position of the lists, any other byte as itself; the reversal undoes exactly this, for every position of the lists.",
      ["inputs", "configurations"], "every input, every accepted mapping and escape symbol, both directions",
      "No test runs escape; a table of 256 bytes times all mappings and escape symbols, in two directions that must fit together, is not sampled.",
      B("escape"),
      [("escaping", "src/bin/escape.rs main, second branch"), ("reversal", "src/bin/escape.rs main, is_reversion branch")],
      "symbolic transducer extraction from MIR paths between reads, compared case by case with the code",
      NOTE + "Relies on C16 for the refusal of mappings that are not invertible. A state kept in a shape not recognised is reported as not decided in the evidence.")
