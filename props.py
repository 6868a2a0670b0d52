HOOKS = ["db55cda", "c7c9446"]
NOTES = ("Every check discharges contracts written against the compiled /repo crates (path dependency, nothing extracted or re-typed) "
         "with Kani/CBMC; see DESIGN.md. properties.jsonl, checks.json and this file are generated from props.py by mkmeta.py.")
KANI = "contracts on the real Rust code discharged per function by Kani (CBMC) for all inputs"

P.append(dict(
    id="P01", title="Byte sets behave as mathematical sets of bytes",
    statement="A byte set is exactly the set of byte values it was built from (by element, range, slice, iterator or bit array), and union, intersection, difference, complement, insertion and removal give exactly the set-theoretic result for every byte. Emptiness, fullness, disjointness, cardinality, least and greatest member, span, range containment and iteration (each member once, ascending) agree with that set.",
    over=["inputs"], forall="all pairs of the 2^256 byte sets and all byte values / byte ranges",
    why="Every byte-level format and every lookahead decision is a byte set; there are 2^256 of them and the tests try a handful built from ASCII ranges, none of which straddle the 64-bit word boundaries of the representation in every operation.",
    files=["src/byte_set.rs"], mech=[("ByteSet bit array and its operations", "src/byte_set.rs")],
    modules=["byteset"], level="proof", technique=KANI,
    functions=["ByteSet::{from_bits,to_bits,new,empty,full,singleton,contains,contains_range,insert,remove,len,is_empty,is_full,union,intersection,difference,complement,is_disjoint,min_elem,max_elem,bounds,span,iter}", "Not for ByteSet/&ByteSet", "From<RangeInclusive<u8>>/From<Range<u8>>/From<&[u8]>/From<[u8;N]>/FromIterator<u8>"],
    bounded=["from_range", "from_bytes", "contains_range"],
    bounds={"from_range": "ranges of at most 4 members symbolically; all 65536 ranges by exhaustive execution (all_ranges)", "from_bytes": "sequences of at most 4 bytes", "contains_range": "ranges of at most 4 members"},
    note="Proof for all sets and bytes (symbolic 256-bit operands, loops bounded by the fixed word count with unwinding assertions on); constructors from sequences and contains_range are bounded to 4 elements, ranges are additionally enumerated exhaustively."))

P.append(dict(
    id="P02", title="Size and value ranges are sound over-approximations",
    statement="For every operator on ranges of natural numbers (add, subtract, multiply, divide, shift left and right, bitwise and, bitwise or, union, clamping, bits-to-bytes), whenever each operand lies in its range and the operation on those operands does not overflow, the result lies in the resulting range. Computing a range never panics on any operands, a range that claims to be exact contains exactly one value, and a lower limit never exceeds the upper limit.",
    over=["inputs"], forall="all pairs of ranges over 64-bit naturals (bounded or unbounded above) and all values within them",
    why="Decoders use these ranges to pick integer widths, skip checks and size alternatives; soundness quantifies over all 2^128 ranges and their members, the unit tests check a few dozen pairs.",
    files=["src/bounds.rs"], mech=[("Bounds operators", "src/bounds.rs")],
    modules=["bounds"], level="proof", technique=KANI,
    functions=["Bounds::{any,exact,new,at_least,at_most,union,is_exact,intersects_with,clamp_min,bits_to_bytes,...}", "Add/Sub/Mul/Div/Shl/Shr/BitAnd/BitOr for Bounds"],
    bounded=["mul", "div"], bounds={"mul": "endpoints and operands below 2^9 (full-width powers of two proved in mul_endpoints; full width executed)", "div": "endpoints and operands below 2^9 (full width executed)"},
    note="Proof over all 64-bit operands for every operator except member-wise multiplication and division (9-bit operands: 64-bit multiplier/divider equivalence is beyond the SAT back end)."))

P.append(dict(
    id="P03", title="Parsing position never leaves the innermost window",
    statement="Whatever sequence of slices, peeks, alternatives, seeks, alignments, bit-mode switches and reads is in progress, a read returns exactly the byte (or bit) at the current position and a position or read beyond the innermost open window or the end of the input is refused with an error, leaving the position unchanged; nothing panics or wraps, however large the requested length. Closing a slice lands exactly at its end, closing a peek or abandoning an alternative restores exactly the position where it was opened, and the reported remaining length is the largest advance that would succeed.",
    over=["inputs", "histories"], forall="all buffer lengths, cursor states, window stacks (up to two enclosing windows of every kind) and all 64-bit lengths/offsets",
    why="Generated decoders rely on it for every input; it quantifies over all reachable cursor/window states, whereas tests parse a few sample files where lengths are honest.",
    files=["src/parser/mod.rs", "src/parser/offset.rs", "src/parser/view.rs", "src/read.rs"],
    mech=[("BufferOffset and its stack of windows", "src/parser/offset.rs"), ("Parser over a View", "src/parser/mod.rs"), ("View::offset / window", "src/parser/view.rs"), ("ReadCtxt", "src/read.rs")],
    hook="cfg(doodle_verif): BufferOffset::verif_state / Parser::verif_state assemble a cursor in a given state",
    modules=["parser", "readctxt"], level="proof", technique=KANI,
    functions=["Parser::{new,read_byte,remaining,advance_by,skip_remainder,skip_align,start_slice,end_slice,open_peek_context,close_peek_context,open_peek_not_context,start_alt,next_alt,enter_bits_mode,escape_bits_mode,set_offset,view}", "BufferOffset::*", "ByteOffset::*", "View::{new,offset,...}", "ReadCtxt::{new,read_byte,split_at,seek_to,remaining,...}"],
    bounded=["align_d0", "align_d1", "align_d2"],
    bounds={"align_d*": "8-bit alignments", "history_any_depth": "random histories of up to 40 operations on buffers of up to 48 bytes, any stack depth (executed)", "*_d0/d1/d2": "exactly 0, 1 or 2 enclosing windows (each operation consults only the top of the stack, or pops down to a window it opened)"},
    assumptions=["window stacks deeper than two enclosing windows are only executed (history_any_depth), not proved", "the state constructor hook only builds states satisfying the nesting invariant that the contracts also establish after every operation"],
    note="Unbounded in buffer length, content, position and requested length (symbolic-size allocations); window nesting depth 0..2 proved, deeper histories and multi-alternative recovery executed, not proved."))

P.append(dict(
    id="P04", title="Zero-copy scalar and array reads return exactly the bytes in range",
    statement="Reading a big-endian scalar, tuple, slice, window or array from a byte scope returns exactly the values encoded at that position, consumes exactly their width, and is refused when they do not fit, for any declared length or stride, without panic, wrap-around or access outside the buffer. Array indexing, sub-ranges, strided arrays, iteration (with exact remaining count), owned/borrowed copies and binary search agree with the sequence of items those bytes encode.",
    over=["inputs"], forall="all byte contents, positions, lengths, strides and indices",
    why="The code reads through unchecked accesses guarded by length arithmetic; being memory-safe and right needs every length/stride combination, the tests use well-formed fonts.",
    files=["smallsorts/src/binary/read.rs", "src/parser/view.rs"],
    mech=[("ReadScope/ReadCtxt/ReadArray", "smallsorts/src/binary/read.rs"), ("View::read_array_*", "src/parser/view.rs")],
    modules=["arrays"], level="proof", technique=KANI,
    functions=["ReadScope::{new,offset,offset_length,ctxt,data}", "ReadCtxt::{read_slice,read_u8..read_i64be,read_array,read_array_stride,read_until_nibble,check_*,bytes_available}", "ReadArray::{len,get_item,read_item,last_item,subarray,iter,iter_res,binary_search_by,to_vec}", "ReadArrayIter", "ReadArrayCow", "View::read_array_*"],
    bounded=["array_stride", "array_cow", "binary_search", "until_nibble"], bounds={"array_stride": "10-byte buffers, at most 7 items, strides below 6", "array_cow": "at most 3 items", "binary_search": "at most 5 items", "until_nibble": "4-byte buffers", "large_arrays": "arrays of up to 64 items, strides 2..5 (executed)"},
    note="Scalar, tuple, window, array-length and array-indexing contracts are proved for buffers of every length and content (memory safety of the unchecked accesses included); iteration over strided arrays, owned copies, binary search and nibble scan are bounded, with longer arrays executed."))

EXEC = ("contracts (postconditions against a reference semantics of formats) on the real entry points, decided by bounded execution "
        "on generated formats and inputs: the functions recurse over boxed trees and are beyond Kani's reach")

P.append(dict(
    id="P05", title="Expressions evaluate to their mathematical value or are refused",
    statement="Evaluating an expression yields exactly the value it denotes: arithmetic, bitwise, comparison, width conversions, endian assembly, projections, pattern matching, variables and lambdas agree with their mathematical definition in the operands' integer width. A result that does not exist in that width (overflow, underflow, division by zero, a shift past the width, a conversion that does not fit) is refused, never wrapped or truncated; both interpreters agree.",
    over=["inputs"], forall="all operand values of every width for every operator (proved); generated well-typed closed expressions for nested terms",
    why="Lengths, offsets and checks in every format are such expressions evaluated on untrusted bytes; a single wrapped or truncated operand needs specific 64-bit values no sample file contains.",
    files=["src/decoder/value.rs", "src/decoder.rs", "src/loc_decoder.rs"],
    mech=[("Value arithmetic", "src/decoder/value.rs"), ("Expr::eval / eval_value", "src/decoder.rs"), ("Expr::eval_with_loc", "src/loc_decoder.rs")],
    modules=["value", "expr"], deep_modules=["modular"], native_secs={"value": 0.3, "expr": 22}, level="proof", technique=KANI,
    functions=["Value::{arith,unary,int_rel}", "Expr::eval (scalar arms, recursive call replaced by its contract; thorough tier)", "Expr::{eval_value,eval_value_with_loc} (executed)", "Pattern matching (executed)"],
    bounded=["rem_u8", "rem_u16", "rem_u32", "rem_u64"], bounds={"rem_*": "operands up to 511 under Kani, full width executed", "expr_*": "generated closed well-typed expressions of depth up to 4, executed against harness/src/refsem.rs"},
    assumptions=["the recursive call of Expr::eval in the modular contracts is replaced by its contract on literal operands", "overflow refusal is by panic, as the code documents"],
    note="Value-level operators proved for all operands of every width (remainder bounded); nested expressions, patterns, lambdas and projections are executed against the reference semantics, labelled bounded."))

P.append(dict(
    id="P06", title="Sequence operations denote the sequence they describe",
    statement="Length, indexing, sub-sequences, appending, mapping, flattening, folding, repetition, integer ranges and search by key on sequences give exactly the items the operation describes, in order, whether the sequence is stored, repeated lazily or an integer range. An index or sub-sequence outside the sequence is refused, for any start and length, without wrap-around; a sorted search finds a key exactly when it is present and an unsorted search finds the first match.",
    over=["inputs"], forall="all sequences (any length and content, or any repetition count), starts, lengths and indices",
    why="Offsets and lengths come from the file; start + length overflows and boundary-exact slices only occur for hostile or rare values.",
    files=["src/decoder/seq_kind.rs", "src/decoder/search.rs", "src/decoder.rs", "src/loc_decoder.rs"],
    mech=[("SeqKind, ValueSeq, sub_range", "src/decoder/seq_kind.rs"), ("keyed search", "src/decoder/search.rs"), ("sequence operators of Expr", "src/decoder.rs")],
    hook="cfg(doodle_verif): verif::{find_sorted,find_unsorted,int_sub_range} call the crate-private functions",
    modules=["seqs"], native_secs={"seqs": 4}, level="proof", technique=KANI,
    functions=["SeqKind::{len,is_empty,is_strict,get,index,sub_seq,iter,into_iter,into_vec,append}", "ValueSeq::{len,is_empty}", "sub_range", "find_index_by_key_sorted/unsorted", "Expr sequence arms (executed)"],
    bounded=["append_strict", "append_dup", "iter_items", "into_items", "search_sorted1", "search_sorted2", "search_sorted3", "search_sorted4", "search_sorted5", "search_unsorted"],
    bounds={"append_*": "at most 3 items each", "iter_items/into_items": "at most 4 items", "search_*": "at most 5 keys (any 32-bit keys); 200 keys executed", "expr_*": "generated expressions of depth 3, executed"},
    note="Indexing, length and sub-sequence contracts proved for sequences of every length and content; iteration, append and search proved for short sequences; expression-level operators executed against the reference semantics."))

P.append(dict(
    id="P07", title="Runtime helpers of generated decoders compute their definition",
    statement="The runtime library that generated decoders call gives exactly the result its definition describes: byte assembly in either order, slices that may extend past the end by repeating, concatenation, duplication, folds and flat-maps in order that stop at the first refusal, search by key, bounded-repetition control, and canonical Huffman decoding that consumes exactly one code per symbol and refuses bits that are not a code and over-subscribed tables.",
    over=["inputs"], forall="all scalar operands and byte contents; all code-length tables and bit strings",
    why="Every generated decoder links these; overlapping copies, incomplete codes and permuted tables need inputs a handful of sample archives do not contain.",
    files=["src/prelude.rs"], mech=[("prelude helpers", "src/prelude.rs"), ("HuffmanDriver", "src/prelude.rs")],
    modules=["rt"], native_secs={"rt": 4}, level="proof", technique=KANI,
    functions=["prelude::{u16be,u16le,u32be,u32le,u64be,u64le,succ,pred,slice_ext,seq_append,dup32,find_by_key_sorted,find_by_key_unsorted,try_fold_left_curried,repeat_between_finished}", "prelude::{try_flat_map_vec,try_flat_map_append_vec,try_fold_map_curried,extend_from_within_ext,parse_huffman,make_huffman_decoder} (executed)"],
    bounded=["slice_beyond", "seq_append_", "dup", "find_sorted", "find_unsorted", "fold_left"],
    bounds={"slice_beyond": "2-byte sources, results up to 5 bytes (40/80 bytes executed)", "seq_append_": "at most 2 items each", "dup": "at most 4 copies", "find_*": "at most 5 keys", "fold_left": "at most 3 items", "huffman": "tables of up to 20 symbols, lengths up to 9, optionally permuted, executed against the canonical code"},
    note="Scalar helpers, in-range slices and repetition control proved for all inputs; list helpers proved for short lists; flat-maps and Huffman tables executed."))

P.append(dict(
    id="P08", title="Decoded and computed values belong to their inferred types",
    statement="Whenever a type is inferred for an expression or a format (by direct inference or by the unification type checker) every value that evaluating or decoding it yields belongs to that type: same shape, field names, variant labels and integer widths. Generated decoders store values in those types, so a value outside its type would be unrepresentable.",
    over=["inputs"], forall="all well-typed formats and expressions and all inputs on which they succeed",
    why="It relates two independent implementations (inference and evaluation) over all programs; tests check a handful of inferred types by equality.",
    files=["src/typecheck.rs", "src/lib.rs", "src/valuetype.rs", "src/pattern.rs"],
    mech=[("TypeChecker", "src/typecheck.rs"), ("Expr::infer_type, FormatModule::infer_format_type", "src/lib.rs")],
    hook="cfg(doodle_verif): verif::{expr_type,format_type} call the crate-private inference",
    modules=["types"], native_secs={"types": 15}, level="exploration", technique=EXEC,
    functions=["Expr::infer_type", "FormatModule::infer_format_type", "typecheck"],
    bounds={"expr_*": "generated closed expressions of depth 2 and 4", "format_*/unify_*": "generated formats of depth 2 and 4, all inputs of up to 2 symbols over a 3-symbol alphabet plus longer random inputs"},
    note="Executed contracts over generated formats; no deductive proof (see DESIGN.md)."))

P.append(dict(
    id="P09", title="Decoding yields a parse of the input and never panics",
    statement="Running a compiled format on any input either yields a value and end position that the format's meaning allows for that input, or refuses; it never panics, aborts or loops. A format without choices is accepted exactly when its meaning accepts the input, with exactly the value and position its meaning assigns.",
    over=["inputs"], forall="all formats accepted by the compiler and all inputs",
    why="It is the central guarantee and quantifies over all formats and all byte strings; the tests decode sample files of a few formats.",
    files=["src/decoder.rs", "src/lib.rs", "src/format.rs"], mech=[("Compiler::compile_program", "src/decoder.rs"), ("Decoder::parse", "src/decoder.rs"), ("MatchTree", "src/lib.rs")],
    modules=["full"], native_secs={"full": 40}, level="exploration", technique=EXEC,
    functions=["Compiler::compile_program", "Program::run", "Decoder::parse", "MatchTree::{build,matches}"],
    bounds={"full_small": "generated formats of depth 2", "full_deep": "generated formats of depth 4 with up to 3 module items", "inputs": "all strings of up to 3 symbols over a 3-symbol alphabet, plus 24 longer random strings"},
    assumptions=["harness/src/reffmt.rs is the meaning of formats (written from the constructors' documentation)", "formats whose compilation or reference evaluation exceeds 2 s or 1.5 GB are left out"],
    note="Executed contracts over generated formats and inputs; cursor-level steps are proved in P03."))

P.append(dict(
    id="P10", title="Lookahead finds the parse when the format admits one",
    statement="When the compiler accepts a format, the lookahead it builds for alternatives, repetitions and optional parts selects a branch that leads to a successful parse of the whole input whenever the format's meaning admits one; a choice is never made on bytes that another viable alternative, or what follows, could also supply. A format whose choice cannot be decided within the lookahead limit is rejected at compile time, not mis-decided.",
    over=["inputs"], forall="all formats accepted by the compiler and all inputs their meaning accepts entirely",
    why="Completeness of prefix-tree construction depends on interactions of nullable parts, slices, peeks and continuations over all inputs; tests use formats known to be unambiguous early.",
    files=["src/lib.rs", "src/decoder.rs", "src/format.rs"], mech=[("MatchTreeStep, Next, MatchTree::build", "src/lib.rs"), ("Compiler::compile_format", "src/decoder.rs"), ("Format::depends_on_next", "src/format.rs")],
    modules=["choice"], native_secs={"choice": 40}, level="exploration", technique=EXEC,
    functions=["MatchTreeStep::*", "MatchTree::{build,matches}", "Compiler::compile_format", "Format::depends_on_next", "Program::run"],
    bounds={"choice_small": "generated formats of depth 2", "choice_deep": "generated formats of depth 4", "inputs": "as P09"},
    assumptions=["formats using constructs that deliberately decide by value (Permit, UnionNondet, predicates) are judged for soundness only (P09)"],
    note="Executed contracts over generated formats and inputs."))

P.append(dict(
    id="P11", title="The location-tracking interpreter agrees with the format's meaning",
    statement="Decoding with byte locations accepts the same inputs, consumes the same bytes and yields the same values as the format's meaning (and hence as plain decoding), for every format and input, and never panics.",
    over=["inputs"], forall="all formats accepted by the compiler and all inputs",
    why="It is a second, separately written interpreter; agreement quantifies over all formats and inputs, the tests render trees of sample files.",
    files=["src/loc_decoder.rs"], mech=[("Decoder::parse_with_loc", "src/loc_decoder.rs"), ("Expr::eval_with_loc", "src/loc_decoder.rs")],
    modules=["loc"], native_secs={"loc": 40}, level="exploration", technique=EXEC,
    functions=["Program::run_with_loc", "Decoder::parse_with_loc", "Expr::eval_with_loc", "ParsedValue::*"],
    bounds={"loc_small/loc_deep": "as P09"}, assumptions=["as P09"],
    note="Executed contracts over generated formats and inputs."))

P.append(dict(
    id="P12", title="Size estimates cover every possible parse",
    statement="The estimated range of bytes a format consumes contains the number of bytes consumed by every successful parse, a format that can succeed without consuming is reported as possibly empty, and the estimated range of a numeric expression contains its value. Estimates are computed without panicking.",
    over=["inputs"], forall="all formats and expressions and all inputs they accept",
    why="The compiler relies on it to reject repetitions that would loop and to size lookahead; soundness must hold for every format and input.",
    files=["src/format.rs", "src/lib.rs", "src/bounds.rs"], mech=[("Format::match_bounds / is_nullable", "src/format.rs"), ("Expr::bounds", "src/lib.rs")],
    hook="cfg(doodle_verif): verif::{match_bounds,is_nullable,expr_bounds} call the crate-private functions",
    modules=["size"], native_secs={"size": 14}, level="exploration", technique=EXEC,
    functions=["Format::match_bounds", "Format::is_nullable", "Expr::bounds"],
    bounds={"format_*": "generated formats of depth 2..4, inputs as P09", "value_*": "generated closed integer expressions of depth 1 and 3"},
    assumptions=["the range operators themselves are proved sound in P02"],
    note="Executed contracts; the underlying range arithmetic is proved in P02."))

P.append(dict(
    id="P13", title="Generated decoders parse what the format means",
    statement="For every well-typed format the code generator turns into a decoder that compiles, running the compiled decoder on any input gives a result the format's meaning allows: a value and an end position that are one of the format's parses of that input, in particular the parse of the whole input when the format's choices can be told apart by looking ahead, and the only parse when the format makes no choice. It fails only where there is no such parse, restores the position of every abandoned alternative, and never panics, hangs or reads outside the input. (Formats that put bits, byte positions, views or absolute seeks inside a run of bits, and expressions whose evaluation may overflow, are outside the claim.)",
    over=["inputs"], forall="all well-typed formats (with calls, views, dynamic Huffman codes) for which a decoder is generated, and all inputs",
    why="The generated Rust is what users ship; the repository tests it on a dozen formats and a handful of well-formed files. Agreement must hold for every format the generator accepts and for hostile input, and depends on the typed compiler, the Rust emission and the runtime together.",
    files=["src/codegen/mod.rs", "src/codegen/typed_decoder.rs", "src/codegen/model.rs", "src/codegen/rust_ast/mod.rs", "src/parser/mod.rs", "src/prelude.rs", "src/lib.rs"],
    mech=[("emission of decoder logic and expressions as Rust", "src/codegen/mod.rs"), ("GTCompiler: typed formats to decoders", "src/codegen/typed_decoder.rs"), ("rendering of Rust expressions and patterns", "src/codegen/rust_ast/mod.rs"), ("runtime the emitted code calls", "src/parser/mod.rs, src/prelude.rs")],
    modules=[], gen=dict(n=2400, deep=24000, lost=0.40), level="exploration",
    technique="executed contract on the emitted decoders: each generated format's decoder is emitted, compiled by rustc and judged against the format's denotation on every input (bounded stand-in: the artefact under contract is Rust source text, which no deductive verifier available here takes as a value)",
    functions=["generate_code (GTCompiler, to_ast, embed_expr, embed_pattern, embed_matchtree, rendering)", "the emitted decoders themselves, over Parser and prelude"],
    bounds={"decoders_agree": "1500 generated formats (24000 thorough) of depth 2..4 plus hand-picked alternation/lookahead cases; for each all inputs of up to 2 bytes over {0,1,2} (3 bytes for the hand-picked) and 24 random inputs of up to 9 bytes", "decoders_compile": "at most 40% of the generated formats have no decoder that compiles (35% on the base tree: the generator refuses them or leaves types to infer)"},
    assumptions=["rustc compiles the emitted text faithfully", "printing values with {:?} is faithful", "the runtime operations are under contract in P03 (parser, proved) and P04 (prelude)"],
    note="Bounded execution of the compiled decoders, never counted as proved; the reference is the executable format denotation shared with P09."))
