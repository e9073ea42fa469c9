TECH = {
 'C01': ('typestate over storage-engine calls (write options, transaction, commit, WAL flush) by path-sensitive abstract interpretation of MIR', ''),
 'C02': ('typestate (clean/dirty/committed) per storage transaction by path-sensitive abstract interpretation of MIR with every storage call failing or not', ''),
 'C03': ('ownership/effect analysis of client programs begin; operation; cursor, by path-sensitive abstract interpretation of MIR', ''),
 'C07': ('typestate over weak-handle upgrades and storage calls, by path-sensitive abstract interpretation of MIR with the database gone', ''),
 'C08': ('dominance of a conflict-detecting existence read over every document write, per path with symbolic storage keys (abstract interpretation of MIR)', ''),
 'C09': ('dominance of the unique-key test over every index-entry write, per path with symbolic storage keys (abstract interpretation of MIR)', ''),
 'C12': ('dominance of name validation over storage access per path, by path-sensitive abstract interpretation of MIR', ''),
 'C14': ('per-path symbolic identity of the stored key, the stored _id and the reported id (abstract interpretation of MIR with symbolic documents)', ''),
 'C15': ('abstract interpretation of the key encoder and of the decoder on what it writes, with exhaustive evaluation of the byte arithmetic left', ''),
 'C16': ('instruction lengths and operands extracted from the machine and the disassembler by abstract interpretation, compared over abstractly generated programs', ''),
 'C17': ('abstract interpretation of the MIR of the code generator and, on the program it emits, of the bytecode interpreter, for every outcome of the underlying comparison; per-type-pair abstract interpretation of the comparison itself', ''),
 'C18': ('abstract interpretation of the MIR of the code generator and, on the program it emits, of the bytecode interpreter, for every combination of comparison outcomes, against the boolean formula', ''),
 'C19': ('abstract interpretation of the MIR of the query planner and, on each program it emits, of the bytecode interpreter, over storage and comparison outcomes; keys found equal are tracked symbolically as facts about the candidate', ''),
 'C20': ('effect analysis: storage-write effects of read operations over all paths (interprocedural abstract interpretation of MIR, bytecode arms included)', ''),
 'C30': ('sibling comparison: canonical database calls of the two collection implementations compared symbolically on MIR', ''),
 'C13': ('abstract interpretation of the MIR of the update compiler on update documents naming _id in every position; per-path effect analysis of the operations that call it', ''),
 'C26': ('abstract interpretation of the MIR of the update compiler and, on the program it emits, of the bytecode interpreter, with every operator changing or not changing the document; abstract interpretation of each operator, comparing the document before and after as terms', ''),
 'C31': ('abstract interpretation of the MIR of each update operator on documents with known fields and unknown values; the resulting document is compared, as a term, with the specified one', ''),
 'C10': ('abstract interpretation of the MIR of the write compilers and, on the programs they emit, of the bytecode interpreter, and of the insert paths; index entries written and removed are compared as symbolic key sets with the stored documents', ''),
 'C11': ('abstract interpretation of the MIR of create_index / drop_index / drop on symbolic databases (known record keys, unknown values); the resulting record set is compared with the specified one', ''),
 'C27': ('abstract interpretation of the MIR of the write compilers and, on the programs they emit, of the bytecode interpreter; typestate over the compiled program, its flags and its single run in every update/delete method', ''),
 'C28': ('value provenance: counters the abstractly executed programs end with versus documents acted on, and result fields versus machine registers / stored ids, on every path (abstract interpretation of MIR)', ''),
 'C22': ('abstract interpretation of the sort stage, through the program generated for a $sort pipeline, for every pair of value kinds; the outcomes are decided to be one order of the kinds (antisymmetry and transitivity over all triples) that follows the comparisons within a kind', ''),
 'C23': ('abstract interpretation of the MIR of the pipeline compiler and, on the programs it emits, of the bytecode interpreter and of the stages; stage inputs and rows are compared with the specified ones on every path', ''),
 'C24': ('abstract interpretation of the MIR of the compilers on every query, update and pipeline document of a generated set (operators, operand kinds, nesting); the verdict (compiled, refused, panics) is compared with the supported language', ''),
 'C25': ('interval analysis over the terms that abstract interpretation of the MIR of the update and aggregation operators computes for every pair of number types, plus the overflow assertions they reach', ''),
 'C04': ('per-path fault injection into the abstract interpretation of MIR and of the emitted bytecode: every storage call with an error out-parameter fails, and the operation is decided not to succeed afterwards', ''),
 'C05': ('error-flow analysis on MIR: every call returning a library error is forked into success and failure, and each failing path of the caller is decided to end in an error', ''),
 'C21': ('typestate of the cursor (finished, failed) by abstract interpretation of the MIR of its advance methods and, inside them, of the emitted bytecode', ''),
}
NA = {
 'N01': 'serialisability of arbitrary interleavings depends on the storage engine\'s lock manager and snapshots, which are outside the source; no static argument in reach bounds it (and lost updates are possible: see DESIGN.md)',
 'N02': 'what survives a crash is decided inside RocksDB\'s log and recovery code, a binary library; C01 decides the part that is in this source',
 'N03': 'byte order versus value order quantifies over runtime bytes (two\'s complement, IEEE bits) and is known not to hold; needs arithmetic reasoning, not a source-level rule',
 'N04': 'transitivity of comparison over all value pairs (int/float mixes, NaN) quantifies over runtime numbers; no static argument in reach',
}
