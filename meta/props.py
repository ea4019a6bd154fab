PROPS = [
 dict(id="P01", title="Every DWARF attribute form is decoded and skipped with its standard size",
  statement="For every attribute encoding that the DWARF 2-5 standards define and the reader accepts, the value delivered to the client is the value the standard assigns to those bytes, and reading continues at exactly the byte after the encoded value, whether the attribute is delivered or skipped. This holds for every DWARF version, 4- or 8-byte offset size and address size.",
  over=["inputs"], for_all="all attribute forms x DWARF versions 2-5 x offset sizes 4/8 x address sizes 4/8, any byte content",
  why="The one test symbolizes a few functions of one compiler's output; most forms never occur in it and a wrong skip size only shows when the form does.",
  files=["util/symbolize/dwarf2reader.cc", "util/symbolize/dwarf2reader.h"],
  mech=[("attribute decoding", "util/symbolize/dwarf2reader.cc CompilationUnit::ProcessAttribute"), ("attribute skipping", "util/symbolize/dwarf2reader.cc CompilationUnit::SkipAttribute")],
  technique="abstract interpretation with byte-provenance values over the form decoders",
  level_note="For each form the decoder and skipper are interpreted with the form held constant; every possible result of the value-numbering domain must equal the standard's table. Trusts the value interpreter and clang's CFG; section indirections (.debug_str etc.) are compared by member."),
 dict(id="P02", title="The line-number program is executed as the DWARF standard prescribes",
  statement="For every line-number program opcode (special, standard and extended) the reader changes the line-table state machine registers exactly as the DWARF standard says, consumes exactly the operand bytes of the opcode, and reports a row exactly when the standard appends one. Rows delivered to the client carry the register values at that moment, and registers start from the standard's initial values in every sequence.",
  over=["inputs"], for_all="all opcode values, all operand bytes, all header parameters (line_base, line_range, opcode_base, minimum_instruction_length), any opcode sequence",
  why="Tests exercise the handful of opcodes one compiler emitted; a wrong register update for another opcode or for a second sequence stays silent.",
  files=["util/symbolize/dwarf2reader.cc", "util/symbolize/dwarf2reader.h"],
  mech=[("one-opcode step", "util/symbolize/dwarf2reader.cc LineInfo::ProcessOneOpcode"), ("program loop", "util/symbolize/dwarf2reader.cc LineInfo::ReadLines"), ("initial registers", "util/symbolize/dwarf2reader.h LineStateMachine::Reset")],
  technique="abstract interpretation per opcode + row-emission dataflow over the program loop",
  level_note="Each opcode's transfer function is computed symbolically from the source and compared with the standard's; the loop is checked by a dataflow of register freshness. Two-level line tables are outside."),
 dict(id="P03", title="DWARF unit and line-table headers are read at the standard's offsets",
  statement="For DWARF versions 2-5, both offset sizes and both address sizes, every header field of a compilation unit, of a line-number program (including its directory and file tables with the standard's numbering) and of the DWARF 5 string-offset and address tables is read from the position and with the width the standard gives it. Reading of the body starts right after the header, and units of unknown version are refused.",
  over=["inputs"], for_all="DWARF versions 2-5, offset sizes 4/8, unit types compile/skeleton/split, string forms of line tables, any field content",
  why="The test binary covers one header shape per version; 64-bit offsets, split units and most table formats never occur in it.",
  files=["util/symbolize/dwarf2reader.cc"],
  mech=[("unit header", "util/symbolize/dwarf2reader.cc CompilationUnit::ReadHeader"), ("line-table header", "util/symbolize/dwarf2reader.cc LineInfo::ReadHeader"), ("table headers", "util/symbolize/dwarf2reader.cc CompilationUnit::ReadDebugOffsetTableHeader, ReadDebugAddressTableHeader")],
  technique="abstract interpretation of header readers with version/offset size held constant",
  level_note="Each field's abstract value must be the byte range the standard prescribes; directory and file tables are followed for two entries (the loops are uniform). Vendor-defined content types are outside."),
 dict(id="P04", title="Address range lists expand to the ranges the DWARF standard defines",
  statement="For every range list in either format (DWARF 2-4 pairs, DWARF 5 entries), every entry kind, address size and offset size, the address ranges reported are exactly those the standard assigns to the entries: relative entries are relative to the base in force, absolute and indexed entries are absolute, and base selections affect only later entries. The format read is the one of the unit's DWARF version, and lists are read from their section position up to their end marker.",
  over=["inputs"], for_all="all entry kinds, any operands, address sizes 4/8, offset sizes 4/8, list formats of DWARF 2-5",
  why="Only the entry kinds one compiler emitted for one binary are ever read by the test.",
  files=["util/symbolize/dwarf3ranges.cc", "util/symbolize/dwarf3ranges.h"],
  mech=[("list readers", "util/symbolize/dwarf3ranges.cc AddressRangeList::ReadDwarfRangeList, ReadDwarfRngLists"), ("table header", "util/symbolize/dwarf3ranges.cc AddressRangeList::ReadDwarfRngListsHeader"), ("format selection", "util/symbolize/dwarf3ranges.cc AddressRangeList::ReadRangeList")],
  technique="abstract interpretation of scripted range lists in a value-provenance domain",
  level_note="Every entry kind is followed by an offset pair and the end marker, so its ranges, its effect on the base and its length are all compared with the standard; operands are symbolic."),
 dict(id="P05", title="Multi-byte and LEB128 values are read exactly in either byte order",
  statement="For every input bytes and both byte orders, fixed-width reads return exactly the integer those bytes encode, variable-length (LEB128) reads return the encoded value and its exact length for every length up to ten bytes, and initial-length fields select 4- or 8-byte offsets as DWARF says. Address and offset reads use the width selected for the unit.",
  over=["inputs"], for_all="both byte orders, widths 1/2/3/4/8, LEB128 lengths 1-10, every bit of every input byte",
  why="Tests run on a little-endian host with small values, so high bits, sign extension and long encodings are never observed.",
  files=["util/symbolize/bytereader-inl.h", "util/symbolize/bytereader.cc"],
  mech=[("fixed-width and LEB128 reads", "util/symbolize/bytereader-inl.h"), ("size selection", "util/symbolize/bytereader.cc ByteReader::SetOffsetSize, SetAddressSize"), ("initial length", "util/symbolize/bytereader-inl.h ByteReader::ReadInitialLength")],
  technique="bit-provenance dataflow: every result bit traced to its input bit",
  level_note="Complete over bit positions for the widths and encoded lengths listed: each result bit is shown to be the required input bit."),
 dict(id="P06", title="Every debug section is loaded and handed to its decoder with its own extent",
  statement="For every binary, split-unit object or package, each kind of debug data is decoded from the section of that name, with a window that starts inside that section and ends exactly where that section (or its package contribution) ends; data and length never come from two different sections. Every section a decoder may need is loaded by every loader of that kind of file.",
  over=["inputs"], for_all="every place that looks up, files or hands over a debug section, for present and absent sections, DWARF 4 and 5 units",
  why="Tests use one binary whose sections happen to be complete; a swapped or overlong window only shows on other section layouts.",
  files=["legacy_addr2line.cc", "util/symbolize/addr2line_inlinestack.cc", "util/symbolize/functioninfo.cc", "util/symbolize/dwarf2reader.cc"],
  mech=[("loading", "legacy_addr2line.cc Google3Addr2line::Prepare; util/symbolize/dwarf2reader.cc CompilationUnit::ReadDebugSectionsFromDwo, DwpReader::ReadDebugSectionsForCU"), ("hand-over", "InlineStackHandler::ProcessAttributeUnsigned, CUFunctionInfoHandler::ProcessAttributeUnsigned, CompilationUnit::Start, CompilationUnit::ProcessSplitDwarf")],
  technique="value-provenance dataflow from section lookups to decoder construction",
  level_note="Which member holds which section is derived from the decoders themselves; every hand-over site and loader found in the call graph is decided."),
 dict(id="P07", title="A function record holds exactly what the debug information states",
  statement="Each function or inlined call in the debug information yields a record whose address range, name, call or declaration line, call file, discriminator and references are the values its attributes state, whichever of the encodings allowed for an attribute is used. Values of one kind never end up as another, and attributes of other entries or unreadable encodings never change the record.",
  over=["inputs"], for_all="every attribute the record depends on, in every form that may encode it, for function, inlined-call, unit and unrelated entries, DWARF 4 and 5",
  why="A compiler emits one encoding per attribute; the test binaries contain only those.",
  files=["util/symbolize/addr2line_inlinestack.cc", "util/symbolize/addr2line_inlinestack.h"],
  mech=[("attributes", "addr2line_inlinestack.cc InlineStackHandler::ProcessAttributeUnsigned/Signed/String, StartDIE, EndDIE")],
  technique="abstract interpretation (value numbering) of the attribute handlers per attribute and form",
  level_note="Every (attribute, form, situation) combination the format allows is one obligation."),
 dict(id="P08", title="Every level of an inline stack names the right function, place and call",
  statement="The inline stack of an address starts with the place its line-table row gives, inside the function whose range covers it, and continues outward with one level per inlined call: each outer level takes its line, file and discriminator from the call recorded by the function inlined there, and its name and start line from the enclosing function's declaration or origin. The walk goes on exactly as long as functions are inlined ones.",
  over=["inputs"], for_all="every frame constructed, at the innermost and at an arbitrary outer level, for every combination of known and unknown start lines, with and without references to declarations",
  why="Tests compare a handful of addresses; mixing up caller and callee only shows on stacks with the right depth and references.",
  files=["legacy_addr2line.cc", "util/symbolize/addr2line_inlinestack.cc"],
  mech=[("stack", "legacy_addr2line.cc Google3Addr2line::GetInlineStack"), ("references", "addr2line_inlinestack.cc InlineStackHandler::GetDeclaration, GetAbstractOrigin, StartDIE")],
  technique="abstract interpretation (value provenance) of inline-stack construction",
  level_note="Which record covers an address is the range map's business and not decided here."),
 dict(id="P09", title="Profile primitives written to a GCC profile are read back unchanged",
  statement="For every 32-bit value, 64-bit counter and string, writing it to a GCC profile file and reading the file back yields the same value, in every profile format version, whatever was written before it and however the buffer had to grow; the string's stored length is exactly what the reader consumes. Failed reads and allocation failures are never reported as data, and nothing is read or written outside the file's buffer.",
  over=["inputs", "histories"], for_all="all 32/64-bit values, strings of any length (one documented limit), format versions 1-3, any buffer position",
  why="No stable test reads or writes a profile; round trips of small values would miss high bits, word-boundary string lengths and buffer growth.",
  files=["gcov.cc", "gcov.h"],
  mech=[("encoder", "gcov.cc gcov_write_unsigned, gcov_write_counter, gcov_write_string"), ("decoder", "gcov.cc gcov_read_unsigned, gcov_read_counter, gcov_read_string"), ("buffer", "gcov.cc gcov_open, gcov_close, gcov_allocate")],
  technique="abstract interpretation of the primitives down to buffer bytes, with bit provenance",
  level_note="Encoder and decoder are interpreted in a value domain per format version and their word layouts composed; buffer-growth conditions are compared symbolically. Trusts libc's documented behaviour."),
 dict(id="P10", title="A GCC profile is read with the same structure it was written with",
  statement="For each format version, the sequence of values the profile writer emits - sections, tags, counts, names, nested call sites, targets - is exactly the sequence the reader consumes, with every count equal to the number of records following it and guards equal on both sides. Every value is stored by the reader into the place the writer took it from, and section tags and versions are those GCC expects.",
  over=["inputs", "configurations"], for_all="every profile shape (any nesting of call sites, any number of positions and targets), format versions 1, 2 and 3",
  why="There is no stable round-trip test, and one on a sample profile would cover one version and the shapes in the sample only.",
  files=["profile_writer.cc", "profile_reader.cc", "symbol_map.cc"],
  mech=[("writer", "profile_writer.cc AutoFDOProfileWriter, SourceProfileWriter"), ("reader", "profile_reader.cc AutoFDOProfileReader"), ("insertion", "symbol_map.cc SymbolMap::AddSourceCount, AddIndirectCallTarget, TraverseInlineStack")],
  technique="grammar extraction from both ASTs and matching with field binding",
  level_note="Grammars are extracted by a structured evaluation of the source (no execution) and unified token by token; recursion is closed by checking nested records against the enclosing grammar to a fixed depth (3 quick, 4 thorough)."),
 dict(id="P11", title="A sample's place survives packing into its profile position",
  statement="For every line offset in the range the format allows and every discriminator it can hold, packing a place into a profile position and unpacking it yields the same line offset and the same discriminator, and distinct places never share a position. This holds for the position a sample is stored under, for the compressed positions of profile files, and in every build and discriminator mode.",
  over=["inputs"], for_all="all 16-bit line offsets, all discriminators, both discriminator encodings",
  why="Tests use small offsets and discriminators; a wrong shift or mask corrupts only larger ones.",
  files=["source_info.h", "source_info.cc", "symbol_map.cc", "profile_writer.cc"],
  mech=[("packing", "source_info.h SourceInfo::Offset, GenerateOffset, GetLineNumberFromOffset, GetDiscriminatorFromOffset"), ("compressed form", "source_info.h SourceInfo::GenerateCompressedOffset; profile_writer.cc; profile_reader.cc")],
  technique="bit-provenance dataflow, composed over pack and unpack",
  level_note="Complete over all bit positions: each unpacked bit is shown to be the packed bit it stands for."),
 dict(id="P12", title="Option builders store each option under its own name, unchanged",
  statement="Setting or adding an option through one of the Propeller option builders changes exactly the option the operation is named after, stores the given value unaltered whatever it is, leaves every other option as it was, and returns the same builder so that calls can be chained. Every option of the option messages can be set, options set through the nested shorthand end up inside the nested message next to those set before, and a builder yields, and can start from, a complete set of options.",
  over=["inputs", "histories"], for_all="every setter of every builder, every value, any sequence of calls before it",
  why="The builders are written by hand in step with the message definition and no stable test calls them.",
  files=["llvm_propeller_options_builder.cc", "llvm_propeller_options_builder.h", "llvm_propeller_options.proto"],
  mech=[("setters", "llvm_propeller_options_builder.cc"), ("options", "llvm_propeller_options.proto")],
  technique="effect extraction per path of every setter, compared with the options declared in the .proto files",
  level_note="Every path of every setter is covered; the generated protocol buffer accessors are trusted."),
 dict(id="P13", title="Lookups that can find nothing are never used as if they had succeeded",
  statement="No input makes the tools dereference the result of a search, map lookup, parse or optional-returning operation that reported absence: every such result is examined before it is used. In particular a missing symbol, section, entry or string leads to a handled case and not to a read through a null or past-the-end position.",
  over=["inputs"], for_all="every lookup site on every path of every function, any profile, binary or debug-information content",
  why="Tests only feed inputs where the lookups succeed.",
  files=["symbol_map.cc", "profile_reader.cc", "profile_writer.cc", "util/symbolize/functioninfo.cc", "util/symbolize/elf_reader.cc", "util/symbolize/dwarf2reader.cc", "llvm_propeller_whole_program_info.cc", "gcov.cc"],
  mech=[("lookups", "every find()/lower_bound()/optional/StatusOr/nullable-pointer producing call in the repository"), ("string reads", "profile_reader.cc, gcov.cc gcov_read_string")],
  technique="typestate dataflow (maybe-absent -> proven-present) over every function's CFG",
  level_note="Path-sensitive on explicit comparisons, interprocedural for functions that may return null. Lookups by an unmodified parameter documented as present are trusted caller contracts."),
 dict(id="P14", title="No result depends on memory that was never given a value",
  statement="Every object is fully initialised when its construction completes and every local value is assigned on every path before it is read, also when a helper that should have produced it failed. Hence no output, header field or decision depends on leftover memory content.",
  over=["inputs", "histories"], for_all="every constructor and every local of scalar, pointer or enum type in the repository, all control-flow paths",
  why="Leftover memory is usually zero in tests; the read of an unassigned value shows only on another path, allocator or optimisation level.",
  files=["util/symbolize/dwarf2reader.h", "util/symbolize/functioninfo.h", "symbol_map.h", "profile_reader.h", "sample_reader.h", "llvm_propeller_cfg.h"],
  mech=[("constructors", "all classes of the repository"), ("locals and output parameters", "all functions of the repository")],
  technique="definite-assignment dataflow over constructors and locals, interprocedural for output parameters",
  level_note="Every path of the CFG is covered; a callee given an address counts as assigning only when every non-failing path of it writes."),
 dict(id="P15", title="Conversion to and from LLVM sample profiles keeps every count in its place",
  statement="When a profile is written as an LLVM sample profile, every emitted function's entry and total count, every position's count and every call target's count is stored exactly once, under the function, inline nesting, line and discriminator it belongs to; reading such a profile adds every count back under the same function, nesting, line and discriminator exactly once. Every function above the emission threshold, and every inlined call below it, is visited once and at its own nesting depth, and a failure to create, read or write the file is reported to the caller.",
  over=["inputs"], for_all="every symbol table (any nesting, positions, call targets), every LLVM profile, every outcome of the LLVM library calls",
  why="The unit tests for this need LLVM and are not run; they would compare a handful of small profiles.",
  files=["llvm_profile_writer.cc", "llvm_profile_writer.h", "llvm_profile_reader.cc", "profile_writer.h"],
  mech=[("writing", "llvm_profile_writer.cc LLVMProfileBuilder::VisitTopSymbol, VisitCallsite, Visit, Write; LLVMProfileWriter::WriteToFile"), ("reading", "llvm_profile_reader.cc LLVMProfileReader::ReadFromFile, ReadFromFunctionSamples"), ("traversal", "profile_writer.h SymbolTraverser")],
  technique="effect extraction (structured evaluation of each visitor, calls inlined) compared with the specification of each record, under case splits on nesting and emptiness",
  level_note="Every path is covered. The LLVM library is trusted to store what it is given; special handling of configured symbol lists while merging is outside."),
 dict(id="P16", title="Status reporting is race free, reaches every consumer, and stays in range",
  statement="Whatever threads register, start and stop status consumers, the shared list is only read or changed while its lock is held, the lock is never taken twice by one thread, and starting or stopping reaches every registered consumer exactly once. The progress reported for a compound job is the finished share of the total weight plus the weighted progress of the part at work, is 100 when everything is done or nothing was added, and never involves a division by zero or a premature rounding.",
  over=["schedules", "histories"], for_all="every interleaving of registry operations, every set of weighted parts in any state",
  why="Races and the corner cases of an empty or finished job do not occur in a single-threaded test with a few fixed weights, and no stable test runs this code.",
  files=["status_consumer_registry.h", "status_consumer_registry.cc", "status_provider.h", "status_provider.cc"],
  mech=[("registry", "status_consumer_registry.cc StatusConsumerRegistry::Start, Stop, Register"), ("progress", "status_provider.cc MultiStatusProvider::GetProgress; status_provider.h")],
  technique="scope-based lock-set analysis of every class with a mutex; effect extraction and algebraic comparison of the progress formula",
  level_note="All methods of all classes with a mutex are analysed. Progress values of the parts are assumed to be in range and weights positive."),
 dict(id="P17", title="Merging profiles adds every count exactly once and loses nothing",
  statement="When two profile records, sample sets or statistics are merged, when several profiles are read into one, and when samples are distributed to functions, every counter of the result is the sum of the contributions, every table entry is combined with the entry of the same key or created, and every part takes part exactly once. The earliest known first-execution time survives a merge, and while machine samples are converted a source position keeps the highest count of its instructions.",
  over=["inputs", "histories"], for_all="every field and table of every mergeable record, entries known or unknown beforehand, any order and number of merges",
  why="A dropped or doubled field only shows in inputs that use it, merged in that order; no stable test merges anything.",
  files=["symbol_map.cc", "symbol_map.h", "sample_reader.cc", "profile.cc", "llvm_propeller_statistics.h"],
  mech=[("merging", "symbol_map.cc ProfileInfo::operator+=, Symbol::Merge, Symbol::FlatMerge; sample_reader.cc TextSampleReaderWriter::Merge; llvm_propeller_statistics.h"), ("recording", "symbol_map.cc SymbolMap::AddSourceCount, AddIndirectCallTarget, AddSymbolEntryCount, TraverseInlineStack"), ("distribution", "profile.cc Profile::AggregatePerFunctionProfile")],
  technique="effect extraction (structured evaluation) compared with the additive specification of each field",
  level_note="Every field of every record with a merge operation is an obligation; table entries are evaluated for the present and the absent case. Numeric overflow of counters is outside."),
 dict(id="P18", title="The ELF reader reports exactly what the file's headers and tables say",
  statement="For 32-bit and 64-bit ELF files, ordinary and with extended section numbering, every section, segment, symbol, load address and build ID the ELF reader reports is the header field or the bytes that the ELF layout assigns to it. Lookups by name, type or index consider every section of the file, each symbol of the symbol tables is visited once with its own name, value, size, binding, type and section, and notes are read only inside their section.",
  over=["inputs"], for_all="every ELF file of either word size, any number of sections, segments, symbols and notes",
  why="The one stable test reads two well-formed 64-bit files; a wrong field only shows in files where the two candidates differ (many sections, other word size, ARM, several notes).",
  files=["util/symbolize/elf_reader.cc", "util/symbolize/elf_reader.h"],
  mech=[("ELF reading", "util/symbolize/elf_reader.cc ElfReaderImpl, ElfSectionReader, SymbolIterator, ElfReader::GetBuildId, ElfReader::SectionNamesMatch")],
  technique="structured evaluation of the public operations, all calls inlined, compared term by term with the ELF layout under case splits on the header's escape values",
  level_note="Both instantiations are evaluated. The 32-bit narrowing of symbol-table offsets and the extended number of program headers are outside."),
 dict(id="P19", title="Each line-table row is filed under its address with its own place",
  statement="Every row of a line table at or above the program's load address is recorded exactly once under its own address, with the directory and name of the file of its number, its line and its discriminator; a later row for the same address replaces it. Directories and files are found under the numbers they were defined with, and the end of a sequence ends that sequence's rows without taking away the row of another sequence that starts there.",
  over=["inputs", "histories"], for_all="all addresses, file and directory numbers, lines and discriminators, any order of sequences",
  why="The test looks up a few addresses of one binary whose sequences are in address order and whose file table is small.",
  files=["util/symbolize/functioninfo.cc", "util/symbolize/functioninfo.h"],
  mech=[("rows and tables", "util/symbolize/functioninfo.cc CULineInfoHandler::AddLine, DefineDir, DefineFile; util/symbolize/functioninfo.h AddressToLineMap")],
  technique="effect extraction (structured evaluation, calls inlined) of the line callbacks under case splits on range limits",
  level_note="Every path is covered for representative and limit values of the compared quantities. Two-level line tables and restriction to sampled functions are outside."),
 dict(id="P20", title="A failed open, read, parse, create or write is never reported as success",
  statement="When an input cannot be opened, mapped, read completely or decoded, or an output cannot be created, written or closed, the operation reports failure or stops with an error; it never returns success on the strength of partial data. The outcome of every such attempt is examined before success is returned, a failure noted for later is reported by the closing call, and written files are verified to have reached the file system.",
  over=["fault_sequences", "inputs"], for_all="every point at which an operation on a file can fail or fall short, on every path",
  why="The test runs with readable inputs only; no test makes an operation fail.",
  files=["util/symbolize/elf_reader.cc", "gcov.cc", "profile_writer.cc", "profile_creator.cc", "sample_reader.cc", "llvm_profile_reader.cc", "llvm_profile_writer.cc", "llvm_propeller_binary_content.cc", "perfdata_reader.cc", "llvm_propeller_profile_writer.cc"],
  mech=[("inputs", "util/symbolize/elf_reader.cc ParseHeaders, IsArchElfFile; sample_reader.cc Append; perfdata_reader.cc; llvm_profile_reader.cc ReadFromFile"), ("outputs", "gcov.cc gcov_open, gcov_write_block, gcov_close; profile_writer.cc; sample_reader.cc Write; llvm_propeller_profile_writer.cc")],
  technique="interprocedural typestate over control-flow graphs: outcome of each fallible attempt from call to return, with summaries of which functions report failure",
  level_note="All functions, all paths of the control-flow graphs. Failures that are designed to be survivable (optional debug information, skipped profiles, unknown modules) are listed with reasons and not reported. A malformed content that is read successfully is the business of other properties."),
    dict(id="P21", title="Counts, addresses, times and names keep their kind and all their bits",
         statement="Wherever profile data is copied, summed, stored or handed on, an execution count, an address or an execution time keeps all of its 64 bits: totals beyond 2^32 and addresses above 4 GiB are exact. "
                   "Every stored item receives only data of its own kind: a count is never stored as an address, a run-time address never as a file address, a call line never as a declaration line, a directory never as a file name.",
         over=["inputs"], for_all="every copy of profile data anywhere in the program and every value it may carry",
         why="Test inputs hold small counts, low addresses and short lists; no test compares every stored item with its source.",
         files=["sample_reader.h", "profile.h", "symbol_map.h", "source_info.h", "branch_aggregation.h", "lbr_aggregation.h", "branch_frequencies.h",
                "binary_address_branch.h", "instruction_map.h", "profile_writer.h", "llvm_profile_writer.cc", "perfdata_reader.cc",
                "llvm_propeller_program_cfg_builder.cc", "legacy_addr2line.cc"],
         mech=[("the profile data", "sample_reader.h, profile.h ProfileMaps, symbol_map.h Symbol/ProfileInfo, source_info.h SourceInfo"),
               ("branch data", "binary_address_branch.h, branch_aggregation.h, lbr_aggregation.h, branch_frequencies.h, instruction_map.h"),
               ("run-time addresses", "perfdata_reader.cc RuntimeAddressToBinaryAddress and its callers")],
         technique="interprocedural qualifier inference: kinds seeded at declared profile data and propagated over all copies; width and kind conflicts reported",
         level_note="All functions of the program; fields seeded with a kind are listed in the check. Products of two counts, masks, shifts and floating-point ratios are new quantities without a kind. "
                    "Known finding: layout edge weights are kept in 32 bits."),
    dict(id="P22", title="Entries are compared, ordered and hashed by all of their parts, consistently",
         statement="Two branches, fallthroughs, call sites, blocks, mappings, source places, symbols or summaries count as the same entry exactly when all their identifying parts agree over their full width, wherever those parts are stored. "
                   "Every ordering used for sorting, sorted containers or choosing a best candidate is a strict order: nothing comes before itself, no two entries come before each other, and order as well as indistinguishability carry over chains, for all addresses up to 2^64. "
                   "Entries that are equal have equal hashes.",
         over=["inputs"], for_all="every pair and triple of entries that can be compared anywhere in the program",
         why="Tests compare a few ordinary entries; ties, absent parts, wrap-around and collisions that lose or merge entries need particular triples.",
         files=["binary_address_branch.h", "bb_handle.h", "symbol_map.h", "symbol_map.cc", "source_info.h", "llvm_propeller_cfg.h", "llvm_propeller_binary_address_mapper.h",
                "llvm_propeller_node_chain_assembly.cc", "llvm_propeller_chain_cluster_builder.cc", "llvm_propeller_code_layout.cc", "perfdata_reader.h",
                "profile_writer.cc", "util/symbolize/functioninfo.h", "sample_reader.h"],
         mech=[("keys", "binary_address_branch.h, bb_handle.h, symbol_map.h CallsiteEqual/CallsiteLessThan, llvm_propeller_cfg.h ids, perfdata_reader.h MMapEntry"),
               ("orders", "symbol_map.cc TargetCountCompare, layout comparators, functioninfo.h LessThanLineIdentifier"),
               ("hashes", "AbslHashValue functions and CallsiteHash")],
         technique="abstract interpretation of every comparison function over the relations of its operands' components (<, =, >, absent), order axioms decided on the resulting table; field dependence of hashes",
         level_note="All comparison functions in the repository whose body compares components (47). Library comparisons (numbers, strings, tuples, pairs, optionals) are total orders by trust. "
                    "Parts that do not identify an entry by design are listed in the check with the reason."),
    dict(id="P23", title="Sources, targets and identifiers never take each other's place",
         statement="The place a branch leaves is never recorded, looked up or credited as the place it arrives, and a straight run starts where a branch arrived and ends where one leaves, in every reader, aggregation and profile. "
                   "The number of a function, the position, the fixed ID and the clone number of a block, the place of a hot or cold cluster, sizes, frequencies and names are never stored, looked up, compared or written one for another. "
                   "The properties of a block (makes a tail call, returns, is a landing pad, falls through) and the parts of a mapping (process, start, length, offset, file) keep their identity from input to output.",
         over=["inputs"], for_all="every copy of such a value from where it is read to where it is stored, looked up, compared or written",
         why="All of these are plain integers or strings of the same type; the programs in tests have the same numbers for different identifiers, so a mix-up shows only on others.",
         files=["sample_reader.cc", "perfdata_reader.cc", "spe_sample_reader.cc", "simple_spe_sample_reader.cc", "profile.cc", "branch_frequencies_autofdo_sample.cc",
                "frequencies_branch_aggregator.cc", "llvm_propeller_program_cfg_builder.cc", "llvm_propeller_binary_address_mapper.cc", "llvm_propeller_cfg.h",
                "llvm_propeller_code_layout.cc", "llvm_propeller_node_chain.cc", "llvm_propeller_profile_writer.cc", "llvm_propeller_program_cfg_proto_builder.cc"],
         mech=[("branches and ranges", "sample_reader.cc, perfdata_reader.cc, profile.cc, frequencies_branch_aggregator.cc"),
               ("identifiers", "llvm_propeller_cfg.h, bb_handle.h, llvm_propeller_code_layout.cc, llvm_propeller_profile_writer.cc"),
               ("messages", "llvm_propeller_program_cfg_proto_builder.cc, perfdata_reader.cc")],
         technique="qualifier inference over a whole-program value-flow graph (copies, containers, calls, lookups): every place carries at most one of the declared meanings",
         level_note="68 declared places, every copy, lookup, subscript and comparison reached from them. A copy through an unknown library function ends the inference there. "
                    "Text read by scanf formats is not given a meaning by its position."),
    dict(id="P24", title="A text sample profile is read back as the samples written to it",
         statement="Every straight run, address and branch in a set of samples is written to a text profile as one row, with all bits of its addresses and its count, under a line giving the number of rows. "
                   "Reading that file adds exactly those counts to exactly those runs, addresses and branches, on top of what was already held. "
                   "A file in which a row or count is missing or malformed is refused.",
         over=["inputs"], for_all="every set of samples, including empty ones and the largest addresses and counts",
         why="No test writes a text profile and reads it back; wrong radix, width, place or order shows only on particular values or combinations of empty sections.",
         files=["sample_reader.cc", "sample_reader.h"],
         mech=[("text profiles", "sample_reader.cc TextSampleReaderWriter::Write, TextSampleReaderWriter::Append")],
         technique="abstract evaluation of writer and reader into section grammars (formats, loops, containers, key parts), compared section by section; scan results and early exits examined",
         level_note="Both functions and everything they call that prints or scans. The conversions of the C library and absl formatting are trusted. "
                    "What is appended after the last section is free text."),
    dict(id="P25", title="Cluster and symbol order files say what the layout decided",
         statement="The cluster file gives, in the directives of the chosen encoding version, every function with all its names (and module, where known), its clone paths, and one line per cluster with the identifiers of its blocks in order, a clone marked by its number; comments take whole lines starting with '#'. "
                   "The symbol order file gives, in layout order and for every name of the function, the symbol of each cluster (the function's name if the cluster starts with its entry block, otherwise with .__part. and the position of the cluster within the function), then the symbols of what remains of functions that have blocks in no cluster, with .cold exactly when the entry block is in a cluster. "
                   "Every block visited by the layout goes to exactly one cluster of its own function, and clusters and cold parts are numbered one after the other.",
         over=["inputs"], for_all="every layout: functions with several names, modules, clones, clusters with or without the entry block, blocks left over",
         why="Compiler and linker silently ignore or misapply wrong lines; the writer's tests do not build here and sample a few profiles.",
         files=["llvm_propeller_profile_writer.cc", "llvm_propeller_profile_writer.h", "llvm_propeller_code_layout.cc"],
         mech=[("layout files", "llvm_propeller_profile_writer.cc PropellerProfileWriter::Write; llvm_propeller_code_layout.cc CodeLayout::OrderAll")],
         technique="abstract evaluation of the writer into text templates per stream (helpers, callbacks and tables included), compared with the format for every combination of the conditions they depend on",
         level_note="Templates of both encodings in all combinations of the conditions; the layout's assignment of blocks by cases of function change and entry. The layout scores and the dot files are not covered."),
    dict(id="P26", title="Samples count for the function, position and target they were recorded for",
         statement="Every sampled address, range and branch whose (first) address lies in a known function adds its count, exactly once, to that function and to no other; with --use_lbr each instruction of a sampled range, "
                   "first and last included, gets the count of the range, otherwise each sampled address its own. Every such instruction with a known source position adds its count to that position; every branch from a known instruction to the start of an emitted function hands its count "
                   "to the entry of the target and to the targets of the calling position; every instruction makes its position known. The symbol map adds what it is handed to each caller in the stack, and keeps at the position the largest count of the instructions there (the sum, when it reads a profile). A function is emitted if the samples of all its parts together reach the threshold computed from all samples, and all steps happen in the order they depend on.",
         over=["inputs", "histories"], for_all="every set of samples, every symbol table, both kinds of counting and the cache-miss mode",
         why="No test of the profile builder builds here; wrong distribution still gives plausible profiles.",
         files=["profile.cc", "profile.h", "instruction_map.cc", "symbol_map.cc"],
         mech=[("distribution of samples", "profile.cc Profile::AggregatePerFunctionProfile, ProcessPerFunctionProfile, ProfileMaps::GetAggregatedCount, ComputeProfile; instruction_map.cc BuildPerFunctionInstructionMap"), ("keeping counts", "symbol_map.cc SymbolMap::AddSourceCount, AddIndirectCallTarget, AddSymbolEntryCount, TraverseInlineStack")],
         technique="abstract evaluation of the distributing functions into the updates and hand-overs they make under every combination of lookup results, compared with those due (value, key, loop, order, once)",
         level_note="Updates of the tables and calls into the symbol map, under all answers lookups may give; the symbol map's functions in numbers for 300 cases. What lookups answer at run time and merging (P17) are not part of it."),
]
NA = [
    dict(id="N01", title="Nested and overlapping code ranges resolve to the innermost function",
         statement="Whatever order address ranges of functions and inlined calls are added in, and however they nest, a lookup returns the innermost range that contains the address and nothing for an address outside all of them.",
         over=["histories", "inputs"], for_all="every sequence of range insertions and every address",
         why="The test looks up a few addresses of well nested code.",
         files=["util/symbolize/nonoverlapping_range_map.h"], mech=[("range map", "util/symbolize/nonoverlapping_range_map.h")],
         reason="Correctness of the splitting algorithm is an invariant over the ordered contents of a map after arbitrary insertions, i.e. over runtime values; "
                "no dataflow, typestate or type argument in reach bounds it. It needs model checking, proof or testing."),
    dict(id="N02", title="Code layout does not lower the score of the original order",
         statement="For every weighted control-flow graph, the basic-block order computed for a function scores at least as high under the layout model as the order the compiler chose, and places every block exactly once.",
         over=["inputs"], for_all="every control-flow graph and all edge weights",
         why="A numeric optimum over all graphs; samples cannot settle it.",
         files=["llvm_propeller_node_chain_builder.cc", "llvm_propeller_node_chain_assembly.cc", "llvm_propeller_code_layout_scorer.cc"],
         mech=[("chain merging", "llvm_propeller_node_chain_builder.cc"), ("scoring", "llvm_propeller_code_layout_scorer.cc")],
         reason="The score is a floating-point function of runtime weights and distances and the greedy search's outcome depends on them; static analysis of the source cannot compare two runtime scores."),
    dict(id="N03", title="Hotness thresholds are the smallest counts that cover their share",
         statement="For every multiset of counts and every cutoff, the reported minimum count is the largest threshold at which the counts at or above it make up at least that share of the total.",
         over=["inputs"], for_all="every multiset of counts and every cutoff",
         why="Only a property of sums over sorted runtime values.",
         files=["profile_writer.cc", "symbol_map.cc"], mech=[("summary", "profile_writer.cc ProfileSummaryComputer::ComputeDetailedSummary; symbol_map.cc CalculateThreshold")],
         reason="The claim relates partial sums of runtime counts to a proportion of their total; abstract interpretation in reach cannot express the sorted prefix-sum relation."),
]
NOTES = "Static analysis of the current sources of /repo: clang AST/CFG facts are re-extracted on every run (cached by content), the rules in checks/ decide."
