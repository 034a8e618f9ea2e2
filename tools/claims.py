# What MANIFEST.json claims: property -> (technique, level_note)
A="Trusts: the reference model in /verif/mc (written from the protobuf specification, sharing no code with the crate) and the stated bounds; values outside the alphabets and deeper combinations are not covered."
CLAIMS={
"W01":("exhaustive enumeration of a bounded message universe on the real code, against a reference value model","Every message of the bounded universe is built, encoded, decoded and compared. "+A),
"W02":("exhaustive enumeration of a bounded message universe; output judged by an independent decoder and by prost's generated types","Every output is parsed by a reference decoder and by prost-generated types. "+A),
"W03":("exhaustive enumeration of byte strings, record sequences and encoder styles, compared with a reference decoder","All inputs up to the bounds are decoded by the crate and by the reference decoder. "+A),
"W04":("exhaustive enumeration of merge histories and of input chunkings, compared with a reference decoder","All merge sequences and cuts up to the bounds. "+A),
"W05":("exhaustive enumeration of reader schemas (field subsets) x messages","All subsets of the fields as older readers. "+A),
"F01":("explicit-state breadth-first search over the real accessor API, in lockstep with a reference map model","All call sequences up to the depth, states deduplicated by the reference state plus storage history. "+A),
"F02":("exhaustive enumeration of fields x value catalogue x prior states","Every field with every catalogue value. "+A),
"J01":("exhaustive enumeration of a bounded message universe x all serializer and deserializer options on the real code","Every message of the bounded universe under all 2^4 x 2 option sets, through text and Value; quick 2^18 float patterns, thorough all 2^32. "+A),
"J02":("exhaustive enumeration of a bounded message universe x all option sets; output parsed by an independent JSON reader and compared with a reference serializer","Every message under all 2^4 option sets. "+A),
"J03":("exhaustive enumeration of literal placements, member sequences and text edits, compared with a three-valued reference reader","All literals at all fields and positions, all member sequences up to three, all single edits of sample texts; inputs the mapping leaves unsettled are executed but not judged. "+A),
"J04":("exhaustive enumeration of well-known-type values and texts, compared with a reference serializer and a three-valued reference reader","Value and text families of every well-known type, in every position. "+A),
"T01":("exhaustive enumeration of a bounded message universe x all format options on the real printer and parser","Every message of the bounded universe under all 2^5 option sets; all field pairs merged; quick 2^18 float patterns, thorough all 2^32. "+A),
"T02":("exhaustive enumeration of token sequences (all up to a length, then all extensions of viable prefixes), literal placements, character strings and edits, compared with a three-valued reference parser","All texts of the families up to the bounds; texts the specification leaves unsettled are executed but not judged. "+A),
"W06":("exhaustive enumeration of hostile inputs within bounds (nesting shapes x depths, sizes, all short byte/token strings, all single edits of a schema, all buffer sizes) on the real code, with stack, allocation and time limits","Every input ends with a result or an error: no panic, stack overflow, hang or allocation out of proportion. Crashes are attributed to the input by a side file. "+A),
"T03":("exhaustive enumeration of a bounded message universe x all format options; output parsed by an independent text-format parser","Every printed text is parsed by the reference parser and compared field by field, unknown fields included. "+A),
"D01":("explicit-state exploration of all histories of pool additions up to a length on the real pool, in lockstep with a reference model; failing additions at every build stage","Every word over menus of valid and invalid additions; after each step all views of the pool, its clones and earlier descriptors are compared with the model. "+A),
"D02":("exhaustive enumeration of orders, partitions into batches and ways of adding on the real pool","All permutations and partitions of interdependent files, with duplicates, as protos, sets and bytes; all views compared with the reference model. "+A),
"D03":("exhaustive enumeration of single edits of a base set of schemas and of families of small schemas, judged by a reference validator (cross-checked with protoc) and, if accepted, by all views","Every single edit over the value catalogue at every position, every member of eighteen families; what the rules leave unsettled is executed but not judged. "+A),
"D04":("exhaustive enumeration of declarations x packages x import graphs x references, compared with a reference resolver (cross-checked with protoc)","All combinations within the menus over three files. "+A),
"D05":("exhaustive enumeration of families of schemas; every accessor and lookup of every descriptor compared with a reference model","All members of eighteen families (one field with everything it can say, maps, names, oneofs, enums, numbers, ranges, trees, imports, services, clashing names). "+A),
"D06":("exhaustive enumeration of option names x values x holders and of statement sequences, compared with a reference interpreter","Options read back from the pool, from the encoded pool and from the encoded file, with source locations. "+A),
"D07":("exhaustive enumeration of invalid schemas (all single edits of a base set, all invalid members of the families), error places compared with a reference model","The place has to be one the reference blames; which of several violations is reported is left open. "+A),
"G01":("stateless model checking of the real code: all interleavings of two and three threads up to a preemption bound under a controlled scheduler, each in a fresh process; results judged for linearizability against a sequential model","Threads switch at every allocation, release and call, so the code needs no hooks and any rewrite of the locking is still scheduled; blocked threads are recognised by their kernel state. Quick: two preemptions for the small programs, one for the large ones and for the first use of the global pool. Trusts: the sequential model of additions; interleavings between two allocations of one thread are not distinguished, weak memory effects are not explored (safe code, locks only)."),
"R01":("exhaustive enumeration of a bounded value universe of 36 generated types and all well-known types, through the conversions in all directions, against a reference codec; the global pool's descriptors compared with protoc's","Every value is converted static -> dynamic -> static, merged into other messages and transcoded into every other type. "+A),
"B01":("exhaustive enumeration of message trees, packages, settings and derive arguments; all generated code is compiled and run and every type compared with the message it was generated from","Every tree of messages and enums over two names to depth 2 (thorough: 3), one and two files, both settings, all three entry points; all forms of the derive arguments, and wrong ones, which must not compile. Trusts protoc, prost-build and rustc."),
}
NA={}
HOOKS=None
