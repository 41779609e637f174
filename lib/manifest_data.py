H = {"technique": "heap", "level": "model_checking"}
CLAIMS = {p: dict(H) for p in ["C01", "C02", "C03", "C04", "C05", "C12", "C13", "C14", "C21"]}
PENDING = {}

IC = "TLA+ specification of collections (IC): definitions model checked, long histories generated by TLC (ICGen) and all short histories run on every kind of collection, every distinct transition validated by TLC (ICTrace)"
TR = "Trusts gcc, AddressSanitizer, TLC and the driver's observation of the results."
CLAIMS["C08"] = {"technique": IC, "level": "model_checking", "note": "All histories up to the length named in the evidence over 3 values x 2 identities, sampled longer histories. " + TR}
CLAIMS["C09"] = {"technique": IC + "; every operation also with its first, second or every allocation failing", "level": "fault_enumeration", "note": "Comparison and hash functions that need no memory themselves. " + TR}
CLAIMS["C10"] = {"technique": "TLA+ specification of balanced trees (Tree): definitions model checked, every tree the library can reach with few keys and sampled large ones explored on the real code, every distinct transition and traversal validated by TLC (TreeTrace)", "level": "model_checking", "note": "Exhaustive up to the number of keys named in the evidence. " + TR}
CLAIMS["C11"] = {"technique": "TLA+ specification of object graphs (Heap): TLC builds groups of objects differing in one place, the library hashes and compares every pair, TLC validates that the results form an order that agrees with the specification's equality (OrderTrace)", "level": "model_checking", "note": "Sampled groups of objects of every schema type. " + TR}
CLAIMS["C17"] = {"technique": "TLA+ specification of sorting (Sort) with a model-checked heap sort algorithm (SortMC); the real sort's results for all short and sampled long arrays are validated by TLC (SortTrace)", "level": "model_checking", "note": "All key patterns of up to 6 elements (3 keys) for the element sizes in the driver, sampled arrays of up to 1000 elements and 257 bytes per element. " + TR}
CLAIMS["C18"] = {"technique": "TLA+ specification of growing buffers (Ra), model-checked; all short operation histories and long ones generated by TLC (RaGen) are run on the real buffers with failing allocations, every transition is validated by TLC (RaTrace)", "level": "model_checking", "note": "All histories of three operations out of 20, sampled histories of 30. " + TR}
CLAIMS["C20"] = {"technique": "TLA+ specification of expressions (Expr: grammar, precedence, exact dyadic arithmetic, storing into fields), model-checked; all operator triples, all constants in all kinds of fields and expressions written by TLC (ExprGen) are loaded by the real loader and validated by TLC (ExprTrace)", "level": "model_checking", "note": "Numbers with up to 29 significant bits at any magnitude up to 2^120; values that are not dyadic rationals and divisions with inexact results are not judged. " + TR}
CLAIMS["C23"] = {"technique": "TLA+ specification of message delivery (Log), model-checked; direct messages of every number and severity and diagnostics of failing and succeeding operations are run under every handler/threshold/out-of-memory configuration and validated by TLC (LogTrace)", "level": "model_checking", "note": "The operations are a fixed list of documents and calls. " + TR}
CLAIMS["C22"] = {"technique": "TLA+ specification of reading documents from a stream (XmlDoc: scanner against the grammar of documents), model-checked; streams of documents and all their truncations generated by TLC (XmlDocGen) are read by the real reader with and without failing allocations and validated by TLC (XmlDocTrace)", "level": "model_checking", "note": "Documents as the library writes them: a declaration and one element. " + TR}
CLAIMS["C19"] = {"technique": "TLA+ specification of the type registry (Reg: layout of declarations on the ABI, registration order, lookups by name and value), model-checked; programs declaring types generated by TLC (RegGen) are compiled against the real library and every lookup and descriptor is validated by TLC (RegTrace)", "level": "model_checking", "note": "Declarations through the library's type macros; the compiler-assisted producer (clang builtin dump) is not part of the build here. " + TR}
CLAIMS["C16"] = {"technique": "TLA+ specification of concurrent first use (Conc: the two-flag protocol and lazily filled tables), model-checked for safety and termination; TLC enumerates its schedules with bounded preemptions (ConcGen), a controlled scheduler follows them on the real code at the granularity of single memory accesses, TLC validates every run (ConcTrace)", "level": "model_checking", "note": "Sequentially consistent interleavings of two threads (at most two, in the thorough tier three preemptions) and sampled ones of three threads; reorderings by weak memory are not explored. " + TR}
CLAIMS["C15"] = {"technique": "TLA+ specification of serialization graphs (Graph, over the object memory Heap): the list of entries that saving must produce, pruning and traversal; objects built by TLC (HeapGen) are saved by the library and every resulting list, traversal and pruned list is validated by TLC (HeapTrace)", "level": "model_checking", "note": "All small objects of the types named in the check, sampled large ones. " + TR}
CLAIMS["C06"] = {"technique": "TLA+ specification of operations whose memory is refused (HeapTrace TrFault over Heap): for objects built by TLC (HeapGen) every save, load, copy and release runs once per allocation with exactly that allocation refused; TLC decides each recorded outcome (nothing kept, source unchanged, a success only with the full result)", "level": "fault_enumeration", "note": "Every single refused allocation (and all later ones as a second mode) of every operation on the listed objects. " + TR}
CLAIMS["C07"] = {"technique": "TLA+ specification of damage to documents (Mal: token edits, MalGen: TLC enumerates every single edit and simulates sequences of edits) and of what a load may do with them (MalTrace: TLC decides every recorded outcome: rejected with nothing kept, or accepted with an object whose memory is exactly reachable, saved again and released); documents are those of objects built by TLC (HeapGen)", "level": "exploration", "note": "Under AddressSanitizer with an own allocator that counts blocks. Accepted objects whose types hold unions or run-time sizes are only judged for the load itself (a document may claim any discriminator and size). Lists of up to 60000 nested nodes are loaded with a bounded stack. " + TR}
DOC = "TLA+ specification of notations (Doc: every admissible document of an object in each format, with all spellings of values, layouts, omissions, orders and references): objects built by TLC (HeapGen), documents written for them by TLC (DocGen), the real loaders run on them, TLC validates the loaded object, its blocks and its release (HeapTrace)"
CLAIMS["C24"] = {"technique": DOC, "level": "model_checking", "note": "Sampled documents of sampled objects of every schema type. Numbers from tables of exactly representable values with their notations. " + TR}
CLAIMS["C14"]["technique"] = "TLA+ specifications of object graphs (Heap: objects with enumerations and bit-fields built by TLC, run through the library, every event validated) and of bit-field storage (BitField: design model checked; every base type, shift, width and pattern of surrounding bytes enumerated by TLC (BitFieldGen), loaded and stored by the real code, every row validated (BitFieldTrace))"
CLAIMS["C14"]["level"] = "model_checking"
CLAIMS["C14"]["note"] = "Bit-fields: all positions and widths of the 10 base types, a few values and backgrounds for each; enumerations sampled. " + TR
