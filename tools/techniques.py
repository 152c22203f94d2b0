GATE = "must-pass dataflow over SSA (path-sensitive, inter-procedural)"
GNOTE = "Every acceptance path of the anchored entry points, for all inputs, is shown to pass the required checks on the right values; library calls are uninterpreted."
TECH = {
 "C01": (GATE, GNOTE), "C02": (GATE, GNOTE), "C03": (GATE, GNOTE),
}
TAB = "constant/table extraction and agreement over SSA, with must-pass dataflow"
TECH.update({"C04": (GATE, GNOTE), "C05": (TAB, "Registration tables are read from the constructors' SSA and compared row by row."),
 "C06": (GATE, GNOTE), "C07": (GATE, GNOTE), "C08": (GATE, GNOTE)})
for _i in list(range(9, 25)) + [25, 26, 29, 31, 32]:
    TECH["C%02d" % _i] = (GATE, GNOTE)
TECH["C25"] = ("path-sensitive abstract interpretation over SSA: every panicking instruction is an obligation", "Each type assertion, index, slice bound, map write and pointer use reachable on untrusted data is discharged on every path; parameters and receivers themselves are assumed non-nil.")
TECH["C28"] = ("interprocedural mod-effect and alias analysis over SSA", "For every function of the library, every write is traced back to what exported functions were given; methods that are documented to modify what they are called on are listed. External functions other than the listed writers are assumed not to write to their arguments.")
TECH["C27"] = ("lockset typestate and consistent-guard inference over SSA, lock-order graph, goroutine escape analysis", "For every schedule: every access to a field or package-level variable that is modified after construction holds its one inferred guard in the right mode; locks are released on every return; captured variables are not written while goroutines use them. Synchronisation through other means than sync mutexes, sync.Once, WaitGroup and channels isn't recognised.")
TECH["C30"] = ("extraction and comparison of member tables over SSA, must-pass dataflow, type flow", "Which member fills which field, and which field is written under which member, is extracted symbolically from the parsing and serialising functions and compared; on every path a non-empty field is written; the dynamic types put into JSON objects are among those parsing distinguishes. Values inside members are not compared.")
TECH["C33"] = ("order-taint dataflow over SSA loops", "For every loop over a map (and every list of a map's keys or values) what is left behind - carried variables, stores, map entries, early exits, results followed to the callers - is shown to be the same for every order, or sorted before use. Loops over custom iterators and reflection beyond MapKeys are not analysed.")
TECH["C34"] = ("must-pass and provenance dataflow over SSA, comparison of symbolic values at signing and at emission", "On every path on which an envelope is created, the bytes signed are the serialised form of this object with the parameters asked for, and what is emitted and kept equals what was signed. Library calls (JWS, COSE and verify-data construction) are taken at their word.")
TECH["C35"] = ("value-flow analysis of option constructors, must-pass dataflow over the functions that take options, def-use of option fields", "Every option constructor keeps what it is given, every function with an option list applies each or hands all of them on to everything that takes them, nothing an option set is replaced, and every field an option sets is read in what the operation reaches. That a read has the intended effect is the subject of the other properties.")
TECH["C36"] = ("def-use analysis over SSA of structures copied member by member, and of arguments against parameter names", "For every structure made from members of another one, every member the two share is carried over and to its own place; arguments and members named like another parameter or member of the same type aren't swapped; accessors give the member they are named after. Members that don't share a name or an otherwise unused type are not paired.")
TECH["C37"] = (GATE, "Every accepting path of presentation parsing, for every number of proofs, credentials and subjects, has collected and compared the right values; what decodes the lists of proofs and credentials is uninterpreted here.")
TECH["C39"] = (GATE + " with map writes as effects", "For every key, value, tag, operation list and state of the store: an operation that reports success has written, removed or read the entry under exactly the key it was given (each operation of a batch, each tag of a value), one that fails has changed nothing, the store opened is the one registered under the name, and each criterion of a query keeps its own selection. How a criterion is matched against tags is not covered.")
TECH["C43"] = ("natural-loop and def-use analysis of every function's SSA form (which values grow with a loop's rounds, how the loop can be left, where they are used then); list slices against element reads, across callers and callees; loop statements that never repeat", "For every list and object: a loop that appends to a list, fills a map or list, or makes content out of content for each element ends only after the last element, by failing, or in a way the code after it can tell (a truth value or error that differs, the rest of the list in use, the collection unused); no list is taken without elements at its start or end that nothing looks at; no loop over a list always ends with the first element. That each element's contribution is the right one is the other properties' business.")
TECH["C44"] = ("query over the type-checked program's SSA form: every comparison of text that more than one value satisfies, with what it is compared with (through parameters, closures and merges), against a table of the ones meant", "For every pair of values: outside the listed conventions (algorithm, media type and digest names, store names, identity hub names, keywords in JSON paths, proof types with a namespace, the parts of an origin, the DID of a verification method) the library tells values apart by their whole text: case folding, prefixes, suffixes, containment, patterns, trimmed, cut or split values are not compared, except with literals that are marked off (did:, data:, $). Which values are compared with each other is the other properties' business.")
TECH["C38"] = (GATE + ", effect inventory over the call graph", "For every response and fault: each exchange uses the configured client, its content is used only after the status and the read were checked, its body is closed on every path; the schema cache gives back only what was found unexpired and stores content under the address it came from; and nothing else in the library touches files, processes, sockets or the environment. Whether the cache library and net/http do what they promise is assumed.")
