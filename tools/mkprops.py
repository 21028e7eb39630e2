# writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)
import json
LIB=["src/lib.rs","src/lexer.rs","src/parser.rs","src/token.rs","src/cst.rs"]
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=mech,observe_at=obs,hook_needed=None)))
API=["parse(document) and tokenize(document): the value returned or thrown"]
p("C01","Earlier calls never change a later answer",
 "What parse or tokenize returns or throws for a document does not depend on which calls were made before it on the same module or process, how many there were, or whether they were answered or rejected. After any history of completed calls, every document gets the answer or rejection it would get as the very first call.",
 ["histories","inputs"],"all sequences of completed parse and tokenize calls over all documents, of any length",
 "Each test makes one or a few calls and compares with an expectation; none repeats a document after a history, let alone after rejected, near-identical, very large or tens of thousands of calls.",
 LIB,[dict(name="Lexer, Parser",meaning="all working state of a call; created per call",where="src/lib.rs parse, tokenize")],
 [dict(name="a new Lexer and Parser per call, nothing process-wide but the panic hook",where="src/lib.rs parse, tokenize; src/utils.rs set_panic_hook")],API)
p("C02","Overlapping calls each get the answer they would get alone",
 "When calls overlap in time - on several threads of one process, or because the host calls parse or tokenize again while it is receiving the answer of another call - each of them returns or throws exactly what it would have alone. No interleaving makes a call abort, wait for ever or pick up anything of another call's document.",
 ["schedules","inputs"],"all interleavings of any number of overlapping calls, and all points at which a call can be re-entered from the host",
 "The tests run every call to its end before the next one in the same thread, so no overlap ever happens.",
 LIB,[dict(name="Lexer, Parser",meaning="working state, owned by one call",where="src/lib.rs")],
 [dict(name="no shared mutable state between calls",where="src/lib.rs, src/lexer.rs, src/parser.rs")],API)
p("C03","The answer depends on the document alone, not on the environment",
 "For one document, parse and tokenize give the same value whatever the hash seeds of the process, the clock, the environment variables, where memory blocks happen to lie and what they held before, how deep on which stack and thread the call runs, and whether the 64-bit or the WebAssembly build serves it. Only the order in which an object's keys are listed is not part of the value.",
 ["configurations","inputs"],"all environments (hash seeds, clocks, variables, memory placement, stacks, threads, word sizes) and all documents",
 "Tests run in the one environment of the build machine; a dependence on iteration order of a randomly seeded map, an address or an uninitialised value shows up as flakiness at best.",
 LIB+["src/cst.rs"],[dict(name="Node.children",meaning="children of a node by name, in a randomly seeded hash map",where="src/cst.rs")],
 [dict(name="children are looked up by name; their order is never used",where="src/cst.rs, src/parser.rs")],API)
p("C04","A finished call gives back everything it took",
 "Once a call has returned its answer or thrown its rejection, and the caller has dropped what it was given, nothing the call took stays taken: memory, host values and stack in use do not grow with the number of calls served, whatever mix of documents, repeated or always new, answered or rejected, they were.",
 ["histories","inputs"],"all mixes of completed calls, for histories of any length",
 "A test process ends after a few calls; growth per call is invisible in it, and no test measures what is held.",
 LIB,[dict(name="WebAssembly linear memory and handle table",meaning="live for as long as the host keeps the module",where="generated glue")],
 [dict(name="ownership: tokens, nodes and serialised values are dropped when the call ends",where="src/lib.rs parse, tokenize")],["bytes, host handles and stack held between calls"])
p("C05","Refused memory never yields a wrong answer",
 "When the module is refused memory at any point of a call, that call either still gives exactly the answer or rejection it would give otherwise, or fails visibly (it throws). It never returns a truncated, empty or otherwise different answer.",
 ["fault_sequences","inputs"],"every allocation of every call as the point where memory is first refused, once or from then on",
 "The allocator never refuses in the tests; none injects a failure.",
 LIB,[],[dict(name="every allocation is infallible: refusal ends the call",where="src/lexer.rs, src/parser.rs, src/cst.rs")],API)
p("C06","A failing host step never yields a partial answer",
 "When the host fails or throws at any step of receiving a value from the library (making a string, array, number or object, or storing a member), the call fails visibly or gives exactly its usual answer. It never returns an answer with parts missing, replaced or emptied.",
 ["fault_sequences","inputs"],"every host step of every call as the failing one",
 "The JavaScript engine never fails in the tests; the conversion of a value is never interrupted.",
 ["src/lib.rs","src/cst.rs","src/error.rs"],[],[dict(name="a failed conversion ends the call",where="src/lib.rs parse, tokenize: expect on serialize")],API)
p("C07","A call cut short never disturbs later calls",
 "On a module that has served such documents, and larger ones, before, a call that is cut short - by refused memory, an exception of the host, or a stop at an arbitrary instruction - leaves the module in service: every later call, including a retry of the same document, gives the answer it would give on a fresh module. This holds for any handful of such cuts in any order between other calls.",
 ["crash_points","fault_sequences","histories"],"every point of a call as the cut, any kind of cut, up to six cuts in a history",
 "No test cuts a call short, so no test can see what a later call meets.",
 LIB,[dict(name="shadow stack of the module",meaning="not unwound when a call is cut short",where="WebAssembly runtime")],
 [dict(name="no state outlives a call, so there is nothing to leave half done",where="src/lib.rs")],API)
p("C08","A stalled caller never holds up the others",
 "On a process that has served calls before, a caller thread that is paused for any length of time at any point inside parse or tokenize does not keep calls on other threads from finishing: each of them finishes within a bounded number of its own steps while the paused one stays paused.",
 ["schedules","fault_sequences"],"every point inside a call as the pause, for any number of paused and running callers",
 "Tests have one thread and nothing that pauses it.",
 LIB,[],[dict(name="calls share no lock",where="src/lib.rs")],["completion of the other calls, in steps"])
p("C09","Serving a document does not get slower with age",
 "The work done to serve a document does not grow with the number of calls served before: after any history of completed calls, serving it takes as many steps, up to a small constant factor, as early in that history.",
 ["histories","inputs"],"all histories of completed calls of any length, repeated or always new documents",
 "Tests neither run long histories nor count work.",
 LIB,[],[dict(name="a call reads nothing earlier calls left behind",where="src/lib.rs")],["steps of a call"])
p("C10","No history of documents takes the module out of service",
 "Whatever documents arrive - whole, truncated anywhere, corrupted, spliced, empty, not SQL at all - every call ends within a step bound, in an answer that ends with the end-of-document marker or in a rejection with a line, a column and a message. No document or sequence of documents makes a call abort, run for ever or leave the module unable to answer the next one.",
 ["inputs","histories"],"all sequences of documents that have arrived torn, damaged or whole, up to a nesting of 40, operator chains of 300 and 60,000 characters, and up to 66,000 lines, columns, tokens, statements or comments",
 "Tests feed well-formed documents and a few chosen errors, one call each; the points at which a document can be torn or damaged, and the histories, are unbounded.",
 LIB,[dict(name="Lexer.position, Parser.position",meaning="progress through the document",where="src/lexer.rs, src/parser.rs")],
 [dict(name="running off the end is an error value, not an abort",where="src/lexer.rs next_char; src/parser.rs get_offset_index")],API+["WebAssembly traps","step count"])
p("C11","Every answer belongs to its caller alone",
 "An answer or rejection once handed out never changes through anything the library does later, and whatever the caller does to it - overwriting any part of it - changes no other answer, past or future. Two calls never hand out the same object or objects that share parts.",
 ["histories","inputs"],"all histories of calls, with any of the answers kept or overwritten by the caller between calls",
 "Tests read each answer once and drop it; none keeps or alters one across calls.",
 ["src/lib.rs","src/cst.rs"],[],[dict(name="a new value is built for every answer",where="src/lib.rs parse, tokenize")],API)
p("C12","A call does nothing to its host but hand over its answer",
 "A call that returns or rejects writes nothing to the console or the standard streams, opens, creates or removes no file or connection, starts no thread, and changes no environment variable, working directory or signal setting, in any history and under any overlap with other calls.",
 ["histories","schedules","inputs"],"all histories and overlaps of completed calls",
 "Tests look at the returned value only; output and other effects on the process go unnoticed.",
 LIB+["src/utils.rs"],[],[dict(name="the code under a call does no I/O; only a panic reports to the console",where="src/utils.rs set_panic_hook")],["system calls and console calls made during a call"])
NA=[]
def na(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,[],mech,API)
    NA.append(dict(property=id,reason=reason))
PURE="A pure function of one document: no schedule, clock, I/O, fault or history can make it true or false, so a simulator has nothing to decide; it would be input generation dressed up as simulation."
na("C13","No character of the document is lost","The tokens of an accepted document, read in order at their positions, together with the whitespace between them, are exactly the document; the tree holds every token exactly once.","all documents","Tests compare a few hundred samples.",["src/lexer.rs","src/parser.rs"],[dict(name="construct_token; construct_node",where="src/lexer.rs, src/parser.rs")],PURE)
na("C14","Tokens and nodes carry the position where they stand","The line and column of every token are where its text begins in the document, and strictly increase in document order.","all documents","Samples only.",["src/lexer.rs"],[dict(name="next_char",where="src/lexer.rs")],PURE)
na("C15","Every comment is attached to exactly one node","Each comment of an accepted document appears once in the tree, as a leading or trailing comment of a node next to it.","all documents","Samples only.",["src/parser.rs"],[dict(name="leading and trailing comment indices",where="src/parser.rs next_token")],PURE)
na("C16","Keywords are recognised in any case and with any whitespace","Changing the case of keywords or the whitespace between tokens changes the tree only in token texts and positions.","all documents and spellings","Samples only.",["src/token.rs","src/parser.rs"],[dict(name="Token::is",where="src/token.rs")],PURE)
na("C17","Operators group by BigQuery's precedence","Every expression is grouped as BigQuery's operator precedence and associativity prescribe.","all expressions","Samples only.",["src/parser.rs"],[dict(name="get_precedence, parse_expr",where="src/parser.rs")],PURE)
na("C18","A rejection points at the offending place","The line and column of a rejection are those of a token of the document or of its end.","all rejected documents","Samples only.",["src/error.rs","src/parser.rs"],[dict(name="BQ2CSTError::from_token",where="src/error.rs")],PURE)
na("C19","Statements are parsed independently of their neighbours","The trees of statements separated by semicolons are those of the statements on their own, positions aside.","all sequences of statements","Samples only.",["src/parser.rs"],[dict(name="parse_code",where="src/parser.rs")],PURE)
na("C20","Answers conform to the published types","Every answer has the shape the published TypeScript declarations promise.","all documents","The declarations are not checked against answers.",["src/types.rs"],[dict(name="custom TypeScript section",where="src/types.rs")],PURE)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
TECH={
"C01":"deterministic simulation: seeded call histories on one module against a pristine-module reference",
"C02":"deterministic simulation: seeded thread scheduler (every basic block, memory access, allocation, host step) and re-entry injection",
"C03":"deterministic simulation: seeded environments (hash seed, clock, getenv, memory placement, stack, thread) and cross-build replay",
"C04":"deterministic simulation: long seeded service runs with conservation checks on bytes, handles and stack",
"C05":"deterministic simulation: seeded allocation-refusal injection in the WebAssembly module",
"C06":"deterministic simulation: seeded host-step failures and exceptions at the value boundary",
"C07":"deterministic simulation: seeded crash points (memory, host exception, stop at a step) and recovery histories",
"C08":"deterministic simulation: seeded stalls under a controlled scheduler, bounded-progress check",
"C09":"deterministic simulation: long seeded service runs with step counts",
"C10":"deterministic simulation: seeded histories of torn and corrupted documents with step budgets",
"C11":"deterministic simulation: seeded histories with a caller that keeps and overwrites answers",
"C12":"deterministic simulation: seeded histories and schedules on a recording operating system and host"}
LV={"C05":"fault_enumeration","C06":"fault_enumeration","C07":"fault_enumeration"}
NOTE={
"C01":"Sampled histories (2-16 calls over families of near-identical, rejected, torn and large documents; services of up to 80,000 calls on one module in quick, more in thorough), real module and native build. Trusts that a pristine instance is the right reference and a 64-bit digest of the canonical value.",
"C02":"Sampled interleavings of 2-4 threads, switched at every instrumented point of the library by seed; memory model is sequentially consistent (one thread runs at a time). Re-entry where a host step can run caller code.",
"C03":"Sampled environments; the native build runs against a stub of the JavaScript value layer, the cross-build comparison also covers the real one.",
"C04":"Growth is reported only if what is held never came down again to its former maximum over each of the last three fourfold increases of the number of rounds (up to 16 times the planned length), so a bounded cache is not a leak.",
"C05":"Every allocation of small documents is reachable as the refused one; sampled by seed, once and from then on, also inside dependencies. WebAssembly build only.",
"C06":"Sampled points over all host steps: exceptions in the real glue (WebAssembly), refusals and unwinding through a stub serializer (native).",
"C07":"Up to six cuts per history on a warmed module. A cut is a refused allocation, a host exception, or a stop at a basic block or allocation; the stack a cut leaves behind is bounded by the number of cuts.",
"C08":"Native build; progress bound is 40 times the steps the call takes alone plus 4 million. Lazily built process-wide values are built before the first pause.",
"C09":"Steps are basic blocks, memory accesses, allocations and host steps; reported only for strict growth over the last three fourfold increases and more than a quarter in all.",
"C10":"Sampled documents; nesting up to 40 (5 for subqueries in FROM) because two recorded findings begin beyond that; step budget about 100 times what documents of that length take.",
"C11":"WebAssembly build with the real glue: identity and aliasing of JavaScript objects.",
"C12":"Native build: interposed write, writev, open, socket, chdir, mkdir, unlink, rename, setenv, unsetenv, pthread_create, sigaction; WebAssembly build: console."}
M=dict(version=1,setup_cmd="./setup.sh",
 hooks=dict(guard="none: no hook in /repo was needed",enable="the checks build /repo unchanged; seams are the compiler's coverage callbacks (tools/rustc-sim.sh, for that crate only), the global allocator of the harness crates, patched host crates (nat/stubs), interposed libc symbols and the JavaScript host (node/worker.js)",source_commits=[]),
 checks=[dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",technique=TECH[i],level=LV.get(i,"exploration"),level_note=NOTE[i]) for i in sorted(TECH)],
 not_applicable=NA,
 notes="replay.sh FILE runs a recorded failing run again. DESIGN.md describes the simulator; known_findings.txt lists genuine defects, repaired and recorded.")
open('/verif/MANIFEST.json','w').write(json.dumps(M,indent=1)+'\n')
