import json
B="lindera-dictionary-builder/src/"
builders=[f"lindera-{k}-builder/src/{k.replace('-','_')}_builder.rs" for k in ("ipadic","ipadic-neologd","unidic","ko-dic","cc-cedict")]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A system dictionary build that reports success is complete and faithful",
 "When building a system dictionary reports success, the output loads, and every word with its details and costs, connection cost, character class and unknown-word entry of the well-formed source is in it, and nothing else. Every missing source file and every I/O failure during the build is reported to the caller as an error: never swallowed, and never turned into a panic. A valid source in a directory of any name builds without error when nothing fails.",
 ["inputs","fault_sequences","configurations"],
 "every valid source of each of the five dictionary kinds, every directory name, and every sequence of failing opens, reads, writes, directory operations, full disks and descriptor limits during the build, from the library and from the command line program",
 "No test builds a dictionary: the tests need published dictionaries that are downloaded, and the 108 stable ones never reach a builder. No test makes an I/O call fail.",
 [B+"dict.rs",B+"chardef.rs",B+"unk.rs",B+"cost_matrix.rs",B+"utils.rs",*builders,"lindera-core/src/prefix_dict.rs","lindera-core/src/unknown_dictionary.rs","lindera-core/src/character_definition.rs","lindera-core/src/connection.rs"],
 [("each file is written through a buffered writer that is flushed, and errors of flush are returned",B+"dict.rs"),("rows are parsed and packed into the five dict.* files",B+"dict.rs"),("connection costs as a flat matrix",B+"cost_matrix.rs"),("errors of each stage are passed up",builders[0])],
 observe=["the return value of the build, the exit status of `lindera build`, and the files in the output directory loaded through the public loader"])
p("C02","A user dictionary compilation that reports success equals its source",
 "When compiling a user dictionary reports success, the compiled file loads and holds exactly the rows of the CSV source, with their costs, connection ids and details, marked as user words; the CSV loaded directly gives the same dictionary. Every failure on the way is reported as an error, never swallowed and never a panic, and a valid source is accepted.",
 ["inputs","fault_sequences"],
 "every user dictionary source (simple and detailed rows) of each dictionary kind, and every sequence of I/O failures while it is compiled or loaded",
 "The tests of user dictionaries need the downloaded system dictionaries, so none of them is among the stable tests; none makes I/O fail.",
 [B+"user_dict.rs",*builders,"lindera-core/src/dictionary.rs","lindera-dictionary/src/lib.rs"],
 [("rows to the double array, value and word files, serialised in one piece",B+"user_dict.rs"),("load from CSV or from compiled file by extension","lindera-dictionary/src/lib.rs")],
 observe=["the compiled file loaded through the public loader; the exit status of `lindera build -u`"])
p("C03","A rebuild after crashes gives exactly what a build from nothing gives",
 "However many earlier builds into a place were killed at any instant, failed, or lost unsynced data in a power loss, one undisturbed build into that place succeeds and leaves exactly the bytes of a build into an empty place. The same holds for the compiled user dictionary file.",
 ["crash_points","histories","fault_sequences"],
 "every history of killed or failed builds (each at any system call, or after any byte of a write), with or without power loss between them, over an older dictionary or none",
 "No test kills a build; this quantifies over every crash point of a multi-file write.",
 [B+"dict.rs",B+"chardef.rs",B+"unk.rs",B+"cost_matrix.rs",*builders],
 [("output files are created anew and truncated",B+"dict.rs"),("the output directory may exist",builders[0])],
 observe=["the bytes of the output files after the last build"])
p("C04","What an interrupted build leaves behind is never taken for a dictionary",
 "When a build into a fresh place was killed at any instant, ended with an error, or lost the unsynced ends of its files in a power loss, loading what it left either fails with an error or gives the complete dictionary. A compiled user dictionary file over which a compilation was killed loads as the old one, as the new one, or not at all.",
 ["crash_points","fault_sequences"],
 "every kill point (any system call, any byte of a write), every failing call and every loss of unsynced file ends of a build of each dictionary kind",
 "No test kills a build or loads a partial one; the property quantifies over all crash points.",
 ["lindera-dictionary/src/lib.rs","lindera-core/src/prefix_dict.rs","lindera-core/src/connection.rs","lindera-core/src/character_definition.rs","lindera-core/src/unknown_dictionary.rs",*builders],
 [("all seven files are required at load","lindera-dictionary/src/lib.rs"),("sizes of matrix, double array, values, words and index must fit each other","lindera-core/src/dictionary.rs, lindera-core/src/connection.rs, lindera-core/src/prefix_dict.rs"),("serialised files do not deserialise when cut","lindera-core/src/character_definition.rs")])
p("C05","Loading under I/O faults gives the whole dictionary or an error",
 "Whatever I/O faults occur while dictionaries, user dictionaries or analyzer configurations are loaded, the load either returns an error or gives an analyzer that answers every text exactly as after a fault-free load. No fault causes a panic, and a later load in the same process succeeds once the faults stop.",
 ["fault_sequences","inputs"],
 "every sequence of failed, short, cut or interrupted opens and reads during a load, over library and command line",
 "The stable tests load no dictionary from disk and inject no faults.",
 ["lindera-dictionary/src/lib.rs","lindera-core/src/file_util.rs","lindera-core/src/dictionary.rs","lindera-core/src/prefix_dict.rs","lindera-analyzer/src/analyzer.rs","lindera-cli/src/main.rs"],
 [("read errors are mapped to load errors","lindera-core/src/file_util.rs, lindera-dictionary/src/lib.rs"),("all or nothing construction of the dictionary","lindera-dictionary/src/lib.rs")])
p("C06","Truncated, empty or missing compiled files are refused",
 "A compiled dictionary of which one or several files are missing, empty or cut short at any byte, before or while they are read, is refused with an error when it is loaded. It is never accepted and never makes the loader panic.",
 ["fault_sequences","inputs"],
 "each of the eight compiled files and every combination of the seven of a dictionary, cut at every possible length, emptied, removed, replaced by a directory, or cut by someone else during the read",
 "No test damages a compiled file.",
 ["lindera-dictionary/src/lib.rs","lindera-core/src/dictionary.rs","lindera-core/src/connection.rs","lindera-core/src/prefix_dict.rs","lindera-core/src/character_definition.rs","lindera-core/src/unknown_dictionary.rs"],
 [("consistency of sizes at load","lindera-dictionary/src/lib.rs"),("deserialisation errors are returned","lindera-core/src/character_definition.rs, lindera-core/src/unknown_dictionary.rs")])
p("C07","The command line output depends on the input lines alone",
 "The tokenize command prints, for each input line in order, what analysing that line (without surrounding white space) in a process of its own gives, in the chosen format. It does not matter in what pieces and with what interruptions the input arrives or the output is taken, or whether it comes from a file or from standard input.",
 ["schedules","inputs","configurations"],
 "every splitting of input and output into partial transfers, every interruption, every list of lines, each output format, mode, user dictionary and filter list",
 "No stable test runs the program; delivery schedules cannot be sampled by unit tests.",
 ["lindera-cli/src/main.rs","lindera-analyzer/src/analyzer.rs","lindera-tokenizer/src/tokenizer.rs"],
 [("line loop over a buffered reader","lindera-cli/src/main.rs"),("state of the lattice is reset for each sentence","lindera-tokenizer/src/tokenizer.rs")],
 observe=["standard output and exit status of `lindera tokenize`"])
p("C08","Exit status 0 means that the whole output was taken",
 "When standard output fails at any byte (disk full, broken pipe, I/O error), the program does not end with status 0, and it ends. What was written until then is a prefix of the right output.",
 ["fault_sequences","inputs"],
 "every byte position and every write call at which standard output can fail, under every delivery",
 "No stable test runs the program, and none with a failing output.",
 ["lindera-cli/src/main.rs"],
 [("print macros panic on failure of line-buffered standard output","lindera-cli/src/main.rs")],
 observe=["exit status and bytes taken by standard output"])
p("C09","Each line is answered before the program waits for more input",
 "Used interactively, the tokenize command has written the complete answers of all complete lines received so far whenever it waits for further input.",
 ["schedules","inputs"],
 "every timing and splitting of the input and every acceptance of the output",
 "Needs control over when input arrives; no stable test runs the program.",
 ["lindera-cli/src/main.rs"],
 [("one line is read, analysed and printed before the next read; standard output is line buffered","lindera-cli/src/main.rs")],
 observe=["bytes on standard output whenever a read of standard input would block"])
p("C10","Analyses that run at the same time do not disturb each other",
 "Threads that share an analyzer, tokenizer or dictionary, or use clones of it, get for every text exactly what a process doing only that analysis gets, whatever other analyses, loads, failing loads, failing or panicking user filters and builds run at the same time and however the threads interleave. No interleaving deadlocks or panics.",
 ["schedules","histories"],
 "every interleaving (at the granularity of code edges, I/O and synchronisation) of two to four threads performing any operations",
 "The tests are single-threaded; interleavings cannot be enumerated by examples.",
 ["lindera-tokenizer/src/tokenizer.rs","lindera-core/src/viterbi.rs","lindera-analyzer/src/analyzer.rs","lindera-core/src/prefix_dict.rs","lindera-core/src/dictionary.rs","lindera-filter/src/"],
 [("each call has its own lattice and buffers","lindera-tokenizer/src/tokenizer.rs"),("analysis takes shared references, filters are immutable","lindera-analyzer/src/analyzer.rs")])
p("C11","An answer does not depend on what was analysed before",
 "The tokens of a text depend on the configuration and the text alone: not on earlier texts, earlier analyses that failed or panicked, other analyzers in the process, builds or failed loads. Within a text, the segmentation and details of a sentence do not depend on the other sentences.",
 ["histories","inputs"],
 "every history of analyses, failed and panicking analyses, loads, failed loads, clones and builds before the text",
 "The tests analyse one text with a fresh tokenizer; histories are not sampled.",
 ["lindera-tokenizer/src/tokenizer.rs","lindera-core/src/viterbi.rs","lindera-analyzer/src/analyzer.rs","lindera-filter/src/"],
 [("the lattice is reused between the sentences of a text and cleared for each","lindera-core/src/viterbi.rs, lindera-tokenizer/src/tokenizer.rs"),("details are loaded lazily from immutable data","lindera-tokenizer/src/token.rs")],
 [("lattice","nodes of the sentence at hand","lindera-core/src/viterbi.rs")])
p("C12","A build is a function of its sources",
 "Building the same source gives the same bytes every time: whatever the random hash seeds, the order in which the directory is listed, the clock, the sizes of transfers, where the source and the output lie and what the output place held before, and whatever other builds run before or at the same time in the process.",
 ["schedules","configurations"],
 "every hash seed, directory order, delivery and interleaving of one to three builds",
 "No test builds twice, concurrently or under another directory order.",
 [B+"dict.rs",B+"unk.rs",B+"chardef.rs",B+"user_dict.rs",*builders],
 [("directory entries and rows are sorted before numbering",B+"dict.rs"),("ordered maps",B+"dict.rs, "+B+"user_dict.rs")])
p("C13","A bad user dictionary source never costs the compiled file",
 "When the source of a user dictionary is bad (a malformed row, broken UTF-8, a missing file, or a read that fails), compiling it reports an error, and the file compiled before at the output path keeps its bytes. It never reports success with less than the source. The file also keeps its bytes when the process is killed at any moment of compiling a bad source, or before it has read the whole of a good one.",
 ["inputs","fault_sequences"],
 "every bad row at every place of the source, every failing open or read of it, and every kill until it has been read and checked",
 "No test compiles over an older file or fails a read.",
 [B+"user_dict.rs",*builders],
 [("the source is read and checked completely before the output is created",B+"user_dict.rs")],
 observe=["bytes of the output path after the failed call"])
p("C14","Builds write only their output; analysis writes nothing",
 "A build creates or changes nothing but its output files and the directories leading to them; a user dictionary compilation nothing but its output file and the directories leading to it; loading and analysing change nothing in the file system. This holds under every fault and kill.",
 ["fault_sequences","crash_points","configurations"],
 "every operation of library and program under every fault, kill and delivery",
 "No test looks at what else is written.",
 [*builders,B+"dict.rs",B+"user_dict.rs","lindera-dictionary/src/lib.rs","lindera-cli/src/main.rs"],
 [("fixed output file names below the output directory",B+"dict.rs"),("the sources are opened for reading only",B+"utils.rs")])
p("C15","No operation leaves a file open",
 "After a build, a compilation or a load has returned, with success or with an error, repeated any number of times under any faults, the process has no more open files than before.",
 ["fault_sequences","histories"],
 "every sequence of builds, compilations and loads and every fault in them",
 "No test looks at open descriptors, least of all on error paths.",
 [*builders,B+"dict.rs",B+"user_dict.rs","lindera-core/src/file_util.rs","lindera-dictionary/src/lib.rs"],
 [("files are owned by values that are dropped on every path","lindera-core/src/file_util.rs")])
p("C16","A truncated source gives an error or keeps all of its complete rows",
 "When a source file was cut short at any byte, before the build or while it runs, building from it either reports an error or gives a loadable dictionary that holds every row (of the lexicon, the matrix or the user dictionary) that was complete. Neither the build nor an analysis with what it gave panics.",
 ["fault_sequences","inputs"],
 "every source file of every kind, cut at every byte",
 "No test builds from damaged sources.",
 [B+"dict.rs",B+"chardef.rs",B+"unk.rs",B+"cost_matrix.rs",B+"user_dict.rs",*builders],
 [("malformed rows are errors",B+"dict.rs, "+B+"user_dict.rs, "+B+"cost_matrix.rs")])
p("C17","Short and interrupted transfers change no result",
 "Builds, compilations, loads and analyses succeed and give exactly the same bytes and tokens when the operating system transfers data in small pieces or interrupts calls.",
 ["schedules","fault_sequences"],
 "every splitting of every read and write and every interruption of an open, read or write",
 "Unit tests run on a kernel that never splits or interrupts file transfers.",
 [B+"dict.rs",B+"chardef.rs",B+"unk.rs",B+"cost_matrix.rs",B+"user_dict.rs","lindera-core/src/file_util.rs",*builders],
 [("all of a buffer is written or read, again where needed","lindera-core/src/file_util.rs, "+B+"dict.rs")])
p("C18","Under faults that never stop, every operation comes to an end",
 "When an I/O fault persists for ever, every build, compilation, load and command line run still ends, with an error, within a bounded number of steps.",
 ["fault_sequences"],
 "every kind of call and path from any point on failing for good",
 "No test injects faults.",
 [B+"dict.rs",B+"user_dict.rs","lindera-core/src/file_util.rs","lindera-cli/src/main.rs",*builders],
 [("errors are returned and not retried","lindera-core/src/file_util.rs, lindera-cli/src/main.rs")])
p("C19","A failing input is reported, and complete lines are still answered",
 "When the input of the tokenize command fails (an I/O error on standard input or the file, a missing file, text that is not UTF-8), the program ends with a non-zero status. All complete lines before the failure are answered, and nothing else is printed on standard output.",
 ["fault_sequences","schedules"],
 "every position and kind of failure of the input under every delivery",
 "No stable test runs the program; none with failing input.",
 ["lindera-cli/src/main.rs"],
 [("errors of reading are returned and become the exit status","lindera-cli/src/main.rs")])

p("C20","Equal configuration and text give equal tokens in every process",
 "Analysing a text gives the same tokens in every process, whatever the random hash seeds, the clock and the pieces in which files arrive. It makes no difference whether the dictionary was built in this process or before, whether the user dictionary comes from CSV or compiled, whether the analyzer was assembled from parts or read from a configuration file, or whether it is a clone.",
 ["schedules","configurations","inputs"],
 "every hash seed, clock and delivery, and every list of character and token filters, dictionary, user dictionary and text",
 "A test runs in one process with one hash seed and compares with a constant; what varies between processes is not under its control.",
 ["lindera-analyzer/src/analyzer.rs","lindera-filter/src/character_filter/mapping.rs","lindera-filter/src/token_filter/","lindera-core/src/character_definition.rs","lindera-core/src/viterbi.rs","lindera-tokenizer/src/tokenizer.rs","lindera-dictionary/src/lib.rs"],
 [("keys of hash maps are sorted before the tries of the mapping filters are built","lindera-filter/src/character_filter/mapping.rs, lindera-filter/src/token_filter/mapping.rs"),("sets are only asked for members","lindera-filter/src/token_filter/"),("filters clone with their configuration","lindera-filter/src/token_filter.rs")])
p("C21","A load during a fresh build gives the complete dictionary or an error",
 "Loading a dictionary while a build into an empty place is writing it, or a user dictionary file while it is first compiled, either fails with an error or gives the complete dictionary, at every moment of the build. It never panics, and never disturbs the build.",
 ["schedules"],
 "every interleaving of one build with one to eight loads, and every size of the partial writes and reads",
 "No test loads and builds at the same time; the property quantifies over all interleavings.",
 ["lindera-dictionary/src/lib.rs","lindera-core/src/dictionary.rs","lindera-core/src/connection.rs","lindera-core/src/prefix_dict.rs",B+"dict.rs",*builders],
 [("all files must be there, complete and of fitting sizes","lindera-dictionary/src/lib.rs"),("each file is written once, front to back",B+"dict.rs")])
p("C22","An embedded dictionary is exactly its source, or the build fails",
 "The build script of each crate that embeds a dictionary (download, unpacking, compilation) either fails or leaves exactly the dictionary of the archive, plain or compressed, whatever network and disk faults, kills and power losses it meets, and whatever earlier killed or failed runs left; undisturbed it then succeeds. Selected by kind, plain or compressed, by any number of threads at once, also at first use, and from the command line program, an embedded dictionary gives the same tokens as the same source built and loaded from a directory.",
 ["crash_points","fault_sequences","schedules","histories","configurations"],
 "every archive of a valid source, every history of killed, failed or power-cut runs of the build script, every schedule of threads that use embedded dictionaries, every kind, mode, user dictionary and filter list, with and without compression",
 "Without a network the build scripts fail before they do anything, so all tests of embedded dictionaries fail or are not built; no test kills a build script or cuts a download short.",
 [*[f"lindera-{k}/build.rs" for k in ("ipadic","ipadic-neologd","unidic","ko-dic","cc-cedict")],*[f"lindera-{k}/src/lib.rs" for k in ("ipadic","ipadic-neologd","unidic","ko-dic","cc-cedict")],"lindera-dictionary/src/lib.rs","lindera-compress/src/lib.rs","lindera-decompress/src/lib.rs",B+"utils.rs","lindera-tokenizer/src/tokenizer.rs"],
 [("a download gets its name only when it is complete, and is not repeated","lindera-ipadic/build.rs"),("the archive is unpacked over what is there and the dictionary is compiled anew","lindera-ipadic/build.rs"),("files are compressed when written and decompressed when the dictionary is used",B+"utils.rs, lindera-decompress/src/lib.rs"),("a kind selects one embedded dictionary","lindera-dictionary/src/lib.rs")],
 observe=["the files in the build script's output directory; the tokens of analyzers and of `lindera tokenize -t`"])
p("C23","Filters may analyse, load or wait without disturbing any analysis",
 "A user's filter may itself analyse with the same analyzer, a clone of it or another one, load a dictionary, or wait as long as it likes for what other threads do. The analysis inside, the one around it, and those of all other threads end with the answers they give alone; none of them waits for a filter to return, deadlocks or panics.",
 ["schedules","histories"],
 "every place of a filter in an analysis, every operation inside it, every number of threads of which some wait in filters for others to end, and every interleaving",
 "No test runs an analysis inside a filter, or more than one thread; the property quantifies over all interleavings and places.",
 ["lindera-analyzer/src/analyzer.rs","lindera-tokenizer/src/tokenizer.rs","lindera-core/src/viterbi.rs","lindera-filter/src/character_filter.rs","lindera-filter/src/token_filter.rs"],
 [("filters are called in turn with the text or the tokens, and nothing is locked or lent out meanwhile","lindera-analyzer/src/analyzer.rs"),("each tokenization has its own lattice","lindera-tokenizer/src/tokenizer.rs")],
 observe=["the results of analyze and tokenize, and that they return"])
p("C24","Repeated use accumulates no memory",
 "A process that goes on analysing ever new texts (with a shared analyzer, with clones, in threads that end), loading, building and compiling, holds after any number of repetitions no more memory than after a bounded number of them, also when these fail, meet I/O faults, or end in a panic of a user's filter. The tokenize command holds no more memory for more lines of standard input.",
 ["histories","fault_sequences"],
 "every history of operations, successful, failing or panicking, of any length",
 "Tests do each thing once and never look at memory; what is kept per text, per failure or per thread shows only over long histories.",
 ["lindera-tokenizer/src/tokenizer.rs","lindera-core/src/viterbi.rs","lindera-analyzer/src/analyzer.rs","lindera-dictionary/src/lib.rs","lindera-cli/src/main.rs"],
 [("a lattice lives for one tokenization","lindera-tokenizer/src/tokenizer.rs"),("dictionaries are owned by the tokenizers and shared by no registry","lindera-dictionary/src/lib.rs"),("one line buffer for all lines","lindera-cli/src/main.rs")],
 observe=["the bytes that the process's allocator has handed out and not got back"])

NA=[]
def na(id,title,statement,over,text,why,files,reason):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[],"hook_needed":None}})
    NA.append({"property":id,"reason":reason})
na("N01","Tokens tile the text",
 "In normal mode without filters, the byte ranges of the tokens of a text are adjacent, non-empty, and cover the text, and each token's text is the text at its range.",
 ["inputs"],"every text and dictionary","The tests that tokenize need downloaded dictionaries.",
 ["lindera-tokenizer/src/tokenizer.rs","lindera-core/src/viterbi.rs"],
 "A pure function of dictionary and text: no schedule, clock, I/O or fault takes part, so there is nothing for a simulator to decide.")
na("N02","The segmentation has minimal cost",
 "The chosen segmentation has the least sum of word and connection costs (plus length penalties in decompose mode) of all segmentations with known and unknown words.",
 ["inputs"],"every text, dictionary and mode","The tests compare a few sentences with downloaded dictionaries.",
 ["lindera-core/src/viterbi.rs","lindera-core/src/mode.rs"],
 "A pure function of dictionary, mode and text; no nondeterminism or fault for a simulator to inject.")
na("N03","Offsets survive character filters",
 "After character filters, the byte offsets of tokens point into the original text at the characters the token came from.",
 ["inputs"],"every text and filter list","Tests sample a few texts for each filter.",
 ["lindera-filter/src/character_filter.rs","lindera-analyzer/src/analyzer.rs"],
 "A pure function of text and filters; no nondeterminism or fault for a simulator to inject.")
na("N04","Each token filter does what its documentation says",
 "Stop, keep, length, mapping, number, kana, compound, stem, base form and reading form filters transform token lists as documented.",
 ["inputs"],"every token list and argument","Tests sample a few token lists.",
 ["lindera-filter/src/token_filter/"],
 "Pure functions of token lists; what simulation can decide about them (isolation, reproducibility) is in C10, C11 and C20.")
na("N05","Configurations mean what they say",
 "A configuration read from JSON gives the same analyzer as one assembled from parts, and its serialised form reads back as the same configuration.",
 ["configurations"],"every configuration","Tests parse a few configurations.",
 ["lindera-analyzer/src/analyzer.rs","lindera-core/src/mode.rs"],
 "Parsing is a pure function of the file's bytes; reading the file under faults is in C05, C15 and C17.")
na("N06","Compression is lossless",
 "Data compressed with any supported algorithm decompresses to the same data.",
 ["inputs"],"every byte string and algorithm","A few byte strings are tested.",
 ["lindera-compress/src/lib.rs","lindera-decompress/src/lib.rs"],
 "A pure in-memory round trip. Its use for embedded dictionaries is in C22.")
if __name__=="__main__":  # writes properties.jsonl and MANIFEST.json
    with open("/verif/properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    for x in P: assert len(x["title"])<=80,x["title"]
    claimed=[x for x in P if x["id"][0]=="C"]
    m={"version":1,"setup_cmd":"tools/setup.sh","checks":[],"not_applicable":NA,
       "notes":"No hooks in /repo: the seams are the libc and pthread symbols, which the simulator defines in its own binary, and sanitizer-coverage edges that its build adds to lindera's crates."}
    tech={"C01":"deterministic simulation: I/O fault injection against a reference reader","C02":"deterministic simulation: I/O fault injection against a reference reader",
     "C03":"deterministic simulation: kill and power-loss histories, byte comparison with a clean build","C04":"deterministic simulation: kills and faults in a build, then a load",
     "C05":"deterministic simulation: I/O faults in loads, fault-free analysis as oracle","C06":"deterministic simulation: truncated, lost and concurrently cut stored files",
     "C07":"deterministic simulation: input/output delivery schedules of the real program","C08":"deterministic simulation: failing standard output of the real program",
     "C09":"deterministic simulation: simulated interactive peer of the real program","C10":"deterministic simulation: seeded thread schedules, sequential oracle",
     "C11":"deterministic simulation: seeded operation histories with failures, fresh-process oracle","C12":"deterministic simulation: hash seeds, directory orders, deliveries and thread schedules",
     "C13":"deterministic simulation: bad sources and read faults over an older file","C14":"deterministic simulation: recorded file system changes under faults and kills",
     "C15":"deterministic simulation: descriptor accounting under faults","C16":"deterministic simulation: sources cut before or during the build",
     "C17":"deterministic simulation: short and interrupted transfers","C18":"deterministic simulation: persistent faults with step bounds (liveness)",
     "C19":"deterministic simulation: failing input of the real program","C20":"deterministic simulation: hash seeds, clocks and deliveries across processes","C21":"deterministic simulation: seeded schedules of a build and a load",
     "C22":"deterministic simulation: network and disk faults, kills and power losses in the build scripts; seeded thread schedules of the embedded dictionaries",
     "C23":"deterministic simulation: seeded schedules of analyses inside filters and beside waiting ones, deadlock detection, fresh-process oracle",
     "C24":"deterministic simulation: long seeded histories with failures, faults and panics over a counting allocator"}
    note="Samples seeded executions of the real code (library and program) over a simulated operating system; every reported violation has replayed exactly from its file in a new process. Trusts the simulator's libc model and sources generated within the stated size bounds; a quiet run is evidence, not proof."
    for x in claimed:
        m["checks"].append({"property":x["id"],"quick_cmd":f"tools/check.sh {x['id']}","thorough_cmd":f"tools/check.sh {x['id']} thorough","technique":tech[x["id"]],"level":"exploration","level_note":note})
    json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
