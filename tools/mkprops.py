#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

SP = "src/codegen/c-sigprinter.cpp"; MG = "src/codegen/c-main-generator.cpp"; UG = "src/codegen/c-util-generator.cpp"
LP = "src/parser/dbclineparser.cpp"; SC = "src/parser/dbcscanner.cpp"; FS = "src/codegen/fs-creator.cpp"
FW = "src/codegen/filewriter.cpp"; APP = "src/app.cpp"; FM = "src/helpers/formatter.cpp"; OP = "src/options-parser.cpp"
CT = "src/codegen/conditional-tree.cpp"; MO = "src/codegen/mon-generator.cpp"; CF = "src/codegen/config-generator.cpp"
NOGEN = "No test runs the scanner or any code generator, let alone compiles and executes generated code; "

p("C01", "Decoding follows the DBC bit layout",
  "For every signal that fits its frame, the generated unpack function stores exactly the integer that the DBC layout (start bit, length 1 to 64, Intel or Motorola byte order, two's complement if signed) assigns to the payload, whatever the payload and for every frame length from 1 to 64 bytes. Signed signals presume sign-extension helper types one bit wider than the signal, as the generated comments require (the shipped 32-bit ones up to 31 bits, user-chosen 64-bit ones up to 63), or exactly as wide as the signal. Unpack returns the frame's CAN id and does not read past the frame's payload.",
  ["inputs", "programs"], "all (order, start bit, length, sign, frame length) layouts and all payloads",
  NOGEN + "the one layout-related unit test re-implements sign extension locally for two widths.",
  [SP, MG], [("bit-to-C expression builder", SP + ":PrintSignalExpr"), ("sign extension helper", MG + ":extend_func_body"), ("unpack body writer", MG + ":WriteUnpackBody")],
  observe=["generated Unpack_* functions, compiled and executed"])
p("C02", "Encoding writes exactly the bits of the signals",
  "The generated pack function fills exactly the frame's DLC bytes: each signal's bits hold the low bits of its field in DBC layout (even when the field holds a value too large for the signal), every bit that belongs to no signal holds the configured initial byte value (0 by default), and no byte beyond the DLC is written. It reports the frame's DLC, IDE flag and CAN id, in both the array and the CAN-struct form.",
  ["inputs", "programs", "configurations"], "all layouts, all field values, every initial byte value, both pack signatures",
  NOGEN + "a pack expression that shifts, masks or clears wrongly for one layout passes every test.",
  [SP, MG], [("byte expression builder", SP + ":PrintSignalExpr/AppendToByteLine"), ("pack body writer", MG + ":PrintPackCommonText")],
  observe=["generated Pack_* functions, compiled and executed"])
p("C03", "Signals sharing a frame never disturb each other",
  "In a frame whose signals do not overlap, whatever mix of byte orders, lengths and shared bytes, packing any field values and unpacking the result returns those values, and unpacking any payload and packing the result reproduces every signal bit. In multiplexed frames, where signals do overlap, every signal still decodes by its own layout however many other signals share its bits.",
  ["inputs", "programs"], "all frame layouts (sets of signals) and all payloads",
  NOGEN + "interaction of several signals in one byte is never exercised.",
  [SP, MG, FW], [("per-byte accumulation of signal expressions", SP + ":AppendToByteLine"), ("signal order", SC + ":AddMessage")],
  observe=["generated Pack_*/Unpack_*"])
p("C04", "Physical values follow raw * factor + offset",
  "With physical values enabled, unpack delivers raw * factor + offset for every scaled signal: exactly when factor and offset are integers (in a field type that can hold every physical value of the signal, as long as these and raw * factor fit 64 bits), and to floating point precision when they are decimals of up to nine fractional digits, in plain or exponent notation. Pack inverts it: exactly for integer scaled signals, and to less than one raw step for decimal scaled ones. Signals without scaling, or with a factor or offset below 1e-9, stay plain integers without a physical companion.",
  ["inputs", "programs"], "all (factor, offset, length, sign) combinations and all raw values",
  "The unit tests only look at how a handful of factor/offset strings are parsed and printed; no conversion is ever evaluated.",
  [LP, SP, MG, FM], [("factor/offset parsing and type deduction", LP + ":ParseSignalLine/GetSigType"), ("conversion macros", SP + ":PrintPhysicalToRaw"), ("decimal printing", FM + ":prt_double")],
  observe=["*_phys fields, *_toS/*_fromS macros"])
p("C05", "A frame's code does not depend on the other frames in the file",
  "The decoding, encoding, physical conversion and constants generated for a frame are the same whichever other frames the DBC file contains and in whatever order they are listed, in particular when other frames use the same signal names with a different layout, scaling, type, value table or comment.",
  ["inputs", "programs"], "all pairs of frames that share signal names, both file orders, and all insertion positions",
  "The tests never generate code from a file with two frames; sharing of conversion macros by signal name is invisible to them.",
  [MG, SP, SC], [("conversion macros shared by signal name", MG + ":Gen_MainHeader (passed_sigs)"), ("lookup of frames", SC + ":find_message")],
  observe=["generated driver compiled and executed, alone and next to a neighbour"])
p("C06", "Frame and driver constants equal the DBC file",
  "For every frame the driver's CANID (29 bits), IDE, DLC and, when a cycle time attribute is given, CYC constants equal the values in the DBC file, for standard and extended ids. The driver's maximum-DLC constant equals the largest DLC of all generated frames wherever that frame is listed, and the version constants equal the file's VERSION \"hi.lo\" (0.0 when absent or of another form).",
  ["inputs"], "all ids, DLCs, cycle times, versions and frame orders",
  "Message and version parsing and header printing are not covered by any test.",
  [LP, SC, MG], [("message line parsing", LP + ":ParseMessageLine"), ("max DLC tracking", SC + ":ParseMessageInfo"), ("version parsing", SC + ":FindVersion"), ("header printing", MG + ":Gen_MainHeader")],
  observe=["macros of the generated header"])
p("C07", "Exactly the frames and signals of the DBC file are generated",
  "For every sequence of statements of a well-formed DBC file in the usual layout (one frame or signal statement per line) the driver defines exactly the supported frames (DLC 1..64, ordinary id) with exactly the signals listed under each of them, and structs and functions only for frames that have signals. Unsupported frames are dropped together with their signals, and neither they, unrelated statements, nor text inside quoted comments ever add, remove or change another frame or signal.",
  ["histories", "inputs"], "all sequences of DBC statements (the scanner is a state machine over lines)",
  "The scanner is not even compiled into the test binary; only four single signal lines are parsed by tests.",
  [SC, LP], [("line-by-line scanner state", SC + ":ParseMessageInfo"), ("statement recognition", LP + ":IsMessageLine/IsSignalLine")],
  state=[("pMsg", "frame currently being collected", SC), ("commentline/attribline/valueline", "multi-line statement buffers", LP)],
  observe=["generated header (macros, typedefs, prototypes)"])
p("C08", "Annotations attach to exactly the object they name",
  "A frame or signal comment, a cycle time attribute and an additional-transmitters statement take effect on exactly the frame or signal they name, wherever they stand after the frames, with multi-line text preserved line by line; if several annotate the same object the last one wins. Annotations that name an unknown frame or signal, or another kind of object, change nothing, and no annotation text, whatever characters it contains, changes the generated code.",
  ["histories", "inputs"], "all sequences of annotation statements, including multi-line ones, and all comment texts",
  "No test feeds comments, attributes or multi-transmitter lines to anything.",
  [SC, LP, MG], [("annotation dispatch", SC + ":ParseOtherInfo/find_message"), ("multi-line collection", LP + ":ParseCommentLine/ParseAttributeLine"), ("comment printing", MG + ":WriteSigStructField")],
  state=[("commentline/attribline", "partially collected statement", LP)],
  observe=["comments and constants of the generated header, node drivers"])
p("C09", "Value tables become constants with the right values",
  "For every value description of a signal, scaled or not, the header defines a constant named after the signal, the frame and the description reduced to identifier characters (blanks as underscores) whose value is the described raw value, for every value that fits 32 bits. If two descriptions of one table reduce to the same name the first one listed is kept, and tables for unknown signals or frames define nothing.",
  ["inputs", "histories"], "all value tables: values, descriptions, targets, statement orders and line splits",
  "No test parses a VAL_ statement.",
  [LP, SC, MG, FM], [("value table parsing", LP + ":ParseValTableLine"), ("attachment to signals", SC + ":ParseOtherInfo"), ("macro printing", MG + ":Gen_MainHeader"), ("name reduction", FM + ":make_c_name")],
  observe=["macros of the generated header"])
p("C10", "Receive dispatches every id to exactly its frame",
  "For every set of frames with distinct ids and every 32-bit id presented, the generated receive function unpacks the payload into the struct of the frame with that id, leaves all other structs untouched, and returns that id; for an id that belongs to no frame it returns 0 and changes nothing. Frames without signals take no part.",
  ["inputs", "programs"], "all sets of frame ids (size, gaps, order in the file) and all received ids",
  NOGEN + "the binary search tree built over the ids is never executed.",
  [UG, CT], [("binary search tree over ids", UG + ":FillTreeLevel"), ("tree printing", CT + ":WriteCode")],
  observe=["generated *_Receive function, compiled and executed"])
p("C11", "Node drivers contain exactly the node's frames",
  "With per-node generation there is one receive/transmit driver for every node that sends or receives a frame: its transmit collection holds exactly the frames with signals that the node sends, as primary or additional transmitter, and its receive collection and receive function cover exactly those of which it receives at least one signal. Without it, one driver receives every frame that has signals.",
  ["inputs", "configurations"], "all assignments of transmitters and receivers for a bounded number of nodes, frames and signals",
  "No test runs the application class or the node driver generator.",
  [APP, UG, SC, LP], [("collection of nodes and groups", APP + ":GenerateCode"), ("receivers gathered from signals", SC + ":AddMessage"), ("additional transmitters", LP + ":ParseMultiTrans")],
  observe=["generated *-binutil.h/.c"])
p("C12", "Reception monitors report every received frame truthfully",
  "With monitors enabled, each unpack sets the frame's DLC error flag exactly when fewer bytes than the frame's DLC arrived, records the current system tick, increments the frame counter by one, and then calls the frame's monitor function exactly once with that frame's monitor and CAN id, after all fields and flags are up to date; in mono mode the single common monitor function gets these calls instead. Other frames' monitors never change.",
  ["histories", "configurations"], "all sequences of received frames, lengths and ticks, in both monitor modes",
  NOGEN + "monitors are stateful across receptions.",
  [MG, MO], [("monitor part of unpack", MG + ":WriteUnpackBody"), ("monitor function headers", MO + ":FillHeader")],
  state=[("mon1", "per frame monitor", "generated struct")],
  observe=["mon1 fields and FMon_* calls of generated code"])
p("C13", "Rolling counters advance and are checked correctly",
  "With automatic rolling enabled, each pack increments an unscaled rolling counter signal by one, wrapping at its bit width, before encoding it; on reception the roll error flag is set exactly when the received counter differs from the previously received one plus one (wrapped), so an undisturbed stream never raises it after the first frame and any lost, repeated or reordered frame does at once. This holds for every counter width and byte order, signed or not, in plain and bit-field structs.",
  ["histories", "inputs"], "all sender/receiver histories with losses, duplicates and reordering, all counter widths",
  NOGEN + "counter state spans many calls of two functions.",
  [MG, SC], [("pack increment", MG + ":PrintPackCommonText"), ("expected value check", MG + ":WriteUnpackBody"), ("marker recognition", SC + ":ParseOtherInfo")],
  state=[("X, X_expt", "sent and expected counter", "generated struct")],
  observe=["packed payloads, roll_error"])
p("C14", "Checksums are computed, placed and verified consistently",
  "With automatic checksums enabled, pack calls the user's hash over the complete payload with the checksum bits zero, passing the frame's DLC, CAN id and the method and option named in the DBC comment, and stores its result in the checksum bits without touching any other bit; unpack recomputes it over the received payload and sets the checksum error flag exactly when it differs from the received field. Every unscaled unsigned signal that lies within one byte can be the checksum, in any byte of frames of up to 64 bytes, wherever in its comment the marker stands; a marked signal of any other kind stays an ordinary signal.",
  ["inputs", "histories"], "all positions and widths of the checksum, all payloads, all marker texts, all corruptions of one payload",
  NOGEN + "checksum code is emitted only for marked signals.",
  [MG, SP, SC], [("checksum expression", SP + ":BuildCConvertExprs"), ("pack and unpack parts", MG + ":PrintPackCommonText/WriteUnpackBody"), ("marker parsing", SC + ":ParseOtherInfo")],
  observe=["packed payloads, csm_error, arguments seen by GetFrameHash"])
p("C15", "Generated sources compile in every configuration",
  "For every well-formed DBC file whose signals fit their frames, whatever the file is called, all generated sources compile without errors as C and as C++ under every combination of the driver's documented configuration switches, and the driver, its monitor source and its node drivers link into one program, whichever of the sources are compiled as C and which as C++.",
  ["configurations", "programs"], "all combinations of the switches, for DBC files covering every signal and frame feature",
  "The build compiles one committed generated driver in one configuration, not what the generator emits now.",
  [MG, MO, CF, UG], [("conditional sections", MG + ":Gen_MainHeader/Gen_MainSource"), ("configuration template", CF + ":FillHeader"), ("monitor sources", MO + ":FillHeader/FillSource")],
  observe=["compiler and linker verdict on generated sources"])
p("C16", "Configuration switches do not change the wire format",
  "Bit-field structs, the CAN-struct pack signature, monitors, physical values, automatic rolling and automatic checksums change only what they are documented to change: for equal field values every combination of switches packs every signal that no enabled feature drives to the same payload bits, and unpacks every payload to the same raw field values.",
  ["configurations", "inputs"], "all combinations of switches, all field values and payloads of frames covering every signal feature",
  NOGEN + "no two configurations are ever compared.",
  [MG], [("conditional sections", MG + ":WriteSigStructField/WriteUnpackBody/PrintPackCommonText")],
  observe=["payloads and fields, compared across configurations"])
p("C17", "A generation without rewrite never touches earlier results",
  "Without the rewrite option every generation puts all its files into a new numbered subdirectory (the lowest free number from 000) of the output path and changes no file that existed before; with it, the files are placed directly under the output path and replace those of earlier generations. With the driver-directory option the same happens below a subdirectory named after the driver, which is created if necessary.",
  ["histories", "configurations"], "all histories of generations, user edits and removals up to a depth, from every small initial directory state",
  "No test runs a generation, and the policy only shows over several of them.",
  [FS, APP], [("choice of the directory", FS + ":PrepareDirectory"), ("file paths", FS + ":Configure"), ("driver directory", APP + ":GenerateCode/CombinePath")],
  state=[("output directory tree", "what earlier generations and the user left there", "file system")],
  observe=["output directory tree after each run"])
p("C18", "Options select exactly the documented set of files",
  "For every combination of options the generator writes exactly the documented files, named after the lower-case driver name in their documented folders: the driver pair and monitor header always, the configuration headers, the common monitor header and the monitor source unless suppressed, and the binutil pair(s). A suppressed file is neither created nor, if present, modified, and no option changes the content of the files that are written other than the one that adds the generation date.",
  ["configurations"], "all option combinations, driver names and pre-existing files",
  "Only the parsing of one command line is tested, not what is generated for it.",
  [APP, MG, FS, UG], [("suppression of files", MG + ":Generate"), ("file names and folders", FS + ":Configure"), ("node drivers", APP + ":GenerateCode")],
  observe=["output directory tree"])
p("C19", "Generation is reproducible",
  "Without the date option, the same DBC text, driver name and options produce byte-identical files in every run: the result does not depend on the time, the time zone, the locale, the current or output directory, relative or absolute paths, memory contents, or on what an earlier run left in the place of a file that is rewritten.",
  ["configurations", "inputs"], "all combinations of environment variations, for DBC files covering every feature",
  "No generation is run by the tests, let alone twice.",
  [APP, MG, LP, FW], [("header text", APP + ":GenerateCode"), ("descriptor initialisation", SC + ":SetDefualtMessage"), ("file replacement", FW + ":Flush")],
  observe=["generated files"])
p("C20", "No DBC text makes the generator crash, hang or corrupt memory",
  "For every input text of realistic size, well-formed or damaged (truncated anywhere, with characters or lines missing, repeated or replaced, numbers out of range, names and texts of any length allowed by the format), the generator ends normally within bounded time, without a memory error or an uncaught exception.",
  ["inputs", "crash_points"], "all truncations and all single edits of feature-covering DBC files, all extreme numbers in every numeric position, all line sequences",
  "Tests parse a few well-formed lines only.",
  [LP, SC, SP, MG], [("line parsing", LP), ("scanner", SC), ("expression building within the payload", SP + ":PrintSignalExpr"), ("padding of struct fields", MG + ":WriteSigStructField")],
  observe=["exit status and sanitizer reports of the generator"])
p("C21", "The command line is interpreted as documented",
  "Generation happens exactly when a DBC path, an output path and a driver name with at least one identifier character are given and help is not requested, whatever the order, repetition (the last one counts) and mixture of arguments with unknown ones; otherwise help is printed and nothing is written. The driver name in all outputs is the given one reduced to a valid C identifier (blanks as underscores, other invalid characters dropped).",
  ["inputs"], "all argument vectors up to a length over an alphabet of known, unknown, repeated and value-less arguments, all short driver names",
  "One fixed argument vector is tested.",
  [OP, APP, FM], [("argument collection", OP + ":GetOptions"), ("decision", APP + ":AreParamsValid"), ("name reduction", FM + ":make_c_name")],
  observe=["printed output, files written"])
p("C22", "Signals that do not fit their frame are refused",
  "If a signal's bits do not all lie inside its frame's payload, or its length is not 1 to 64 bits, the generated driver does not compile; it never silently encodes or decodes different bits than the DBC file says. A signal that does fit is never refused.",
  ["inputs"], "all (order, start, length, frame length) around the payload boundaries, and out-of-range numbers",
  NOGEN + "an off-by-one in the boundary check is invisible.",
  [SP, LP], [("payload boundary checks", SP + ":PrintSignalExpr"), ("numeric conversion of start and length", LP + ":ParseSignalLine")],
  observe=["compiler verdict on the generated driver"])
p("C23", "A file that cannot be written does not spoil the others",
  "If any one of the output files cannot be opened or written completely, every other file of that generation is still byte-identical to that of an undisturbed generation, and the generator ends normally; short writes alone change nothing.",
  ["fault_sequences"], "every single fault and every pair of faults at each file open and write of a generation",
  "Tests never write a file.",
  [FW], [("buffer flushed to file", FW + ":Flush")],
  state=[("strm", "text buffer shared by consecutive files", FW)],
  observe=["output files under injected faults"])
p("C24", "Interrupted and concurrent generations keep earlier results safe",
  "A generation without rewrite that is killed at any point leaves all earlier generated directories unchanged, and the next generation still succeeds in a fresh directory. Generations running at the same time into the same output path, under any interleaving of their file system operations, each end with a complete result in a directory of their own.",
  ["schedules", "crash_points"], "every crash point of a run; all interleavings of the directory operations of two (bounded: three) concurrent runs",
  "No test runs two generations, and races depend on interleavings of system calls.",
  [FS, FW], [("search for a free directory", FS + ":PrepareDirectory")],
  state=[("numbered directories", "claimed by mkdir", "file system")],
  observe=["output directory trees"])
p("C25", "Drivers of several DBC files coexist in one program",
  "Drivers generated from different DBC files under different driver names compile and link into one program, in every configuration and with their headers included together when their frame names differ, and each behaves as it does alone.",
  ["programs", "configurations"], "pairs of drivers, all configuration switches, both include orders",
  "The build never links two generated drivers (nor one).",
  [MG, MO, UG, FS], [("driver-specific names of functions and switches", FS + ":Configure"), ("monitor functions", MO)],
  observe=["compiler, linker and behaviour of a program with two drivers"])
p("C26", "Sources of different DBC versions refuse to be combined",
  "Driver source, and node driver source, compile together with a driver header exactly when both were generated from DBC files with the same version; any difference in either version number stops the compilation with an error.",
  ["inputs"], "all pairs of versions over a small alphabet of major and minor numbers",
  "No version check is compiled by a test other than with equal versions.",
  [MG, UG, FS], [("version check in driver source", MG + ":Gen_MainSource"), ("version check in binutil", UG + ":PrintSource")],
  observe=["compiler verdict on mixed sources"])
p("C27", "File layout details that carry no meaning do not change the driver",
  "Listing the frames, the signals of a frame, or the annotation statements in another order, using CRLF instead of LF line ends, adding trailing blanks, blank lines or unrelated statements, or omitting the final line end changes neither the behaviour nor the interface of the generated driver.",
  ["inputs", "programs"], "all permutations of small files and all single neutral edits",
  "Tests never scan a file.",
  [SC, LP, MG, UG, FM], [("line trimming", FM + ":str_trim"), ("sorting of frames and signals", MG + ":Generate and " + SC + ":AddMessage")],
  observe=["generated files"])
p("C28", "The generated C means the same to every compiler",
  "For every layout, payload, field value and configuration the generated functions execute no undefined behaviour (no overlong shift, signed overflow, misaligned or out-of-range access) and give the same results with every compiler, optimisation level, signedness of char, and C or C++ standard. Presumed are sign-extension types wide enough for the signals and physical results within 64 bits.",
  ["inputs", "programs", "configurations"], "all layouts, payloads and field values, compiled by every installed compiler at several standards and optimisation levels",
  NOGEN + "an undefined shift or a misaligned access may work with the compiler and options at hand and fail with the next ones.",
  [SP, MG, MO], [("bit-to-C expression builder", SP + ":PrintSignalExpr"), ("physical conversion expressions", SP + ":PrintPhysicalToRaw"), ("struct and function bodies", MG)],
  observe=["sanitizer reports and results of the generated functions under several compilers"])
p("C29", "Generated functions keep no state of their own",
  "Unpack, pack and receive write nothing but the struct and the output buffer they are given, and the payload handed to unpack stays untouched. Calls on different structs, in any order and with any call interrupted at any point by others (interrupts, threads), therefore end exactly as each does by itself.",
  ["schedules", "histories", "configurations"], "all interruptions of every generated function by every other at every memory access, nested twice; all orders of call histories on two structs",
  NOGEN + "a call that is interrupted by another one in the middle cannot be written as a unit test at all.",
  [MG, UG, MO, SP], [("pack and unpack bodies", MG + ":WriteUnpackBody, PrintPackCommonText"), ("sign extension helper", MG + ":extend_func_body"), ("receive function", UG + ":PrintSource")],
  observe=["contents of the structs and buffers, return values and monitor calls of the generated functions; addresses they write"])
p("C30", "The header describes signals and conversions truthfully",
  "The comment beside every signal's field names the length in bits, the sign, the factor, the offset and the unit which the DBC file states, and marks the multiplexor and the multiplexed signals, in plain and in bit-field structs; the frame's id comment names its id. CovFactor, toS and fromS are the factor and the two directions of the conversion, also for arguments that are expressions. Every file that names its DBC file names the right one.",
  ["inputs", "programs", "configurations"], "all combinations of length, sign, byte order, factor, offset, unit and multiplexing role",
  NOGEN + "a number printed through a narrower type, or a comment that belongs to the neighbouring signal, compiles and runs as before.",
  [MG, SP, APP], [("field comments and conversion macros", MG + ":WriteSigStructField"), ("macro expressions", SP + ":PrintPhysicalToRaw"), ("file comments", APP + ":GenerateCode")],
  observe=["generated header, its comments and macros"])
p("C31", "The configuration header offers and controls every switch",
  "The generated configuration header offers, as a commented #define, every switch which the generated sources of the driver ask for. Uncommenting any subset of them there, or defining it in dbccodeconf.h, gives all of the driver's sources the same meaning as defining it on the compiler's command line; each switch has the effect of its own and none on another driver.",
  ["configurations", "programs"], "all subsets of the switches, all places to define them, several networks and option sets",
  NOGEN + "a switch that is tested before the file which defines it has been included works on the command line and fails in the header.",
  [CF, MG, UG, MO], [("switches offered", CF + ":FillHdr"), ("includes and switches of the sources", MG + ":Gen_MainHeader, Gen_MainSource, Gen_FMonHeader"), ("switches of the receive function", UG + ":PrintHeader")],
  observe=["generated files after the preprocessor"])
p("C32", "A DBC file that cannot be read never becomes a driver",
  "If the DBC file is missing, is not a file that can be read, or reading it fails at any point, the generator ends in an orderly way, without writing, changing or removing a file of an earlier generation. If it can be read, even if in small pieces or with interruptions, or by another path to the same file, the output is that of the undisturbed generation.",
  ["fault points", "inputs"], "every failure of every system call that looks at, opens, reads or seeks the DBC file, alone and in pairs; every length of short reads; every kind of object in the file's place",
  NOGEN + "no test makes an operation of the system fail; a failed read looks like the end of the file.",
  [APP, SC], [("reading of the DBC file", APP + ":GenerateCode"), ("two passes over the text", SC + ":TrimDbcText")],
  observe=["output directory and exit status of coderdbc"])
p("C33", "Nodes built from one DBC file understand each other",
  "In a network whose nodes use the drivers generated for them from one DBC file, every frame that a node packs arrives, once delivered, at exactly the nodes which receive one of its signals, with the raw and physical values that the sender packed, in every configuration and after every history of frames sent, lost, repeated, delayed, shortened, altered or misaddressed. With monitors and the automatic features on, the counter, checksum and DLC flags of every receiver stay clear in an undisturbed stream and tell each disturbance as documented. A node's reception and transmission of one frame never touch its other frames.",
  ["histories", "inputs"], "all histories of bus events up to depth 3 or 4 over several networks, under every combination of the switches; long streams in which every counter wraps",
  NOGEN + "no test runs the generated code of two nodes against each other, let alone over a channel that loses and alters frames.",
  [MG, UG, SP], [("receive function and collections of a node", UG + ":PrintSource"), ("pack and unpack with monitors, counter and checksum", MG + ":WriteUnpackBody")],
  observe=["generated node drivers, compiled and run against each other"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
