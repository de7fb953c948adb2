#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os
L='lib/source/'; I='lib/include/spvgentwo/'; C='common/source/'; CI='common/include/common/'
def P(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
props=[
P("P01","Well-typed programs serialize to valid SPIR-V",
 "Every program assembled through well-typed uses of the building interface (types, constants, variables, functions, blocks, arithmetic, conversion, composite, matrix, memory, image, bit, derivative, GLSL and control-flow instructions) serializes to a module that the reference SPIR-V validator accepts for the version it declares. No instruction of such a program is silently dropped or replaced by an error placeholder, types and constants precede their uses however the calls are ordered, and the logger receives no error about it.",
 ["programs"],"every sequence of well-typed building calls, over all operand types, widths, vector sizes, storage classes and SPIR-V versions",
 "the unit tests build about twenty fixed shaders; typing rules interact with operand types and nesting in unboundedly many ways",
 [L+"Instruction.cpp",I+"InstructionTemplate.inl",L+"TypeInferenceAndValiation.cpp",L+"Module.cpp",L+"Type.cpp",L+"GLSL450Instruction.cpp"],
 [("result type inference",L+"TypeInferenceAndValiation.cpp"),("typed instruction builders",L+"Instruction.cpp"),("module serialization",L+"Module.cpp")]),
P("P02","Built instructions carry exactly the requested operation and operands",
 "Every well-typed building call appears in the serialized module as one instruction with the requested opcode, the supplied operands in the supplied order, bit-exact literals, and the result type that the SPIR-V specification prescribes for those operand types.",
 ["programs"],"every building call with every admissible combination of operand types and literal values",
 "a swapped operand, a wrong opcode or a wrong but still valid result type passes a validity check and shows only for particular operand types",
 [L+"Instruction.cpp",I+"Instruction.h",I+"InstructionTemplate.inl",L+"TypeInferenceAndValiation.cpp",L+"Operand.cpp",L+"GLSL450Instruction.cpp"],
 [("operand emission",I+"InstructionTemplate.inl"),("result type inference",L+"TypeInferenceAndValiation.cpp"),("image operations",I+"InstructionTemplate.inl")]),
P("P03","Built programs compute what the building calls describe",
 "Executing a built program under SPIR-V semantics yields the values that the sequence of building calls describes: the generic arithmetic, comparison and logical operators pick the operation that fits the operand types, conditionals run exactly the taken branch, loops run the body and the continue step until the condition is false, and calls pass arguments and results unchanged.",
 ["programs","inputs"],"all nested structured programs built from the generic operators, If, Loop, variables and function calls, and all input values",
 "control-flow shape, operand signedness and nesting multiply; the tests compare nothing against an execution",
 [L+"BasicBlock.cpp",I+"BasicBlockTemplate.inl",L+"Instruction.cpp",L+"Operators.cpp",L+"Function.cpp"],
 [("structured control flow",I+"BasicBlockTemplate.inl"),("generic operators",L+"Instruction.cpp"),("operator overloads",L+"Operators.cpp")]),
P("P04","Serialized modules obey the SPIR-V binary layout",
 "Every serialized module starts with the five-word header carrying magic, version, generator, bound and schema; every instruction's leading word states its exact length; instructions appear in the logical section order of the specification; and every result id is non-zero, defined once and below the bound, with every used id defined.",
 ["programs"],"every module that the building interface can produce, whatever the order in which its parts were added",
 "section order and bound depend on the order in which the caller adds parts, which tests fix",
 [L+"Module.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"Instruction.cpp",L+"Operand.cpp"],
 [("module writer",L+"Module.cpp"),("instruction writer",L+"Instruction.cpp")]),
P("P05","Reading a module and writing it back preserves it",
 "A valid SPIR-V binary that is read succeeds, and writing it back yields the same module: same header version, same instructions, same operands in the same order (the order of capabilities, extensions and imports, and section grouping, may be canonicalised; ids may only be renamed consistently if ids are reassigned).",
 ["inputs","programs"],"every valid module over the supported instruction grammar, including enum parameters, optional and repeated operands, strings and wide literals",
 "the grammar has several hundred instructions with optional, repeated and parameterised operands; the sample binaries cover a small part",
 [L+"Module.cpp",L+"Instruction.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"Grammar.cpp",I+"Grammar.h"],
 [("binary reader",L+"Instruction.cpp"),("section dispatch",L+"Module.cpp")]),
P("P06","Arbitrary bytes never crash the reader",
 "For any input bytes, reading terminates without memory errors or undefined behaviour and either reports failure or yields a module that can be printed and written without memory errors.",
 ["inputs","fault_sequences"],"every byte string, in particular truncated, spliced and bit-flipped modules",
 "malformed inputs are unbounded; tests feed well-formed files only",
 [L+"Module.cpp",L+"Instruction.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"Type.cpp",L+"Constant.cpp",C+"ModulePrinter.cpp"],
 [("operand parsing",L+"Instruction.cpp"),("type and constant reconstruction",L+"Module.cpp")]),
P("P07","Types are declared once and described faithfully",
 "Requesting structurally equal non-aggregate types, or any structurally equal types through the building interface, yields the same declaration, structurally different types never share one, and the description obtained from a declaration (also after writing and re-reading the module) equals the description it was created from.",
 ["histories","inputs"],"every sequence of type requests over all nested type descriptions, in any order, before and after a round trip",
 "de-duplication depends on hashing and on the history of earlier requests",
 [L+"Type.cpp",I+"Type.h",L+"Module.cpp"],
 [("type lookup",L+"Module.cpp"),("type hashing and equality",L+"Type.cpp")]),
P("P08","Constants are declared once and encode their exact value",
 "Requesting equal ordinary constants yields one declaration, different values or types never share one, specialization constants are never merged (a specialization composite may have ordinary constituents), and the emitted words encode the value bit-exactly for every scalar width, vector, matrix, array, struct and null constant, also after writing and re-reading.",
 ["histories","inputs"],"every sequence of constant requests over all types and bit patterns, including NaN, negative zero and narrow integers",
 "value encoding and de-duplication depend on bit patterns and history",
 [L+"Constant.cpp",I+"Constant.h",L+"Module.cpp"],
 [("constant lookup",L+"Module.cpp"),("literal encoding",I+"Constant.h")]),
P("P09","Names and literal strings survive unchanged and find their owner",
 "Any UTF-8 string given as a name of an instruction declared by that call, as a member name, entry point name (non-empty), source text, extension or import name is serialized as a correctly terminated and padded literal with exactly those bytes, is returned unchanged when asked for by its owner (also after re-reading), and looking an instruction up by name returns an instruction carrying exactly that name.",
 ["inputs","histories"],"all strings of any length modulo the word size and all assignments of names to instructions and members",
 "word-boundary padding, prefixes and many-to-one name maps need generated strings and name sets",
 [L+"Module.cpp",L+"String.cpp",I+"InstructionTemplate.inl",L+"Instruction.cpp",L+"EntryPoint.cpp"],
 [("literal strings",L+"Instruction.cpp"),("name lookup",L+"Module.cpp")]),
P("P10","Entry point interfaces list exactly the globals they can reach",
 "After finalization an entry point's interface lists, without duplicates, exactly the global variables referenced by its body or by any function it can call, directly or transitively: only inputs and outputs for versions up to 1.3, every global storage class from 1.4 on.",
 ["programs","configurations"],"all call graphs including recursion and shared callees, all placements of references among operands, both version rules",
 "requires reachability over generated call graphs and variables referenced at arbitrary operand positions",
 [L+"EntryPoint.cpp",L+"Function.cpp",L+"Module.cpp"],
 [("reference collection",L+"Function.cpp"),("interface finalization",L+"EntryPoint.cpp")]),
P("P11","Linking resolves imports with the exported definition",
 "Linking a library into a consumer with all import permissions granted succeeds whenever each import has a matching export, turns every imported function into a definition whose body is the library's body up to id renaming (with the functions, globals, types, constants, names and decorations it depends on, each brought over once; types and ordinary constants equal to ones of the consumer may be shared), leaves the rest of the consumer unchanged, removes the resolved import decorations, and yields a valid module.",
 ["programs","histories"],"all library and consumer pairs with overlapping types, shared globals, call chains and control flow",
 "dependency closure and de-duplication against existing consumer content depend on both modules",
 [C+"LinkerHelper.cpp",CI+"LinkerHelper.h",C+"ReflectionHelper.cpp",C+"FunctionCallGraph.cpp"],
 [("instruction transfer",C+"LinkerHelper.cpp"),("import",C+"LinkerHelper.cpp")]),
P("P12","Linking without permission or with mismatched symbols fails visibly",
 "Linking reports failure, without memory errors, when an import and export of the same name differ in kind or type or when something needed may not be imported under the given options, leaves that import unresolved, and each option affects only what it names: unresolved imports keep the linkage capability and linkage capability is removed exactly when asked for, nothing is left to link and the module has an entry point.",
 ["configurations","programs"],"all subsets of options and all matching and mismatching symbol pairs",
 "there are thousands of option subsets; tests use one",
 [C+"LinkerHelper.cpp",CI+"LinkerHelper.h"],
 [("option flags",CI+"LinkerHelper.h"),("symbol type check",C+"LinkerHelper.cpp")]),
P("P13","Required capabilities, extensions and version are added",
 "After finalizing with a grammar (or asking for the requirements one by one), the module declares at least one capability that enables each instruction it contains, core or of an extended instruction set (declared before, declared by the scan, or implied by a declared one), an extension for each instruction that needs one, and a version not lower than the lowest that permits every instruction; nothing that is already declared is lost or declared twice, nothing is added that no instruction of the module needs, and the base capabilities implied by a capability are those of the specification.",
 ["programs","configurations"],"all sets of instructions and enumerants and all initial capability sets",
 "needs the full grammar cross product rather than the few capabilities tests exercise",
 [L+"Module.cpp",I+"SpvDefines.h",L+"Grammar.cpp",I+"Grammar.h"],
 [("requirement scan",L+"Module.cpp"),("base capabilities",I+"SpvDefines.h")]),
P("P14","The instruction grammar agrees with the official SPIR-V grammar",
 "For every opcode, extended instruction and enumerant known to the grammar, name, operand kinds, quantifiers, order, enum parameters, result presence and, for instructions, capabilities, extensions and minimum version equal those of the official SPIR-V grammar of its revision.",
 ["inputs"],"every opcode, extended instruction and enumerant value",
 "tables of several thousand entries of which tests touch a handful",
 [L+"Grammar.cpp",I+"Grammar.h",I+"Spv.h"],
 [("grammar tables",L+"Grammar.cpp"),("result classification",I+"Spv.h")]),
P("P15","Disassembly names every instruction and operand correctly",
 "Printing a module emits, in module order, one line per instruction with its result id, its official mnemonic, and every operand in order: ids as ids (or names), enumerants by official name (combined bit masks as a number), literals by value, strings verbatim; print options change only the part they name.",
 ["programs","configurations"],"all modules over the grammar and all option sets",
 "operand layout varies per instruction and enumerant",
 [C+"ModulePrinter.cpp",CI+"ModulePrinter.h"],
 [("operand printing",C+"ModulePrinter.cpp")]),
P("P16","Reflection reports what the module declares",
 "Queries for workgroup size, globals by storage class, decorations and names of a target, targets of a decoration with or without a value, decoration kinds and literals return exactly what an independent scan of the module's declarations finds, in module order, and unnamed scalar, vector, matrix, array and pointer types are named after their structure.",
 ["programs"],"all sets of globals, decorations and member decorations, interleaved in any order",
 "depends on combinations of decorations with and without operands and on members",
 [C+"ReflectionHelper.cpp",CI+"ReflectionHelperTemplate.inl"],
 [("decoration queries",C+"ReflectionHelper.cpp")]),
P("P17","Vulkan interface classification follows the Vulkan rules",
 "Every execution model maps to its Vulkan shader stage bit, and every resource variable maps to the Vulkan descriptor type that its type, storage class, image dimension and sampled flag prescribe, including samplers and images combined on one set and binding.",
 ["inputs","configurations"],"all execution models and all combinations of resource type, dimension, sampled flag, storage class and binding overlap",
 "a cross product no test enumerates",
 [C+"VulkanInterop.cpp",CI+"VulkanInterop.h"],
 [("descriptor classification",C+"VulkanInterop.cpp")]),
P("P18","Id assignment is compact, deterministic and repeatable",
 "Assigning ids gives the results of a module the consecutive numbers from 1 with the bound one above the largest, the same sequence of building calls always yields the same bytes, finalizing or writing again changes nothing, and resolving ids to references followed by reassignment yields an isomorphic module.",
 ["programs","histories"],"all modules and all repetitions of finalize, write, resolve and assign",
 "determinism and idempotence quantify over programs and repeated operations",
 [L+"Module.cpp",L+"Instruction.cpp",I+"Module.h"],
 [("id assignment",L+"Module.cpp"),("id resolution",L+"Module.cpp")]),
P("P19","Editing a module changes exactly what was asked for",
 "Replacing the uses of a result redirects every operand that referred to it (other than as result type) and nothing else, gathering uses lists exactly the using instructions, removing an instruction, function or block removes exactly it, moving a module preserves its content and leaves it editable, and reset leaves an empty reusable module.",
 ["histories"],"all sequences of edits on generated modules",
 "effects of edits on cross-references need histories and a model",
 [L+"Module.cpp",L+"BasicBlock.cpp",L+"Function.cpp",L+"Instruction.cpp"],
 [("use replacement",L+"Module.cpp"),("removal",L+"Module.cpp"),("move",L+"Module.cpp")]),
P("P20","The linked list behaves as a sequence",
 "Under any sequence of construction, insertion, emplacement, erasure, copying, moving, filtering, searching and iteration in both directions, the linked list holds exactly the elements a reference sequence holds, in the same order, constructs and destroys each element exactly once, and returns all its memory.",
 ["histories"],"all operation sequences and element values",
 "pointer surgery at head, tail and on empty lists depends on history",
 [I+"List.h",I+"Entry.h",I+"EntryIterator.h"],
 [("list operations",I+"List.h")]),
P("P21","Vectors and strings behave as contiguous sequences",
 "Under any sequence of appending, insertion, reserving, copying, moving, concatenation, comparison, search, substring and clearing (for vectors also resizing and assignment), the vector and the string hold exactly the elements a reference sequence holds, stay within their capacity, keep strings terminated, and construct and destroy each element exactly once.",
 ["histories","inputs"],"all operation sequences, lengths and capacities",
 "growth and aliasing errors appear only at particular sizes and capacities",
 [I+"Vector.h",I+"String.h",L+"String.cpp"],
 [("vector operations",I+"Vector.h"),("string operations",L+"String.cpp")]),
P("P22","The hash map behaves as a map",
 "Under any sequence of unique and multi insertion, lookup, erasure, moving, clearing and iteration, the hash map holds exactly the entries a reference (multi)map holds (keys without hash collisions), finds a key if and only if it is present, iterates every entry once, reports the correct count, and returns all its memory.",
 ["histories"],"all operation sequences, key sets with colliding buckets, and bucket counts",
 "bucket collisions and interleaved duplicates depend on history",
 [I+"HashMap.h",I+"HashMapIterator.h",I+"FNV1aHasher.h"],
 [("map operations",I+"HashMap.h")]),
P("P23","Allocators are used and behave correctly",
 "Every block a module obtains from its allocator is returned to it exactly once with its original size, no block is used after its return, two modules with different allocators never mix them, and the fixed-capacity allocators hand out aligned, disjoint blocks inside their buffer and report exhaustion instead of overflowing.",
 ["histories","fault_sequences"],"all building, reading, linking and editing histories, and all request sequences up to and past exhaustion",
 "leaks and overruns depend on the whole history and on sizes and alignments",
 [I+"Allocator.h",L+"Allocator.cpp",CI+"ExternalMemoryAllocator.h",C+"ExternalMemoryAllocator.cpp",C+"HeapAllocator.cpp",L+"Module.cpp"],
 [("fixed-capacity allocation",C+"ExternalMemoryAllocator.cpp"),("alignment",L+"Allocator.cpp")]),
P("P24","Program graphs mirror the program",
 "The control-flow graph of a function has one node per block and one edge per branch target in branch order, the call graph has one node per reachable function and one edge per call site including recursion, and after any sequence of connecting, disconnecting and erasing nodes a graph's inputs and outputs stay mutually consistent; evaluating an expression graph runs every node it depends on exactly once and inputs first.",
 ["programs","histories"],"all functions, call structures and edit sequences",
 "graph shapes with loops, parallel edges and sharing are not covered by fixed tests",
 [CI+"Graph.h",CI+"Node.h",CI+"ControlFlowGraph.h",CI+"FunctionCallGraph.h",C+"FunctionCallGraph.cpp",CI+"ExprGraph.h"],
 [("control flow graph",CI+"ControlFlowGraph.h"),("call graph",C+"FunctionCallGraph.cpp"),("expression evaluation",CI+"ExprGraph.h")]),
P("P25","Ill-typed building calls are rejected without damage",
 "A building call of an operation that checks its operands (conversion, arithmetic, comparison, logic, vector, matrix and composite operations, derivatives, GLSL instructions, loads, stores, copies, access chains, pointer comparisons, array lengths, image sampling, access and queries, returned values) whose operand types the SPIR-V specification does not allow yields the error placeholder and leaves no malformed instruction that changes the meaning of the remaining module: after removing the rejected call the module is still serializable and valid.",
 ["inputs","programs"],"all mismatching operand type combinations for the arithmetic, comparison, logical, matrix, image and memory calls",
 "the set of wrong combinations is far larger than the set of right ones",
 [L+"Instruction.cpp",L+"TypeInferenceAndValiation.cpp",I+"InstructionTemplate.inl"],
 [("operand checks",L+"Instruction.cpp")]),
P("P26","The command line tools report success and failure truthfully",
 "The disassembler, reflector and linker exit with zero exactly when they did what was asked for, with non-zero otherwise (unreadable, malformed or unlinkable input), never crash, never modify their inputs, and the module that the disassembler re-serializes or the linker writes is the one the library produces; the file reader and writer beneath them report exactly the words a file holds and lose none that they accepted.",
 ["inputs","configurations","fault_sequences"],"all input files, option combinations and missing or damaged files",
 "tests run the disassembler on a few good files only",
 ["dis/source/dis.cpp","refl/source/refl.cpp","link/source/link.cpp",C+"BinaryFileReader.cpp",C+"BinaryFileWriter.cpp"],
 [("disassembler","dis/source/dis.cpp"),("reflector","refl/source/refl.cpp"),("linker","link/source/link.cpp")]),
P("P27","Type-erased callables behave like the function they hold",
 "A callable built from a function, member function or function object returns what the held target returns for the same arguments, stays callable after copying and moving and reassigning, compares as empty exactly when it holds nothing, and destroys each held object exactly once.",
 ["histories","inputs"],"all sequences of construction, copy, move, assignment, reset and invocation",
 "ownership errors depend on the operation history",
 [CI+"Callable.h",CI+"HeapCallable.h"],
 [("callable storage",CI+"Callable.h")]),
P("P28","Damaged binaries are refused",
 "Reading fails (read, resolveIDs or readAndInit returns false) for a binary with a wrong magic number, that ends within the header, an instruction or a function, that contains an instruction with a word count of zero, too few or too many operands, an unknown opcode or an unterminated string, that refers to an id nothing defines, defines an id twice or an id of zero, whose functions lack their end or first label, that has instructions of function bodies outside of functions or module level declarations inside; intact modules are accepted and all memory is returned either way.",
 ["inputs"],"all single damages of these kinds at any place of any module",
 "tests read a few intact files; whether a damage is noticed depends on the instruction and the place it hits",
 [L+"Module.cpp",L+"Instruction.cpp",L+"Function.cpp",L+"BasicBlock.cpp"],
 [("Module::read, resolveIDs",L+"Module.cpp"),("Instruction::readOperands",L+"Instruction.cpp")]),
P("P29","Queries about types answer what the type is",
 "For every type: each query of Type (what it is, equality, base type and sign, vectors and matrices of given size, width and sign, square, shape comparison of two types, component widths, element and nested element types, contained types, what a composite is made of) answers as the structure of the type says, types derived from it (wrapped, unwrapped, with another sign, as member, moved) are the ones their names promise and leave the original alone, types derived from C++ types have that type's kind, size and signedness, and types of image formats have the format's component count, width and kind.",
 ["inputs"],"all types up to a nesting depth, pairs of types, all arguments of the queries",
 "inference, validation and rejection of calls all rest on these queries; tests reach a few of them on three or four types",
 [L+"Type.cpp","lib/include/spvgentwo/Type.h"],
 [("Type",L+"Type.cpp"),("Type::make",'lib/include/spvgentwo/Type.h')]),
P("P30","Queries about a read module agree with its content",
 "After a binary was read, iteration visits every instruction exactly once, and every query answers what the binary says: header fields; operation, word count, result, result type, first operand, classification, storage class, enclosing function and block of every instruction; parameters, control, blocks, terminators and branch targets of functions; model, name and interface of entry points; capabilities, extensions and imports; lists of the module; instruction by id and uses of an id; and the operand of an instruction that has a given name or kind in the grammar, including extended instructions, null where there is none.",
 ["inputs"],"all instructions of the grammar with any operands in any module",
 "tests read a few files and ask almost nothing; the answers depend on operand layouts of some 700 instructions",
 [L+"Instruction.cpp",L+"Module.cpp",L+"Function.cpp",L+"EntryPoint.cpp","common/source/GrammarHelper.cpp"],
 [("Instruction",L+"Instruction.cpp"),("getOperandByName, getFirstOperandOfKind","common/source/GrammarHelper.cpp"),("Module::gatherUses, getInstructionById",L+"Module.cpp")]),
P("P31","Helpers that prepare modules for linking change exactly what they name",
 "Decorating a function or global variable for linkage adds exactly one linkage decoration with the given type and name, and is refused without effect for anything else. Exporting or importing the global variables a function uses decorates exactly the global variables which that function or any function it calls, directly or not, references, each under its names, and reports failure when one has no name. Removing a function body leaves a declaration with the same signature and drops exactly the names and decorations of instructions of that body; other targets of a decoration group keep theirs, and everything else in the module is untouched. The linkage type, symbol and name of a decoration are told back as they were written, whether built or read.",
 ["inputs","histories"],"all modules, functions, variables, names, call graphs and groups",
 "tests prepare one or two functions with one name each; what must stay untouched is everything else in any module",
 ["common/source/LinkerHelper.cpp",L+"Module.cpp",L+"Function.cpp"],
 [("addLinkageDecoration, addLinkageDecorateForUsedGlobalVariables, removeFunctionBody, getLinkageTypeFromDecoration","common/source/LinkerHelper.cpp")]),
P("P32","Utility types behave like their plain reference",
 "A flag holds exactly the bits put into it and answers any, none, all and emptiness accordingly. A logger hands a message to its callback, with the text unchanged, exactly when a callback is set and its filter lets the level through; the console logger prints it under the name of its level. The hash is 64 bit FNV-1a over the bytes given to it in order. Instruction words, versions and generator ids are composed of and taken apart into their fields. A scoped allocation is returned exactly once, also after being moved, and aligning stays within the buffer. Containers on the heap allocator hold what they were built from, by whichever way of construction, copy, move or assignment. The container algorithms visit each element once in order, stop as soon as the answer is known, and yield the images of the elements. Word writers and file readers transfer exactly the words, or the part of the file, asked for and report failure otherwise.",
 ["inputs","histories"],"all values, all sequences of operations on flags, loggers, allocations, heap containers, readers and writers",
 "tests use these types in passing with one or two values",
 ["lib/include/spvgentwo/Flag.h","lib/include/spvgentwo/Logger.h","lib/include/spvgentwo/FNV1aHasher.h","lib/include/spvgentwo/Allocator.h","lib/include/spvgentwo/SpvDefines.h",CI+"Algorithms.h",CI+"HeapVector.h",CI+"HeapList.h",CI+"HeapString.h",CI+"HeapHashMap.h",CI+"BinaryVectorWriter.h",C+"ConsoleLogger.cpp",C+"BinaryFileReader.cpp",C+"BinaryFileWriter.cpp"],
 [("Flag","lib/include/spvgentwo/Flag.h"),("ILogger::log","lib/include/spvgentwo/Logger.h"),("FNV1aHasher","lib/include/spvgentwo/FNV1aHasher.h"),("algo::transform, any, all",CI+"Algorithms.h"),("HeapVector",CI+"HeapVector.h")]),
P("P33","Analysing, editing and linking any module the reader accepts never crashes",
 "Whatever binary the reader accepts, valid SPIR-V or not, every analysis of it (printing, reflection, decorations and names, control flow and call graphs, types and constants, operands by name or kind, variables referenced by a function), every edit of it (removing bodies, adding linkage decorations, preparing entry points, required capabilities, assigning ids, writing) and linking any two such modules with any options ends, without touching memory it does not own, without undefined behaviour and with all memory returned. Bodies that something outside refers to are not removed. What cannot be linked is refused.",
 ["inputs","histories"],"all accepted binaries, in particular those whose operands exist but are of the wrong kind, all pairs of them, all linker options",
 "tests analyse and link a few valid modules; the failures sit where a valid looking module breaks an assumption of one analysis",
 ["common/source/LinkerHelper.cpp","common/source/ReflectionHelper.cpp","common/include/common/ReflectionHelperTemplate.inl","common/source/VulkanInterop.cpp","common/source/ModulePrinter.cpp","common/source/TypeHelper.cpp","common/source/GrammarHelper.cpp",L+"Module.cpp"],
 [("LinkerHelper::import, removeFunctionBody","common/source/LinkerHelper.cpp"),("getNamesFunc, getDecorationsFunc","common/include/common/ReflectionHelperTemplate.inl"),("ControlFlowGraph","common/include/common/ControlFlowGraph.h")]),
]
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for p in props:
            assert len(p["title"])<=80,p["id"]
            f.write(json.dumps(p)+"\n")
