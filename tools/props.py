# single source of properties.jsonl and MANIFEST.json (run tools/gen.py)
P = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, level=level))
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None); NA.append((id, reason))

prop('C01', 'Importing a module rebuilds exactly what its symbol file exported',
 'A client that imports a module sees exactly the interface the module exported: every constant value, variable, type, record layout, field, method, procedure signature and inline code text read back from the symbol file equals what was written, with the same access rights. The reader consumes exactly the items the writer produced, for every kind of exported item, and a file is only accepted with the tag and version the writer puts in it.',
 ['programs'], 'over every exportable declaration (kinds, type forms, nesting, access rights) and both first import and re-import over a known type',
 'The confidence tests import a few library modules; an attribute that is dropped, truncated or misread only for a rare kind of declaration (64-bit constants, read-only fields, code procedures) compiles and passes.',
 ['src/compiler/OPT.Mod', 'src/compiler/OPM.Mod'],
 [('symbol file writer', 'OPT.OutObj, OutStr, OutSign, OutFlds, OutTProcs, OutConstant'), ('symbol file reader', 'OPT.InObj, InStruct, InSign, InFld, InTProc, InConstant'), ('symbol file primitives', 'OPM.SymW*, OPM.SymR*, NewSym, OldSym')],
 'trace-partitioned abstract interpretation of the symbol-file writer composed with the reader (item words and rebuilt attributes compared)',
 'Every writer path per declaration kind is replayed through the reader; nested types and subtrees are assumed by induction, lists to two elements plus a uniform body.')

GENF = ['src/compiler/OPV.Mod', 'src/compiler/OPC.Mod', 'src/compiler/OPM.Mod']
GT = 'abstract interpretation of the code generator on a syntax-tree node with opaque operands; the extracted C text is parsed and interpreted with the typing and conversion rules of C'
GN = 'Operand texts are abstract, so one template stands for all operands (structural induction over the tree); the run-time macros used by a template mean what the R properties establish.'
prop('C02', 'The C expression written for every operator computes that operator',
 'For every operator, predefined function, type conversion and SYSTEM function, every operand type and size and every check option, the C expression the compiler writes denotes exactly the operation of the language on its operands: right operation, operand order, width (no narrowing or premature rounding in C arithmetic), signedness, set size, range check bounds; operands keep their grouping whatever operators they contain; an operand that may have side effects is never handed to a macro that evaluates it twice; every character, string, set and integer constant and case label is written so that C reads back the same value.',
 ['programs'], 'over all operators, functions and conversions, all operand types and sizes, all combinations of check options, all nestings of expressions, all constant values',
 'A template that is wrong for one operand type, size or nesting compiles and passes unless a test happens to use that combination with a value that shows it.',
 GENF, [('expressions', 'OPV.expr, Convert, SizeCast, Entier, Precedence, SideEffects'), ('constants', 'OPC.Constant, CharacterLiteral, StringLiteral, Case, OPM.WriteInt, WriteHex, WriteReal')], GT, GN)

prop('C03', 'The C written for a variable denotes that variable, in every scope',
 'For every kind of variable and parameter (value, VAR, open array of any dimension, record, pointer, procedure; named or anonymous type), used in its own procedure or in procedures nested to any depth, the C the compiler writes for it denotes exactly its storage, with its C type, its run-time lengths and its dynamic type; entering a procedure copies value arrays completely and links its scope, and every way out restores the scope of its caller. Field selection, dereferencing, indexing (also of sub-arrays and through pointers to open arrays), guards, type tests and WITH denote the component of the Oberon designator, with the index check against the right length and the type check against the right type at the right extension level, and evaluate a designator with side effects once.',
 ['programs'], 'over all kinds of variables and parameters, all scopes, all designator forms and nestings, all combinations of check options',
 'A wrong length, level or indirection for one kind of parameter used in a nested procedure compiles, and the test programs hardly use such parameters.',
 ['src/compiler/OPC.Mod', 'src/compiler/OPV.Mod', 'src/compiler/OPP.Mod'], [('variables and scopes', 'OPC.CompleteIdent, DefineInter, EnterProc, ExitProc, Len, TypeOf; OPP.qualident; OPV.Traverse'), ('designators', 'OPV.design, Index, Len, TypeOf, IfStat')], GT, GN + ' A constant index 0 is written without a check also for open arrays, whose length is at least 1 when allocated by NEW.')

prop('C04', 'Statements are compiled to the control flow and effects they stand for',
 'Every statement sequence compiles to C with exactly the control flow the language defines: IF and ELSIF arms are tried in order, WHILE and REPEAT test where they should, EXIT leaves the innermost enclosing LOOP from any nesting (out of CASE, WITH and inner loops), RETURN leaves the procedure with its value converted to the result type, CASE selects by exactly the listed labels and ranges and traps without ELSE, FOR evaluates its limit once, steps by its constant in the right direction and stops at the limit. Constant conditions remove exactly the dead part. Assignments and the predeclared procedures (INC, DEC, INCL, EXCL, COPY, NEW, ASSERT, HALT, SYSTEM.GET/PUT/MOVE ...) have exactly their effect on the right operand, for every operand type.',
 ['programs'], 'over all nestings of control statements to depth three, all constant conditions, all predeclared procedures and assignments with all operand types, all label types and ranges',
 'A test exercises a few nestings; a break that leaves the wrong construct, or a statement wrong for one operand type, needs that very combination.',
 ['src/compiler/OPV.Mod', 'src/compiler/OPP.Mod', 'src/compiler/OPB.Mod', 'src/compiler/OPC.Mod'], [('statements', 'OPV.stat, IfStat, CaseStat, ImplicitReturn, InitRecord; OPP.StatSeq, CasePart, CaseLabelList'), ('tree construction', 'OPB.Assign, StPar0, StPar1, StParN, StFct, OptIf, Return; OPC.Case')],
 'abstract interpretation of parser, tree construction and code generator on source statements with opaque operands; the control-flow graph of the extracted C is compared with that of the statement (bisimulation), its effects with those the report defines', GN)

prop('C05', 'A call passes every parameter as the callee receives it',
 'For every call of a global, nested or imported procedure, a procedure variable (in a variable, field, element, behind a pointer), a type-bound procedure or its super procedure, as a statement or a function, the C arguments are exactly what the C parameters of the callee stand for: the value, converted to the type of the formal; the address of the very variable passed as VAR parameter; the dynamic type of a record; the address of an array and its length in every dimension in order, the size in bytes for ARRAY OF BYTE; a projection for an extended record; the right procedure and receiver. Prototype, definition, procedure type and the macro that dispatches a type-bound procedure all have the same C parameter list. Every operand is evaluated once, and a value parameter never reads beyond its actual parameter.',
 ['programs'], 'over all kinds of callees, all kinds of formal parameters, all forms of actual parameters compatible with them, variables of the own and of enclosing procedures, with and without run-time checks',
 'A length or type tag missing or in the wrong order for one combination of formal and actual parameter compiles as C, and the tests pass only the usual combinations.',
 ['src/compiler/OPV.Mod', 'src/compiler/OPC.Mod', 'src/compiler/OPB.Mod', 'src/compiler/OPP.Mod'], [('calls', 'OPV.ActualPar, expr, SuperProc, TypeOf, Len; OPB.PrepCall, Param, Call; OPP.ActualParameters'), ('parameter lists', 'OPC.AnsiParamList, ProcHeader, DeclareParams, DeclareObj, DefineTProcMacros')],
 'abstract interpretation of parser, tree construction and code generator on source calls with opaque operands; each C argument is evaluated to the storage or value it denotes and compared with what the C parameter of the callee stands for', GN)

prop('C06', 'Ill-typed programs are rejected, well-typed ones get the right types',
 'An expression, assignment, parameter, statement, designator, type test or guard, procedure variable or RETURN is rejected exactly when the type rules of the language (report and doc/Features.md) forbid the combination of its operand types, and an accepted expression has exactly the type the rules give it. In particular read-only imports and fields are never assigned, incremented, passed as VAR parameter or written by a predeclared procedure; extensions are assigned to their base types and never the other way; open arrays agree in every dimension; procedure values agree in all parameters and the result; predeclared procedures take exactly their number and kinds of parameters; types and procedures are no operands.',
 ['programs', 'inputs'], 'over every pair of operand types (basic types of every size, strings and characters, sets, pointers and records with extensions, arrays, open arrays, procedure types, SYSTEM types), variables, elements, calls, operator results and constants as operands, for every operator, predeclared procedure and statement',
 'A check that is missing for one combination of types compiles the wrong program silently; the tests are valid programs with few combinations.',
 ['src/compiler/OPB.Mod', 'src/compiler/OPP.Mod'], [('expressions', 'OPB.Op, ConstOp, MOp, In, SetElem, SetRange, Convert'), ('assignment and parameters', 'OPB.CheckAssign, CheckProc, CheckParameters, Param, DynArrParCheck, CheckReceiver, PrepCall, Assign, Return'), ('predeclared procedures', 'OPB.StPar0, StPar1, StParN, StFct'), ('designators', 'OPB.Index, DeRef, Field, TypTest; OPP.selector, StatSeq, CaseLabelList')],
 'abstract interpretation of parser and tree construction on every combination of operand types (opaque operands), compared with the type rules written down independently', GN)

prop('C07', 'Declarations mean what they say: scopes, types, headings, methods',
 'A declaration sequence is rejected exactly when a rule of the language forbids it, and the objects and types entered for an accepted one (names, kinds, levels, export marks, structure of types, parameters, results, methods) are those the source declares. Names are unique in their scope, in a record with its inherited fields and in a parameter list; the innermost declaration is the one meant, is visible from its declaration to the end of its procedure and nowhere else; open arrays occur only as parameters, pointer bases and their elements; types do not contain themselves; forward pointers are resolved or rejected; forward procedures and redefined methods agree with what they complete or override; a variable used by an inner procedure is marked for sharing, with every procedure on the way.',
 ['programs', 'inputs'], 'over declaration sequences generated for each rule: every pair of declaration kinds in every scope relation, every type in every position, every pair of headings, receivers, export marks',
 'A missed rejection yields C that shares or loses variables, overruns arrays or recurses for ever in the compiler; the tests contain only valid declarations.',
 ['src/compiler/OPP.Mod', 'src/compiler/OPT.Mod', 'src/compiler/OPB.Mod'], [('scopes', 'OPT.Insert, Find, FindField, OpenScope, CloseScope; OPP.Block, qualident'), ('types', 'OPP.TypeDecl, ArrayType, RecordType, PointerType'), ('headings and methods', 'OPP.FormalParameters, ProcedureDeclaration, Receiver, CheckMark; OPB.CheckParameters, StaticLink')],
 'abstract interpretation of the declaration parser and the symbol table on generated declaration sequences; acceptance compared with the rule each one tests, the resulting symbol table with an independent reading of the source', GN)

prop('C08', 'Constant expressions have the value the language gives them',
 'A constant expression is folded to exactly the value the language defines for it, with the type it should have: integer, real, set, Boolean, character and string operators and relations, ABS, ODD, CAP, ORD, CHR, ENTIER, SHORT, LONG, ASH, MIN, MAX and SIZE in every type model, set constructors and IN. A value that is undefined or does not fit any type is rejected, not wrapped. Replacing an operator with one constant operand by a cheaper one does not change its value for any value of the other operand.',
 ['programs', 'inputs'], 'over all pairs of boundary constants of every type for every operator and predeclared function, and every operator with one constant operand of every value, sign and width',
 'Folding is where a compiler for a language with 64-bit integers overflows itself; the wrong value is a plain number in the C text, and only operands at the ends of the types show it.',
 ['src/compiler/OPB.Mod'], [('folding', 'OPB.ConstOp, MOp, In, SetElem, SetRange, StPar0, StPar1, Convert, SetIntType, CheckRealType'), ('operators with a constant operand', 'OPB.Op')],
 'abstract interpretation of the folding procedures on expressions of generated constants; the value in the resulting node, or the value of the resulting tree as a function of the variable, compared with the arithmetic of the language', GN)

RT = ['src/runtime/SYSTEM.h', 'src/runtime/SYSTEM.c']
CT = 'abstract interpretation of the C run-time macros and functions (LLVM IR, polyhedral and bit-level facts, three data models)'
CN = 'Decided on the clang IR of the current SYSTEM.h/.c for LP64, ILP32 and LLP64; undefined behaviour of C (signed overflow, oversized shifts) is taken as the IR gives it at -O0.'
prop('R01', 'An index outside the array always traps',
 'With index checks on, evaluating an array index i against a length n yields exactly i when 0 <= i < n and otherwise stops the program with HALT(-2): negative, too large and 64-bit values that only fit after truncation included, for every integer type of index and length and for both the inline and the function form of the check. The index operand is never altered by the check.',
 ['programs', 'inputs'], 'over every index value of every integer type and every array length, both macro forms, all three data models',
 'A check that is wrong for one sign, one width or one boundary value passes every program that indexes arrays correctly.',
 RT, [('index checks', 'SYSTEM.h __X, __XF')], CT, CN)
prop('R02', 'SHORT, CHR and range checks accept exactly the representable values',
 'With range checks on, SHORT(x) to a 8, 16 or 32 bit type and CHR(x) yield exactly x when x is representable in the target type (-2^(k-1) .. 2^(k-1)-1, respectively 0..255) and otherwise stop with HALT(-8), for both the inline and the function form and for every operand type.',
 ['programs', 'inputs'], 'over every operand value of every integer type, every target width, both macro forms, all three data models',
 'Only values next to the ends of a range, or far outside it, tell a correct check from a wrong one.',
 RT, [('range checks', 'SYSTEM.h __R, __RF, __SHORT, __SHORTF, __CHR, __CHRF')], CT, CN)
prop('R03', 'DIV and MOD are floored division for every sign combination',
 'For all integers x and y with y # 0, x DIV y is the floor of the quotient and x MOD y = x - (x DIV y) * y, hence 0 <= x MOD y < y for positive and y < x MOD y <= 0 for negative y, in the inline and the function form, including operands at the ends of the 64-bit range; the one unrepresentable quotient excepted.',
 ['programs', 'inputs'], 'over all operand values and sign combinations of every integer type, inline and function form, all three data models',
 'The rounding correction only matters for mixed signs with or without remainder and overflows only at the extremes.',
 RT, [('division', 'SYSTEM.h __DIV, __MOD, __DIVF, __MODF; SYSTEM.c SYSTEM_DIV, SYSTEM_MOD')], CT, CN)
prop('R04', 'ABS, ODD, CAP and ENTIER compute their mathematical result',
 'ABS(x) is |x| for every integer and real type in every form (no narrowing of 64-bit operands); ODD(x) is TRUE exactly for odd x; CAP maps each letter to its capital and leaves capitals alone; ENTIER(x) is the largest integer not greater than x for every x whose result is representable, negative non-integers and exact negative integers included.',
 ['programs', 'inputs'], 'over every operand value of every numeric type, all macro and function forms, all three data models',
 'Errors show only for negative, wide or fractional operands of one particular form.',
 RT, [('numeric functions', 'SYSTEM.h __ABS, __ABSF, __ABSFD, SYSTEM_ABS*, __ODD, __CAP, __ENTIER; SYSTEM.c SYSTEM_ENTIER')], CT, CN)
prop('R05', 'ASH, LSH and ROT shift and rotate by the stated number of bits',
 'ASH(x, n) is x * 2^n for n >= 0 and floor(x / 2^-n) for n < 0; LSH(x, n) shifts the bits of x within its own size left (n > 0) or right (n < 0), filling with zeros; ROT(x, n) rotates them within its own size in either direction, also for negative n and n = 0; the constant-count, variable-count and function forms agree.',
 ['programs', 'inputs'], 'over every operand value and size, every shift count within the operand size, constant and variable forms, all three data models',
 'One size, one direction or a zero count is enough to go wrong while the sampled shifts are right.',
 RT, [('shifts', 'SYSTEM.h __ASH*, __LSH*, __ROT*, SYSTEM_ASH, SYSTEM_LSH, SYSTEM_ROT')], CT, CN)
prop('R06', 'Set construction, ranges and membership are exact for every element',
 'For both set sizes, {x} contains exactly x, {l..h} contains exactly the elements from l to h, and x IN s is TRUE exactly when 0 <= x < size of the set and bit x of s is set - also for negative x, for x beyond the set and for wide x; SYSTEM.BIT(a, n) is bit n of memory at a.',
 ['programs', 'inputs'], 'over all elements, set values and bounds, both set sizes, all operand types, all three data models',
 'The top element, empty or full ranges, 64-bit sets and out-of-range members are rarely sampled.',
 RT, [('sets', 'SYSTEM.h __SETOF, __SETRNG, __IN, SYSTEM_IN, __BIT, __MASK')], CT, CN)
prop('R07', 'String comparison and COPY keep to terminators and bounds',
 'String comparison orders two strings by the first differing character, unsigned, the shorter first, and reads neither operand past its terminator; COPY copies up to the terminator, never writes at or beyond the length of the destination, reads no source character past the first 0X or the destination length, and always terminates the destination; the copy of a value array parameter has exactly the elements and size of the argument.',
 ['programs', 'inputs'], 'over every pair of strings and every destination length, by induction over the position; all three data models',
 'Truncation at the exact length, characters above 7FX and prefixes of each other are the cases that separate a right loop from an almost right one.',
 RT, [('strings', 'SYSTEM.h __str_cmp, __STRCMP, __COPY'), ('copies', 'SYSTEM.h __DUP, __DUPARR')], CT, CN)
prop('R08', 'Type tests and guards decide by the dynamic type, and guards trap otherwise',
 'p IS T is TRUE exactly when T is the dynamic type of p or one of its direct or indirect bases, at every extension level the language allows; a type guard p(T) or r(T) yields its operand, unchanged, exactly then and stops with trap -5 otherwise; assigning a whole record through a pointer or VAR parameter is carried out exactly when the dynamic type is the static type and stops with trap -6 otherwise.',
 ['programs', 'inputs'], 'over every pair of extension levels, every dynamic type, pointers, records and WITH regions, all three data models',
 'A test passes for the levels and shapes sampled; confusing levels, sizes or the direction of extension goes unnoticed without deep hierarchies.',
 RT, [('type tests', 'SYSTEM.h __IS, __ISP, __TYPEOF, __INITYP'), ('guards', 'SYSTEM.h __GUARDP, __GUARDR, __GUARDA, __GUARDEQR, __GUARDEQP')], CT, CN)
prop('R09', 'Type descriptors dispatch every type-bound call to the right procedure',
 'After module initialisation a call of a type-bound procedure through an object reaches the procedure bound to its dynamic type, or else to its nearest base type that binds one, for any number of procedures, any overriding pattern and any depth; every record type is registered with its module, with the offsets of its pointers, and with a block size that holds its tag and all its fields.',
 ['programs'], 'over hierarchies of methods and overrides, a symbolic number of inherited methods, record sizes, all three data models',
 'Dispatch of the one method not overridden, or the one record size at a rounding boundary, is not in the samples.',
 RT, [('descriptors', 'SYSTEM.h __TDESC, __TDFLDS, __INITYP, __INITBP, __SEND, __NEW, __SYSNEW'), ('inheritance', 'SYSTEM.c SYSTEM_INHERIT')], CT, CN)
prop('R10', 'The collector is shown every pointer in module-level variables',
 'Enumerating the pointers of a module-level array of n pointers passes each of its n elements exactly once; enumerating an array of n records passes, for each element, the pointer at every offset in the table of the record type up to the end mark, exactly once, offset zero included; NIL pointers may be skipped; nothing else is passed and nothing is written.',
 ['programs', 'histories'], 'over every array length, element size and pointer table, by induction over the loops; all three data models',
 'A pointer that is never enumerated costs nothing until a collection happens while it is the only reference.',
 RT, [('enumeration', 'SYSTEM.h __ENUMP, __ENUMR; SYSTEM.c SYSTEM_ENUMP, SYSTEM_ENUMR')], CT, CN)
prop('R11', 'NEW of an array allocates enough, stores its lengths and shows its pointers',
 'NEW(p, l1 .. ln) of a dynamic array, or NEW of a pointer to a fixed array, stops with HALT(-20) when a length is not positive; otherwise it asks for one block, between locking and unlocking the heap, large enough for the lengths, aligned data and all elements (and a private pointer table), leaves the data cleared, stores the lengths in order for the later index checks, and - when elements contain pointers - gives the block a descriptor that names exactly every pointer of every element and ends correctly.',
 ['programs', 'inputs', 'histories'], 'over every vector of lengths (symbolic), element kinds without pointers, pointers, and records with any number of pointers up to three, alignments, up to three dimensions; all three data models',
 'A wrong pointer table shows up only after a collection, a wrong size only when neighbours are overwritten.',
 RT, [('array allocation', 'SYSTEM.c SYSTEM_NEWARR; SYSTEM.h __NEWARR')], CT, CN + ' Heap.NEWBLK is modelled by its contract (a cleared block with tag). Products of lengths that exceed the address space are outside.')
prop('R12', 'Modules initialise once, after their imports, and programs finalise at the end',
 'The body of a module runs exactly once, however many importers activate it, and only after every module it imports has been initialised and counted as referenced; each module is registered exactly once with its name and pointer enumeration, its commands are registered with it, and the same module descriptor is returned to every importer. A main program installs the NIL-access trap, passes its arguments on, initialises its imports before its own body, and runs the finalizers at its end with exit status 0.',
 ['programs', 'histories'], 'over module shapes (imports, commands, leaf, diamond) and up to three activations, main programs with early return; all three data models',
 'The sample programs have few import paths; a second activation or a missing reference count only matters for diamonds and for unloading.',
 RT, [('module prologue', 'SYSTEM.h __DEFMOD, __MODULE_IMPORT, __REGMOD, __REGCMD, __ENDMOD'), ('main program', 'SYSTEM.h __INIT, __REGMAIN, __FINI')], CT, CN + ' The order in which the compiler emits these macros is taken from its generated code.')
prop('R13', 'A signal reaches exactly the handler installed last for it',
 'After any sequence of installations, delivery of a signal (interrupt, quit, bad instruction, invalid access) calls the handler installed last for that very signal, once, with the signal number; handlers of different signals do not disturb each other, removing a handler silences it, unsupported signal numbers change nothing, and an access through NIL ends in HALT(-10). On Windows console events reach the interrupt or quit handler, are reported as handled only then, and the console handler is registered once.',
 ['histories', 'schedules', 'inputs'], 'over every sequence of up to three installations for each pair of signals, symbolic handlers and signal numbers; Unix and Windows branches',
 'The tests install one handler and raise one signal.',
 ['src/runtime/SYSTEM.c', 'src/runtime/SYSTEM.h'], [('unix signals', 'SYSTEM.c SystemSetHandler, signalHandler, segfaultHandler, setupAutomaticSegfaultHandler'), ('windows console events', 'SYSTEM.c SystemConsoleCtrlHandler, SystemSetInterruptHandler, SystemSetQuitHandler')], CT, CN + ' signal() is modelled with BSD semantics.')
prop('R14', 'Traps report their code, and SYSTEM.GET, PUT, VAL, MOVE move exact bytes',
 'HALT(n) ends the program with code n and ASSERT(c, n) ends it with assertion code n exactly when c is false, evaluating c once and for every 32-bit code; a function without RETURN, a CASE without matching label and a WITH without matching guard stop with codes -3, -4 and -7 exactly when reached. SYSTEM.GET and PUT transfer exactly the bytes of the variable at the given address, VAL keeps the bits of its operand, and MOVE copies exactly n bytes.',
 ['programs', 'inputs'], 'over all operand values and codes, all basic types for GET, PUT and VAL, symbolic block lengths; all three data models',
 'Codes above 127, wide moves or real operands of VAL are rarely used, and an assertion that holds says nothing.',
 RT, [('traps', 'SYSTEM.h __HALT, __ASSERT, __RETCHK, __CASECHK, __WITHCHK'), ('memory access', 'SYSTEM.h __GET, __PUT, __VAL, __MOVE')], CT, CN)
prop('R15', 'Run-time primitives evaluate each operand once and as a unit',
 'Wherever the compiler passes an operand that may have side effects to a run-time primitive (index and range checks, shifts, division, numeric functions, sets, type tests and guards, memory access, assertions), the operand is evaluated exactly once on every path; an operand written as an operator expression is used as a whole, never torn apart by neighbouring operators, and the result of the primitive combines with the surrounding expression as a whole.',
 ['programs'], 'over all primitives, all their operand positions, every operator the compiler emits without parentheses at that position, every path',
 'Most operands in tests are plain variables, for which evaluation count and grouping do not matter.',
 RT, [('primitives', 'SYSTEM.h all function-like macros used by OPV.expr, OPV.stat, OPV.design')], 'path counting over the control-flow graph of the IR (operand calls) and syntax-tree queries (clang AST) on generated uses of every run-time macro',
 'The table of primitives and operand kinds follows OPV. Open array lengths and receivers of type-bound calls, which the compiler itself duplicates, are not primitives and are recorded separately.')

na('N01', 'The collector frees exactly the blocks no pointer can reach',
 'A block that can be reached from a module variable, a local variable or another reachable block is never freed or moved by a garbage collection, and a block that cannot be reached is available for allocation again after at most two collections.',
 ['histories'], 'over every sequence of allocations, pointer assignments and collections, with any shape of the heap',
 'The defects live in heap shapes (cycles, blocks at chunk ends, interior stack pointers) that a few test programs do not build.',
 ['src/runtime/Heap.Mod'], [('mark and sweep', 'Heap.Mark, MarkStack, Scan, MarkCandidates, GC')],
 'Mark reverses pointers in place over a heap of unbounded shape and MarkCandidates treats raw stack words as addresses; deciding reachability preservation needs shape analysis with a separation-logic proof, which no static analyser here provides. What the generated code and the run-time system show to the collector is decided in R10 and R11.')
na('N02', 'Math functions are accurate over their whole domain',
 'Every function of Math and MathL returns its mathematical result within a few units in the last place for every argument in its domain, and reports an argument outside it.',
 ['inputs'], 'over all floating-point arguments',
 'The test samples a few arguments and compares a few printed digits.',
 ['src/runtime/Math.Mod', 'src/runtime/MathL.Mod'], [('approximations', 'Math, MathL: sqrt, exp, ln, sin, cos, arctan and others')],
 'The error of polynomial approximations over a domain is a quantity no dataflow or interval argument in reach bounds to units in the last place.')
na('N03', 'A file closed or registered holds exactly the bytes written to it',
 'After any sequence of Set, Write, Read, Flush, Register and Close through any number of riders on a file, a read at every position returns the byte last written there, and a file that was not registered leaves no trace under its name; a crash at any point leaves the old or the new file under a registered name.',
 ['histories', 'crash_points', 'fault_sequences'], 'over all operation sequences, buffer alignments, short writes, I/O errors and crash points',
 'Buffers are swapped only after several thousand bytes with several riders; the tests write small files once.',
 ['src/runtime/Files.Mod', 'src/runtime/Platformunix.Mod'], [('buffered files', 'Files.ReadBytes, WriteBytes, Set, Flush, Create, Register, Close')],
 'The property relates buffer contents to the history of operations and to the state of an external file system; positions, buffer numbers and byte contents are unbounded run-time quantities that no static argument in reach ties together.')
na('N04', 'Texts preserves the characters and looks of edited texts',
 'After any sequence of Insert, Append, Delete, Save, Copy and ChangeLooks, reading a text yields the characters with the font, colour and offset given to them, and Store followed by Load rebuilds the same text.',
 ['histories', 'inputs'], 'over all editing histories and all stored texts',
 'Piece lists only go wrong after several edits at piece boundaries.',
 ['src/runtime/Texts.Mod'], [('piece list', 'Texts.Insert, Append, Delete, ChangeLooks, Load, Store')],
 'The state is an unbounded linked piece list related to an abstract character sequence; this needs an inductive heap invariant, out of reach of the available static analysers.')
na('N05', 'A compiled program behaves as its Oberon source does',
 'For every accepted program and every input the executable built by the C compiler behaves as the Oberon-2 semantics say, and compiling the compiler with itself reproduces its C text.',
 ['programs', 'inputs'], 'over all accepted programs and their inputs',
 'Twelve sample programs cannot represent all compositions of language constructs.',
 ['src/compiler', 'src/runtime/SYSTEM.h', 'src/runtime/SYSTEM.c'], [('whole compiler', 'Compiler.Module')],
 'A whole-program equivalence needs a mechanised semantics of both languages. It is decided piecewise instead: C01-C08 for each compiler phase on generated constructs, R01-R15 for each run-time primitive; their composition is an argument, not a check.')
