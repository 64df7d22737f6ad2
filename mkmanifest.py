"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = ['C%02d' % i for i in range(1, 21)]
T = 'contract-based deductive verification of the compiled functions (LLVM IR of the working tree; weakest preconditions by symbolic execution, inferred and checked loop invariants; z3, cvc5); failed obligations replayed by bounded runs of the real interpreter'
# what the contracts of the property say, and what they leave to the bounded layer
N = {
 'C01': 'absence of faults and of unspecified outcomes in every function under contract (lexer, parser, nodes, scopes, types, files, built-ins); bounded: main, startREPL, getLine, exhaustion of memory and stack',
 'C02': 'value, type and errors of every operator, literal and implicit conversion, and the grammar of expressions; libm functions are uninterpreted',
 'C03': 'the statements that run, their order and number, for every statement of the language, from the grammar to the node; endless loops are outside (partial correctness)',
 'C04': 'calls, parameters, returns, activation records, and the definitions that make them',
 'C05': 'every store into a variable and every declaration; the text of a REAL is an uninterpreted function of its value',
 'C06': 'index checks, positions of elements (lemma: injective), copies and declarations of arrays',
 'C07': 'copies, assignments, shapes of records; implicit copy constructors are taken as memberwise',
 'C08': 'every statement that stores, against a constant; definition of constants',
 'C09': 'targets of pointers, the caches of resolvers, the end of scopes',
 'C10': 'the lexer (white space, comments, line ends, where tokens start) and the grammar of line ends',
 'C11': 'the order lexing, parsing, running; the error each parse function and node reports and its place; the traceback; bounded: startREPL',
 'C12': 'the echo of an entry, the global scope, runFile; bounded: the entry loop of startREPL itself (prompts, multi-line entries, recovery)',
 'C13': 'text written and text read of every kind of value, records, arrays; GETRECORD and PUTRECORD; assumes that 17 digits identify a REAL',
 'C14': 'SEEK, GETRECORD, PUTRECORD over an abstract sequence of records; opening and closing; std::filesystem and fstream through assumed contracts',
 'C15': 'WRITEFILE, READFILE, EOF over an abstract text; opening and closing; fstream through assumed contracts',
 'C16': 'every file statement against the table of open files; fstream through assumed contracts',
 'C17': 'every built-in function; libm and strtod through uninterpreted functions with the laws listed',
 'C18': 'date literals, SETDATE, accessors, comparison; std::chrono calendar arithmetic is verified inline',
 'C19': 'enumerated types, their definition, arithmetic, comparison and printing',
 'C20': 'every use of the option in lexer, parser, assignment and INPUT: it only ever leads to a PedanticError; bounded: the option itself in main',
}
NOTE = 'proved, for all inputs and iterations: %s. Assumed: contracts of the C++ library and of the streams, well-formed objects, sufficient memory, partial correctness (DESIGN.md lists them). The evidence names every function and obligation; where the solver gives up within its limits, the obligation is counted as not discharged and a run with bounded loops stands in.'
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'PSC_VERIF', 'enable': 'psv/build.py compiles the replay binaries with -DPSC_VERIF (an execution budget that ends endless programs with a runtime error); the verified IR is compiled without it',
               'source_commits': ['575ca90886996acd61890aa6cb393557a4129219']},
     'checks': [{'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p, 'technique': T, 'level': 'proof', 'level_note': NOTE % N[p]} for p in P],
     'not_applicable': []}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
