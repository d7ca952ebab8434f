#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, state=None, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  state=state, tech=tech, note=note, na=na))


X = 'src/x86/'
IND = 'abstract interpretation of the LLVM IR (relational, inductive over loops)'
ASM = 'abstract interpretation of the assembled machine code'
CFG = 'path-sensitive dataflow over the LLVM IR control-flow graph'
COMMON_NOTE = (' Assumes clang 18 -O0 + sroa is a faithful translation of the sources and trusts the analyses in /verif/lib; '
               'covers the x86-64 configuration this tree builds.')

prop('C01', 'Predefined type descriptors describe the C types of the platform',
     'Every exported predefined type descriptor (integers, floating point, complex, pointer, void) has exactly the size and '
     'alignment of the C type it stands for and the kind that makes values of that type be passed as that type. Complex '
     'descriptors name their floating component. No part of the library modifies a predefined descriptor.',
     ['programs', 'inputs'], 'all predefined descriptors, and every program that builds signatures from them',
     'Tests use a handful of values per type; a wrong alignment or signedness only shows for particular neighbours or values.',
     ['src/types.c', 'include/ffi.h.in', X + 'ffitarget.h'], [('FFI_TYPEDEF and FFI_COMPLEX_TYPEDEF initialisers', 'src/types.c')],
     tech='evaluation of constant initialisers in the LLVM IR against the target ABI, plus a whole-program store audit',
     note='Complete for the finite set of exported descriptors; the sizes come from the clang target description of the same headers.')

prop('C02', 'Aggregate layout equals the C compiler\'s layout',
     'For every aggregate description, however long or deeply nested, preparing it (or asking for member offsets) yields the size, '
     'alignment and member offsets the C ABI gives a structure with those members in that order. Offsets are written only for '
     'the members that exist and only when the caller asked for them, and an aggregate that is already laid out is used as it is.',
     ['inputs', 'programs'], 'all element lists of any length and all element sizes and alignments, nested to any depth',
     'Tests lay out a few dozen fixed structures; padding faults show only for particular size and alignment sequences.',
     ['src/prep_cif.c'], [('aggregate initialisation loop', 'src/prep_cif.c:initialize_aggregate'), ('ffi_get_struct_offsets', 'src/prep_cif.c')],
     tech=IND, note='One iteration of the layout loop is proved from an arbitrary intermediate state; nesting by induction.' + COMMON_NOTE)

prop('C03', 'Invalid descriptions are refused with the documented status, every time',
     'Preparing a call interface succeeds exactly when the ABI is one the platform offers and every aggregate in the signature, at any depth, is '
     'well formed; otherwise it reports a bad ABI or a bad type description. An aggregate that is malformed (no members, or a malformed '
     'member) is refused again on every later attempt, and asking for member offsets reports the same statuses. Variadic preparation also refuses variadic '
     'arguments of float type or of integer types narrower than int, and only those, with its documented status.',
     ['inputs', 'histories'], 'all ABI numbers, all type descriptions, all sequences of preparation attempts on the same descriptions',
     'Tests try a few bad inputs once each and never retry or mix them.',
     ['src/prep_cif.c', X + 'ffi64.c', X + 'ffitarget.h'],
     [('ABI range and element checks', 'src/prep_cif.c:ffi_prep_cif_core'), ('variadic checks', 'src/prep_cif.c:ffi_prep_cif_var'), ('ABI switch', X + 'ffi64.c:ffi_prep_cif_machdep')],
     tech=IND, note='All paths of the preparation functions, over symbolic types and counts.' + COMMON_NOTE)

prop('C04', 'Aggregates are classified as the System V x86-64 ABI prescribes',
     'For every structure, union-free aggregate, complex or scalar type a caller can describe, the decision whether and in which '
     'register classes it travels (general, vector, x87 or memory, per eightbyte) equals the System V x86-64 psABI '
     'classification of the corresponding C type. This holds for any nesting and at any offset inside an enclosing aggregate.',
     ['inputs', 'programs'], 'all aggregate types of any member count and nesting depth',
     'Tests cover fixed structures of a few members; classification is a merge over arbitrary member lists.',
     [X + 'ffi64.c'], [('classify_argument / merge_classes', X + 'ffi64.c')],
     tech=IND + ' in product with the psABI merge rules',
     note='Element loop generalised over an arbitrary list, nested aggregates by induction hypothesis.' + COMMON_NOTE)

prop('C05', 'Call preparation, calls and closures agree on where each argument is',
     'For every argument list on the System V x86-64 ABI, a call stores each argument exactly in the registers or stack slot the '
     'psABI assigns to it and stays inside the stack space the preparation computed, and a closure hands its handler the same '
     'places. Small integers are extended according to their signedness, and a hidden result pointer takes the first general register.',
     ['inputs', 'programs'], 'all argument lists of any length over all scalar, complex and aggregate types, for results in registers and in memory',
     'Tests pass some fixed signatures; the placement depends on the whole history of earlier arguments.',
     [X + 'ffi64.c'], [('ffi_prep_cif_machdep argument loop', X + 'ffi64.c'), ('ffi_call_int argument loop', X + 'ffi64.c'), ('ffi_closure_unix64_inner argument loop', X + 'ffi64.c')],
     tech=IND, note='One iteration from an arbitrary head state for every cell of a partition of argument kinds and register counts; short lists exactly where induction does not decide.' + COMMON_NOTE)

prop('C06', 'A call delivers exactly the callee\'s result to the caller\'s buffer',
     'For every result type on the System V x86-64 ABI, a call writes to the result buffer exactly the value the callee returned in '
     'its psABI registers (integers narrower than a machine word widened with their signedness to a full word), and writes no byte beyond that. With no '
     'result buffer the call is still made correctly and leaves nothing on the x87 stack.',
     ['inputs', 'programs'], 'all result types, including every aggregate size and class, with and without a result buffer',
     'Tests check the value of a few result types, rarely the bytes behind it or the discarded-result path.',
     [X + 'ffi64.c', X + 'unix64.S', X + 'internal64.h'],
     [('return flags', X + 'ffi64.c:ffi_prep_cif_machdep'), ('store table', X + 'unix64.S:ffi_call_unix64')],
     tech=ASM + ' composed with ' + IND, note='Every return kind is composed from preparation through the store table of the assembled object.' + COMMON_NOTE)

prop('C07', 'A closure returns exactly its handler\'s result to the caller',
     'For every result type on the System V x86-64 ABI, code calling a closure finds in the psABI result registers exactly the value '
     'the handler stored (small integers extended from the stored word), or for results in memory the caller\'s own buffer filled and '
     'its address returned. The buffer the handler writes is large enough and overlaps nothing the closure still needs.',
     ['inputs', 'programs'], 'all result types, including every aggregate size and class',
     'Tests check values of a few result types through compiled callers.',
     [X + 'ffi64.c', X + 'unix64.S'], [('return area and flags', X + 'ffi64.c:ffi_closure_unix64_inner'), ('load table', X + 'unix64.S:ffi_closure_unix64')],
     tech=ASM + ' composed with ' + IND, note='As C06 for the closure side.' + COMMON_NOTE)

prop('C08', 'Calls with the Windows x64 ABIs follow that ABI',
     'For every argument list and result type with the Windows x64 and GNU x64 ABIs, a call passes each argument in the slot the ABI '
     'gives it, by value or by reference to a private copy that the callee may overwrite, and delivers exactly the callee\'s result. It reserves the '
     'register home area and writes nowhere else.',
     ['inputs', 'programs'], 'all argument lists of any length, all result types, both Windows ABIs',
     'The suite calls these ABIs with a few signatures only.',
     [X + 'ffiw64.c', X + 'win64.S'], [('ffi_call_int', X + 'ffiw64.c'), ('ffi_call_win64', X + 'win64.S')],
     tech=IND + ' composed with ' + ASM, note='As C05 and C06 for the Windows x64 ABIs.' + COMMON_NOTE)

prop('C09', 'Closures with the Windows x64 ABIs follow that ABI',
     'For every argument list and result type with the Windows x64 and GNU x64 ABIs, a closure hands its handler pointers to the '
     'arguments as that ABI passes them and returns exactly the handler\'s result.',
     ['inputs', 'programs'], 'all argument lists of any length, all result types, both Windows ABIs',
     'The suite exercises closures of these ABIs with a few signatures only.',
     [X + 'ffiw64.c', X + 'win64.S'], [('ffi_closure_win64_inner', X + 'ffiw64.c'), ('ffi_closure_win64', X + 'win64.S')],
     tech=IND + ' composed with ' + ASM, note='As C05 and C07 for the Windows x64 ABIs.' + COMMON_NOTE)

prop('C10', 'Calls and closures preserve the machine state their caller owns',
     'However a call or closure is entered, on return the stack pointer, the return address and every callee-saved register are as '
     'they were, the stack is 16-byte aligned at every call made on the way, and no memory of the caller\'s frame is changed apart from the documented result.',
     ['inputs', 'programs'], 'all paths through the hand-written entry points, for all stack argument sizes and result kinds',
     'A test notices a clobbered register or misaligned stack only if its compiled caller happens to rely on it.',
     [X + 'unix64.S', X + 'win64.S'], [('ffi_call_unix64, ffi_closure_unix64, ffi_go_closure_unix64', X + 'unix64.S'), ('ffi_call_win64, ffi_closure_win64, ffi_go_closure_win64', X + 'win64.S')],
     tech=ASM, note='All paths of the assembled object from symbolic entry states.' + COMMON_NOTE)

prop('C11', 'Unwinding through calls and closures always finds the caller\'s frame',
     'At every instruction for which the hand-written entry points record unwind information, that information recovers the caller\'s '
     'frame address, return address and callee-saved registers. Every instruction during which a foreign function or handler can be running is covered.',
     ['inputs', 'programs'], 'all instructions of the assembly entry points, for all stack argument sizes',
     'A few C++ tests throw through one call shape; the information must be right at every call site and for every frame size.',
     [X + 'unix64.S', X + 'win64.S'], [('CFI directives', X + 'unix64.S'), ('CFI directives', X + 'win64.S')],
     tech=ASM + ' compared with its DWARF call-frame rows', note='Each covered instruction against the row that applies to it; call sites must be covered.' + COMMON_NOTE)

prop('C12', 'Every indirectly entered code address is a valid landing pad under CET',
     'Each place in the library that is reached by an indirect branch (exported entry points used as code addresses, jump table slots, closure '
     'trampolines) begins with an end-branch marker or is reached by a branch that needs none, so that programs running with indirect branch tracking do not fault.',
     ['configurations', 'inputs'], 'all indirect branch targets of the library, on processors that enforce CET',
     'The machines the tests run on do not enforce branch tracking, so a missing marker passes every test.',
     [X + 'unix64.S', X + 'win64.S', X + 'ffi64.c', X + 'ffiw64.c'], [('_CET_ENDBR', X + 'unix64.S'), ('jump tables', X + 'unix64.S'), ('trampoline', X + 'ffi64.c')],
     tech='indirect-branch target analysis of the assembled object and of constant trampoline bytes', note='All indirect branches resolved by the machine-code interpretation.' + COMMON_NOTE)

prop('C13', 'A call leaves the caller\'s description and arguments untouched',
     'Making a call reads the call interface, its types, the argument pointer array and the argument values but modifies none of '
     'them, and reads no byte of an argument beyond its size, for every ABI on offer and also when no result buffer is given.',
     ['inputs', 'programs', 'schedules'], 'all signatures and values; also threads sharing one interface, argument array or read-only arguments',
     'Tests do not compare their argument arrays and values after the call, nor share them between threads.',
     [X + 'ffi64.c', X + 'ffiw64.c'], [('ffi_call_int', X + 'ffi64.c'), ('ffi_call_int', X + 'ffiw64.c')],
     tech=IND + ': memory-effect analysis of the call path', note='Every store and load of the call path is attributed to an object.' + COMMON_NOTE)

prop('C14', 'Closure bookkeeping is only touched under its locks, which are always released',
     'Threads may allocate, free and look up closures concurrently: every access to the shared allocator and trampoline '
     'bookkeeping happens while holding the lock that guards it, every path releases each lock it took exactly once, '
     'and no lock is taken while it is already held or in conflicting order.',
     ['schedules'], 'all interleavings of closure allocation, release and lookup by any number of threads',
     'The suite is single-threaded apart from one small test.',
     ['src/closures.c', 'src/dlmalloc.c', 'src/tramp.c'], [('open_temp_exec_file_mutex and dlmalloc locks', 'src/closures.c'), ('tramp_lock', 'src/tramp.c')],
     tech='lockset dataflow over the whole-program call graph', note='Interprocedural must-hold lockset analysis of every path.' + COMMON_NOTE)

prop('C15', 'Closure memory is never writable and executable in one mapping by default',
     'On systems where a writable and executable mapping is not permitted, the library never asks for one: code the processor runs for a '
     'closure is mapped executable and not writable, data it writes is mapped writable and not executable, and the pair refers to the same bytes.',
     ['configurations', 'histories', 'fault_sequences'], 'all allocation histories and fallbacks of the mapping code',
     'Tests run under one permissive configuration and never look at page protections.',
     ['src/closures.c', 'src/tramp.c'], [('dlmmap and dlmmap_locked', 'src/closures.c'), ('tramp_table_map', 'src/tramp.c')],
     tech=CFG + ' of protection and flag arguments', note='Every mapping call site, with the protection values that can reach it.' + COMMON_NOTE)

prop('C16', 'Closure allocation either succeeds completely or leaves nothing behind',
     'If any step of obtaining a closure fails, the caller gets a null result, everything obtained on the way (memory, mappings, '
     'trampoline, descriptor) is given back exactly once, and later allocations can still succeed. Releasing a closure gives back its trampoline and its memory exactly once.',
     ['fault_sequences', 'histories'], 'all failures of memory, mapping and file operations at any point of any allocation history',
     'No test injects a failure.',
     ['src/closures.c', 'src/tramp.c'], [('ffi_closure_alloc and ffi_closure_free', 'src/closures.c'), ('tramp_table_alloc, tramp_table_map', 'src/tramp.c')],
     tech='typestate (acquire/release) dataflow over all paths', note='Each acquired resource on each path ends released once or owned by the result.' + COMMON_NOTE)

prop('C17', 'File descriptors opened for executable memory do not leak',
     'Every file descriptor the library opens is closed on every failure path, is closed at most once, and is marked so that a program executed '
     'later does not inherit it.',
     ['fault_sequences', 'histories', 'configurations'], 'all failure sequences of the file operations',
     'Tests never make these operations fail nor execute another program while a closure exists.',
     ['src/closures.c', 'src/tramp.c'], [('open_temp_exec_file family', 'src/closures.c'), ('ffi_tramp_get_libffi', 'src/tramp.c')],
     tech='typestate dataflow for descriptors over all paths, with constant flag arguments', note='Each open site on each path.' + COMMON_NOTE)

prop('C18', 'The search for a place for executable memory tries every location, in order',
     'When executable memory must be backed by a file, the library tries its documented candidate locations one after another, '
     'moves on after each failure until the list is exhausted, refuses locations that do not allow execution, and unlinks the file it made.',
     ['fault_sequences', 'configurations'], 'all combinations of usable and unusable locations',
     'On the test machine the first candidate always works.',
     ['src/closures.c'], [('open_temp_exec_file_opts table and cursor', 'src/closures.c')],
     tech='abstract interpretation of the cursor and constant table; ' + CFG, note='All cursor states of the constant table.' + COMMON_NOTE)

prop('C19', 'Every static trampoline slot reaches its own closure',
     'For each slot of a trampoline table, the code at the slot loads exactly the parameter pair belonging to that slot and jumps '
     'to the recorded entry with the recorded closure, and the table geometry the allocator uses (slot size, slot count, table size, distance from '
     'code to parameters) is the geometry of the emitted table.',
     ['inputs', 'histories'], 'all slots of the table; all assignments of slots to closures',
     'Tests create a few closures and so use the first slots only.',
     [X + 'unix64.S', X + 'ffi64.c', 'src/tramp.c'], [('trampoline_code_table', X + 'unix64.S'), ('ffi_tramp_arch', X + 'ffi64.c'), ('tramp_table_map / ffi_tramp_set_parms', 'src/tramp.c')],
     tech=ASM + ' for every slot', note='Every slot is decoded and interpreted.' + COMMON_NOTE)

prop('C20', 'Trampolines in use are never handed out again',
     'For every history of allocations and releases, each live closure has a trampoline of its own: a trampoline is handed out only '
     'while free, becomes free exactly when released, and a table is returned to the system only when none of its trampolines is in use and no bookkeeping refers to it.',
     ['histories', 'schedules'], 'all allocation and release histories, over any number of tables',
     'Tests allocate a few closures; table turnover needs more than a hundred with particular release orders.',
     ['src/tramp.c'], [('tramp_add, tramp_del, tramp_table_alloc, tramp_table_free', 'src/tramp.c')],
     tech='shape and counter abstract interpretation of the list operations', note='Each operation is shown to preserve the list invariant from an arbitrary state satisfying it.' + COMMON_NOTE)

prop('C21', 'The raw API agrees with itself on the layout of an argument block',
     'For every signature, the size reported for a raw argument block, the conversion from separate arguments to a block, the '
     'conversion back, and raw calls all place argument number i at the same slot and with the same width, so that converting there and back '
     'yields the same values and never touches memory outside the block.',
     ['inputs', 'programs'], 'all signatures of scalar, complex and aggregate arguments of any length',
     'No test uses the raw interface.',
     ['src/raw_api.c'], [('ffi_raw_size, ffi_raw_to_ptrarray, ffi_ptrarray_to_raw, ffi_raw_call', 'src/raw_api.c')],
     tech=IND, note='One loop iteration per function from an arbitrary state, for every argument kind.' + COMMON_NOTE)

prop('C22', 'The Java raw API agrees with itself on the layout of an argument block',
     'For every signature of Java types (integers, float, double and references), the Java raw size, both conversions and Java raw calls place each argument at the same slot (long and double values occupying the '
     'slots the interface documents), convert there and back without change, and return results and handler results in the Java format.',
     ['inputs', 'programs'], 'all signatures of scalar arguments of any length',
     'No test uses the Java raw interface.',
     ['src/java_raw_api.c'], [('ffi_java_raw_size, ffi_java_raw_to_ptrarray, ffi_java_ptrarray_to_raw, ffi_java_raw_call', 'src/java_raw_api.c')],
     tech=IND, note='As C21.' + COMMON_NOTE)

prop('C23', 'Raw closures deliver their own function and user data',
     'A raw or Java raw closure, however many exist, runs the handler it was prepared with, passing the interface, the caller\'s arguments as a raw block, '
     'and the user data it was prepared with, and returns the handler\'s result.',
     ['inputs', 'histories'], 'all raw closures, handlers, user data and signatures',
     'No test uses raw closures.',
     ['src/raw_api.c', 'src/java_raw_api.c'], [('ffi_prep_raw_closure_loc, ffi_translate_args', 'src/raw_api.c'), ('ffi_prep_java_raw_closure_loc, ffi_java_translate_args', 'src/java_raw_api.c')],
     tech='abstract interpretation tracking the stored closure fields to the handler call', note='All paths.' + COMMON_NOTE)

prop('C24', 'A closure calls its handler with exactly what it was prepared with',
     'Calling a closure invokes the function it was prepared with, passing the interface and user data it was prepared with and the caller\'s arguments; '
     'vector argument registers are made available whenever some argument travels in them. Preparing a closure refuses an interface of another ABI and otherwise makes exactly the closure\'s code address callable.',
     ['inputs', 'programs'], 'all interfaces, handlers, user data and code addresses, with static and dynamic trampolines',
     'Tests check a few handlers; choosing the wrong entry only shows for signatures with the right mix of arguments.',
     [X + 'ffi64.c', X + 'ffiw64.c', X + 'unix64.S', X + 'win64.S'], [('ffi_prep_closure_loc', X + 'ffi64.c'), ('ffi_prep_closure_loc_win64', X + 'ffiw64.c'), ('ffi_closure_unix64 and ffi_closure_unix64_sse', X + 'unix64.S')],
     tech=IND + ' composed with ' + ASM, note='Closure fields followed from preparation through the entry code to the handler call.' + COMMON_NOTE)

prop('C25', 'The shared library exports its documented interface and nothing else',
     'Every function and object the installed headers declare is exported with default visibility under its symbol version, is callable with the declared signature, and internal symbols are not exported.',
     ['programs', 'configurations'], 'all programs linking against the library',
     'Tests link statically chosen symbols and never look at the export list.',
     ['libffi.map.in', 'include/ffi.h.in', 'include/ffi_common.h'], [('version script', 'libffi.map.in'), ('FFI_API, FFI_HIDDEN', 'include/ffi_common.h')],
     tech='comparison of declarations in the headers, definitions in the IR and the version script', note='Complete for the finite symbol set.' + COMMON_NOTE)

prop('C26', 'Memory of live closures never overlaps',
     'For every history of closure allocations and releases, the writable blocks of two live closures never overlap and each is usable at full requested size.',
     ['histories'], 'all allocation and release histories',
     'Tests allocate a few closures of one size.',
     ['src/dlmalloc.c', 'src/closures.c'], [('dlmalloc chunk management', 'src/dlmalloc.c')],
     na='The disjointness of chunks is an invariant of a general-purpose allocator (boundary tags, bins and trees threaded through raw memory) that no sound static shape analysis within reach can establish; the parts that libffi itself adds around it are decided in C14, C16 and C20.')

prop('C27', 'A closure keeps the code address its allocation gave',
     'For every closure obtained from ffi_closure_alloc and not yet released, ffi_data_to_code_pointer gives the code address the allocation gave, and the memory reached through that address is the memory of that closure alone, whatever other '
     'closures are obtained or released before and after and wherever the system places new memory. Memory of the user\'s own is its own code address, and only closures that own a static trampoline are said to have one.',
     ['histories', 'inputs'], 'all histories of allocations and releases, all placements of new mappings, all pointers',
     'Tests allocate little memory, in one segment, on one system; which mappings become neighbours, and with which distance between data and code, is not in their hands.',
     ['src/closures.c', 'src/dlmalloc.c'], [('ffi_data_to_code_pointer, ffi_closure_alloc', 'src/closures.c'), ('segments: sys_alloc, add_segment, check_segment_merge, release_unused_segments', 'src/dlmalloc.c')],
     tech=IND + ' of the allocator over symbolic placements of its segments', note='Pointers and lists of up to three segments: all; the allocator: all placements and failures over histories of bounded length.' + COMMON_NOTE)

prop('C28', 'Go closures run their own handler with their own data',
     'Calling a Go closure, or making a call with a Go environment pointer, passes that environment pointer in the register the platform reserves for it, and a prepared Go closure runs the handler and the interface it was '
     'prepared with, handing the closure itself as user data.',
     ['inputs', 'programs'], 'all interfaces and handlers, for each ABI that offers Go closures',
     'The suite tests one signature.',
     [X + 'ffi64.c', X + 'ffiw64.c', X + 'unix64.S', X + 'win64.S'], [('ffi_prep_go_closure', X + 'ffi64.c'), ('ffi_go_closure_unix64', X + 'unix64.S'), ('ffi_call_go', X + 'ffi64.c')],
     tech=IND + ' composed with ' + ASM, note='As C24.' + COMMON_NOTE)

prop('C29', 'Preparing an interface changes only the interface and unlaid-out aggregates',
     'Preparing a call interface writes only the interface object itself and the size and alignment of aggregates that were not laid out yet; type descriptors already complete, the argument type array and predefined types '
     'are only read, so complete descriptions may be shared and reused freely, also between threads.',
     ['inputs', 'schedules', 'histories'], 'all signatures; concurrent and repeated preparation over shared types',
     'Tests do not compare descriptors before and after nor prepare concurrently.',
     ['src/prep_cif.c', X + 'ffi64.c', X + 'ffiw64.c'], [('ffi_prep_cif_core', 'src/prep_cif.c'), ('ffi_prep_cif_machdep', X + 'ffi64.c')],
     tech='memory-effect analysis over the LLVM IR call graph', note='Every store reachable from preparation is attributed to an object.' + COMMON_NOTE)

prop('C30', 'No answer of the operating system makes the library use what it did not get',
     'Whatever the operating system answers while the library looks for executable memory or for its trampoline code (any file may be missing, any call may fail, any line or name may be '
     'of any length and form), the library uses only streams, pointers, texts and numbers that a successful call delivered. It reads no text beyond its end and writes only inside its own buffers.',
     ['inputs', 'fault_sequences'], 'all contents of the files under /proc, the lists of mounts and the environment; failures of every call to the system, at every point',
     'Tests run on one healthy system: every file exists, lines are short and well formed, no call fails.',
     ['src/tramp.c', 'src/closures.c'],
     [('search in /proc/<pid>/maps', 'src/tramp.c:ffi_tramp_get_libffi'), ('SELinux and PaX checks', 'src/closures.c:selinux_enabled_check'), ('search of places for a file', 'src/closures.c:open_temp_exec_file_mnt')],
     tech=IND + ' with symbolic texts and failing system calls',
     note='All paths from every state the calls leave behind; loops over lines and characters are generalised.' + COMMON_NOTE)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            cmd = 'python3 checks/run.py %s' % p['id']
            checks.append({'property': p['id'], 'quick_cmd': cmd + ' quick', 'thorough_cmd': cmd + ' thorough', 'technique': p['tech'],
                           'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'static analysis applies, but the check is not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
    print(len(P), 'properties,', len(checks), 'claimed')


main()
