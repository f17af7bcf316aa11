"""The properties: text (-> properties.jsonl), check configuration (-> check.py)
and manifest entries (-> MANIFEST.json, by gen.py)."""
COMMON = [
    'the LLVM 18 front end translates the sources faithfully; the configuration analysed is the one the repository builds here (PNG, JPEG, TIFF, MNG, LCMS, squish on; EXR, JPEG 2000, WDP, NVTT off; ILUT without a graphics back end)',
    'third-party libraries (libpng, libjpeg, libtiff, libmng, lcms, squish, C library) behave as declared; their callbacks into DevIL are analysed as separate entry points',
]
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, check=None, na=None, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, check=check, na=na, observe=observe, state=state))
S = 'DevIL/src-IL/src/'

P('P01', 'Every file the library opens is closed exactly once, on every path',
  'Whenever a loading, saving, probing or palette call opens a file, that file is closed before the call returns, whether the call succeeds or fails and whatever the file contains. It is closed exactly once, is not used after it was closed, is closed with the close procedure of the direction it was opened for, and a stream handed in by the caller is never closed by the library.',
  ['inputs', 'fault_sequences'], 'every file content, every open/read/write/allocation failure, every path through every public entry point that opens a file',
  'tests open well-formed files and never count open handles; the early exits for short reads, rejected headers and failed allocations are not taken by any of them',
  [S + 'il_pal.cpp', S + 'il_io.cpp', S + 'il_files.cpp', S + 'il_targa.cpp', S + 'il_icon.cpp', S + 'il_utility.cpp'],
  [('open/close pair around the stream variant in every by-name codec entry point', S + 'il_*.cpp: ilLoadX, ilSaveX, ilIsValidX'), ('replaceable open/close procedures', S + 'il_files.cpp')],
  check=dict(checks=['handles'], floor={'items.open_sites': 30, 'items.roots': 3},
    technique='path-sensitive typestate dataflow over LLVM IR of the flattened call tree of every public entry point (opened -> closed)',
    rule='on every feasible path of every public entry point: open success => exactly one matching close before return; no use after close; no close of NULL or of a caller stream',
    explanation='Every public entry point that can reach an open/close procedure call is flattened (all relevant callees inlined) and abstractly interpreted over all paths with symbolic values; handles carry a typestate. counts: exits (return x abstract state) checked, basic blocks and abstract states visited; items: open and close call sites seen.',
    note='Sound for the modelled program up to recursion (none inlined) and calls that leave through longjmp; loops are interpreted to a fixpoint, so there is no bound on iterations.',
    assumptions=['a handle is tracked through values and fields; a handle stored into untracked memory and closed elsewhere would be reported as open (none exists)']))
P('P08', 'Calls with no bound image are reported, never dereferenced',
  'A public IL, ILU or ILUT call that works on the current image, made while no image is bound, records an error and returns a failure value on every path; it never dereferences the missing image and never reports success. (State queries and settings, name management, and calls that bring their own image are not such calls.)',
  ['inputs', 'histories'], 'every public entry point that reads the current image x every argument value x every history that leaves no image bound, including every helper reached with a null image',
  'tests always bind an image first; over 100 entry points and the helpers they share would each need the unbound history tried with every argument combination',
  [S + 'il_devil.cpp', S + 'il_io.cpp', S + 'il_convert.cpp', S + 'il_manip.cpp', S + 'il_register.cpp', S + 'il_states.cpp', S + 'il_dds-save.cpp', 'DevIL/src-ILU/src/'],
  [('guard on the current image at the top of every image call', 'iCurImage == NULL checks'), ('null-image guards in shared helpers', S + 'il_internal.cpp, il_manip.cpp, il_convert.cpp')],
  check=dict(checks=['nullimage'], floor={'items.image_functions': 40},
    technique='compositional path-sensitive nullness analysis over LLVM IR: summaries per (function, image unbound, null arguments), fixpoint over all paths',
    rule='from an entry state with the current image null: no load/store through a null pointer is reachable in the whole call tree; every return has recorded an error and returns zero/void',
    explanation='Every public entry point that transitively reads the current-image variable is interpreted with that variable null; callees are summarised per context (image unbound, which pointer arguments are null). items: the entry points decided; counts: dereferences and exits checked, abstract states.',
    note='Sound for the modelled program (loops to a fixpoint, no bound); calls through registered user callbacks are treated as unknown.',
    assumptions=['third-party callees do not bind an image']))
P('P06', 'Failed allocations and image creations are detected, never used',
  'When a memory allocation, the creation or resizing of an image, or the opening of a file or codec handle fails inside the library, at any point, the library never dereferences the resulting null pointer. A call that needed the failed buffer or image returns failure, not success (the .hdr writer may instead fall back to uncompressed output).',
  ['fault_sequences', 'inputs'], 'every allocation, image-creation and open call site in the library x every subset of them failing x every path to a use of the result',
  'no test makes an allocation fail; there are over 250 allocation and creation sites and each needs its own failure injected on every path that reaches it',
  [S + 'il_devil.cpp', S + 'il_manip.cpp', S + 'il_convert.cpp', S + 'il_*.cpp', 'DevIL/src-ILU/src/'],
  [('ialloc returns NULL on failure', 'DevIL/src-IL/src/il_alloc.cpp'), ('ilTexImage/ilInitImage/ilResizeImage/ilNewImage fail', S + 'il_devil.cpp, il_internal.cpp')],
  check=dict(checks=['allocnull'], floor={'items.failing_calls': 80, 'items.creation_calls': 60},
    technique='compositional path-sensitive nullness and failure-propagation analysis over LLVM IR with fault forking at every allocation/open/creation call',
    rule='for every function and every null-argument context reached: after a failing call no null-rooted pointer is dereferenced, and no boolean function returns success on a path where creating an image or buffer failed',
    explanation='Every function of DevIL is interpreted over all paths; each allocation/open call forks into success and NULL, each image creation into success and failure (image data pointer null). Callees are summarised per set of null arguments. counts: dereferences checked, function contexts; items: the failing call sites.',
    note='Sound for the modelled program apart from pointers kept in memory the analysis does not track (arrays of pointers behind caller-supplied pointers).',
    assumptions=['operator new throws; third-party open calls fail by returning NULL']))
P('P02', 'Streams are read and written from where the caller left them',
  'Probing, loading or determining the type of an image from an open stream leaves the stream at the position it had before the call, on success and on every failure. All positions a codec uses are relative to where the stream stood when it was handed in, so that images embedded at any offset of a stream are read, and written, in place.',
  ['inputs', 'fault_sequences'], 'every stream probe, stream load and type-detection function x every file content and every early exit x every start offset of the stream',
  'tests use streams at offset 0 with well-formed content and do not look at the position afterwards; each codec has its own early exits and seeks',
  [S + 'il_files.cpp', S + 'il_io.cpp', S + 'il_*.cpp'],
  [('FirstPos = itell() ... iseek(FirstPos, IL_SEEK_SET) in every ilIsValidXF/ilLoadXF', S + 'il_*.cpp'), ('start of the stream recorded', S + 'il_files.cpp: iSetInputFile, iSeekRFile, iTellRFile, iSetOutputFile, iSeekWFile, iTellWFile')],
  check=dict(checks=['streampos'], floor={'items.stream_functions': 20, 'exits_checked': 20},
    technique='path-sensitive dataflow over LLVM IR tracking the stream position relative to entry (known offset or unknown) through seeks, tells, reads and calls; linear-form extraction for the seek and tell procedures',
    rule='every return of every ilIsValid*F, ilLoad*F, ilDetermineTypeF: position offset from entry is 0; iSeekRFile/iTellRFile and iSeekWFile/iTellWFile use the same origin, set to the position of the stream by iSetInputFile/iSetOutputFile',
    explanation='Every stream function is interpreted over all paths (small helpers inlined). The abstract position is an exact offset from the entry position or unknown; a read or a call that may read makes it unknown, a seek back to a position queried before makes it known again. items: stream functions, position queries and seeks seen; counts: exits checked.',
    note='Exact for the position bookkeeping; assumes that a seek back to an earlier position succeeds.',
    assumptions=['the replaceable stream procedures implement seek/tell consistently', 'seeking back to a position reported before succeeds']))
P('P03', 'Saving never overwrites an existing file unless allowed',
  'While overwriting is off (IL_FILE_OVERWRITE disabled / IL_FILE_MODE false), no save call by file name opens an existing file for writing: it records IL_FILE_ALREADY_EXISTS, returns failure and leaves the file alone. This holds for every format, header and palette writer.',
  ['inputs', 'configurations'], 'every by-name save entry point x every value of the overwrite mode x existing or new target',
  'tests save to fresh names; each of the more than a dozen writers carries its own copy of the guard',
  [S + 'il_*.cpp: ilSaveX', S + 'il_pal.cpp', S + 'il_header.cpp', S + 'il_utility.cpp'],
  [('IL_FILE_MODE check and iFileExists before iopenw', S + 'il_*.cpp: ilSaveX(FileName)')],
  check=dict(checks=['overwrite'], floor={'items.write_open_sites': 8},
    technique='path-sensitive dataflow over LLVM IR with forked outcomes of the mode query and the existence check (flattened call trees)',
    rule='at every open for writing: on every path either the mode query returned true, or iFileExists returned false for the same file name value; a refusal records IL_FILE_ALREADY_EXISTS and returns 0',
    explanation='Every entry point that can reach an open for writing is flattened and interpreted over all paths; the mode query and the existence check fork. items: open sites, existence checks; counts: opens checked, refusals checked.',
    note='Exact on the guard logic; a check-then-open race with another process is outside the property.',
    assumptions=['iFileExists answers correctly', 'files are opened for writing through the open procedure, fopen or TIFFOpen']))
P('P30', 'Saving to a stream or memory returns the number of bytes written',
  'A save to a stream or memory buffer returns exactly the distance between where the output stood before and the end of the image it wrote, and leaves the output at that end. It returns 0 when the codec reports failure, and never 0 after the codec reported success; a save by file name succeeds exactly when that count is not 0.',
  ['inputs', 'configurations', 'histories'], 'every stream and memory save function x every image and codec setting x whatever output was used before',
  'sizes depend on image content, codec settings and leftovers of earlier calls (a count truncated to a byte fails for one image in 256); tests compare none of them',
  [S + 'il_io.cpp', S + 'il_files.cpp', S + 'il_*.cpp: ilSaveXF, ilSaveXL', S + 'il_tiff.cpp', S + 'il_sgi.cpp', S + 'il_bmp.cpp'],
  [('Pos = itellw() ... return itellw() - Pos', S + 'il_*.cpp'), ('seek back to the end after patching headers', S + 'il_bmp.cpp, il_sgi.cpp, il_tiff.cpp')],
  check=dict(checks=['savesize'], floor={'items.save_functions': 10},
    technique='path-sensitive dataflow over LLVM IR: symbolic output positions tagged start / end / elsewhere, forked outcomes of the internal save functions, return value required to be end minus start',
    rule='every return of every ilSave*F/ilSave*L and of ilSaveF/ilSaveL: value is (position at end of output) - (position right after the output was set), 0 iff the internal save failed; internal save functions return success only with the output at its end; dispatchers return their callee value unchanged',
    explanation='Stream and memory save functions are interpreted over all paths; positions are symbols tagged by what they denote. Internal save functions are interpreted for where they leave the output (seeks back for header patches, libtiff callbacks). items: save functions, internal save functions, position queries; counts: exits and size returns checked.',
    note='Exact for the position bookkeeping; partial writes that the codec ignores are not covered.',
    assumptions=['after libtiff closed the file, a seek to a position recorded by the codec goes to the end of the output']))
P('P13', 'Name, stream, memory and extension routes agree on the codec',
  'For every format constant, loading, probing, saving and sizing by file name, from a stream and from memory all go to the same codec (whenever that codec has the variant), and the result of the codec is the result of the call. A file name extension is loaded and saved by the codec of the type that ilTypeFromExt gives it, every extension listed by ilGetString(IL_LOAD_EXT / IL_SAVE_EXT) is handled, and type detection answers the type whose probe accepted, trying the same formats in the same order for streams and memory.',
  ['inputs', 'configurations'], 'every format constant x name/stream/memory x load/probe/save/size, every extension, every outcome of every codec',
  'the tests load and save a handful of formats by one route each; there are over 500 route pairs in a dozen hand-maintained switches and extension ladders',
  [S + 'il_io.cpp', S + 'il_size.cpp', 'DevIL/src-IL/include/il_states.h'],
  [('switch over the format in ilLoad/ilLoadF/ilLoadL, ilSave*, ilIsValid*', S + 'il_io.cpp'), ('extension ladders in ilLoadImage, ilSaveImage, ilTypeFromExt; extension lists', S + 'il_io.cpp, il_states.cpp')],
  check=dict(checks=['dispatch'], floor={'items.dispatchers': 12, 'items.routes': 250, 'items.extensions': 60, 'items.detected_types': 20},
    technique='partial evaluation of the dispatchers over LLVM IR (path-sensitive interpretation with the format constant or the extension fixed and everything else unknown), comparison of the resulting route tables',
    rule='for each format constant: {callees of ilXF} = {callee of ilX}F and {callees of ilXL} = {callee of ilX}L where such a function exists; last codec outcome decides the return value; type and probe correspond; load/save extension ladders agree with ilTypeFromExt; listed extensions are routed; detection sequences equal',
    explanation='Each dispatcher is interpreted once per format constant (extension) over all paths; codec calls fork into success and failure. items: dispatchers, routes found (dispatcher:type), extensions, detected types; counts: outcomes and route pairs compared.',
    note='Exact: the tables are finite and enumerated completely.',
    assumptions=['a codec is identified by the name of its ilLoadX/ilSaveX/ilIsValidX function']))
P('P14', 'State settings are stored exactly, read back exactly, and invalid ones refused',
  'Setting a state (ilEnable/ilDisable, ilSetInteger, ilSetString, ilHint, ilOriginFunc, ilFormatFunc, ilTypeFunc, ilCompressFunc and their ILU and ILUT counterparts) with a documented value changes exactly that state, and every query of it (ilIsEnabled, ilIsDisabled, ilGetInteger, ilGetBoolean, ilGetString and the pointer variants) then answers that value; different states never share storage. Any other value or mode is refused: an error is recorded and nothing changes. A string that is set is copied, and the one it replaces is freed.',
  ['inputs', 'histories'], 'every state of IL, ILU and ILUT x every 32-bit value given to it x every query of it',
  'there are over 90 settings with hand-written range tests, fields and queries in three libraries; a test samples a few values of a few states and never the whole 32-bit range of the others',
  [S + 'il_states.cpp', 'DevIL/src-ILU/src/ilu_states.cpp', 'DevIL/src-ILUT/src/ilut_states.cpp'],
  [('switch over the mode in every setter and query', S + 'il_states.cpp: ilAble, ilIsEnabled, ilSetInteger, iGetIntegervImage, ilGetString'), ('state structure', 'DevIL/src-IL/include/il_states.h: IL_STATES')],
  check=dict(checks=['states'], floor={'items.settings': 60, 'items.queries': 120},
    technique='partial evaluation over LLVM IR: setters and queries interpreted over all paths with the mode fixed and the value an unconstrained interval; accepted ranges and stored/returned places compared with the documented table',
    rule='for each mode: set of values on non-error paths = documented set; the one store on those paths is the argument itself, to one place; no store on error paths; result 1/0 accordingly; each query returns the load of that place; places of different modes differ',
    explanation='Every setter and query is interpreted once per mode (all modes of its switch, all documented modes and an unknown one) with every other argument unknown; per path the effects on named storage, the error and the result are compared with the documented table. items: settings, queries; counts: outcomes compared, boundary values tried.',
    note='Exact: values are intervals over all 2^32 values, modes are enumerated. The documented ranges are those of the DevIL manual as the code at this commit implements them.',
    assumptions=['string helpers that allocate strlen+1 bytes and copy are copies']))
P('P15', 'Pushed attributes keep, default and restore exactly the states of their groups',
  'ilPushAttrib and ilutPushAttrib open a new level in which every state of the pushed groups keeps its current value (strings as private copies) and every other state has its default; nothing of an older use of the level remains, and other levels do not change. ilPopAttrib and ilutPopAttrib return to the level below with its states untouched and free the strings of the level they leave. A push onto a full stack or a pop from an empty one records IL_STACK_OVERFLOW or IL_STACK_UNDERFLOW and changes no states.',
  ['inputs', 'histories'], 'every combination of attribute groups (single, pairs, complements, all, none) x every state x every depth of the stack x whatever an older use left in the level',
  'over 55 states have to be copied or defaulted individually; a forgotten one shows only after a particular sequence of settings, pushes and pops',
  [S + 'il_states.cpp', 'DevIL/src-ILUT/src/ilut_states.cpp', 'DevIL/src-IL/include/il_states.h'],
  [('ilPushAttrib, ilPopAttrib, ilDefaultStates', S + 'il_states.cpp'), ('ilutPushAttrib, ilutPopAttrib, ilutDefaultStates', 'DevIL/src-ILUT/src/ilut_states.cpp')],
  check=dict(checks=['attrib'], floor={'items.states': 45, 'items.pushes': 30, 'fields_checked': 1000},
    technique='partial evaluation over LLVM IR with the attribute mask fixed and the stack level symbolic; effects per field compared with the group table; value-range analysis of the stack level',
    rule='on every path of push(bits): field f of level n+1 = field f of level n (a fresh copy for strings) if its group is in bits, else its default; all fields assigned; no store outside level n+1; pop: index n-1, frees exactly the strings of level n; the index stays inside the array; only push and pop write it',
    explanation='Push is interpreted over all paths for every single group, pair, complement, all and none; the level is a symbol, so the result holds at every depth. counts: fields and defaults compared, outcomes; items: states, pushes, pops, writers of the level.',
    note='Exact for the enumerated masks; groups are independent conditionals, so pairs and complements stand for all combinations.',
    assumptions=['string helpers that allocate strlen+1 bytes and copy are copies']))
P('P16', 'Errors are kept last-in first-out, at most 32, and described in every language',
  'ilSetError adds one error and ilGetError removes and returns the most recent one, or returns IL_NO_ERROR when none is left; when 32 errors are waiting, the next one drops only the oldest. No other call but ilInit removes an error that was recorded before it. iluErrorString describes each documented error code by its own text in the language selected by iluSetLanguage (English initially), and an unknown language is refused without changing the selection.',
  ['histories', 'inputs'], 'every queue depth from empty to full x every error value; every documented error code x every language',
  'the interesting depths are the last ones of 32, which tests never reach, and over 200 texts have to line up with numeric codes in parallel tables',
  [S + 'il_error.cpp', 'DevIL/src-ILU/src/ilu_error.cpp', 'DevIL/src-ILU/include/ilu_err*.h'],
  [('ilErrorNum/ilErrorPlace stack', S + 'il_error.cpp'), ('text tables and their selection', 'DevIL/src-ILU/src/ilu_error.cpp')],
  check=dict(checks=['errqueue'], floor={'items.depths': 33, 'items.languages': 8, 'texts_checked': 200, 'items.error_removers': 4, 'removals_checked': 6},
    technique='partial evaluation over LLVM IR at every queue depth with the error value symbolic; who-may-write analysis of the queue; constant evaluation of the text tables through the selecting function',
    rule='for each depth 0..32: ilSetError stores its argument on top, index+1, other elements unchanged (when full: every element takes its upper neighbour); ilGetError returns the top, index-1, nothing else; only these two write the queue; every other function that removes an error does so only after a call of its own that may have recorded one, and after a read only where that read is known to have delivered less than asked for; for each language and code: text present, of that language table, distinct, English text names the error',
    explanation='Both functions are interpreted over all paths at each of the 33 depths; the writers of the queue are enumerated over the whole program; the texts are read from the initialisers selected by each language. items: depths, languages, writers; counts: outcomes, texts.',
    note='Exact: the depths and codes are finite and enumerated, values are symbolic.',
    assumptions=[]))
P('P35', 'Image queries answer for the image that is bound now',
  'ilGetInteger and ilGetIntegerv of the image dimensions, sizes, format, type, palette and other image parameters, and ilGetData and ilGetPalette, answer exactly the corresponding property of the currently bound image; the numbers of sub-images, mipmaps, layers and faces are the lengths of those chains. Without a bound image they record an error and answer 0. Queries never change anything.',
  ['inputs', 'histories'], 'every image query x every image content x bound or unbound',
  'tests query a few parameters of ordinary images; palettes of each layout, images with sub-images and the unbound case are each separate code',
  [S + 'il_states.cpp', S + 'il_devil.cpp', S + 'il_pal.cpp'],
  [('image cases of the integer query', S + 'il_states.cpp: iGetIntegervImage, ilGetIntegerv'), ('ilGetData, ilGetPalette', S + 'il_devil.cpp, il_pal.cpp')],
  check=dict(checks=['imgquery'], floor={'items.queries': 50},
    technique='partial evaluation over LLVM IR with the query fixed and the bound image symbolic: returned value compared with the named field or field product',
    rule='for each query: the value returned (stored) on every path is the field (or product) of the current image named by the documentation, with no effect and no error; with no image: error, 0, no effect; chain counts checked for chains of 0..3 links',
    explanation='The query functions are interpreted over all paths once per query (per palette layout, per chain length) with the contents of the image symbolic. items: queries; counts: outcomes compared.',
    note='Exact for the single-field queries; chain lengths are checked up to 3 links (one loop per chain).',
    assumptions=[]))
P('P36', 'Format, type and palette tables agree with the documented sizes',
  'ilGetBppFormat, ilGetBpcType, ilGetFormatBpp, ilGetTypeBpc, ilGetBppPal and ilGetPalBaseType answer the documented number of channels, bytes per channel, format, type, bytes per palette entry and palette base format for every documented constant, and 0 for anything else.',
  ['inputs'], 'every documented format, type and palette constant, and the values around them',
  'every conversion, loader and saver sizes its buffers by these tables, but most of their entries (half floats, doubles, 32-bit palettes) are never used by a test',
  [S + 'il_utility.cpp'], [('the six switches', S + 'il_utility.cpp')],
  check=dict(checks=['formats'], floor={'items.tables': 6, 'items.entries': 35},
    technique='partial evaluation of the table functions over LLVM IR, compared entry by entry with the documented tables',
    rule='f(c) = documented value for every documented c, without side effects; f(v) = 0 for every other value tried (all of 0..255 for byte arguments, the neighbourhoods of all constants otherwise)',
    explanation='Each function is interpreted per constant. items: tables, entries; counts: other values, outcomes.',
    note='Exact for the entries; other 32-bit values are covered in the ranges where constants live.',
    assumptions=[]))
P('P04', 'All file access goes through the procedures set with ilSetRead and ilSetWrite',
  'Every image, palette or header file the library opens, reads, positions, writes or closes is handled only by the procedures last registered with ilSetRead and ilSetWrite (or the default ones after ilResetRead and ilResetWrite), each called for its own purpose with the handle in use and the buffer and sizes asked for. No codec, palette or header function touches the file system by any other means; the only exceptions are testing whether a file to be written already exists and colour profiles named to ilApplyProfile.',
  ['programs', 'inputs'], 'every function of the library x every direct or library-mediated file operation x every set of registered procedures',
  'applications that serve images from archives or sandboxes rely on it; a codec that opens a file by itself still passes every test that loads from the disk',
  [S + 'il_files.cpp', S + 'il_io.cpp', S + 'il_pal.cpp', S + 'il_header.cpp', S + 'il_*.cpp'],
  [('registered procedure variables and their setters', S + 'il_files.cpp: ilSetRead, ilSetWrite, ilResetRead, ilResetWrite'), ('file operations over the procedures', S + 'il_files.cpp: iSetInputFile, iReadFile, ...')],
  check=dict(checks=['iofuncs'], floor={'items.procedures': 13, 'items.operations': 9, 'items.defaults': 13, 'file_access_sites': 10, 'functions': 800},
    technique='who-may-call analysis over the whole-library call graph, plus partial evaluation of the setters and of the file operations',
    rule='every use of an operating-system or codec-library file function lies in a function that serves only default procedures (or the existence test, opening for reading only); default procedures are never called directly; each setter keeps each procedure in its own place, each reset restores all; each file operation calls exactly its registered procedure once with the file in use',
    explanation='All functions of the three libraries are scanned for uses of file functions; the setters and the operations installed for files are evaluated over all paths. items: procedures, operations, defaults; counts: functions scanned, file_access_sites, outcomes.',
    note='File functions are recognised by name (C library, POSIX, C++ streams, codec libraries); a file function under another name would not be seen.',
    assumptions=['the read cache is off (the operations with the cache on are covered by the same procedures through iread)', 'third-party codecs open no files of their own when given streams or callbacks']))
P('P05', 'All memory comes from, and returns to, the allocator set with ilSetMemory',
  'Every block the library allocates is obtained from the procedure registered with ilSetMemory and returned to the registered freeing procedure; a NULL procedure, and ilResetMemory, select the defaults. It never frees through it memory that came from elsewhere (a local, a static object, another allocator, the middle of a block), and never uses malloc, free, strdup, new or delete by itself (the C++ containers of the .utx and .pam loaders excepted).',
  ['programs', 'inputs'], 'every allocation and free site of the library',
  'mixing allocators goes unnoticed while the registered one is malloc, which is how every test runs; with a custom allocator it corrupts the heap',
  [S + 'il_alloc.cpp', S + 'il_internal.cpp', S + 'il_*.cpp', 'DevIL/src-ILU/src/'],
  [('registered allocator and its wrappers', S + 'il_alloc.cpp: ialloc, icalloc, ifree, ilSetMemory'), ('several hundred free sites', S + 'il_*.cpp')],
  check=dict(checks=['allocs'], floor={'frees': 300, 'functions': 800, 'direct_sites': 2},
    technique='who-may-call analysis over the whole-library call graph, SSA origin analysis of freed pointers, partial evaluation of the setters',
    rule='every use of a system allocator lies in a function that serves only the default procedures; no freed value originates from a local, a static object, an external function or an inner address; setters keep their argument or the default for NULL; the wrappers call the registered procedures',
    explanation='All functions are scanned for uses of system allocators; the origin of every freed pointer is followed through casts, phis and selects to its definition. counts: functions, frees, direct_sites, outcomes.',
    note='Origins reached through memory (a field loaded and then freed) are not followed; fields are filled from the wrappers by the same scan.',
    assumptions=['C++ standard containers use their own allocator and never hand their memory to the library']))
P('P37', 'No call reads or writes through the stream or buffer of an earlier call',
  'Whenever a public call reads or writes image, palette or header data, it does so on the file, stream or buffer named in that call; before the first byte is read or written the call has established its own source or target on every path. It never falls back on the stream or buffer an earlier call left behind.',
  ['histories', 'inputs'], 'every public entry point that can read or write x every path x every preceding history',
  'a forgotten source works by accident in a test that has just opened the same file; it takes a specific earlier call to read a closed file or overwrite a freed buffer',
  [S + 'il_io.cpp', S + 'il_pal.cpp', S + 'il_header.cpp', S + 'il_rawdata.cpp', S + 'il_*.cpp'],
  [('source and target selection', S + 'il_files.cpp: iSetInputFile, iSetInputLump, iSetOutputFile, iSetOutputLump')],
  check=dict(checks=['iotarget'], floor={'items.readers': 12, 'items.writers': 10, 'read_sites': 400, 'write_sites': 100, 'selected_procedures': 9, 'selections': 4, 'state_checked': 8},
    technique='interprocedural must-dataflow (source/target established before use, in this call) with path-sensitive confirmation',
    rule='on every feasible path from the entry of a public function to a read (write) operation, a source (target) was selected after the last open or close; what selects a source (target) replaces on every path every procedure in use, by operations that work on one and the same source, and all that only those operations and the selectors write, positions by zero',
    explanation='A fixpoint over the whole call graph computes, per function, which read and write sites can be reached with no source or target established; exposed entry points are confirmed by path-sensitive interpretation. items: readers, writers; counts: read_sites, write_sites, target_settings.',
    note='Covers all paths and call chains of the modelled program.',
    assumptions=['registered user codecs select no source of their own']))
P('P38', 'Every ILU and ILUT call works on the image bound now',
  'Each ILU and ILUT call that reads or changes the current image works on the image that is bound when the call is made, and asks for it anew on every path. It never uses an image remembered from an earlier call, which may have been deleted or be another one.',
  ['histories'], 'every public ILU and ILUT entry point x every path x every history of binding and deleting images between calls',
  'a remembered image is usually still the right one; it takes a rebind or a deletion between two calls to touch the wrong or a freed image',
  ['DevIL/src-ILU/src/', 'DevIL/src-ILUT/src/'],
  [('the remembered image iluCurImage', 'DevIL/src-ILU/src/*.cpp'), ('ilGetCurImage', S + 'il_internal.cpp')],
  check=dict(checks=['curimage'], floor={'items.image_calls': 25, 'uses_checked': 400},
    technique='interprocedural must-dataflow (bound image asked for before use, in this call) with path-sensitive confirmation',
    rule='on every feasible path from the entry of a public ILU/ILUT function to a use of the remembered image variable, the variable was assigned from the bound image in this call',
    explanation='A fixpoint over the whole call graph; exposed entry points are confirmed by path-sensitive interpretation. items: image_calls; counts: uses_checked, bindings_read.',
    note='Covers all paths and call chains of the modelled program.',
    assumptions=[]))
P('P12', 'Operations leave the image they were called with selected',
  'Loading, saving, converting, blitting, copying, comparing, filtering and every other call, except the ones that exist to bind, select, generate-and-bind or delete images, leaves the image name current that was current before, on success and on failure alike, with either the sub-image that was selected or the named image itself selected, never another sub-image or another image. A call of ilActiveImage, ilActiveFace, ilActiveLayer or ilActiveMipmap that fails leaves the selection as it was.',
  ['inputs', 'histories', 'fault_sequences'], 'every public call x every path through it: every failure point of every loader, saver and filter included',
  'temporary rebinding is everywhere in multi-image loaders, savers and the blit/clone/compare calls; a failure in the middle of them is not in any test',
  [S + '*.cpp', 'DevIL/src-ILU/src/*.cpp'],
  [('selection and binding', S + 'il_stack.cpp'), ('temporary rebinding', S + 'il_convert.cpp: ilFixImage; il_dds.cpp, il_dds-save.cpp, il_vtf.cpp, il_dcx.cpp, il_mdl.cpp, il_wal.cpp, il_devil.cpp; ilu_filter.cpp, ilu_manip.cpp, ilu_scale.cpp')],
  check=dict(checks=['binding'], floor={'items.other_calls': 30, 'items.binding_calls': 6, 'functions_analysed': 200},
    technique='path-sensitive symbolic tracking of the current-image pointer and the current name over LLVM IR, with per-function keeps/rebinds summaries and inlining of the functions that do not keep the selection',
    rule='at every return of every public function: the current name equals the one at entry, and the current image equals the one at entry or what ilBindImage(current name) selects; for the calls that select images: the same whenever they return failure',
    explanation='Each function that may write the binding variables is interpreted over all its paths; the value of iCurImage and CurName at each return is compared symbolically with the value at entry. items: public calls checked; counts: functions, exits.',
    note='Assumes an image was bound at entry and that slots of the image stack that exist stay bound (allocation of a new slot by ilBindImage of an existing name does not happen). Registered user procedures are taken not to rebind.',
    assumptions=['user-registered loaders and savers do not rebind', 'ilBindImage(n) with n the current name selects the base image of n']))
P('P10', 'Loaded images have the origin, type and format that was asked for',
  'After a load from a file, stream or memory succeeds, every image it created (all frames, faces, layers and mipmaps) has the origin set by ilOriginFunc, the type set by ilTypeFunc and the format set by ilFormatFunc whenever the corresponding IL_ORIGIN_SET, IL_TYPE_SET or IL_FORMAT_SET mode is enabled, and has no palette when IL_CONV_PAL is set; a load that cannot bring an image there fails.',
  ['inputs', 'configurations'], 'every loader x every success path x every combination of the loading modes x chains of images',
  'tests load with default modes; the modes are honoured by one shared step that every loader must take last on every success path',
  [S + 'il_*.cpp (loaders)', S + 'il_convert.cpp'],
  [('ilFixImage, ilFixCur', S + 'il_convert.cpp'), ('dispatch to the loaders', S + 'il_io.cpp')],
  check=dict(checks=['fixup'], floor={'items.loaders': 110, 'items.modes': 4, 'items.shapes': 9},
    technique='must-call-before-success summaries of all loaders over LLVM IR; symbolic path analysis of the fixing step per mode; enumeration of the walk over image chains',
    rule='every non-zero return of every loader is preceded by a successful ilFixImage with no image (re)created afterwards; every success of ilFixCur implies, per mode, disabled or equal to the requested value or converted to it; ilFixImage visits every (image, face, layer, mipmap) of chains of 0..2 links per level, from the base image, and fails when one cannot be fixed',
    explanation='Loaders called by ilLoad, ilLoadF, ilLoadL, ilLoadImage and ilLoadData* are interpreted with outcome summaries. items: loaders, modes, chain shapes; counts: contexts, success returns, walks.',
    note='Conversion itself is the subject of other properties; a successful ilConvertImage or ilFlipImage is taken to deliver what was asked for. The walk is enumerated for up to 2 links per level. When IL_CONV_PAL converts a palette, the type and format of that image are those of the conversion.',
    assumptions=['ilConvertImage and ilFlipImage deliver what they are asked for when they succeed', 'user-registered loaders are outside the claim']))
P('P19', 'Memory buffers are accessed only inside the size given, and their end reported',
  'A load, probe or type detection from memory reads no byte outside the buffer and size given, and a save to memory writes none outside it, whatever the content, the seeks and the transfer sizes. Reading, writing and seeking deliver exactly the bytes at the position and advance it by what was transferred; reaching the end of the buffer is reported by a short count or IL_EOF (with an error recorded, except by a single refused byte write), and a seek is refused exactly when its target lies outside.',
  ['inputs', 'histories'], 'every buffer size x every position reachable by any history of reads, writes and seeks x every transfer size and seek offset, including those whose sums wrap',
  'tests use lumps that are large enough and well-formed; the boundary cases (one byte short, offset at the end, sums beyond 32 bits) are not exercised',
  [S + 'il_files.cpp', S + 'il_io.cpp'],
  [('lump operations installed by iSetInputLump and iSetOutputLump', S + 'il_files.cpp: i*Lump'), ('ReadLumpPos <= ReadLumpSize, WriteLumpPos <= WriteLumpSize between calls', S + 'il_files.cpp')],
  check=dict(checks=['lump'], floor={'items.operations': 9, 'buffer_accesses': 4, 'bindings': 80, 'items.calls': 4, 'exits_checked': 20, 'setter_outcomes': 2},
    technique='abstract interpretation over LLVM IR with a difference-constraint (zone) domain and an inductive position invariant; parameter-flow analysis of the public memory calls',
    rule='every access to the buffer is proved inside [0, size) (wrap-free reading of the machine arithmetic); position <= size is preserved by every function that touches it; reads and writes copy byte for byte at the position and stop only at the request or the end; a public memory call hands its buffer and size only to the binding step',
    explanation='Every function that uses the lump variables is interpreted over all paths from any state that satisfies the invariant, loops to a fixpoint. items: operations, functions, public calls, access sites; counts: accesses proved, exits checked, bindings followed.',
    note='Unbounded in sizes, positions and loop iterations. Accesses through a pointer that is itself advanced in a loop are not resolved (none exist). Registered user codecs get the buffer by contract.',
    assumptions=['the buffer given is as large as the size given; a NULL buffer for saving is only used with size 0 (size determination)'],))
P('P07', 'Released memory is never used, released again or left reachable',
  'On every path of every call, a block that was released - an image\'s data, palette or chain, a scratch buffer, a table - is not read, written, returned or released again. No public call returns while an image it worked on, or a variable of the library, still refers to memory released during that call, so the next call cannot use it either.',
  ['inputs', 'histories', 'fault_sequences'], 'every release site in the library x every path on from it, across calls of helper functions, x every failure that leads to a clean-up branch',
  'double frees and stale pointers sit on error branches (short reads, failed allocations, the second of two identical calls) that tests never take, and often do nothing visible even when taken',
  [S + 'il_*.cpp', S + 'il_devil.cpp', S + 'il_register.cpp', 'DevIL/src-ILU/src/'],
  [('ifree', 'DevIL/src-IL/src/il_alloc.cpp'), ('ilCloseImage, ilResizeImage_, ilTexImage_ release and replace the buffers of an image', S + 'il_stack.cpp, il_devil.cpp'), ('clean-up branches of the codecs', S + 'il_*.cpp')],
  check=dict(checks=['released'], floor={'items.release_sites': 400, 'accesses_checked': 100000, 'exits_checked': 5000},
    technique='compositional path-sensitive typestate analysis (live/released) of heap blocks over LLVM IR, with summaries of what each function releases, replaces and leaves dangling',
    rule='no access through, return of or second release of a pointer after a release of the same block on the same path; at the return of a public function no place reachable from its arguments or the globals still holds a pointer to a block released since entry',
    explanation='Every function is interpreted over all paths against summaries of its callees: which arguments it releases, which places (field paths from globals and arguments) it releases and whether it replaces the pointer kept there. counts: releases, accesses and returns checked; items: the release sites.',
    note='Tracks pointers in variables, image fields and globals; blocks reached through arrays of pointers or lists inside one loop are followed by identity of the last element only. The ILU copy of the current image, set anew by each operation, is left to P38.',
    assumptions=['third-party libraries do not release memory they were lent', 'distinct allocations and distinct image fields do not share one block (what P18 states for copies)']))
P('P39', 'What a call allocates is released, returned or handed over',
  'Whatever a function of the library obtains while it runs, memory, temporary images, converted palettes and opened library handles alike, it has released, returned to its caller, or stored in the image or another place that outlives the call by the time it returns. This holds on every path, including those where a file is malformed, a write or a conversion fails, or a later allocation fails.',
  ['inputs', 'fault_sequences'], 'every function x every path through it, each allocation and each call that returns something allocated failing or succeeding',
  'a leak changes no result a test looks at, and the paths that leak are the ones where the third of four allocations fails or a file ends early',
  [S + '*.cpp', 'DevIL/src-ILU/src/*.cpp', 'DevIL/src-ILUT/src/*.cpp'],
  [('allocation', S + 'il_alloc.cpp'), ('loaders, savers, conversion', S + '*.cpp'), ('filters and manipulations', 'DevIL/src-ILU/src/*.cpp')],
  check=dict(checks=['leaks', 'over'], floor={'destructions': 1, 'items.replacing_functions': 80, 'replacements': 700, 'functions': 900, 'items.sources': 400, 'exits_checked': 4000},
    technique='path-sensitive ownership analysis over LLVM IR with interprocedural summaries (who returns something owned, who may keep an argument)',
    rule='on every feasible path, an owned object is released, returned, passed to a callee that may keep it, or stored in memory that outlives the function, before the function returns; what a released structure alone refers to was released or taken out of it first; what an image owns and is known to be there is released, kept or handed over when its place in the image is given to something else; ilCloseImage releases everything the image owns',
    explanation='Each function is interpreted over all its paths with its callees summarised. items: sources (sites where something owned is obtained); counts: functions, exits_checked, states.',
    note='Objects stored into array elements at a variable index count as handed over (their elements are not told apart), and so do those passed to functions of unknown effect. Storage an image already owned at entry is followed where its place is overwritten (a palette with no colours counts as none) and where the image is released.',
    assumptions=['the origin of an image is one of the two legal values']))
P('P32', 'Calls that only look at an image leave it exactly as it was',
  'A call that saves, inspects, describes or selects an image (ilSave*, ilSaveData, ilSavePal, ilGet*, ilCopyPixels, ilIsValid*, ilDetermineType*, iluCompareImage, the state setters, ...) leaves the dimensions, format, type, origin, palette, pixels, attributes and sub-images of the image bound when it is made as they were, on success and on every failure. A call that gives the image one attribute (its origin, duration, palette, ...) and a filter that works on the pixels in place leave every other attribute as it was.',
  ['inputs', 'fault_sequences'], 'every image, every argument and option, and every failure of a callee, the output or an allocation, in the 120 calls of the table.',
  'A save that flips, converts or re-orders the image while writing it and forgets to put it back on one failing path damages the next use of the image; tests save once, successfully, and look at the file.',
  [S+'il_io.cpp: ilSave, ilSaveImage', S+'il_targa.cpp: iSaveTargaInternal', S+'il_tiff.cpp: iSaveTiffInternal', S+'il_psd.cpp: iSavePsdInternal', S+'il_dds-save.cpp: iSaveDdsInternal', S+'il_pal.cpp: ilSavePal', S+'il_rle.cpp: ilRleCompress', 'DevIL/src-ILU/src/ilu_utilities.cpp: iluCompareImage', 'DevIL/src-ILU/src/ilu_filter.cpp'],
  [('saving', S + 'il_io.cpp and the savers'), ('in-place filters and manipulations', S + 'il_manip.cpp, DevIL/src-ILU/src/'), ('state and attribute setters', S + 'il_state.cpp, il_register.cpp')],
  check=dict(checks=['frame'], floor={'items.calls': 110, 'exits_checked': 8000}, technique='path-sensitive interprocedural effect analysis with entry values (LLVM IR)',
    rule='For every public call of the table and every path to a return: each scalar member of the image bound at entry holds its entry value (or the same constant, or the entry value divided and multiplied back), and no store, copying call or callee effect reaches its pixels, palette, other storage or sub-images; red and blue are exchanged an even number of times. Setters and in-place filters may change the members listed for them.',
    explanation='Each function is interpreted path-sensitively with the image bound at entry and its pointer parameters as named roots; member values are tracked from entry to return, pointers derived from a root (through loads, joins and loop-renamed values) are recognised as leading into it, and the effects of callees are instantiated at their call sites per outcome. A path that restores a member clears its effect; one that does not yields the place where it was changed.',
    note='Places reached after the call has bound another image (ilOverlayImage) are not followed. Library code outside this repository is taken to leave the image alone; local function pointers that cannot be resolved are taken to write nothing. SizeOfPlane is taken to be a multiple of the channel size. What ilLoad* may change is not restricted.',
    assumptions=['Format and origin of an image are among their enumerated values.', 'ilSwapColours applied twice is the identity.', 'Image memory is not reachable through user callbacks.']))
P('P18', 'A copy of an image is complete and owns everything it refers to',
  'When ilCopyImage, ilCloneCurImage or the internal copying functions report success, the copy has the dimensions, format, type, origin, palette, pixels, duration, cube flags, offsets, animation list and colour profile of the original. Palette, animation list and profile are blocks of the copy\'s own, of the right size, so that changing or deleting one image never affects the other.',
  ['inputs', 'histories', 'fault_sequences'], 'every image (with or without palette, profile, animation list), every earlier content of the destination, every allocation failing or not, a sub-image selected or not',
  'a forgotten member or a shared pointer shows only for images that have the member, and only once the original or the copy has been deleted',
  [S + 'il_devil.cpp: ilCopyImageAttr, ilCopyImage, ilCloneCurImage, ilCopyImage_', S + 'il_pal.cpp: iCopyPalette'],
  [('attributes', S + 'il_devil.cpp: ilCopyImageAttr'), ('whole images', S + 'il_devil.cpp: ilCopyImage, ilCloneCurImage, ilCopyImage_'), ('palettes', S + 'il_pal.cpp: iCopyPalette')],
  check=dict(checks=['copies'], floor={'items.members': 20, 'items.obligations': 9, 'success_returns': 10},
    technique='path-sensitive value tracking over LLVM IR: every member of the copy compared with the entry value of the original',
    rule='on every path to a successful return: each scalar member of the destination holds the entry value of the same member of the source; each pointer member is null when the source has none, else a block allocated on that path, as large as the source\'s, filled from it over its whole length; the destination was sized from and its pixels taken from the same source its attributes come from, and it is the image that was asked for',
    explanation='ilCopyImageAttr and iCopyPalette are interpreted with source and destination as distinct objects and every member of the source preloaded; the functions that copy whole images are interpreted over the selection steps (which image is current), with the obligations sized, filled and attributes per (destination, source) pair. items: members and obligations checked.',
    note='Sub-images, DXTC data and the image\'s place in chains are not copied by design of the library. That a step called with the right image does what its name says is the subject of P18 itself (attributes) and of the allocation properties.',
    assumptions=['source and destination are different images (an image copied onto itself is checked to be left alone)', 'ilBindImage with one name selects one image']))
P('P09', 'A manipulation that reports failure has recorded an error',
  'When a call that creates, converts, copies, filters, scales, registers or selects images or sets library state returns its failure value (false, NULL or 0), an error has been recorded on that path and ilGetError returns it. This holds for every cause of the failure: no image bound, unsupported format, type or dimension, missing palette, allocation failure, a failing step.',
  ['inputs', 'fault_sequences'], 'every argument, every format and type of the bound image, every failing callee and allocation',
  'a silent failure shows only for a caller that provokes exactly that cause and then asks ilGetError; the tests look at return values of calls that succeed',
  [S + 'il_convert.cpp, il_convbuff.cpp, il_devil.cpp, il_manip.cpp, il_pal.cpp, il_stack.cpp, il_dds.cpp, il_dds-save.cpp, il_states.cpp, il_register.cpp', 'DevIL/src-ILU/src/ilu_filter.cpp, ilu_manip.cpp, ilu_scale.cpp, ilu_rotate.cpp'],
  [('conversion', S + 'il_convbuff.cpp: ilConvertBuffer; il_convert.cpp: iConvertImage, iConvertPalette'), ('images', S + 'il_devil.cpp: ilNewImage, ilTexImage_, ilBlit'), ('filters', 'DevIL/src-ILU/src/ilu_filter.cpp')],
  check=dict(checks=['errors'], floor={'items.calls': 60, 'outcomes_checked': 120},
    technique='path-sensitive interprocedural outcome analysis (LLVM IR): (returned value, error recorded) pairs of every function composed over the call graph',
    rule='no outcome of a public manipulation call pairs its failure value with a path on which ilSetError was not called; callees contribute the pairs of their own summaries, per context of null and non-null pointer arguments',
    explanation='Each function is interpreted once per context; every return yields (class of value, recorded or not). A finding names the call and the path down to the return that kept quiet.',
    note='Calls that load, save, probe or determine files are left out: many loaders report a damaged file without an error of their own. So are calls for which zero is an answer (ilIsImage, iluColoursUsed, iluCompareImage, ilRemoveLoad, ilRemoveSave, ilCopyPixels of an empty area) and ilCompressDXT, whose comparison of two sizes is beyond the analysis. That the error code fits the cause is not decided.',
    assumptions=['every image has pixel data', 'libsquish never reports an empty compressed image', 'ilCreateSubImage is asked for at least one image']))
P('P40', 'Every image name stands for one image, the selected one is the named one',
  'A name ilGenImages hands out stands for a new image that no other name stands for, and keeps it until it is deleted: no other call gives that name to another image, forgets it, or replaces its image while it is there. The selected image is always that of the current name (or a subimage of it): deleting the selected image selects image zero, and no call leaves a closed image selected or named.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of generating, binding, deleting, replacing, initialising and shutting down, with any names, also when the table cannot be enlarged',
  'the names that collide depend on the whole history of generated, bound and deleted names; a stale selection is memory that is still readable until something reuses it',
  [S + 'il_stack.cpp, il_internal.cpp'],
  [('table of names', S + 'il_stack.cpp: ilGenImages, ilBindImage, ilDeleteImages, iEnlargeStack'), ('start and end', S + 'il_stack.cpp: ilInit, iSetImage0, iBindImageTemp, ilShutDown'), ('replacement', S + 'il_stack.cpp: ilReplaceCurImage')],
  check=dict(checks=['names'], floor={'items.functions': 5, 'entry_stores_checked': 20, 'closings_checked': 10, 'exits_checked': 40},
    technique='typestate analysis of the table of names over all paths of the functions that write it (LLVM IR, path-sensitive, helpers read in their callers)',
    rule='on every path: an entry is overwritten only if it is empty, just closed or beyond the names in use; a name handed out is one whose entry was just filled; an entry filled is counted among the names in use at exit and the count never drops while the table is there; what is closed leaves the table; at exit the selection is unchanged, empty, or the entry of the current name, and is not something closed',
    explanation='The table, the current name and the count of names in use are recognised from what ilBindImage does to them. Array elements and their indices are followed symbolically; a finding gives the path.',
    note='The invariants are inductive: each function is shown to keep what it may assume of the others. That a name in the list of free names is below the count of names in use is assumed, not shown. Names of images made before ilInit are included, image data are not.',
    assumptions=['names on the free list are below the count of names in use']))
P('P41', 'Reading ahead delivers exactly the bytes of the stream and ends with the call',
  'A decoder that has bytes read ahead of itself receives, read by read, exactly the bytes the stream holds from where it stood, never a byte beyond those the caller\'s read procedure delivered. Reading ahead ends before the call that started it returns, whether the file decodes or not, and then the stream stands directly behind the last byte the decoder took. While bytes are read ahead no decoder asks where the stream stands or moves it.',
  ['inputs', 'fault_sequences'], 'every image stream, whole, truncated at any byte or malformed, read through any procedures, with any number of bytes read ahead at a time',
  'the error depends on where a block of bytes read ahead ends within a run, or on a decode failing at one byte, after which the next load from another source reads stale bytes',
  [S + 'il_files.cpp (iPreCache, iUnCache, iGetcFile, iReadFile)', S + 'il_bmp.cpp, il_pcx.cpp, il_dcx.cpp, il_psd.cpp, il_sgi.cpp, il_targa.cpp, il_hdr.cpp'],
  [('reading ahead', S + 'il_files.cpp: iPreCache, iUnCache'), ('delivery', S + 'il_files.cpp: iGetcFile, iReadFile'), ('decoders', S + 'il_bmp.cpp, il_pcx.cpp, il_dcx.cpp, il_psd.cpp, il_sgi.cpp, il_targa.cpp, il_hdr.cpp: run-length decoders')],
  check=dict(checks=['readahead'], floor={'public_calls': 140, 'deliveries': 3, 'exits_checked': 100, 'items.read_ahead_sites': 8, 'returns_to_the_stream': 1, 'starts': 1, 'sizes': 2, 'bounds_checked': 1},
    technique='typestate analysis of the read-ahead state with bottom-up summaries over all paths from every public call, and symbolic equalities between the places delivered and recorded inside the reading procedures (LLVM IR)',
    rule='reading ahead is off at every exit of a public call that finds it off; no decoder calls the position procedures while it is on; the start recorded is the position told before the read, the amount recorded is what the read returned or zero; bytes are taken at the place reached and the place moves on by as many; the bytes counted as delivered equal the place reached; a single byte is taken only below the amount; ending it seeks, from the start, to start plus delivered',
    explanation='The state (on, buffer, amount, start, place, delivered) is recognised from what iPreCache, iUnCache and the readers do to it. Paths on which memory is read, which never reads ahead, are left out. A finding gives the path from where reading ahead started.',
    note='The length of a block copied out of the bytes read ahead is not compared with the amount there. Position procedures of the caller are assumed to tell and set the position.',
    assumptions=['the position procedures tell and set the position in bytes', 'one read procedure is set throughout a load']))
P('P42', 'No result depends on a variable that was given no value',
  'Whatever the arguments, the image and the bytes of a file are, no call decides anything by, stores, passes on, returns, or uses as an address or index, the value of a local variable to which nothing was assigned on the path taken. This includes unknown formats, types and enumerants, and the paths on which a read or an allocation fails.',
  ['inputs', 'fault_sequences'], 'every function of the library x every path through it x every local variable of scalar type',
  'an unassigned variable usually holds something harmless in a test; the paths that miss the assignment are those of an enumerant or a file nobody tried',
  [S + '*.cpp', 'DevIL/src-ILU/src/*.cpp', 'DevIL/src-ILUT/src/*.cpp'],
  [('conversion and manipulation by format and type', S + 'il_convert.cpp, il_manip.cpp, il_squish.cpp, il_devil.cpp'), ('decoders', S + 'il_*.cpp'), ('filters', 'DevIL/src-ILU/src/*.cpp')],
  check=dict(checks=['uninit'], floor={'items.functions': 1000, 'variables': 4000, 'values_checked': 150000},
    technique='path-sensitive definite-assignment analysis over LLVM IR: every local scalar starts as a marked value that is followed symbolically',
    rule='on every feasible path, no branch condition, stored value, address, argument or result is computed from the marked value a local variable holds before its first assignment',
    explanation='Each function is interpreted over all its paths. items: functions; counts: variables (local scalars followed), values_checked.',
    note='Variables whose address is taken, arrays, and structures (unless their members are held apart) are not followed; a value that is unassigned on only some of the paths merged into one state counts as assigned.',
    assumptions=[]))
P('P50', 'A saved image loads back with the same pixels in every lossless format',
  'An image saved in a format that stores it without loss and loaded again has the dimensions, format and pixel values it was saved with, whichever of the save and load routes are used.',
  ['inputs'], 'every image x every lossless format x every route', 'tests save a few images of one size',
  [S + 'il_*.cpp'], [('codecs', S + 'il_targa.cpp, il_bmp.cpp, il_png.cpp, il_sgi.cpp, il_pnm.cpp, il_psd.cpp …')],
  na='equality of pixel values through an encoder and a decoder quantifies over the bytes produced by data-dependent loops (run lengths, filters, and zlib or libpng outside this source); no static rule in reach relates the two programs')
P('P51', 'Decoding a malformed file never reads or writes outside a buffer',
  'Whatever the bytes of a file, a decoder reads and writes only inside the buffers it allocated, also when dimensions, offsets, run lengths or palette indices in the file contradict each other.',
  ['inputs'], 'every byte sequence x every decoder', 'tests decode well-formed files',
  [S + 'il_*.cpp'], [('run-length and block decoders', S + 'il_targa.cpp, il_psd.cpp, il_pcx.cpp, il_gif.cpp, il_dds.cpp …')],
  na='the bound of most accesses is a product of file-supplied sizes compared with nested data-dependent counters; the interval and zone domains here decide only part of them and would report the rest on code where the property holds. The part that is decided is P19 (buffers handed to the library), P41 (bytes read ahead) and P06 (allocations that fail)')
P('P52', 'Loading ends, whatever the file',
  'Loading returns after a number of steps bounded by the size of the file and the dimensions it states, whatever its bytes.',
  ['inputs'], 'every byte sequence x every decoder', 'tests decode well-formed files',
  [S + 'il_*.cpp'], [('decoder loops', S + 'il_gif.cpp, il_targa.cpp, il_psp.cpp, il_tiff.cpp …')],
  na='the progress of a decoder loop depends on what the read procedures answer and on decoded lengths; a ranking argument per loop would have to be written by hand for each decoder and could not be derived for rewritten ones')
P('P53', 'Filters and scaling compute the values their documentation states',
  'Blurring, sharpening, edge detection, scaling with each filter, gamma and contrast produce for every pixel the value the documented kernel or formula gives, clamped to the range of the type.',
  ['inputs'], 'every image x every filter x every parameter', 'tests look at few images',
  ['DevIL/src-ILU/src/ilu_filter.cpp', 'DevIL/src-ILU/src/ilu_scaling.cpp'], [('kernels', 'DevIL/src-ILU/src/ilu_filter_rcg.cpp, ilu_filter.cpp, ilu_scaling.cpp')],
  na='the result is arithmetic over unbounded arrays of run-time values; there is no independent statement of it in the source that a static rule could compare with')
P('P54', 'Regions outside an image are clipped, never read or written beyond it',
  'Copying, setting, overlaying, blitting and cropping with any offsets and sizes touch only pixels inside both images, and refuse or clip the rest.',
  ['inputs'], 'every offset and size x every region call', 'tests use regions inside the image',
  [S + 'il_devil.cpp', S + 'il_manip.cpp', 'DevIL/src-ILU/src/ilu_manip.cpp'], [('region calls', S + 'il_devil.cpp: ilBlit, ilCopyPixels, ilSetPixels; DevIL/src-ILU/src/ilu_manip.cpp: iluCrop')],
  na='the index is (y+YOff)*Bps+(x+XOff)*Bpp under clipped loop bounds: a product of two unknowns that must be compared with Height*Bps, which needs non-linear reasoning the zone and affine domains used here do not have. iluCrop is known not to check its offsets (see the findings listed in this document)')
P('P55', 'Using the library from several threads at once is safe',
  'Independent images can be used from several threads at once without one call disturbing another.',
  ['schedules'], 'every interleaving of two calls', 'tests use one thread',
  [S + '*.cpp'], [('shared state', S + 'il_stack.cpp, il_states.cpp, il_files.cpp')],
  na='it does not hold by design: the selected image, the states, the error stack and the stream are global variables without locks, and the documentation promises no thread safety; there is no guarantee to check')
SPEC = {p['id']: p['check'] for p in PROPS if p['check']}
for c in SPEC.values(): c['assumptions'] = COMMON + c['assumptions']
