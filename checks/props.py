def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    return d


PROPS = [
    p('C01', 'An archive reads back exactly as it was written',
      'Writing a PBO archive and reading it gives the same properties, entry names (with backslashes), sizes, offsets and contents, in case-insensitive name order. Archives of other tools, with any property bytes, entry order or time stamps, give the contents stored at each entry.',
      'all sets of files with any names and contents, all property sets, with and without the header entry',
      'The tests read a few recorded archives and write one; names, contents, property text and ordering are free inputs.',
      ['libs/pbo/src/read.rs', 'libs/pbo/src/write.rs', 'libs/pbo/src/model/header.rs', 'libs/common/src/io.rs'],
      [('writer', 'libs/pbo/src/write.rs WritablePbo::write'), ('reader', 'libs/pbo/src/read.rs ReadablePbo::from'), ('entry header', 'libs/pbo/src/model/header.rs')], observe=['bytes written', 'properties(), files(), file(), file_offset()']),
    p('C02', 'The archive checksum is the SHA-1 of the archive and is reproducible',
      'The checksum stored and returned when an archive is written is the SHA-1 of all bytes before it, and recomputing it from the read archive gives the same value, with or without a properties header.',
      'all archives: any files, properties, with and without header',
      'The tests compare three recorded archives; the checksum covers every header field and content byte of every archive.',
      ['libs/pbo/src/read.rs', 'libs/pbo/src/write.rs', 'libs/pbo/src/model/checksum.rs'],
      [('hash on write', 'libs/pbo/src/write.rs'), ('gen_checksum', 'libs/pbo/src/read.rs')]),
    p('C03', 'Reading any bytes as an archive is safe, and damaged archives are rejected',
      'Reading any byte string as an archive ends with an archive or an error, never with a panic, and no lookup returns more data than the archive holds. A truncated archive, or one with data behind its checksum, is rejected.',
      'all byte strings; all truncations and extensions of archives',
      'The tests only open well-formed archives.',
      ['libs/pbo/src/read.rs', 'libs/pbo/src/file.rs', 'libs/pbo/src/model/header.rs'],
      [('reader', 'libs/pbo/src/read.rs ReadablePbo::from'), ('entry window', 'libs/pbo/src/file.rs')], over=('inputs', 'fault_sequences')),
    p('C04', 'Archive lookups ignore case and slash kind; insertion order does not matter',
      'A lookup in an archive finds exactly the entry whose name equals the given one up to letter case and the kind of slash; while an archive is built, exactly the file whose name equals it up to the kind of slash. The written archive does not depend on the order in which files were added.',
      'all sets of distinct names, all queries, all insertion orders',
      'The tests look up a handful of names in one archive and never permute insertions.',
      ['libs/pbo/src/read.rs', 'libs/pbo/src/write.rs'],
      [('file lookup', 'libs/pbo/src/read.rs file/file_offset/header'), ('sorting', 'libs/pbo/src/write.rs files_sorted')], over=('inputs', 'histories')),
    p('C05', 'Compressed integers and C strings survive encoding and decode safely',
      'Every 32-bit value encodes as little-endian base 128 in its announced length and decodes to itself; every NUL-free string written with its terminator is read back and the reader stops right behind it. Decoding any bytes ends with a value or an error, never with a panic.',
      'all 32-bit values, all strings, all byte strings',
      'The tests use a few values; the encoding branches on the number of 7-bit groups and malformed input is never tried.',
      ['libs/common/src/io.rs'],
      [('write_compressed_int / compressed_int_len', 'libs/common/src/io.rs WriteExt'), ('read_compressed_int, read_cstring', 'libs/common/src/io.rs ReadExt')]),
    p('C06', 'LZO compression followed by decompression is the identity',
      'Compressing any data and decompressing the result gives the data, in no more than the announced worst-case space, and both compression entry points produce the same bytes.',
      'all byte strings, in particular those reaching each literal-length, match-length and distance class of the format',
      'The tests compress one buffer; the compressor has a branch for every distance and length class.',
      ['libs/lzo/src/compress.rs', 'libs/lzo/src/decompress.rs'],
      [('compressor', 'libs/lzo/src/compress.rs'), ('decompressor', 'libs/lzo/src/decompress.rs')]),
    p('C07', 'The LZO code stays inside its buffers and decodes exactly the format',
      'Decompressing any bytes into a buffer of any size gives the data an LZO1X decoder gives, or an error, without reading or writing outside the buffers; truncated or extended streams are errors. Compressing into a buffer that is too small is an error and writes nothing outside it.',
      'all compressed byte strings and all output sizes',
      'The tests decompress one valid stream into a buffer of the right size; the code uses raw pointers.',
      ['libs/lzo/src/decompress.rs', 'libs/lzo/src/compress.rs', 'libs/lzo/src/lib.rs'],
      [('bounds checks', 'libs/lzo/src/decompress.rs'), ('output checks', 'libs/lzo/src/compress.rs')], over=('inputs', 'fault_sequences')),
    p('C08', 'A signature made with a key is the defined one and verifies with its public key',
      'Signing an archive produces the padded hashes (of the archive, its file names and the files the version covers, with the prefix) raised to the private exponent, and the public part of the key accepts it. Key and signature files survive reading and writing unchanged; malformed ones are errors, not panics.',
      'all archives, both signature versions, all key and signature files',
      'The tests sign recorded archives and compare with recorded signatures; the covered extensions, empty files and prefixes are free inputs.',
      ['libs/signing/src/lib.rs', 'libs/signing/src/private.rs', 'libs/signing/src/public.rs', 'libs/signing/src/signature.rs'],
      [('hashes', 'libs/signing/src/lib.rs generate_hashes'), ('sign', 'libs/signing/src/private.rs'), ('verify', 'libs/signing/src/public.rs')]),
    p('C09', 'A tampered archive signature or a foreign key is rejected',
      'Verification accepts only the exact signature of the archive under the given key: any change of the signature bytes, the modulus, the exponent or the authority of the key leads to rejection, as does an archive whose entries are not sorted.',
      'all alterations of signatures and keys',
      'The tests verify valid signatures only; acceptance of anything else is not tried.',
      ['libs/signing/src/public.rs', 'libs/signing/src/lib.rs'],
      [('verify', 'libs/signing/src/public.rs BIPublicKey::verify')], over=('inputs', 'fault_sequences')),
    p('C10', 'Versions parse, print and compare by their components',
      'Printing and parsing a version gives the same version; a text is accepted exactly when it has three or four numeric components and an optional hash; versions compare by components with a missing build first. The numbers read from script_version.hpp are the defined ones, whatever comments, order or line ends it uses.',
      'all versions and all texts',
      'The tests use about ten texts; digits, separators and malformed forms are free inputs.',
      ['libs/common/src/version.rs'],
      [('TryFrom<&str>', 'libs/common/src/version.rs'), ('PartialOrd', 'libs/common/src/version.rs'), ('try_from_script_version', 'libs/common/src/version.rs')]),
    p('C11', 'Addon prefixes are accepted exactly when well formed and keep their text',
      'A prefix file gives its prefix (plain, or the value of a prefix key in any letter case) with exactly the parts between backslashes, or an error when it is empty, absolute or uses forward slashes; printing it gives the text back. Removing a prefix case-insensitively works on any text without panicking.',
      'all prefix file texts and all strings',
      'The tests use a dozen texts, none with non-ASCII characters.',
      ['libs/common/src/prefix.rs', 'libs/common/src/strip.rs'],
      [('Prefix::new', 'libs/common/src/prefix.rs'), ('strip_prefix_insensitive', 'libs/common/src/strip.rs')]),
    p('C12', 'Preprocessor and config arithmetic follows the usual precedence',
      'Evaluating an arithmetic expression gives the value determined by the usual precedence and associativity, with parentheses and unary minus, in double precision. A malformed expression has no value and evaluation never panics.',
      'all expressions over numbers, + - * / % ^ and parentheses, and all other texts',
      'The tests use a few dozen expressions; operator combinations and malformed texts are free inputs.',
      ['libs/common/src/math.rs'],
      [('tokenizer and shunting-yard', 'libs/common/src/math.rs')]),
    p('C13', 'Textures read back as stored and malformed ones are errors',
      'Reading a PAA texture gives the format, tags and mipmaps (size, compression flag, data) stored in it, and a mipmap shows the same picture whether it is stored raw or compressed. Reading any bytes ends with a texture or an error, never with a panic. Writing a picture gives a texture of its size, or an error if it has no room in one.',
      'all texture files; pictures of any size',
      'The tests open three recorded textures.',
      ['libs/paa/src/paa.rs', 'libs/paa/src/mipmap.rs', 'libs/paa/src/pax.rs'],
      [('reader', 'libs/paa/src/paa.rs Paa::read'), ('mipmaps', 'libs/paa/src/mipmap.rs')]),
    p('C14', 'A model reads back as it was written, and lost writes are reported',
      'Writing a P3D model produces the MLOD format and reading it gives the same versions, points, normals, faces, textures, materials, tags (with distinct names) and resolution. If the destination does not take every byte, writing reports an error.',
      'all models; all places at which the destination fails',
      'The tests read recorded models; no test writes a model into a failing destination.',
      ['libs/p3d/src/lib.rs', 'libs/p3d/src/lod.rs', 'libs/p3d/src/face.rs', 'libs/p3d/src/point.rs', 'libs/p3d/src/vertex.rs'],
      [('P3D::write/read', 'libs/p3d/src/lib.rs'), ('LOD::write/read', 'libs/p3d/src/lod.rs')], over=('inputs', 'fault_sequences')),
    p('C15', 'Reading any bytes as a model is safe, and truncated models are rejected',
      'Reading any byte string as a P3D model ends with a model or an error, never with a panic or a reservation of memory for counts that the file only claims. A face has three or four vertices. A truncated model is an error.',
      'all byte strings, all truncations of models',
      'The tests only open well-formed models.',
      ['libs/p3d/src/lib.rs', 'libs/p3d/src/lod.rs', 'libs/p3d/src/face.rs'],
      [('P3D::read', 'libs/p3d/src/lib.rs'), ('LOD::read', 'libs/p3d/src/lod.rs'), ('Face::read', 'libs/p3d/src/face.rs')], over=('inputs', 'fault_sequences')),
    p('C16', 'Exactly the textures and materials that cannot be found are reported missing',
      'A texture or material a model references is reported missing exactly when neither the file nor, for textures, the form it is converted from or to (paa, tga, png) exists in the workspace; procedural textures and empty names never are. The cache does not change the answer.',
      'all combinations of referenced and existing files',
      'The tests look at one model.',
      ['libs/p3d/src/lib.rs', 'libs/workspace/src/path.rs'],
      [('P3D::missing', 'libs/p3d/src/lib.rs'), ('WorkspacePath::locate', 'libs/workspace/src/path.rs')], over=('inputs', 'histories')),
    p('C17', 'A path finds the file the documentation says, and only that',
      'A relative path is looked up from the folder of the file that names it, an absolute one from the root of the workspace and otherwise through the longest prefix (of the prefix files in the addons, optionals and include folders) it starts with, whatever its case and kind of slashes. The path of a file in the game leads back to the file. Two addons with the same prefix are rejected; the addons and missions are exactly those with a config or a mission file.',
      'all workspaces (of files in memory), all paths',
      'The tests look at one recorded workspace with one addon; nested and equal prefixes and paths with .. are free inputs.',
      ['libs/workspace/src/path.rs', 'libs/workspace/src/lib.rs', 'libs/common/src/prefix.rs'],
      [('WorkspacePath::locate', 'libs/workspace/src/path.rs'), ('as_virtual_str', 'libs/workspace/src/path.rs'), ('build_pointers', 'libs/workspace/src/lib.rs')]),
    p('C18', 'Sorting and writing a stringtable keeps everything in it',
      'A stringtable that is read and written keeps every package, container, key, text (as it is escaped) and comment, each comment once before the element it was before (or at the end of its element); languages come in the documented order. Sorting orders packages, containers and keys by name, and nothing else; sorting or reading and writing again changes nothing. The totals are the numbers of keys and of texts of each language, and the lint reports exactly those files that are not written this way. Reading any text ends with a stringtable or an error. (White space at the ends of a text has no meaning; comments are on lines of their own; names and IDs are distinct.)',
      'all stringtables and their comments, all texts',
      'The tests have three recorded files, with one package and comments in one layout.',
      ['libs/stringtable/src/lib.rs', 'libs/stringtable/src/package.rs', 'libs/stringtable/src/key.rs', 'libs/stringtable/src/totals.rs', 'libs/stringtable/src/analyze/'],
      [('from_reader, to_writer', 'libs/stringtable/src/lib.rs'), ('sort', 'libs/stringtable/src/package.rs'), ('Totals', 'libs/stringtable/src/totals.rs'), ('L-L01', 'libs/stringtable/src/analyze/lints/_01_sorted.rs')], over=('inputs', 'histories')),
    p('C19', 'Conditional directives select exactly the right lines',
      'Of a preprocessed file exactly those lines remain whose enclosing #ifdef, #ifndef, #if and #else hold at that point, and directives in skipped lines have no effect. #if compares numbers by value and other text for equality. Unclosed conditionals, stray or repeated #else and unknown directives in read lines are errors.',
      'all nestings of conditional directives and definitions, all comparisons',
      'The tests preprocess a few fixed files; orders of definitions, nesting and #else are free inputs.',
      ['libs/preprocessor/src/ifstate.rs', 'libs/preprocessor/src/processor/directives.rs'],
      [('IfStates', 'libs/preprocessor/src/ifstate.rs'), ('directive_if', 'libs/preprocessor/src/processor/directives.rs')], over=('inputs', 'histories')),
    p('C20', 'Macros expand to their definition',
      'A use of a macro is replaced by its current definition with the arguments put in for the parameters (stringified after #, joined at ##), recursively, but never inside itself; strings are left alone; a call with a wrong number of arguments is an error. __LINE__, __COUNTER__, __COUNTER_RESET__ and the file name macros have the documented values. Redefining a macro without #undef is warned about.',
      'all definitions and uses of macros',
      'The tests expand a few dozen recorded files; combinations of nesting, stringify, join, strings and redefinition are free inputs.',
      ['libs/preprocessor/src/processor/defines.rs', 'libs/preprocessor/src/processor/directives.rs', 'libs/preprocessor/src/defines.rs', 'libs/preprocessor/src/definition.rs'],
      [('define_use', 'libs/preprocessor/src/processor/defines.rs'), ('Defines', 'libs/preprocessor/src/defines.rs')], over=('inputs', 'histories')),
    p('C21', 'Preprocessing keeps plain text and strings and removes only comments',
      'Text that uses no directive and no macro comes out as it is, except that comments outside of strings are gone and a backslash at the end of a line joins the next. What looks like a comment within a string, or like the start of one within another comment, is not one.',
      'all texts without directives and macros',
      'The tests have a few commented files; mixtures of quotes and comment marks are free inputs.',
      ['libs/preprocessor/src/parse/mod.rs', 'libs/preprocessor/src/processor/mod.rs'],
      [('parse', 'libs/preprocessor/src/parse/mod.rs'), ('walk', 'libs/preprocessor/src/processor/mod.rs')]),
    p('C22', 'Preprocessing any text ends with a result or an explained error',
      'Whatever a file contains, preprocessing it ends with a result or an error; it does not panic, hang or overflow the stack, and every error and warning has a diagnostic that can be shown.',
      'all files (that do not include each other in a cycle)',
      'The tests have one file for each error; malformed directives and calls are free inputs.',
      ['libs/preprocessor/src/processor/mod.rs', 'libs/preprocessor/src/processor/directives.rs', 'libs/preprocessor/src/processor/defines.rs', 'libs/preprocessor/src/codes/pw1_redefine.rs'],
      [('Processor::run', 'libs/preprocessor/src/processor/mod.rs'), ('codes', 'libs/preprocessor/src/codes')]),
    p('C23', 'Every character of processed text leads back to where it was written',
      'For each character that preprocessing produces, the mapping names the file it came from and its place there, or for text from a macro the place of the use of that macro. Errors and warnings of the preprocessor are reported in the file and at the place of what is wrong, with the right line. (Columns are not stated.)',
      'all files: any mixture of text, non-ASCII letters, comments, macros, includes and continued lines',
      'The tests check the mapping of a handful of short files; places after includes, macros, comments and multi-byte characters are free inputs.',
      ['libs/workspace/src/reporting/processed.rs', 'libs/workspace/src/position.rs', 'libs/preprocessor/src/parse/', 'libs/preprocessor/src/codes/'],
      [('Processed::new, mapping', 'libs/workspace/src/reporting/processed.rs'), ('parse', 'libs/preprocessor/src/parse/mod.rs')]),
    p('C24', 'Includes read the right file, and pragmas apply exactly in their scope',
      'An include puts in the processed text of the file its path leads to, from the folder of the file with the include, with the macros defined there; an include of a file that is not there is an error. A suppressed warning is not reported, and a flag is in force, from the pragma on: for the next line, to the end of the file, or in everything the file includes too; all others are.',
      'all sets of files (that do not include each other in a cycle), all sequences of pragmas',
      'The tests have one include and few pragmas in fixed places.',
      ['libs/preprocessor/src/processor/directives.rs', 'libs/preprocessor/src/processor/pragma.rs', 'libs/workspace/src/path.rs'],
      [('directive_include', 'libs/preprocessor/src/processor/directives.rs'), ('Pragma', 'libs/preprocessor/src/processor/pragma.rs')], over=('inputs', 'histories')),
    p('C25', 'A binarised config says what its source says',
      'Binarising a config keeps every class with its parent, every external class, deletion, entry and array (or array expansion) in order with its name, type and value; all offsets, counts and lengths in the file lead to the right places, and the announced length is the written one.',
      'all configs: any nesting, sizes, names and strings',
      'The tests binarise two or three short configs and compare with recorded bytes or only lengths; nesting, sizes over 127 and string contents are free inputs.',
      ['libs/config/src/rapify/', 'libs/config/src/parse/', 'libs/common/src/io.rs'],
      [('Rapify', 'libs/config/src/rapify/class.rs'), ('Rapify for Array', 'libs/config/src/rapify/array.rs'), ('parse::str', 'libs/config/src/parse/str.rs')]),
    p('C26', 'Parsing any config ends with a config or errors shown at a place in their file',
      'Whatever text a config is, reading it ends with a config that can be binarised or with at least one error; it does not panic or hang. Each error and warning has a diagnostic, whose labels are places in the named source file (of the original text, also after macros, includes, comments and non-ASCII text), and for an error in the form of the config shows the processed line it is in.',
      'all config texts',
      'The tests have one file per lint, all ASCII and mostly without macros; malformed texts and their places are free inputs.',
      ['libs/config/src/lib.rs', 'libs/config/src/parse/', 'libs/config/src/analyze/', 'libs/workspace/src/reporting/'],
      [('parse', 'libs/config/src/lib.rs'), ('Diagnostic', 'libs/workspace/src/reporting/diagnostic/mod.rs'), ('Processed', 'libs/workspace/src/reporting/processed.rs')]),
    p('C27', 'Numbers in a config keep their value',
      'A decimal or hexadecimal integer in a config is that integer (32 or 64 bits wide as needed), a decimal or exponent number is the nearest 32-bit float, whatever follows it; text that is not a number is not taken for one.',
      'all number texts',
      'The tests parse about ten numbers; limits of the types, exponents, blanks and malformed numbers are free inputs.',
      ['libs/config/src/parse/number.rs', 'libs/config/src/parse/value.rs', 'libs/config/src/model/number.rs'],
      [('number', 'libs/config/src/parse/number.rs'), ('Number::try_evaulation', 'libs/config/src/model/number.rs')]),
    p('C28', 'The config lints report exactly what they describe, at its place',
      'Invalid values, duplicate properties, duplicate classes, unknown parents, parents in another case, arrays for plain entries and the reverse, missing semicolons and braces, and magazines of wells that are not defined are each reported exactly where they occur, and nothing else is.',
      'all configs: names, parents, nesting and order',
      'The tests have one or two recorded files per lint.',
      ['libs/config/src/analyze/lints/'],
      [('c01..c10', 'libs/config/src/analyze/lints/')], over=('inputs', 'histories')),
    p('C29', 'The configuration in force is the one the files say',
      'What project.toml, launch.toml, lints.toml and addon.toml set is what is in force, and what they leave out has its documented default. A launch preset has its own values, then those of the presets it extends; presets given together concatenate arrays and take single values from the last. Contradictory, incomplete or circular configurations are errors. The version is the configured one, else that of the version file, whatever was asked before.',
      'all configurations: any combination of settings, presets and sources',
      'The tests load a few files and one chain of two presets; combinations, chains, cycles and the split between files are free inputs.',
      ['libs/common/src/config/project/', 'libs/common/src/config/addon/', 'libs/common/src/version.rs'],
      [('from_file, into_config', 'libs/common/src/config/project/mod.rs'), ('extends', 'libs/common/src/config/project/hemtt/mod.rs'), ('extend, overlay', 'libs/common/src/config/project/hemtt/launch.rs'), ('version', 'libs/common/src/config/project/version.rs')], over=('inputs', 'histories')),
    p('C30', 'Every addon of a project is found, and files on disk in any letter case',
      'Scanning a project finds exactly the folders in addons and optionals, each with the prefix of a prefix file of any documented name, its place and its configuration, in whatever order the directories are listed; addons without a valid prefix or configuration, and names used twice (also in another letter case or the other folder), are errors. A path asked for in another letter case finds the file also on a disk that distinguishes case, an exact match first, and the difference is noticed.',
      'all project trees, all orders of listing, all requests',
      'The tests scan one fixed project; trees, faults, prefixes and listing orders are free inputs.',
      ['libs/workspace/src/addons.rs', 'libs/workspace/src/lib.rs', 'libs/workspace/src/path.rs'],
      [('Addon::scan', 'libs/workspace/src/addons.rs'), ('locate', 'libs/workspace/src/path.rs'), ('WorkspaceBuilder::finish', 'libs/workspace/src/lib.rs')], over=('inputs', 'histories')),
    p('C31', 'Lints run exactly as configured',
      'A lint runs on what it is for exactly if it is enabled (by the project, else by default), with the configured or default severity and options; what it reports has that severity. A configuration below the least severity of a lint, or that disables one whose least severity is error, is an error. The stringtable lint reports exactly unsorted tables.',
      'all sets of lints and configurations',
      'The tests use the default configuration only.',
      ['libs/workspace/src/lint/', 'libs/common/src/config/project/lint.rs', 'libs/config/src/analyze/', 'libs/stringtable/src/analyze/'],
      [('LintManager', 'libs/workspace/src/lint/mod.rs'), ('lint_check', 'libs/config/src/analyze/mod.rs')], over=('inputs', 'histories')),
    p('C32', 'A compiled script is what its source says',
      'Compiling an SQF script gives code that does exactly what the source says: operators bind by their documented precedence and from the left, commands are nular, unary or binary by where they stand, statements, assignments, arrays, inner code and literals (text with doubled quotes, numbers) keep order and value, and each command carries the offset and line where it was written. The file has the text of the script, and every index, length and offset in it leads to the right place.',
      'all scripts: any nesting of operators, commands, code, arrays and literals',
      'The tests compile a few recorded scripts; combinations of operators, nesting and literals are free inputs.',
      ['libs/sqf/src/parser/', 'libs/sqf/src/compiler/mod.rs', 'libs/sqf/src/compiler/serializer/'],
      [('parser::run', 'libs/sqf/src/parser/mod.rs'), ('Statements::compile', 'libs/sqf/src/compiler/mod.rs'), ('Compiled::serialize', 'libs/sqf/src/compiler/serializer/mod.rs')]),
    p('C33', 'Optimising a script keeps its meaning',
      'An optimised script means what it meant: only operations on constants are done in advance, with the result the game would have (finite floats, ASCII letter case), and an array becomes a constant that all executions share only where no command can keep, change or give away it or a part of it. Optimising never panics.',
      'all scripts: any commands, operations and constants',
      'The tests compare four short scripts with recorded trees.',
      ['libs/sqf/src/compiler/optimizer/'],
      [('Expression::optimize', 'libs/sqf/src/compiler/optimizer/mod.rs')]),
    p('C34', 'Any script ends as statements or as errors that say where',
      'Whatever text a script is, reading it ends with statements that can be compiled, optimised and linted, or with at least one error; nothing panics or hangs. Each error and warning has a diagnostic whose labels are places in the file.',
      'all script texts',
      'The tests have two malformed scripts.',
      ['libs/sqf/src/parser/', 'libs/sqf/src/analyze/', 'libs/sqf/src/compiler/'],
      [('parser::run', 'libs/sqf/src/parser/mod.rs'), ('lexer', 'libs/sqf/src/parser/lexer.rs'), ('analyze', 'libs/sqf/src/analyze/mod.rs')]),
    p('C35', 'SQF lints report exactly what they describe; suggestions mean the same',
      'Each SQF lint reports what it describes exactly where it is, as its options say: typeName of constants, command case, if used as select, find as in, select as parseNumber, format arguments, commands and events too new, unknown or of another command, impossible or redundant comparisons, reserved variables, repeated marker updates, banned commands, and so on. What it suggests instead is SQF that means the same.',
      'all scripts, all settings of the lints',
      'The tests have one recorded script for each lint.',
      ['libs/sqf/src/analyze/lints/', 'libs/sqf/src/lib.rs'],
      [('s01..s24', 'libs/sqf/src/analyze/lints/'), ('Expression::source', 'libs/sqf/src/lib.rs'), ('required_version', 'libs/sqf/src/lib.rs')], over=('inputs', 'histories')),
    p('C36', "A project's own commands are commands in its scripts",
      'A command described in the .hemtt/commands folder of the project can be used in scripts as the nular, unary or binary command it is described as, in any letter case, and in no other way; all other commands stay as they are.',
      'all descriptions of commands, all scripts',
      'There are no tests of it.',
      ['libs/sqf/src/parser/database/mod.rs', 'libs/sqf/src/parser/mod.rs'],
      [('a3_with_workspace', 'libs/sqf/src/parser/database/mod.rs')]),
    p('C37', 'Problems in preprocessed text are reported as what they are and where they are',
      'Each erroneous directive, call or pragma in text that is read is reported with the code for its kind at its exact place, with the place of what caused it (the definition, the opening directive) where there is one, and with help and a suggestion that fit; in a branch that is not read it is not reported. Suggested names are the nearest defined ones. Redefinitions and a wrongly cased config.cpp are warned about, and nothing else is.',
      'all erroneous lines of every code, in any surroundings: other lines, included files, branches',
      'The tests have one recorded file for each code, with the error in the first lines of the file.',
      ['libs/preprocessor/src/codes/', 'libs/preprocessor/src/processor/', 'libs/preprocessor/src/defines.rs'],
      [('codes', 'libs/preprocessor/src/codes/'), ('directives', 'libs/preprocessor/src/processor/directives.rs'), ('Processor::run', 'libs/preprocessor/src/processor/mod.rs'), ('similar names', 'libs/preprocessor/src/defines.rs')]),
    p('C38', 'A config requires the highest version that its patches ask for',
      'The patches of a config are exactly the classes in CfgPatches (in any letter case), each with the version its requiredVersion asks for, given with or without decimals, or none; the version required by the addon is the highest of them, and it is shown at the place where it is asked for.',
      'all configs: any patches with any form of version, among other classes',
      'The tests read one config with one patch.',
      ['libs/config/src/model/config.rs', 'libs/config/src/analyze/cfgpatch.rs', 'libs/config/src/lib.rs', 'libs/common/src/version.rs'],
      [('get_patches', 'libs/config/src/model/config.rs'), ('required_version', 'libs/config/src/lib.rs'), ('CfgPatch', 'libs/config/src/analyze/cfgpatch.rs')]),
]
NA = {}
