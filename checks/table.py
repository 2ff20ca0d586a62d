"""Per property: the harness jobs. job = (group, entry, harness, quick, thorough, reach labels, what is decided and within which bounds)
quick/thorough = (params, seconds) or None."""


def J(group, entry, h, q, t, reach, what, noise=(), steps=0):
    """steps: bound on the instructions of one path (default 40 million)"""
    return dict(group=group, entry=entry, h=h, quick=q, thorough=t or q, reach=reach, what=what, noise=noise, steps=steps)


c = 'h_core'
w = 'h_ws'
f = 'h_cfg'
s = 'h_fs'
q = 'h_sqf'
P = {
    'C01': [
        J(c, 'sym_pbo', 0, ('2:2:2', 150), ('2:3:2', 900), ['roundtrip'], 'archives of 0..2 files: names of 1..2 characters (thorough 1..3) over {a B c / \\ . _}, contents of 0..2 arbitrary bytes, with or without a properties header (prefix of 0..3 characters, a key with a 0..2 character value, an extra key); the written bytes equal a reference serialiser and reading gives properties, names, sizes, offsets and contents back'),
        J(c, 'sym_pbo', 7, ('2:2', 60), ('3:3', 300), ['foreign'], 'archives of other tools: 1..2 properties with values of 0..2 (thorough 0..3) arbitrary non-zero bytes, two entries in either order, arbitrary original size, reserved field and time stamp; contents, offsets, fields and checksum come back'),
        J(c, 'sym_pbo', 8, ('3', 60), ('4', 600), ['history'], 'every history of 3 (thorough 4) additions, replacements, removals, lookups, properties and writes: the archive written is what was put in last'),
        J(c, 'sym_pbo', 10, ('', 60), None, ['many'], 'archives of 17, 130 and 260 files and properties, names of 300 characters, contents of 0 to 70001 bytes: bytes, checksum, contents and sizes'),
        J(c, 'sym_pbo', 11, ('0', 60), None, ['unusual'], 'two or three names outside ASCII or with blanks, properties called prefix in any case or outside ASCII, with values with blanks, line breaks, slashes at their ends: all come back, in order'),
    ],
    'C02': [
        J(c, 'sym_pbo', 1, ('2:2:2', 90), ('2:3:2', 600), ['same'], 'archives of 0..2 files, names of 1..2 (thorough 3) characters, 0..2 arbitrary bytes each, 0..2 properties, with and without header: written checksum = SHA-1 of everything before it (independent hashing of the bytes), recomputed = stored = returned'),
        J(c, 'sym_pbo', 9, ('', 60), None, ['large'], 'an archive with a file of 1000001 bytes, which is hashed and written by two threads (one schedule: each runs to its end when it is started), and a small one behind it, the last bytes symbolic: contents and checksum'),
        J(c, 'sym_pbo', 11, ('1', 60), None, ['unusual'], 'names outside ASCII or with blanks: the same checksum'),
    ],
    'C03': [
        J(c, 'sym_pbo', 4, ('24', 60), ('30', 300), ['rejected'], 'arbitrary bytes: a name of 0..2 bytes and 0..24 (thorough 30) header bytes: no panic, no access outside memory'),
        J(c, 'sym_pbo', 5, ('3:2', 90), ('4:3', 600), ['accepted', 'rejected'], 'arbitrary property section (0..3 bytes over {a B NUL C3 A9}, thorough 0..4), 0..2 entries with arbitrary name bytes, method and size: an answer, and no more data than the archive holds'),
        J(c, 'sym_pbo', 6, ('', 60), None, ['cut', 'extended'], 'every strict prefix, and every extension by 1..2 bytes, of a two-file archive is rejected'),
    ],
    'C04': [
        J(c, 'sym_pbo', 2, ('2:2', 60), ('2:3', 600), ['hit', 'miss'], '1..2 files with names of 1..2 (thorough 3) characters over {a B c / \\ . _}; query of 0..2 (3) characters over {a A b B c C / \\ . _}: found exactly when equal up to case and slash kind; while building, up to slash kind; files with headers of their own or not'),
        J(c, 'sym_pbo', 3, ('2:2', 60), ('3:2', 600), ['order'], '2 (thorough 2..3) files, every insertion order: identical bytes'),
        J(c, 'sym_pbo', 11, ('2', 60), None, ['unusual'], 'names outside ASCII or with blanks: found in any case, whatever the order of insertion'),
    ],
    'C05': [
        J(c, 'sym_ints', 0, ('', 30), None, ['roundtrip'], 'all 2^32 values: length, base-128 form, decode(encode(v)) = v'),
        J(c, 'sym_ints', 1, ('', 30), None, ['ok', 'err'], 'all byte strings of 0..8 bytes: decoding answers without panic'),
        J(c, 'sym_ints', 2, ('5', 30), ('9', 120), ['string'], 'all NUL-free ASCII strings of 0..5 (thorough 9) characters: written with a NUL, read back, reader stops behind it'),
        J(c, 'sym_ints', 3, ('4', 30), ('7', 120), ['any'], 'all byte strings of 0..4 (thorough 7) bytes as a string: no panic'),
    ],
    'C06': [
        J(c, 'sym_lzo', 0, ('10', 60), ('18', 300), ['roundtrip'], 'all byte strings of 0..10 (thorough 18) bytes'),
        J(c, 'sym_lzo', 1, ('2:8', 60), ('2:12', 600), ['roundtrip'], '1..2 runs of 1..8 (thorough 12) equal bytes, 0..6 trailing literals'),
        J(c, 'sym_lzo', 2, ('5', 120), ('17', 900), ['roundtrip'], 'a marker of 4..300 bytes repeated at distances around each of 9 boundaries of the format (6 to 0xbfff, each -2..2, thorough -8..8), the gap filled with a run or with bytes without repetitions, followed by 0, 3 or 22 bytes with the first arbitrary'),
        J(c, 'sym_lzo', 3, ('40', 60), ('300', 600), ['roundtrip'], 'literal runs of every length 0..40 (thorough 300) between matches, 0..3 further bytes with the first arbitrary'),
    ],
    'C07': [
        J(c, 'sym_lzo', 4, ('6', 90), ('8', 600), ['decoded', 'rejected'], 'all compressed streams of 0..6 (thorough 8) arbitrary bytes into buffers of 0, 1, 4, 24 bytes: same answer as an independent bounds-checked decoder, no access outside either buffer'),
        J(c, 'sym_lzo', 5, ('3:0', 90), ('4:0', 600), ['decoded', 'rejected'], 'eight literals, then 0..3 (thorough 4) arbitrary instruction bytes with or without an end marker, buffers of 8, 11 and 40 bytes'),
        J(c, 'sym_lzo', 5, ('3:1', 90), ('4:1', 600), ['decoded', 'rejected'], 'the same behind one and three literals'),
        J(c, 'sym_lzo', 5, ('3:2', 60), ('4:2', 600), ['decoded', 'rejected'], 'behind 2100 literals a short match of any of 16 kinds and five distances, with 0..1 (thorough 2) arbitrary bytes behind'),
        J(c, 'sym_lzo', 6, ('6:8', 60), ('10:14', 300), ['fits', 'too small'], 'compression of 0..6 arbitrary bytes into slices of 0..8 bytes: data or error, never a write outside'),
        J(c, 'sym_lzo', 7, ('6:8', 60), ('10:14', 300), ['fits', 'too small'], 'the same into vectors of limited capacity'),
        J(c, 'sym_lzo', 8, ('8', 60), ('14', 300), ['cut', 'extended'], 'every truncation and every one-byte extension of the compression of 1..8 arbitrary bytes is an error'),
    ],
    'C08': [
        J(c, 'sym_sign', 0, ('1', 120), ('2', 600), ['signed'], 'signing (versions 2 and 3) two-file archives: extensions sqf, paa, txt, none, cfg in a folder, SQF; contents of 0..1 arbitrary bytes (thorough 0..2); prefix absent, two characters, with one, two or leading backslashes, empty, with a slash or blank: the signature file equals one built from independent hashes, padding and key fields'),
        J(c, 'sym_sign', 1, ('1', 120), ('2', 600), ['verified'], 'sign, write, read, verify with the written and re-read public part of the key: accepted'),
        J(c, 'sym_sign', 4, ('4', 60), None, ['public', 'private', 'signature'], 'reading and writing key and signature files is the identity: any exponent, any four top bytes of modulus or signature, authority of 0..2 characters'),
        J(c, 'sym_sign', 6, ('3', 60), ('4', 300), ['ext'], 'file names of 1..3 (thorough 4) characters over {p a s w d x . c}: hashed exactly for the extensions of the version'),
        J(c, 'sym_sign', 7, ('16', 60), None, ['cut', 'length', 'any'], 'truncated key and signature files are errors; arbitrary length fields and arbitrary short files never panic'),
        J(c, 'sym_sign', 8, ('', 60), None, ['many'], 'archives of 17, 130 and 260 files, contents up to 70000 bytes, a prefix of 300 characters, both versions', steps=1000000000),
    ],
    'C09': [
        J(c, 'sym_sign', 2, ('', 90), None, ['accepted', 'rejected'], 'any two adjacent bytes of any of the three signatures changed in any way, at ten positions covering padding, algorithm identifier and hash: accepted exactly when nothing changed'),
        J(c, 'sym_sign', 3, ('', 60), None, ['rejected'], 'key with another modulus (255 choices), another exponent, or any authority of 1..3 characters over {m e x} but the right one: rejected'),
        J(c, 'sym_sign', 5, ('', 60), None, ['sorted', 'unsorted'], 'two entries with names over {a b A B}: verification requires case-insensitive order'),
    ],
    'C10': [
        J(c, 'sym_version', 0, ('', 60), None, ['roundtrip'], 'any components below 256, build absent or below 16384, build hash of four characters or none: displaying and parsing gives the same version'),
        J(c, 'sym_version', 1, ('8', 60), ('9', 120), ['parsed'], 'each component in turn any number of 1..8 (thorough 9) digits'),
        J(c, 'sym_version', 2, ('', 60), None, ['ordered'], 'all pairs of versions with 32-bit components: order, equality and operators agree with the order of the components'),
        J(c, 'sym_version', 3, ('6', 90), ('8', 600), ['valid', 'invalid'], 'all texts of 0..6 (thorough 8) characters over {0 1 9 . - a}: accepted exactly when a version'),
        J(c, 'sym_version', 4, ('', 60), None, ['script'], 'script_version.hpp with three or four defines in any rotation, one value below 16384, comments, trailing blanks, CRLF'),
        J(c, 'sym_version', 6, ('30', 60), ('400', 300), ['number'], 'versions given as a number (requiredVersion): all majors below 30 (thorough 400), all two decimals, with or without trailing zeros'),
        J(c, 'sym_version', 5, ('4', 60), ('6', 300), ['err', 'ok'], 'one define with 0..4 arbitrary characters over {blank 1 x /} after its name: never a value that is not in the text'),
    ],
    'C11': [
        J(c, 'sym_prefix', 0, ('5', 90), ('6', 600), ['plain', 'rejected'], 'all texts of 0..5 (thorough 6) characters over {a B \\ / = blank newline}: accepted exactly when a prefix, with its parts'),
        J(c, 'sym_prefix', 1, ('4', 60), ('6', 300), ['key', 'rejected'], 'key form, three spellings of the key, values of 1..4 characters over {a B \\ blank}'),
        J(c, 'sym_prefix', 2, ('4', 60), ('6', 300), ['roundtrip'], 'display and parse are inverse on values of 1..4 characters'),
        J(c, 'sym_prefix', 3, ('3', 60), ('4', 300), ['kept', 'stripped'], 'case-insensitive removal: texts of 0..3 and prefixes of 0..2 pieces over {a A b e-acute E-acute /}'),
    ],
    'C12': [
        J(c, 'sym_math', 0, ('6', 90), ('8', 800), ['none', 'value'], 'all texts of 0..6 (thorough 8) characters over {2 7 + - * / ^ % ( ) blank}: value of an independent recursive-descent evaluator, or none when malformed'),
        J(c, 'sym_math', 1, ('', 90), None, ['shape'], 'two to four operands, every operator at each place, parentheses around every operand range'),
    ],
    'C13': [
        J(c, 'sym_tex', 0, ('12', 90), ('16', 300), ['ok', 'err'], 'all files of 0..12 (thorough 16) arbitrary bytes: an answer, no panic'),
        J(c, 'sym_tex', 1, ('', 30), None, ['known', 'unknown'], 'all 2^16 signatures'),
        J(c, 'sym_tex', 2, ('', 90), None, ['read'], 'three formats, a tag of 0..3 arbitrary bytes, 0..2 mipmaps of 0..2 arbitrary bytes with arbitrary width and height fields and an unused offset in any place: everything comes back'),
        J(c, 'sym_tex', 3, ('9', 90), None, ['ok', 'err'], 'any offset table of 0..9 arbitrary bytes in any of the nine formats: an answer, no panic'),
        J(c, 'sym_tex', 4, ('4', 90), None, ['picture'], 'mipmaps of 1x1, 2x8, 4x4, 5x2, 8x4 and 8x8 pixels in DXT1, DXT3, DXT5 with four arbitrary bytes: stored raw or compressed, the same picture'),
        J(c, 'sym_tex', 5, ('', 60), None, ['written'], 'uniform 4x4 pictures: header, tags and size of the written texture'),
        J(c, 'sym_tex', 7, ('', 60), None, ['refused', 'written'], 'pictures of eight sizes, up to 32768 and 65536 pixels to a side and 2^24 bytes of blocks: written and read back with their size, or refused'),
        J(c, 'sym_tex', 6, ('', 60), None, ['many'], '15, 16 and 17 stored mipmaps (the offset table names 16) of up to 70002 bytes behind a tag of 70001 bytes: all tags and mipmaps come back'),
    ],
    'C14': [
        J(w, 'sym_p3d', 0, ('1:0', 60), ('2:0', 900), ['roundtrip'], 'models of 0..1 LODs with 0..1 (thorough 0..2) points, normals, faces of 3 or 4 vertices, textures and materials of 0..1 characters, 0..2 distinct named tags of 0..1 bytes, any version, resolution, flags, coordinates, indices: the bytes equal a reference serialiser and reading and writing again gives the same bytes'),
        J(w, 'sym_p3d', 0, ('0:1', 60), None, ['roundtrip'], 'the same for 0..2 LODs with at most one point and face each'),
        J(w, 'sym_p3d', 1, ('', 60), None, ['written', 'failed'], 'a writer that fails (by error or by taking nothing) after any number of bytes, taking 1, 7 or all bytes at a time: an error exactly when not everything was written'),
        J(w, 'sym_p3d', 8, ('', 60), None, ['written', 'refused'], 'faces of 0..6 vertices: written for three and four, refused otherwise'),
        J(w, 'sym_p3d', 7, ('', 60), None, ['many'], 'models of 17 LODs with 17 of everything, and of 2 LODs with 300 points, 301 normals, 302 faces and 301 tags, names of up to 270 characters and a tag of 70000 bytes of which one is arbitrary: format and reading back'),
    ],
    'C15': [
        J(w, 'sym_p3d', 2, ('40', 90), ('60', 600), ['ok', 'err'], 'all files of 0..6 arbitrary bytes, and MLOD followed by 0..40 (thorough 60) arbitrary bytes: an answer, no panic, no reservation of memory by claimed counts'),
        J(w, 'sym_p3d', 3, ('', 60), None, ['ok', 'err'], 'any 32-bit value in each of the counts of a model and the size of a tag, in front of little data'),
        J(w, 'sym_p3d', 4, ('', 60), None, ['ok', 'err'], 'any 32-bit vertex count of a face: accepted exactly for 3 and 4'),
        J(w, 'sym_p3d', 5, ('0:0:60', 60), ('0:0:300', 600), ['cut'], 'a one-LOD model cut at each of its last 60 (thorough all) places: an error'),
    ],
    'C16': [
        J(w, 'sym_p3d', 6, ('', 60), None, ['missing'], 'two faces with any of seventeen textures each and any of five materials, in a workspace holding four files: reported missing exactly when neither the named file nor its source or converted form is there; asking twice (cached) gives the same'),
    ],
    'C17': [
        J(w, 'sym_wsp', 0, ('3:6', 90), ('5:4', 600), ['workspace', 'duplicate'], 'six folders of which 3 (thorough 5) may have any of five (thorough three) nested, differently cased or equal prefixes, one of them outside of the searched folders; three names and two forms of prefix files; a folder in front of a prefix or not; twenty relative and absolute paths and the virtual path of every file: the file the documentation names; rejected exactly with a prefix given twice; exactly the addons and missions of the workspace'),
        J(w, 'sym_wsp', 1, ('7', 60), ('9', 600), ['found', 'none'], 'all paths of 1..7 (thorough 9) characters over {a b . / backslash B}, from two places, in a workspace of seven files'),
        J(w, 'sym_wsp', 5, ('4', 60), ('6', 300), ['paths'], 'file names of 1..4 (thorough 6) characters over {a B . -} in three folders: parts of the path, other extensions, contents, what is in the folders'),
    ],
    'C18': [
        J(w, 'sym_st', 0, ('3:1', 90), ('4:2', 900), ['sorted', 'unsorted'], 'all trees of up to 3 (thorough 4) packages, containers and keys with any distinct names of one (thorough up to two) characters over {a b A}, indented with blanks or tabs: written, sorted and read again they are the documented text, totals are the numbers of keys and translations, and the sorting lint reports exactly unsorted files'),
        J(w, 'sym_st', 1, ('', 60), None, ['sorted', 'unsorted'], 'keys with any two of the 24 languages, in either order, in each of the three letter cases'),
        J(w, 'sym_st', 2, ('1', 90), ('2', 900), ['unsorted'], 'comments before, within and after one (thorough two) packages, their keys and texts, with or without empty lines, three indentations: kept, once, at their place'),
        J(w, 'sym_st', 3, ('2', 60), ('3', 600), ['unsorted'], 'texts of up to 2 (thorough 3) pieces, names and IDs with escapes, quotes, ampersands, line breaks, non-ASCII letters: kept'),
        J(w, 'sym_st', 4, ('2', 60), ('4', 600), ['read', 'refused'], 'any 2 (thorough 4) of sixteen pieces of XML in three surroundings: read and written, or refused'),
        J(w, 'sym_st', 5, ('', 120), None, ['sorted', 'unsorted'], 'one or two packages with empty keys, containers or nothing, with comments in them'),
        J(w, 'sym_st', 7, ('', 60), None, ['unsorted'], 'the same comment before any of the texts of four keys in two packages, and at their ends, with the same texts of 4 to 48 escapes',  steps=1000000000),
        J(w, 'sym_st', 6, ('', 60), None, ['unsorted'], '17, 40 and 130 keys or packages, 17 to 20 containers in one another, up to 24 languages, texts and names of hundreds of characters', steps=1000000000),
    ],
    'C19': [
        J(w, 'sym_pp', 1, ('4:9', 60), ('5:9', 600), ['accepted', 'rejected'], 'all files of 4 (thorough 5) lines of nine kinds (text, ifdef, ifndef, else, endif, define to a symbolic digit, if, undef, unknown) over two names: the branches read are those of a stack interpreter, ill-formed nesting is an error'),
        J(w, 'sym_pp', 1, ('6:5', 60), ('7:5', 300), ['accepted', 'rejected'], 'the same for 6 (thorough 7) lines of text, ifdef, ifndef, else and endif'),
        J(w, 'sym_pp', 2, ('', 60), None, ['yes', 'no'], 'all six comparisons of all pairs of numbers n, -n, n.n, nn given directly or through macros'),
        J(w, 'sym_pp', 11, ('', 60), None, ['many'], '9 to 300 conditionals in one another, one at any of five depths false, or behind one another'),
    ],
    'C20': [
        J(w, 'sym_pp', 3, ('1:3:3', 60), ('2:3:3', 900), ['expanded'], 'one (thorough two) object macro definitions or undefinitions over two names, bodies and use of up to 3 symbolic characters over {A B x + blank quote}: the text of a reference expander, and redefinitions reported exactly'),
        J(w, 'sym_pp', 3, ('3:1:2', 60), ('3:2:2', 600), ['expanded'], 'the same with up to three definitions and shorter bodies'),
        J(w, 'sym_pp', 4, ('2:1:0:0', 60), ('3:1:1:0', 900), ['expanded'], 'functions F(p), G(p,q) and value A with bodies made of any 2 (thorough 3), 1, 0 (thorough 1) pieces (parameters, stringify, paste, calls of each other, strings), seven uses'),
        J(w, 'sym_pp', 4, ('1:1:1:0', 60), ('1:1:2:0', 300), ['expanded', 'rejected'], 'the same with bodies of one piece each (thorough two pieces for A)'),
        J(w, 'sym_pp', 4, ('1:0:0:2', 60), ('1:1:0:3', 900), ['expanded', 'rejected'], 'the same with a call of any two (thorough three) pieces as arguments: nested parentheses, strings, wrong counts'),
        J(w, 'sym_pp', 4, ('1:1:1:0:1', 60), ('2:1:1:0:1', 900), ['expanded', 'rejected'], 'the same with a parameter that has the name of a macro'),
        J(w, 'sym_pp', 5, ('2', 60), ('4', 900), ['expanded'], 'all sequences of 2 (thorough 4) lines of twelve kinds using __LINE__, __COUNTER__, __COUNTER_RESET__, file names, multi-line comments, continuations, in three files'),
        J(w, 'sym_pp', 12, ('', 60), None, ['many'], '9 to 130 parameters, macros using one another, calls in one another, up to 130 brackets in arguments; names and bodies of up to 390 characters'),
        J(w, 'sym_pp', 14, ('0', 30), None, ['count'], '300 and 1000 lines with __COUNTER__ and __LINE__, with and without a __COUNTER_RESET__', steps=1000000000),
        J(w, 'sym_pp', 14, ('1', 90), None, ['count'], '65540 uses of __COUNTER__', steps=2000000000),
        J(s, 'sym_scan', 2, ('', 60), None, ['case', 'exact'], '__FILE__, __FILE_NAME__, __FILE_SHORT__ in a file and in one it includes, in two folders, for projects with and without prefix and main prefix'),
    ],
    'C21': [
        J(w, 'sym_pp', 6, ('5', 90), ('6', 900), ['kept'], 'all texts of 5 (thorough 6) characters over {a quotes / * backslash newline blank}: the output is the text without comments'),
        J(w, 'sym_pp', 7, ('4', 90), ('5', 900), ['kept'], 'all sequences of 4 (thorough 5) of sixteen pieces with comment marks, quotes, continuations, CRLF, tabs, pasting, non-ASCII letters'),
        J(w, 'sym_pp', 13, ('', 60), None, ['long'], 'lines, words, strings and files of up to 3000 repetitions', steps=1000000000),
    ],
    'C22': [
        J(w, 'sym_pp', 8, ('3:0', 60), ('4:0', 900), ['accepted', 'rejected'], 'all files of 0..3 (thorough 4) of 34 tokens: an answer with a diagnostic, no panic'),
        J(w, 'sym_pp', 8, ('2:1', 60), ('3:1', 300), ['accepted', 'rejected'], 'the same after definitions of A and F(p)'),
        J(w, 'sym_pp', 8, ('3:2', 60), ('4:2', 900), ['accepted', 'rejected'], 'the same after definitions of empty A and F()'),
        J(w, 'sym_pp', 8, ('3:3', 60), ('4:3', 900), ['accepted', 'rejected'], 'the same in an open #if'),
        J(w, 'sym_pp', 8, ('3:4', 60), ('4:4', 900), ['accepted', 'rejected'], 'the same after definitions of A and F in terms of each other'),
        J(w, 'sym_pp', 9, ('2', 60), ('3', 900), ['accepted', 'rejected'], 'a macro body of 0..2 (thorough 3) of the tokens, three surroundings, five uses'),
        J(w, 'sym_pp', 10, ('2', 60), ('3', 600), ['accepted', 'rejected'], 'all files of 0..2 (thorough 3) arbitrary bytes'),
        J(w, 'sym_pp', 15, ('2', 60), ('3', 900), ['chain', 'circle', 'ends'], '2 (thorough 3) files with any two includes of each other or themselves, with and without guards, and chains of 2 to 40: the text of a reference, or an error with a diagnostic exactly if they never end', steps=400000000),
    ],
    'C23': [
        J(w, 'sym_pos', 0, ('2:13', 60), ('3:13', 600), ['mapped'], 'all sequences of 2 (thorough 3) of thirteen kinds of text: words, non-ASCII letters, strings, comments, macros with and without arguments, __LINE__, includes of includes, redefinitions, continued lines: every character of the output leads to its own place, or to the use of the macro, in its own file; redefinitions are warned about at their place'),
        J(w, 'sym_pos', 0, ('3:9', 60), ('4:9', 600), ['mapped'], 'the same with 3 (thorough 4) of the first nine kinds'),
        J(w, 'sym_pos', 1, ('1', 60), ('2', 600), ['error'], 'fifteen kinds of errors after 1 (thorough 2) of twelve kinds of text, in the file itself or an included one: reported with its code at its file and place'),
        J(w, 'sym_pos', 2, ('', 90), None, ['far'], 'places behind 300 lines, columns beyond 600 and a comment of 300 two-byte or 66000 characters', steps=2000000000),
    ],
    'C24': [
        J(w, 'sym_wsp', 2, ('2', 60), ('3', 600), ['included', 'lost'], 'files with any 2 (thorough 3) includes of nine (relative, absolute, by prefix, missing), which include any of five again; in either form: the text and macros of the file that a reference of the documentation finds, or the error for missing files'),
        J(w, 'sym_wsp', 3, ('3:8:2', 120), ('4:8:2', 900), ['quiet', 'warned'], 'all sequences of 3 (thorough 4) of eight lines with padded arguments, pragmas that suppress or flag them with each scope, calls in calls, and an include with two more such lines, then three padded arguments: exactly those that are not suppressed are reported'),
        J(w, 'sym_wsp', 4, ('5', 60), ('7', 600), ['read', 'refused'], 'all sequences of 5 (thorough 7) of plain lines, __has_include and its flag with each scope: accepted as false exactly while flagged, and then not binarised'),
    ],
    'C25': [
        J(f, 'sym_cfg', 0, ('3', 60), ('4', 900), ['binarised'], 'all configs of up to 3 (thorough 4) entries, array items and nested classes, in every nesting, in three layouts: the binarised form read by an independent reader is the config'),
        J(f, 'sym_cfg', 1, ('0', 60), None, ['large'], 'arrays of 127 to 130 items, classes of as many entries, strings of 300 characters, 300 classes in one, 40 classes in one another: counts, lengths and offsets of more than one byte'),
        J(f, 'sym_cfg', 1, ('1', 90), None, ['large'], 'strings of 66000 characters, arrays of 1000 items, classes of 1500 entries', steps=1500000000),
        J(f, 'sym_cfg', 2, ('2:1', 60), ('2:2', 900), ['content'], 'any names of 1..2 characters, one or two joined strings of 0..1 (thorough 2) characters with quotes, backslashes, line ends'),
        J(f, 'sym_cfg', 2, ('1:2', 60), ('1:3', 900), ['content'], 'the same for strings of up to 2 (thorough 3) characters'),
    ],
    'C26': [J(f, 'sym_cfg', 8, ('%d:%d:1' % (3 if i in (0, 2) else 2, i), 60), ('3:%d:1' % i, 900), r, 'up to 2 (thorough 3) of 26 tokens after %s: a config or errors; every diagnostic is shown at a place within its file' % s)
            for i, (s, r) in enumerate([('nothing', ['accepted', 'rejected']), ('an open class', ['accepted', 'rejected']), ('an assignment', ['accepted', 'rejected']), ('an array assignment', ['rejected']), ('an open array', ['accepted', 'rejected']), ('__EVAL(', ['rejected']), ('macros and non-ASCII comments', ['rejected']), ('a class with a duplicate entry, through a macro', ['rejected']), ('a non-ASCII macro', ['rejected']), ('an include of an unfinished file', ['rejected']), ('lines with letters outside of ASCII', ['accepted', 'rejected'])])] + [
        J(f, 'sym_cfg', 9, ('5', 60), ('6', 900), ['accepted', 'rejected'], 'all texts of up to 5 (thorough 6) characters over {a = { ; 1 quote}'),
    ],
    'C27': [
        J(f, 'sym_cfg', 3, ('3', 60), ('4', 900), ['integer'], 'all decimal and hexadecimal integers of 1..3 (thorough 4) digits, signed, in entries and arrays, followed by a blank or not'),
        J(f, 'sym_cfg', 4, ('', 60), None, ['boundary'], 'integers around the limits of 32 and 64 bits'),
        J(f, 'sym_cfg', 5, ('', 60), None, ['decimal'], 'decimals of 0..2 digits before and after the point, four exponents: the nearest 32-bit float'),
        J(f, 'sym_cfg', 6, ('', 60), None, ['huge'], 'twelve very large, very small and hardly representable numbers'),
        J(f, 'sym_cfg', 7, ('5', 60), ('6', 900), ['number', 'text'], 'all texts of up to 5 (thorough 6) characters over {1 0 . e x}: accepted exactly when a number'),
    ],
    'C28': [
        J(f, 'sym_lints', 0, ('2:7:0', 90), ('3:5:0', 900), ['clean', 'reported'], 'all configs of up to 2 (thorough 3) classes, external classes, entries, invalid values, missing semicolons and braces, deletions with symbolic names and parents, behind a macro and non-ASCII text or not: exactly the expected lints at the expected places'),
        J(f, 'sym_lints', 0, ('3:1:1', 180), ('3:1:0', 900), ['clean', 'reported'], 'the same for up to 3 nested classes with parents, over two names'),
        J(f, 'sym_lints', 0, ('2:1:2', 180), ('3:1:2', 900), ['clean', 'reported'], 'the same over names that differ in case'),
        J(f, 'sym_lints', 2, ('2:0:2', 60), ('3:0:2', 900), ['reported'], 'two (thorough three) classes with an entry or a class with an entry, over names that differ in case'),
        J(f, 'sym_lints', 3, ('3:0:2', 60), ('4:0:2', 900), ['clean', 'reported'], 'three (thorough four) classes declared, defined, or with a parent, over names that differ in case'),
        J(f, 'sym_lints', 3, ('2:1:2', 60), ('3:1:2', 900), ['clean', 'reported'], 'two (thorough three) of them, also with two classes declared or defined within'),
        J(f, 'sym_lints', 1, ('', 60), None, ['clean', 'reported'], 'magazine wells of 0..2 magazines over {p q}, defined or not'),
    ],
    'C29': [
        J(s, 'sym_prj', 0, ('', 60), None, ['rejected', 'defined', 'file', 'none'], 'all combinations of major, minor, patch, build (arbitrary digits), git_hash and path, version files with arbitrary digits or none, asked for twice'),
        J(s, 'sym_prj', 1, ('', 60), None, ['files', 'signing', 'pdrive', 'release', 'properties', 'required'], 'included and excluded files, signing, check, build, release and dev options, properties, main prefix: any combination within a section, words of 1..2 characters over {a b / .}'),
        J(s, 'sym_prj', 2, ('2', 60), ('3', 900), ['bad chain', 'resolved'], '2 (thorough 3) launch presets, each extending none, any, itself or a missing one, with workshop items, parameters, presets, optionals, DLCs, executables, missions, instances and switches set or not, in project.toml or launch.toml; overlaid'),
        J(s, 'sym_prj', 3, ('1', 60), ('2', 900), ['forms'], '1 (thorough 1..2) lints in any section with enabled, severity and options set or not and one in a short form, in project.toml or lints.toml'),
        J(s, 'sym_prj', 4, ('', 60), None, ['addon', 'old form'], 'addon.toml: rapify, binarize, files, properties and the keys of older versions, any combination'),
        J(s, 'sym_prj', 5, ('', 60), None, ['launch', 'conflict', 'lints', 'lint conflict'], 'launch presets and lints in one, the other or both files, in the right and wrong forms'),
        J(c, 'sym_dlc', 0, ('', 60), None, ['known', 'unknown'], 'all names, folders and numbers of all DLCs, any letter in either case or all in capitals; any one character replaced by any other'),
    ],
    'C30': [
        J(s, 'sym_scan', 0, ('1:9', 120), ('2:3', 900), ['rejected', 'scanned'], 'projects with addons and optionals or not, up to 1 (thorough 2) addons in each with names in any case of some letters, any of eight prefix files (thorough two of them) with good, versioned, empty and rooted prefixes, a second prefix file, an addon.toml that is good, bad or absent, directories listed in two orders'),
        J(s, 'sym_scan', 3, ('1:2', 60), None, ['rejected', 'scanned'], 'the same with up to one addon in each with names outside ASCII, in either case, with blanks, dots, quotes, digits'),
        J(s, 'sym_scan', 1, ('3', 60), ('5', 300), ['not there', 'twin', 'mismatch', 'exact'], 'project, addon and include files with any case of 3 (thorough 5) letters of their paths on a disk that distinguishes case, with a twin that differs only in case or not; six requests in any case of up to 3 letters and either slash, two listing orders'),
        J(s, 'sym_scan', 2, ('', 60), None, ['case', 'exact'], 'files included by a path in any case of two letters, once or twice, found on disk in either case: warned about at the place of each path, with the name on disk; __FILE__, __FILE_NAME__, __FILE_SHORT__ in either file, for projects with and without prefix and main prefix'),
    ],
    'C31': [
        J(s, 'sym_lint', 0, ('2:0', 90), ('2:1', 900), ['runs', 'silent'], 'up to 2 lints of any default and least severity (thorough for both, quick two values for the second), enabled or not by default, on two kinds of targets, configured in any of four forms, pushed, extended or grouped: which run, with which severity and options; which configurations are refused'),
        J(s, 'sym_lint', 3, ('4', 30), ('5', 300), ['names'], '4 (thorough 5) lints of any of three names, one after the other: of each name the first runs, the others are errors'),
        J(s, 'sym_lint', 1, ('', 60), None, ['not allowed', 'reported'], 'six lints of configs with the project configuration of any of them switched off, on, or set to any of three severities: reported with the severity in force or not at all'),
        J(s, 'sym_lint', 2, ('1', 60), ('2', 300), ['few'], '1 (thorough 2) stringtables with keys and translations in any order, the options of the lint and its severity: reported exactly when unsorted'),
        J(s, 'sym_lint', 2, ('4', 60), ('5', 300), ['few', 'many'], 'the same for four (thorough five) stringtables, reported together when more than three are unsorted'),
    ],
    'C32': [
        J(q, 'sym_sqf', 0, ('2:0:1', 60), ('2:1:3', 600), ['compiled'], 'every expression of up to two operators out of all 26 (of one word in several spellings) and 5 unary ones on numbers and variables (thorough: in 3 ways of spacing, and behind a comment and a directive): the compiled code is what the rules of precedence say, with every command at its offset and line'),
        J(q, 'sym_sqf', 1, ('3:0:1', 60), ('4:0:1', 900), ['compiled'], 'up to three (thorough four) operators, one of each level of precedence, unary commands and parentheses, needed or not'),
        J(q, 'sym_sqf', 2, ('2:0:3', 60), ('3:0:1', 900), ['compiled'], 'scripts of statements, assignments (local, global), nested code and arrays, numbers, text with quotes of both kinds and non-ASCII letters, up to 2 parts in 3 ways of spacing (thorough 3 parts): instructions, constants, names, places, the text of the script and of each inner code, the file'),
        J(q, 'sym_sqf', 10, ('2:1:1', 60), ('2:1:3', 600), ['compiled'], 'the same within code that is called, also behind a comment and a directive'),
        J(q, 'sym_sqf', 8, ('', 60), None, ['compiled'], 'large scripts: 300 names and constants, texts of 70000 characters, 1000 lines, code 40 deep', steps=40000000000),
        J(q, 'sym_sqf', 9, ('3', 60), ('4', 300), ['places'], '3 (thorough 4) of six parts: code, a comment, includes of files with the same name in two folders, of a file that includes another: every command and name is at its offset, in its own line of its own file', steps=40000000000),
    ],
    'C33': [
        J(q, 'sym_sqf', 3, ('1', 40), ('2', 300), ['optimised'], 'one (thorough two) operations out of 12 on numbers (0, 2.5, 3e38) and text: the optimised script compiles to the same, or to the same with operations on constants done (floats, if finite)'),
        J(q, 'sym_sqf', 4, ('1', 40), ('2', 300), ['optimised'], 'one (thorough two) commands out of 17 on arrays, code and variables: same meaning; an array kept as a constant goes only where nothing keeps or changes it'),
        J(q, 'sym_sqf', 7, ('2', 60), ('3', 900), ['optimised'], '14 uses of an array with 1..2 (thorough 3) elements, each one of 14 (arrays in arrays, code, else, constants, operations): no panic, same meaning, no shared array that can be changed'),
    ],
    'C34': [
        J(q, 'sym_sqf', 5, ('3', 100), ('4', 900), ['parsed', 'errors'], 'any 3 (thorough 4) tokens out of 21: statements that can be compiled, optimised and linted, or at least one error; every error and warning has a place in the file'),
        J(q, 'sym_sqf', 6, ('3', 100), ('4', 900), ['parsed', 'errors'], 'any 3 (thorough 4) characters out of 21 (quotes, digits, signs, comments, brackets, non-ASCII, line ends): the same'),
    ],
    'C35': [
        J(q, 'sym_slints', 0, ('1', 30), None, ['clean', 'reported'], 'typeName of 18 expressions, 3 commands: reported for constants, with the right name as suggestion. (All but the comparisons: in 3 places, plain, in code called, and in code in an array behind non-ASCII text)'),
        J(q, 'sym_slints', 1, ('1', 30), None, ['clean', 'reported'], '6 scripts with commands in right and wrong case, 3 settings of ignored commands'),
        J(q, 'sym_slints', 2, ('0:3', 60), ('1:12', 600), ['clean', 'reported'], 'if with 7 conditions, 12 values in then and 3 (thorough 12) in else: select or parseNumber is suggested exactly for constants, and the suggestion parses to the same condition and values'),
        J(q, 'sym_slints', 3, ('1', 30), None, ['clean', 'reported'], 'find or in, 5 texts to search, 6 to find, 5 comparisons'),
        J(q, 'sym_slints', 4, ('1', 30), None, ['clean', 'reported'], 'select of 8 arrays by 12 conditions: parseNumber of the condition or its negation'),
        J(q, 'sym_slints', 5, ('0:2', 30), ('1:3', 300), ['clean', 'reported'], 'format texts of 1..2 (thorough 3) parts out of 7, 0..3 arguments, 3 commands'),
        J(q, 'sym_slints', 6, ('1', 30), None, ['clean', 'reported'], 'names in capitals, vehicle comparisons, comparisons with true and false, call with _this, banned commands, if with a negated condition: all with their settings'),
        J(q, 'sym_slints', 7, ('1:1:1', 60), ('1:2:1', 900), ['clean', 'reported'], 'two (thorough three) comparisons of two variables with two numbers, 6 operators, on either side, joined with and or or: those that cannot hold together, and those one of which says nothing'),
        J(q, 'sym_slints', 8, ('1', 30), None, ['clean', 'reported'], 'assignments, params and saving of 7 names, reserved or not'),
        J(q, 'sym_slints', 9, ('1:2', 40), ('1:3', 600), ['clean', 'reported'], '1..2 (thorough 3) statements about three markers: a marker changed for all more than once'),
        J(q, 'sym_slints', 10, ('1', 30), None, ['clean', 'reported'], '10 scripts with commands of known versions, 5 required versions'),
        J(q, 'sym_slints', 11, ('1', 60), None, ['clean', 'reported'], '6 events, 4 commands, 4 required versions, 4 settings: unknown events, events of other commands, events that are too new'),
    ],
    'C36': [
        J(q, 'sym_slints', 12, ('', 30), None, ['known', 'unknown'], 'a command of the project of each kind (or none), used in each way, in another case: it is that command exactly where it may be used so; others stay'),
    ],
    'C37': [
        J(w, 'sym_codes', 0, ('0', 60), None, ['error', 'quiet'], '65 erroneous lines of 20 codes, alone or behind up to three other lines, in the file or an included one, in a branch that is read or not: the code, its place, the place of its cause, its help and suggestion; in a branch that is not read, nothing'),
        J(w, 'sym_codes', 0, ('1', 60), None, ['error'], 'the same for second #else, where every branch is looked at'),
        J(w, 'sym_codes', 0, ('2', 60), None, ['error'], 'the same for what is unfinished at the end'),
        J(w, 'sym_codes', 1, ('', 60), None, ['similar'], 'calls of names that differ in up to two symbolic letters from defined ones: the suggested names are the nearest'),
        J(w, 'sym_codes', 2, ('', 60), None, ['quiet', 'redefined'], 'definitions and redefinitions, in the file or an included one, with or without undefinition, of macros and in macros: the warning, with both places'),
        J(w, 'sym_codes', 3, ('', 60), None, ['right', 'wrong'], 'a config.cpp with its letters in any case: warned about exactly when one is a capital'),
    ],
    'C38': [
        J(f, 'sym_cfg', 10, ('1:12', 60), None, ['patches'], 'one patch, CfgPatches and requiredVersion each in four letter cases, with a required version of twelve forms, none, a class of its own or not, with foreign classes that look alike'),
        J(f, 'sym_cfg', 10, ('2:12', 90), ('3:7', 900), ['patches'], 'all configs of 1..2 (thorough 3) patches with a required version of twelve (thorough seven) forms, none, a class of their own or not, with foreign classes that look alike, reopened classes: the version and the place of the highest, and the names of the patches'),
    ],
}
