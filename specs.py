"""What each check runs: the harness number(s) in symex/props, the build variants, and the bounds of the claim."""

ENC = [
    "rustc's code generation up to LLVM IR (opt-level 2, fat LTO, vectorisation off) is trusted; the IR itself is what is executed",
    "the engine's semantics of LLVM IR is validated on every run: each completed path's model is run through the native build and the observables compared",
    "phf lookup tables are replaced by a linear search, the hash function of rustc-hash by a cheap one, memchr by a byte loop (shims in symex/shims, same interface and contract)",
    "allocation does not fail; the allocator returns fresh disjoint blocks",
]
FAM = ("the input families in symex/props/src/fam.rs: 86 contexts around 1 and 2 arbitrary ASCII bytes; in 18 surroundings a command whose name is any "
       "1 to 19 ASCII letters, with 13 argument shapes; 7 contexts around any Unicode scalar value; every sequence of 2 from 61 structural fragments; every pair of contexts, nested, around an ASCII byte or a character of other scripts; "
       "400 formulas of the repository's tests with an arbitrary ASCII byte put in anywhere")
FAMT = FAM.replace("1 and 2 arbitrary ASCII bytes", "1, 2 and 3 arbitrary ASCII bytes").replace("sequence of 2", "sequence of 4")
FAMO = "inputs which differ from the families in more than their symbolic part; longer symbolic parts"

SPECS = {
    "C01": dict(jobs=[1], variants=["rel"], bounds={"quick": FAM + "; 2 configurations", "thorough": FAMT + "; 2 configurations"}, outside=FAMO,
                assumptions=ENC, covers=[1, 2]),
    "C02": dict(jobs=[2], variants=["dbg"], bounds={"quick": FAM + "; 2 configurations", "thorough": FAMT + "; 2 configurations"}, outside=FAMO,
                assumptions=ENC, covers=[1, 2]),
    "C03": dict(jobs=[3], variants=["rel"], bounds={"quick": FAM + "; 2 configurations", "thorough": FAMT + "; 2 configurations"}, outside=FAMO,
                assumptions=ENC, covers=[1, 2]),
    "C04": dict(jobs=[4], variants=["rel"], bounds={
        "quick": "500 formulas of the repository's tests with one whitespace byte or a comment (of one arbitrary ASCII byte) put in between any two tokens; every pair of 61 fragments with such a gap; "
                 "the contexts of symex/props/src/fam.rs which are read token by token, around any ASCII character with a gap on either side of it",
        "thorough": "all 847 formulas, every triple of fragments, and the same contexts"},
        outside="gaps inside text, lengths, names and other arguments which are read as strings (where whitespace means something); gaps between primes; two or more gaps in a formula of the tests", assumptions=ENC, covers=[1, 2]),
    "C05": dict(jobs=[5], variants=["rel"], bounds={
        "quick": "macros with one parameter whose body is one of 41 shapes around it, used in 26 surroundings, with an arbitrary ASCII character as the argument; defined in one of 8 ways (half of them per body and surrounding); macros with 2 and 3 parameters in 9 bodies, each argument empty, a letter, a letter with a group, or itself a macro or a group",
        "thorough": "the same with every way of defining it and two arbitrary characters as the argument"},
        outside="macros with several parameters that interact; arguments with structure of their own; the characters with a meaning in definitions (backslash, braces, percent, hash, brackets, ampersand) as an argument", assumptions=ENC, covers=[1, 2]),
    "C06": dict(jobs=[6], variants=["rel"], bounds={
        "quick": "histories of a formula with 2 definitions or uses, a formula with 1 (in the same state, in a local one, or after a reset), and a use of each command, out of 12 operations on 2 commands with arbitrary letters as their values; copies of copies (2 links) of commands with a body of several letters, defined locally, globally or in the configuration, with the original changed in between, undone and reset; "
                 "commands undefined, from the configuration or built in; definitions local or global by default",
        "thorough": "3 definitions or uses in the first formula, 2 in the second"},
        outside="longer histories; more than two commands; definitions inside other definitions", assumptions=ENC, covers=[1, 2]),
    "C07": dict(jobs=[7], variants=["rel"], bounds={
        "quick": "11 environments with 1 to 3 rows, the first with any 2 of 7 notes (nothing, notag, nonumber, tag and tag* of any letter, two labels), the second with 1 or 2, the third with 1, with references before or after, followed by a second formula; "
                 "tags and labels of up to 2 arbitrary ASCII bytes; every history of 3 formulas out of 9, each in the global or a local state, or all at once, with and without a prefix of ids",
        "thorough": "2 notes in every row, arbitrary letters in the tags of the histories, 3 arbitrary bytes"},
        outside="longer histories; more than 3 rows; nested environments; counters beyond 9", assumptions=ENC, covers=[1, 2]),
    "C08": dict(jobs=[8], variants=["rel"], bounds={
        "quick": "12 variants of the configuration (pretty-printing always and automatically with 4 kinds of indentation in both display modes, annotation with and without it, namespace, unknown commands ignored, unreliable rendering, unused macros and classes, global group, 1 expansion, no substitution of symbols) on " + FAM +
                 "; all variants for contexts with 1 byte and pairs of fragments, 2 of the 12 for a third to a half of the others",
        "thorough": "all variants for 2 bytes and 2 of the 12 for all others of " + FAMT}, outside=FAMO + "; several options at once other than pretty-printing and annotation", assumptions=ENC, covers=[1, 2]),
    "C09": dict(jobs=[9], variants=["rel"], bounds={
        "quick": "8 kinds of history (local after local, local after global, after a reset, global after local, global after a formula with local effects, first or second of a batch) with 8 formulas which end in the middle of a group, font, environment or definition, before " + FAM +
                 "; all kinds for contexts with 1 byte, 2 of the 8 for part of the others",
        "thorough": "all kinds for 2 bytes and fragments, 2 of the 8 for all others of " + FAMT}, outside=FAMO + "; longer histories", assumptions=ENC, covers=[1, 2]),
    "C10": dict(jobs=[10], variants=["rel"], bounds={
        "quick": "every sequence of 4 of 27 tokens (letter and digit arbitrary) as it is, and completed with the arguments and closings it lacks",
        "thorough": "every sequence of 5 of 27 tokens, as it is and completed"}, outside="longer formulas; other commands (their arity and nodes are covered by C01's schema only)", assumptions=ENC, covers=[1, 2]),
    "C11": dict(jobs=[11], variants=["cli"], bounds={
        "quick": "9 pairs of delimiters ($ and $$; \\( and \\[; mixed; with identical closings; overlapping), with and without ignore_escaped_delim: every document of 6 ASCII bytes (or 5 bytes out of those that occur in the delimiters, a backslash, a letter and a newline), every sequence of 4 of 9 pieces; "
                 "4 such bytes behind 1020 to 1025 others, outside and inside of a formula; 10 shapes of entities with 1 to 4 arbitrary bytes; 2 formulas out of 17, stopping at and continuing after errors, in 4 configurations",
        "thorough": "7 (6) bytes, 5 pieces, 1014 to 1025 bytes of filler"}, outside="reading and writing files, arguments and configuration files; longer documents; delimiters other than the 9 pairs", assumptions=ENC + [
            "memchr's memmem::Finder is replaced by a naive search (shim)"], covers=[1, 2, 3, 4]),
    "C12": dict(jobs=[12], variants=["rel"], bounds={
        "quick": "every pair of 13 atoms (one or two of each class) with an arbitrary letter or digit before, between or after, or none, in display and in script style; 50 atoms at 27 places (beginnings and ends of formulas, groups, fences, cells, numerators, scripts, radicands ...) with an arbitrary character before or after; 12 separators between two atoms (comments, spaces, lengths, a macro)",
        "thorough": "every pair of 49 atoms; one to three characters at the places"}, outside="longer chains of atoms than three; explicit spaces other than as separators; what follows kern, mskip and mspace; inner atoms followed by a binary operator on its own; the left edge of cells; a group right of an operator name; symbols which the operator dictionary of the harness does not list", assumptions=ENC, covers=[1, 2]),
    "C13": dict(jobs=[13], variants=["rel"], bounds={
        "quick": "14 font commands and 6 switches in about 70 shapes (arguments, single characters, scripts, fractions, roots, fences, cells, nested fonts, macros), each letter and digit arbitrary: all of ASCII and the small Greek letters in short shapes, p to w and the digits in longer ones; 56 letters written as commands in each font",
        "thorough": "every pair of two commands and of two switches; all letters in longer shapes"}, outside="more than two fonts in one another; letters which an alphabet lacks (only their code point is checked); fonts of symbols and operators", assumptions=ENC, covers=[1, 2]),
    "C14": dict(jobs=[14], variants=["rel"], bounds={
        "quick": "every sequence of up to 2 items (3 in bold, emphasised and plain text, with letters for characters) out of: an arbitrary printable character, white space and comments, a command for a character, a size, an accent with an arbitrary letter, a style of one character, and a style, a group or a raised box with such a sequence in it; in 7 styles, a raised box and plain text; every style in every style in every style; 61 commands for characters, accents and sizes with arbitrary characters before and after; any character of Unicode; 27 commands without meaning in text at any place in such a sequence; texts without an end",
        "thorough": "up to 3 (4) items"}, outside="longer texts; empty lines; two accents on a letter or accents on nothing; macros in text (refused by the library); lengths other than 4", assumptions=ENC, covers=[1, 2, 3]),
    "C15": dict(jobs=[15], variants=["rel"], bounds={
        "quick": "each of the 468 names of symbols in 6 surroundings (between, before and after operators, operator names and letters, as an argument, as a script), and followed by an arbitrary character; an arbitrary character out of each class of the 2413 characters which have one in the 4 of them where the class shows; an arbitrary other character of Unicode above ASCII in 3",
        "thorough": "all surroundings for all characters"}, outside="ASCII characters on their own (C12, C10); names which are not symbols; which variant (upright, italic, variation selector) a symbol is shown in; stretchiness; classes on which unicode-math, amsmath and the library disagree for good reasons (67 entries; their symbol is checked, their class is not)", assumptions=ENC, covers=[1, 2, 3, 4]),
    "C16": dict(jobs=[16], variants=["rel"], bounds={
        "quick": "every specification of up to 5 columns and lines (l c r | : and spaces) in array, up to 3 in darray and subarray, over two rows of one or two cells with or without a line above each; every sequence of up to 4 letters, groups, separators of cells and rows (with or without lines) in 20 environments; any character in a specification; lines and cells where there can be none",
        "thorough": "specifications of 6; sequences of 6"}, outside="more cells in a row than columns; equation numbers (C07); what is in the cells (C10, C18)", assumptions=ENC, covers=[1, 2, 3]),
    "C17": dict(jobs=[17], variants=["rel"], bounds={
        "quick": "10 places for a length; 17 shapes of numbers (signs, points, commas, leading zeros, up to 20 digits) with up to three arbitrary digits, in each unit; any two letters for a unit; any three characters out of digits, signs and separators for a number; 5 shapes of boxes in one another with two arbitrary lengths of one digit in 4 units",
        "thorough": "four characters for a number; all units in all places"}, outside="longer numbers with more than three arbitrary digits; glue (plus, minus); a comma in braces (LaTeX's decimal comma is refused there); differences below 0.002 percent", assumptions=ENC, covers=[1, 2, 3]),
    "C18": dict(jobs=[18], variants=["rel"], bounds={
        "quick": "100 shapes (groups, scripts, arguments, optional arguments, numerators, fences, cells, macros) with one or two declarations out of a colour with two arbitrary hexadecimal digits and 4 styles; colours of 6 digits with an arbitrary character and an arbitrary digit among them, and of another number of them; all 256 values of [RGB]; shares of up to two arbitrary digits of [rgb]; 9 names, any 3 letters for a name or for a model; in 9 surroundings",
        "thorough": "every pair of declarations"}, outside="the values of the other names; numbers out of range; \\middle; what style a command chooses on its own", assumptions=ENC, covers=[1, 2, 3]),
    "C19": dict(jobs=[19], variants=["rel"], bounds={
        "quick": "every sequence of up to 4 items (subscript, superscript, prime, limits command) after 45 atoms, 8 such sequences after each of 67 large operators, integrals and operator names in two places, every sequence of up to 3 (with \\limits, \\nolimits, \\displaylimits) after 5 bases in 33 places (groups, fractions, scripts, radicands, fences, cells, styles, arguments), displayed and in the text, each script an arbitrary letter",
        "thorough": "3 items after each operator in 3 places, 4 after the bases in all places, 3 after each atom in all places"}, outside="\\mathop with a group (never given limits by the library), over- and underbraces, \\sideset and \\prescript as bases; commands which the library does not know; what is in the scripts", assumptions=ENC, covers=[1, 2, 3]),
    "C20": dict(jobs=[20], variants=["rel"], bounds={
        "quick": '55 ways of writing a delimiter, each first, in the middle, last or alone in a fence with each of 15, and after each of 16 large sizes between two arbitrary letters, with a binary operator before, after or not there; the 15 in 8 places; any ASCII character, each of 468 symbols and 60 other things where one of 8 commands expects a delimiter',
        "thorough": 'each of the 55 with each other, all in all places'}, outside="the angle brackets < and > and the empty delimiter after \\\\big and \\\\middle (refused by the library although TeX has them); arrows as delimiters (taken by the library, which TeX does not); whether an operator in a browser's fonts stretches; \\\\middle outside of a fence", assumptions=ENC, covers=[1, 2, 3]),
    "C21": dict(jobs=[21], variants=["rel"], bounds={
        "quick": '118 commands and constructs (fractions, roots, accents, braces, arrows, frames, scripts, fences, cells, predefined macros and your own) with each argument an arbitrary letter or digit with or without braces, spaces and comments, two letters or nothing, followed by a letter, a script, an operator or nothing; each of these as an argument of each (with arbitrary letters inside)',
        "thorough": 'all arguments in all these shapes; three shapes inside of an argument'}, outside='which character an accent is drawn with other than the one listed; definitions inside of arguments; scripts after predefined macros (as TeX, they go to the last symbol) and on the other side of braces; classes of the whole (C12)', assumptions=ENC, covers=[1, 2, 3]),
    "C22": dict(jobs=[22], variants=["rel"], bounds={
        "quick": "an unknown command (Qz and two arbitrary letters) between any two tokens of 500 formulas of the repository's tests, in 48 other places, in bodies of definitions, and in macros of the configuration; with unknown commands refused and ignored",
        "thorough": 'all 847 formulas'}, outside='font commands (they join what is around); after \\\\not; names in text, lengths and other arguments which are strings; names in definitions', assumptions=ENC, covers=[1, 2, 3]),
    "C23": dict(jobs=[23], variants=["rel"], bounds={
        "quick": '109 places in constructs (fractions, roots, scripts, limits, accents, arrows, fences, style switches, cells, macros), each in each, in displayed formulas and in the text, in 11 of them twice, and in 6 environments; the letters there are arbitrary, and \\mathchoice is next to them',
        "thorough": 'three constructs in each other, with one of 11 in the middle'}, outside='the sizes of accents, delimiters and operators; cramped styles; what is over or under a brace, and in \\boxed (known finding)', assumptions=ENC, covers=[1, 2]),
    "C24": dict(jobs=[24], variants=["rel"], bounds={
        "quick": '90 mistakes, each in 23 surroundings (groups, arguments, scripts, fences, cells, macros), after characters of several bytes and comments or not; 14 things which are not closed and 18 arguments which are missing at the end of each; the letters in all of these are arbitrary',
        "thorough": 'the mistakes in two surroundings'}, outside='formulas with several mistakes; mistakes in bodies of macros and in definitions inside of groups; the wording of messages', assumptions=ENC, covers=[1, 2]),
    "C25": dict(jobs=[25], variants=["rel"], bounds={
        "quick": 'each of 468 symbols by name after \\not written in two ways and in one of seven others, any ASCII character and 21 others in all nine; between two arbitrary letters',
        "thorough": 'all symbols in all ways'}, outside='what is refused after \\not and is no relation (digits, primes, several symbols); names of functions and dots; fonts', assumptions=ENC, covers=[1, 2]),
}
