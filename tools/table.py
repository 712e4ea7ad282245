NOT_APPLICABLE = []

prop("C01", "Every successful conversion is well-formed, schema-valid, escaped MathML",
     "Whatever the input and the configuration, the result of a successful conversion is well-formed XML: tags nest and match, attributes are unique and quoted, and no character of the input becomes markup. "
     "Every element is a MathML Core element with permitted attributes and the number of children that MathML requires of it (two for a fraction or script, three for a double script, rows in a table, cells in a row), inside exactly one math root.",
     ["inputs", "configurations"], "all inputs, all configurations, both display modes",
     "The snapshot tests fix a few hundred outputs; an unescaped name, a missing cell or a node with the wrong arity needs an input nobody sampled (a symbol next to a separator, a reserved character in a name).",
     [REN + "ast.rs", REN + "escaping.rs", REN + "attribute.rs", REN + "table.rs", CORE + "parser.rs", CORE + "lib.rs"],
     [("the emitter writes every node and escapes text", REN + "ast.rs Emitter::emit, EscapeHtml"), ("the parser builds nodes of fixed arity", CORE + "parser.rs parse_one_token")],
     "The oracle is a strict XML parser plus a schema of MathML Core written for this check.")

prop("C02", "No input makes the converter panic, overflow or run without end",
     "Converting any string, with any configuration and in any state left by earlier conversions, returns a result or an error: it does not panic, abort, overflow an integer, violate an internal assertion, or fail to terminate. "
     "The same converter can be used again afterwards, whether the conversion succeeded or not.",
     ["inputs", "configurations", "histories"], "all inputs, configurations, and conversions preceding this one",
     "Tests and fuzzers sample inputs; a panic hides behind one specific combination of commands (an index at the end of input, an argument that ends a group).",
     [CORE + "parser.rs", CORE + "lexer.rs", CORE + "token_queue.rs", CORE + "text_parser.rs", CORE + "atof.rs", REN + "length.rs", REN + "super_char.rs"],
     [("bounded expansion", CORE + "parser.rs expansions_left"), ("fallible indexing", CORE + "token_queue.rs")],
     "Explored in a build with debug assertions and overflow checks, so that internal assertions are part of the claim.")

prop("C03", "Errors point into the input and are rendered faithfully and escaped",
     "The range of every error lies within the input that was being converted and starts and ends at character boundaries, also when the error comes from a macro defined in the configuration or in an earlier formula. "
     "An unknown command or environment is quoted by the message and covered by the range. "
     "The plain message states the offset of the error in characters, and the HTML snippet contains the message and the input with every reserved character escaped.",
     ["inputs", "histories", "configurations"], "all inputs which fail to convert, with definitions from the configuration and from earlier formulas",
     "Each error test fixes one input; a range that is off by one character, that splits a multi-byte character or that refers to another formula needs other positions and other scripts.",
     [CORE + "error.rs", CORE + "html_utils.rs", CORE + "lexer.rs", CORE + "parser.rs", CORE + "token_queue.rs"],
     [("spans carried by tokens", CORE + "lexer.rs, token_queue.rs"), ("escaping", CORE + "html_utils.rs"), ("floor_char_boundary", CORE + "error.rs to_message")], "")

prop("C04", "Whitespace and comments between tokens change nothing",
     "In mathematics, inserting whitespace (space, tab, newline, carriage return, form feed) or a comment between two tokens of a formula changes neither whether it converts, nor the result, nor the message of the error. "
     "Exempt are the places where LaTeX gives whitespace a meaning: inside text and string arguments, between primes and before the superscript that follows them, and as the only content of a group.",
     ["inputs"], "all formulas and all token boundaries",
     "A token that is peeked without skipping whitespace is only noticed when the space is at exactly that boundary; the tests have a handful of formulas with spaces in conventional places.",
     [CORE + "lexer.rs", CORE + "token_queue.rs", CORE + "parser.rs"],
     [("whitespace skipping", CORE + "token_queue.rs and lexer.rs")], "")

prop("C05", "A macro means what its body means with the arguments in place",
     "Using a macro gives the same result as writing its body with the arguments substituted at that place, and fails exactly when that does; "
     "whether the macro was defined by \\newcommand, \\renewcommand, \\providecommand, \\def, \\gdef in an earlier formula, \\let to such a macro, the configuration, or under a global group, and whether or not it calls other macros, also ones which are defined later.",
     ["inputs", "configurations", "histories"], "all macro bodies, all arguments and all places of use",
     "Expansion interacts with everything which looks ahead (scripts, limits, delimiters, cells, fonts, text mode): a test exists for a few such pairs only.",
     [CORE + "token_queue.rs", CORE + "commands.rs", CORE + "parser.rs", CORE + "environments.rs"],
     [("macro expansion", CORE + "token_queue.rs"), ("definitions", CORE + "parser.rs, lexer.rs")],
     "The spacing attributes of an operator next to a parameter, and how adjacent letters and digits are merged across the border of a macro, are not compared.")

prop("C06", "Each command has the definition that TeX's rules give it, through any history",
     "At each point of any sequence of formulas a command has the definition in effect: the latest of this snippet, else the latest global one, else the configured or built-in one. "
     "\\newcommand refuses a defined and \\renewcommand an undefined command, \\providecommand keeps what is there, \\let copies the meaning of the moment, \\def stores the body unexpanded, \\gdef, \\global and global_group outlive the snippet, "
     "conversions with local state leave nothing behind, a reset removes every global definition, and endless expansion is an error.",
     ["inputs", "histories", "configurations"], "all histories of definitions, uses, formulas and resets",
     "The order of definitions, snippets and resets has far more combinations than the tests' dozen, and a wrong look-up order is only visible when several layers define the same name.",
     [CORE + "parser.rs", CORE + "commands.rs", CORE + "lib.rs", CORE + "token_queue.rs"],
     [("the stores", CORE + "lib.rs, commands.rs"), ("max_expansions", CORE + "parser.rs")],
     "The oracle is a model of the three stores (snippet, document, base).")

prop("C07", "Equation numbers, tags, labels and references are assigned as LaTeX assigns them",
     "Through any sequence of formulas sharing a state, exactly the rows which LaTeX numbers get the next consecutive number (each row of align and gather, the last of multline, the one of equation, none of the starred environments), unless \\notag or \\nonumber suppresses it or \\tag or \\tag* replaces it. "
     "A label is the id of its row, and every \\eqref to it, before or after it within the same formula or a later one, shows that row's number and links to that id; references to other labels show ?? and raise the warning, and nothing else does. "
     "Tags and labels appear as written, ids are percent-encoded with the configured prefix in front. Converting all formulas at once resolves forward references, too; local conversions and resets start over. Misplaced or repeated tags and labels are errors.",
     ["inputs", "histories", "configurations"], "all numbered environments with any tags and labels on any rows, all histories of formulas",
     "Numbering is state carried from row to row and formula to formula; the combinations of suppression, tags and labels on neighbouring rows are too many for snapshots.",
     [CORE + "environments.rs", CORE + "parser.rs", CORE + "lib.rs", REN + "table.rs", REN + "ast.rs"],
     [("number assignment", CORE + "environments.rs next_equation_tag"), ("label map", CORE + "parser.rs, lib.rs"), ("links", REN + "ast.rs EqRef, table.rs")],
     "A \\notag next to a \\tag takes effect on the next row, as pinned by a snapshot of the repository.")

prop("C08", "Every option changes what it says and nothing else",
     "Pretty-printing only adds line breaks and indentation by depth around elements, never inside text; the automatic mode does so exactly for display formulas; the annotation adds exactly the escaped input; the namespace option adds exactly the xmlns attribute; "
     "ignoring unknown commands and allowing unreliable rendering only change formulas with an unknown (or unreliable) command, with a warning when it is shown; macros, CSS classes, prefixes, the global group, the limit on expansions and the substitution of symbols do not change formulas which use none of that.",
     ["inputs", "configurations"], "all formulas and all settings of the options",
     "The tests exercise each option on a few formulas; an option which leaks into another part of the emitter shows on a formula with that part only.",
     [CORE + "lib.rs", REN + "ast.rs", REN + "indentation.rs", CORE + "token_queue.rs", CORE + "commands.rs"],
     [("emission", REN + "ast.rs Emitter"), ("configuration", CORE + "lib.rs MathCoreConfig")], "")

prop("C09", "A formula's result does not depend on what was converted before it",
     "The result, error and warnings of a formula are the same on a new converter, after other formulas with a state of their own, after formulas in the global state for a conversion with local state or after a reset, and in a batch with others; also when those other formulas failed in the middle of a group, font, environment or definition. "
     "What is local to a formula (definitions, fonts, colours, styles, open groups, pending tags) does not reach the next one.",
     ["inputs", "histories"], "all formulas after all histories",
     "State which is reused between conversions (buffers, stores, counters) has to be cleared on every way out of a conversion, above all on errors; the tests convert most formulas on a fresh converter.",
     [CORE + "lib.rs", CORE + "parser.rs", CORE + "token_queue.rs", CORE + "commands.rs"],
     [("state handling", CORE + "lib.rs convert_with_*"), ("snippet stores", CORE + "token_queue.rs Stores")], "")

prop("C10", "The tree of the result is the tree of the formula",
     "The structure of the MathML is the structure which the grammar gives the formula: which base each script belongs to and in which order, under and over scripts for limits, what is the numerator, denominator, radicand, index, accent base and body of each command, how groups, fences, infix fractions, primes, cells and rows nest; and the formulas which the grammar refuses are refused.",
     ["inputs"], "all formulas over the core of the language (letters, digits, groups, scripts, primes, fractions, roots, fences, accents, limits, matrices)",
     "Structure depends on what surrounds a construct; tests fix some combinations of two constructs while the property is about every sequence of them.",
     [CORE + "parser.rs", CORE + "token_queue.rs", CORE + "environments.rs", REN + "ast.rs", REN + "table.rs"],
     [("recursive descent", CORE + "parser.rs parse_one_token, get_bounds"), ("rows and cells", REN + "table.rs")],
     "The oracle is a reference parser of about 200 lines. Rows (mrow) which only group are not compared, nor are attributes and spaces.")

prop("C11", "The command-line tool replaces exactly the formulas of a document",
     "In a document, each pair of matching delimiters and what is between them is replaced by the conversion of the latter with the predefined HTML entities decoded, and every other character is kept. "
     "The closest delimiter counts and the block one if both start at the same place, however far into the document; with ignore_escaped_delim those after a backslash do not count. "
     "Unclosed, nested and mismatched delimiters are refused with their line and column; a wrong formula is refused with its error, or with continue_on_error shown in place. Each formula is converted once, in order, in the shared state. No document makes the tool panic.",
     ["inputs", "configurations"], "all documents, delimiters and formulas",
     "The scanner searches windows of 1024 bytes that grow and has special cases for escapes and shared delimiters; the tests have a dozen documents.",
     [CLI + "replace.rs", CLI + "html_entities.rs", CLI + "main.rs"],
     [("scanner", CLI + "replace.rs Replacer::replace, find_next_delimiter"), ("entities", CLI + "html_entities.rs"), ("conversion", CLI + "main.rs replace")],
     "The oracle is a scanner without windows. As the repository's tests pin, an entity is what stands between an ampersand and the next semicolon.")

prop("C12", "Between neighbouring atoms is the space of TeX's table",
     "Each symbol, operator, delimiter, fence and fraction is an atom of the class LaTeX gives it, and the space between two neighbouring atoms of a list is that of TeX's table for their classes (none for those in parentheses in script styles), whatever transparent things (comments, spaces, style switches, groups around single symbols, macros) stand between them. "
     "A binary operator is one between two operands only; elsewhere (at the beginning or end of any list, after a relation, an operator, an opening delimiter, a punctuation mark or another binary operator) it is spaced as an ordinary symbol.",
     ["inputs"], "all lists of atoms in all constructs which hold a list",
     "Which attributes an operator needs depends on the class before it, the class after it, on the style, and on the dictionary of default spaces of browsers; the tests pin a few dozen of the combinations.",
     [CORE + "parser.rs", CORE + "atof.rs", REN + "attribute.rs", REN + "symbol.rs", REN + "ast.rs"],
     [("spacing", CORE + "parser.rs ParserState, ast spacing attributes"), ("classes", CORE + "commands.rs, character_class.rs")],
     "The oracle computes the effective space from the emitted attributes and MathML Core's operator dictionary and compares it with the TeXbook, page 170.")

prop("C13", "A letter in a font is the character Unicode has for the two, exactly where the font applies",
     "Inside the argument of a font command, and after a font switch up to the end of its group or cell, each letter and digit is shown as the character of Unicode's mathematical alphabets for that font (with the exceptions which Unicode has for the letters of the Letterlike Symbols block, and as upright or italic single-letter identifiers otherwise); outside it is what it is without. An inner font replaces an outer one, bold and italic of \\boldsymbol and the default style combined, and no other character is lost or altered.",
     ["inputs"], "all formulas with letters in fonts",
     "The code points are computed by offset with a list of exceptions for each alphabet, and a font is a field of the parser which has to be saved and restored by every construct; the tests have a handful of letters in each font.",
     [REN + "attribute.rs", CORE + "parser.rs", CORE + "commands.rs"],
     [("alphabets", REN + "attribute.rs MathVariant::transform"), ("scope", CORE + "parser.rs ParserState.transform")],
     "The oracle is the table of the Unicode standard's names (from Python's unicodedata at the time of writing), not the code's offsets.")

prop("C14", "Text is shown as it is written",
     "In \\text and the text font commands each character is shown once, in order, with the style of the commands around it, in the size of the last size command of its group, raised by the raised box it is in; accents are on the letter they are written before; runs of white space are one space, which is not lost at the edges; commands for characters stand for these; comments are nothing; anything without meaning in text is refused.",
     ["inputs"], "all texts",
     "Text mode is a second parser with its own rules for spaces, groups and styles, whose fragments are merged where their styles agree; the tests have some thirty texts.",
     [CORE + "text_parser.rs", CORE + "lexer.rs", REN + "ast.rs"],
     [("text mode", CORE + "text_parser.rs TextParser"), ("styles", CORE + "html_utils.rs, " + REN + "ast.rs Text")], "")

prop("C15", "A command or character stands for its symbol",
     "Each symbol command of LaTeX, amssymb and unicode-math which the library knows is shown as the character which unicode-math assigns to the name, and is an atom of the class assigned there; so is each character written as itself; a character without a class of its own is an ordinary symbol shown unchanged. What follows the name of a command does not alter it.",
     ["inputs"], "all names of symbols and all characters of Unicode, in different surroundings",
     "The table has some 1500 entries in several forms (ordinary, relation, binary, delimiter, large operator, letter with a variation selector); the tests look at a fraction of them.",
     [CORE + "commands.rs", CORE + "character_class.rs", REN + "symbol.rs", CORE + "lexer.rs"],
     [("commands", CORE + "commands.rs"), ("characters", CORE + "character_class.rs, lexer.rs"), ("symbols", REN + "symbol.rs")],
     "The oracle is an excerpt of unicode-math's published table, written for this check (symbols.rs); names which mean something else in LaTeX are left out.")

prop("C16", "Tables have the cells, alignment and lines which are written",
     "Every environment which makes a table gives one row per row and one cell per cell, in order, in the alignment and with the gaps of the environment or its column specification, with the fences of the environment around it and in its style; a line of the specification stands between, before or after exactly the columns where it is written, solid or dashed, single or double, and a line between rows lies across that row. Specifications and separators which mean nothing are refused.",
     ["inputs"], "all column specifications, all sequences of cells and rows",
     "The borders and paddings of a cell depend on its position, on its neighbours' specifications, and on the rows above; the tests have some twenty tables.",
     [REN + "table.rs", REN + "ast.rs", CORE + "specifications.rs", CORE + "environments.rs", CORE + "parser.rs"],
     [("alignment and lines", REN + "table.rs ColumnGenerator"), ("environments", CORE + "environments.rs"), ("specifications", CORE + "specifications.rs parse_column_specification")], "")

prop("C17", "A length is as long as it is written",
     "Wherever a command takes a length, the space, line or shift in the result has the number written times the unit written, in a unit of CSS of equal size (em and ex as themselves, 1mu = em/18, absolute units relative to 1rem = 10pt), with its sign; what is no number with a unit known there is refused; what follows the length is not taken.",
     ["inputs"], "all numbers and units in all places",
     "Numbers are parsed and printed by the library's own code (atof.rs, length.rs) in several places with different rules; a wrong factor, digit or sign needs that unit in that place.",
     [CORE + "atof.rs", CORE + "specifications.rs", CORE + "parser.rs", REN + "length.rs"],
     [("numbers", CORE + "atof.rs limited_float_parse"), ("units", CORE + "specifications.rs LatexUnit"), ("output", REN + "length.rs")], "")

prop("C18", "Colours and styles apply to the end of their group, and to nothing else",
     "A declaration of a colour or style applies from where it stands to the end of the group, cell, fence, argument, optional argument, numerator or denominator, or environment it is in, the innermost one where several do; it neither loses nor moves anything. A colour is the one written: six hexadecimal digits, numbers up to 255, shares up to 1, or a name; anything else is refused.",
     ["inputs"], "all formulas with declarations, all colours",
     "A declaration swallows the rest of its group, which each construct ends differently (cells, brackets, \\over, macros); the tests have a handful.",
     [CORE + "parser.rs", CORE + "color_defs.rs", REN + "ast.rs"],
     [("declarations", CORE + "parser.rs Token::Color, Token::Style, parse_sequence_if_in_sequence"), ("names", CORE + "color_defs.rs")], "")

prop("C19", "Scripts are at their base, on the side or above and below as TeX puts them",
     "A subscript, superscript and primes after a base become scripts of exactly that base, in any order; a second one of a kind is refused. They are above and below for large operators and operator names which take limits in displayed formulas (or after \\limits, or \\displaylimits when displayed), and beside the base everywhere else: for other bases, after \\nolimits, and in formulas in the text, scripts, numerators, cells. Limits commands after anything but an operator are refused.",
     ["inputs"], "all bases, sequences of scripts and places",
     "Whether limits move depends on the operator, the command, the style around and what a browser does with movablelimits; the tests cover a few combinations.",
     [CORE + "parser.rs", REN + "ast.rs", CORE + "commands.rs"],
     [("scripts", CORE + "parser.rs get_bounds, get_bounds_arg"), ("limits", CORE + "parser.rs limits, ensure_no_explicit_limits; commands.rs PseudoOperatorLimits"), ("output", REN + "ast.rs Node::Subscript, Node::Under")], "")

prop("C20", "Delimiters are the ones written, as large as their command says, and spaced as their class",
     "\\left, \\middle and \\right draw the delimiters which are written after them, growing with what is inside, with no space of their own; \\big, \\Big, \\bigg and \\Bigg draw theirs as large as the command says, for all delimiters the same, spaced as an ordinary symbol, or as an opening, closing or relation symbol with l, r or m. A dot is no delimiter. What is not a delimiter is refused there.",
     ["inputs"], "all delimiters, commands and places",
     "What a browser does with a delimiter (stretch, space) comes from its operator dictionary, which the library has to override differently for each delimiter, form and place; the tests have some of them.",
     [CORE + "commands.rs", CORE + "parser.rs", CORE + "character_class.rs", REN + "ast.rs"],
     [("delimiters", CORE + "parser.rs extract_delimiter, get_delimiter"), ("sizes", CORE + "parser.rs Token::Big"), ("classes", CORE + "character_class.rs StretchableOp, DelimiterSpacing")], "")

prop("C21", "Each argument of a command is shown once, in its place, with the mark of the command",
     "A command with arguments (fraction, root, accent, brace, arrow, frame, cell, predefined or own macro) shows each argument it takes exactly once (or as often as its definition says), in the place for it and in no other, together with the command's own mark; an argument is one token or group, and what follows stays outside, after the whole. A missing argument is refused.",
     ["inputs"], "all commands with arguments, all arguments",
     "Each command reads its arguments in code of its own, where the order, the count and the end of what is taken can be wrong only for some shapes of argument.",
     [CORE + "commands.rs", CORE + "parser.rs", CORE + "token_queue.rs", CORE + "predefined.rs", REN + "ast.rs"],
     [("arguments", CORE + "token_queue.rs read_argument"), ("commands", CORE + "parser.rs parse_token, parse_one_token"), ("predefined", CORE + "predefined.rs"), ("output", REN + "ast.rs Node::emit")], "")

prop("C22", "Unknown commands are refused by name where they are, or shown like a letter in their place",
     "A command which is not known makes the conversion fail with an error which names it and whose range is exactly where it is written (or where the macro with it is used). With ignore_unknown_commands the formula is converted as if a letter stood there instead, and shows the command as it was written, marked with the class which is configured.",
     ["inputs"], "all formulas, all places in them",
     "The option has to work in every place that can have a command: arguments, scripts, cells, definitions; the tests have a few.",
     [CORE + "lexer.rs", CORE + "lib.rs", CORE + "parser.rs", REN + "ast.rs"],
     [("lookup", CORE + "lexer.rs read_command"), ("option", CORE + "lib.rs ignore_unknown_commands"), ("output", REN + "ast.rs Node::UnknownCommand")], "")

prop("C23", "Each part of a formula is in the style TeX gives it",
     "Each part of a formula is shown in the style (displayed, text, script or script of a script) which TeX gives it: scripts, labels and degrees of roots are smaller by the rule for scripts, numerators and denominators by the rule for fractions (or as the command says), cells as the environment says, everything else as what is around it; a declaration of a style holds, and \\mathchoice shows the part for the style where it is.",
     ["inputs"], "all constructs, nested in one another, in displayed formulas and in the text",
     "The parser follows the styles on its own, beside what a browser derives from the MathML; the two have to agree in every nesting, of which the tests have a few.",
     [CORE + "parser.rs", CORE + "commands.rs", CORE + "environments.rs", REN + "ast.rs", REN + "attribute.rs"],
     [("styles", CORE + "parser.rs ParserState.style; " + REN + "attribute.rs Style::shrink, scriptify"), ("environments", CORE + "environments.rs"), ("output", REN + "ast.rs Node::emit")],
     "The oracle has MathML Core's rules for scriptlevel and displaystyle on one side and the TeXbook's styles on the other.")

prop("C24", "A mistake is refused where it is",
     "A formula with a mistake (an unmatched delimiter or environment, a missing or impossible argument, a duplicate script, a command where it means nothing, an impossible length, colour, name or definition) is refused, with an error which says what is wrong and whose range is exactly the part which is wrong, wherever in the formula that part stands and whatever stands around it.",
     ["inputs"], "all formulas with a mistake",
     "Each place where an error arises computes its range on its own, across brackets, arguments and macros; the tests have one of each kind, alone.",
     [CORE + "error.rs", CORE + "parser.rs", CORE + "lexer.rs", CORE + "token_queue.rs", CORE + "specifications.rs"],
     [("errors", CORE + "error.rs LatexErrKind"), ("ranges", CORE + "token.rs TokSpan, Span; " + CORE + "parser.rs"), ("macros", CORE + "token_queue.rs")], "")

prop("C25", "A negated symbol is the symbol struck through, in its place and with its space",
     "A symbol after \\not (or in \\slashed, or \\vertoverlay), as a command or character, directly or through a macro, is one symbol in its place: the same symbol with the stroke, as the single character which Unicode has for it where there is one, of the same kind, and with the space of the symbol alone.",
     ["inputs"], "all symbols, all ways to negate them",
     "Symbols are letters, operators with different forms, and characters with variation selectors, each negated in code of its own with a table of characters; the tests have a few.",
     [CORE + "parser.rs", REN + "super_char.rs", REN + "ast.rs", CORE + "commands.rs"],
     [("negation", CORE + "parser.rs Token::Overlay"), ("characters", REN + "super_char.rs SuperChar::with_overlay")],
     "The oracle has Unicode's canonical decompositions of the negated symbols.")
