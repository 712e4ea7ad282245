//! Symbols by name and by code point, with their class (o: ordinary, b: binary, r: relation or punctuation, p: operator, l: opening, c: closing,
//! ?: not said), from the table of the unicode-math package; see tools/symbols.py.
#[rustfmt::skip]
pub const NAMES: &[(&str, u32, u8)] = &[
    ("lparen", 0x28, b'l'), ("rparen", 0x29, b'c'), ("lbrack", 0x5b, b'l'), ("backslash", 0x5c, b'o'), ("rbrack", 0x5d, b'c'), ("lbrace", 0x7b, b'l'), ("vert", 0x7c, b'o'), ("rbrace", 0x7d, b'c'),
    ("mathsterling", 0xa3, b'o'), ("neg", 0xac, b'o'), ("pm", 0xb1, b'b'), ("times", 0xd7, b'b'), ("div", 0xf7, b'b'), ("Vert", 0x2016, b'o'), ("dagger", 0x2020, b'b'), ("ddagger", 0x2021, b'b'),
    ("prime", 0x2032, b'o'), ("backprime", 0x2035, b'o'), ("hslash", 0x210f, b'o'), ("Im", 0x2111, b'o'), ("ell", 0x2113, b'o'), ("wp", 0x2118, b'o'), ("Re", 0x211c, b'o'), ("mho", 0x2127, b'o'),
    ("Finv", 0x2132, b'o'), ("aleph", 0x2135, b'o'), ("beth", 0x2136, b'o'), ("gimel", 0x2137, b'o'), ("daleth", 0x2138, b'o'), ("Game", 0x2141, b'o'), ("leftarrow", 0x2190, b'r'), ("uparrow", 0x2191, b'r'),
    ("rightarrow", 0x2192, b'r'), ("downarrow", 0x2193, b'r'), ("leftrightarrow", 0x2194, b'r'), ("updownarrow", 0x2195, b'r'), ("nwarrow", 0x2196, b'r'), ("nearrow", 0x2197, b'r'), ("searrow", 0x2198, b'r'), ("swarrow", 0x2199, b'r'),
    ("nleftarrow", 0x219a, b'r'), ("nrightarrow", 0x219b, b'r'), ("twoheadleftarrow", 0x219e, b'r'), ("twoheadrightarrow", 0x21a0, b'r'), ("leftarrowtail", 0x21a2, b'r'), ("rightarrowtail", 0x21a3, b'r'), ("mapsto", 0x21a6, b'r'), ("hookleftarrow", 0x21a9, b'r'),
    ("hookrightarrow", 0x21aa, b'r'), ("looparrowleft", 0x21ab, b'r'), ("looparrowright", 0x21ac, b'r'), ("leftrightsquigarrow", 0x21ad, b'r'), ("nleftrightarrow", 0x21ae, b'r'), ("Lsh", 0x21b0, b'r'), ("Rsh", 0x21b1, b'r'), ("curvearrowleft", 0x21b6, b'r'),
    ("curvearrowright", 0x21b7, b'r'), ("leftharpoonup", 0x21bc, b'r'), ("leftharpoondown", 0x21bd, b'r'), ("upharpoonright", 0x21be, b'r'), ("upharpoonleft", 0x21bf, b'r'), ("rightharpoonup", 0x21c0, b'r'), ("rightharpoondown", 0x21c1, b'r'), ("downharpoonright", 0x21c2, b'r'),
    ("downharpoonleft", 0x21c3, b'r'), ("rightleftarrows", 0x21c4, b'r'), ("leftrightarrows", 0x21c6, b'r'), ("leftleftarrows", 0x21c7, b'r'), ("upuparrows", 0x21c8, b'r'), ("rightrightarrows", 0x21c9, b'r'), ("downdownarrows", 0x21ca, b'r'), ("leftrightharpoons", 0x21cb, b'r'),
    ("rightleftharpoons", 0x21cc, b'r'), ("nLeftarrow", 0x21cd, b'r'), ("nLeftrightarrow", 0x21ce, b'r'), ("nRightarrow", 0x21cf, b'r'), ("Leftarrow", 0x21d0, b'r'), ("Uparrow", 0x21d1, b'r'), ("Rightarrow", 0x21d2, b'r'), ("Downarrow", 0x21d3, b'r'),
    ("Leftrightarrow", 0x21d4, b'r'), ("Updownarrow", 0x21d5, b'r'), ("Lleftarrow", 0x21da, b'r'), ("Rrightarrow", 0x21db, b'r'), ("rightsquigarrow", 0x21dd, b'r'), ("forall", 0x2200, b'o'), ("complement", 0x2201, b'o'), ("partial", 0x2202, b'o'),
    ("exists", 0x2203, b'o'), ("nexists", 0x2204, b'o'), ("varnothing", 0x2205, b'o'), ("nabla", 0x2207, b'o'), ("in", 0x2208, b'r'), ("notin", 0x2209, b'r'), ("ni", 0x220b, b'r'), ("prod", 0x220f, b'p'),
    ("coprod", 0x2210, b'p'), ("sum", 0x2211, b'p'), ("mp", 0x2213, b'b'), ("dotplus", 0x2214, b'b'), ("setminus", 0x2216, b'b'), ("ast", 0x2217, b'b'), ("propto", 0x221d, b'r'), ("infty", 0x221e, b'o'),
    ("angle", 0x2220, b'o'), ("measuredangle", 0x2221, b'o'), ("sphericalangle", 0x2222, b'o'), ("mid", 0x2223, b'r'), ("nmid", 0x2224, b'r'), ("parallel", 0x2225, b'r'), ("nparallel", 0x2226, b'r'), ("wedge", 0x2227, b'b'),
    ("vee", 0x2228, b'b'), ("cap", 0x2229, b'b'), ("cup", 0x222a, b'b'), ("int", 0x222b, b'p'), ("iint", 0x222c, b'p'), ("iiint", 0x222d, b'p'), ("oint", 0x222e, b'p'), ("oiint", 0x222f, b'p'),
    ("oiiint", 0x2230, b'p'), ("intclockwise", 0x2231, b'p'), ("varointclockwise", 0x2232, b'p'), ("ointctrclockwise", 0x2233, b'p'), ("dashcolon", 0x2239, b'r'), ("dotsminusdots", 0x223a, b'r'), ("kernelcontraction", 0x223b, b'r'), ("sim", 0x223c, b'r'),
    ("backsim", 0x223d, b'r'), ("wr", 0x2240, b'b'), ("nsim", 0x2241, b'r'), ("eqsim", 0x2242, b'r'), ("simeq", 0x2243, b'r'), ("cong", 0x2245, b'r'), ("ncong", 0x2247, b'r'), ("approx", 0x2248, b'r'),
    ("approxeq", 0x224a, b'r'), ("asymp", 0x224d, b'r'), ("Bumpeq", 0x224e, b'r'), ("bumpeq", 0x224f, b'r'), ("doteq", 0x2250, b'r'), ("Doteq", 0x2251, b'r'), ("fallingdotseq", 0x2252, b'r'), ("risingdotseq", 0x2253, b'r'),
    ("coloneq", 0x2254, b'r'), ("eqcolon", 0x2255, b'r'), ("eqcirc", 0x2256, b'r'), ("circeq", 0x2257, b'r'), ("arceq", 0x2258, b'r'), ("wedgeq", 0x2259, b'r'), ("veeeq", 0x225a, b'r'), ("stareq", 0x225b, b'r'),
    ("triangleq", 0x225c, b'r'), ("eqdef", 0x225d, b'r'), ("measeq", 0x225e, b'r'), ("questeq", 0x225f, b'r'), ("ne", 0x2260, b'r'), ("equiv", 0x2261, b'r'), ("nequiv", 0x2262, b'r'), ("leq", 0x2264, b'r'),
    ("geq", 0x2265, b'r'), ("leqq", 0x2266, b'r'), ("geqq", 0x2267, b'r'), ("lneqq", 0x2268, b'r'), ("gneqq", 0x2269, b'r'), ("ll", 0x226a, b'r'), ("gg", 0x226b, b'r'), ("between", 0x226c, b'r'),
    ("nless", 0x226e, b'r'), ("ngtr", 0x226f, b'r'), ("nleq", 0x2270, b'r'), ("ngeq", 0x2271, b'r'), ("lesssim", 0x2272, b'r'), ("gtrsim", 0x2273, b'r'), ("nlesssim", 0x2274, b'r'), ("ngtrsim", 0x2275, b'r'),
    ("lessgtr", 0x2276, b'r'), ("gtrless", 0x2277, b'r'), ("ngtrless", 0x2279, b'r'), ("prec", 0x227a, b'r'), ("succ", 0x227b, b'r'), ("preccurlyeq", 0x227c, b'r'), ("succcurlyeq", 0x227d, b'r'), ("precsim", 0x227e, b'r'),
    ("succsim", 0x227f, b'r'), ("nprec", 0x2280, b'r'), ("nsucc", 0x2281, b'r'), ("subset", 0x2282, b'r'), ("supset", 0x2283, b'r'), ("nsubset", 0x2284, b'r'), ("nsupset", 0x2285, b'r'), ("subseteq", 0x2286, b'r'),
    ("supseteq", 0x2287, b'r'), ("nsubseteq", 0x2288, b'r'), ("nsupseteq", 0x2289, b'r'), ("subsetneq", 0x228a, b'r'), ("supsetneq", 0x228b, b'r'), ("uplus", 0x228e, b'b'), ("sqsubset", 0x228f, b'r'), ("sqsupset", 0x2290, b'r'),
    ("sqsubseteq", 0x2291, b'r'), ("sqsupseteq", 0x2292, b'r'), ("sqcap", 0x2293, b'b'), ("sqcup", 0x2294, b'b'), ("oplus", 0x2295, b'b'), ("ominus", 0x2296, b'b'), ("otimes", 0x2297, b'b'), ("oslash", 0x2298, b'b'),
    ("odot", 0x2299, b'b'), ("circledcirc", 0x229a, b'b'), ("circledast", 0x229b, b'b'), ("circleddash", 0x229d, b'b'), ("boxplus", 0x229e, b'b'), ("boxminus", 0x229f, b'b'), ("boxtimes", 0x22a0, b'b'), ("boxdot", 0x22a1, b'b'),
    ("vdash", 0x22a2, b'r'), ("dashv", 0x22a3, b'r'), ("top", 0x22a4, b'o'), ("bot", 0x22a5, b'o'), ("vDash", 0x22a8, b'r'), ("Vdash", 0x22a9, b'r'), ("Vvdash", 0x22aa, b'r'), ("VDash", 0x22ab, b'r'),
    ("nvdash", 0x22ac, b'r'), ("nvDash", 0x22ad, b'r'), ("nVdash", 0x22ae, b'r'), ("nVDash", 0x22af, b'r'), ("vartriangleleft", 0x22b2, b'r'), ("vartriangleright", 0x22b3, b'r'), ("trianglelefteq", 0x22b4, b'r'), ("trianglerighteq", 0x22b5, b'r'),
    ("origof", 0x22b6, b'r'), ("imageof", 0x22b7, b'r'), ("multimap", 0x22b8, b'r'), ("intercal", 0x22ba, b'b'), ("veebar", 0x22bb, b'b'), ("barwedge", 0x22bc, b'b'), ("bigwedge", 0x22c0, b'p'), ("bigvee", 0x22c1, b'p'),
    ("bigcap", 0x22c2, b'p'), ("bigcup", 0x22c3, b'p'), ("cdot", 0x22c5, b'b'), ("star", 0x22c6, b'b'), ("divideontimes", 0x22c7, b'b'), ("bowtie", 0x22c8, b'r'), ("ltimes", 0x22c9, b'b'), ("rtimes", 0x22ca, b'b'),
    ("leftthreetimes", 0x22cb, b'b'), ("rightthreetimes", 0x22cc, b'b'), ("backsimeq", 0x22cd, b'r'), ("curlyvee", 0x22ce, b'b'), ("curlywedge", 0x22cf, b'b'), ("Subset", 0x22d0, b'r'), ("Supset", 0x22d1, b'r'), ("Cap", 0x22d2, b'b'),
    ("Cup", 0x22d3, b'b'), ("pitchfork", 0x22d4, b'r'), ("lessdot", 0x22d6, b'r'), ("gtrdot", 0x22d7, b'r'), ("lll", 0x22d8, b'r'), ("ggg", 0x22d9, b'r'), ("lesseqgtr", 0x22da, b'r'), ("gtreqless", 0x22db, b'r'),
    ("curlyeqprec", 0x22de, b'r'), ("curlyeqsucc", 0x22df, b'r'), ("lnsim", 0x22e6, b'r'), ("gnsim", 0x22e7, b'r'), ("precnsim", 0x22e8, b'r'), ("succnsim", 0x22e9, b'r'), ("ntrianglelefteq", 0x22ec, b'r'), ("ntrianglerighteq", 0x22ed, b'r'),
    ("vdots", 0x22ee, b'r'), ("ddots", 0x22f1, b'r'), ("lceil", 0x2308, b'l'), ("rceil", 0x2309, b'c'), ("lfloor", 0x230a, b'l'), ("rfloor", 0x230b, b'c'), ("ulcorner", 0x231c, b'l'), ("urcorner", 0x231d, b'c'),
    ("llcorner", 0x231e, b'l'), ("lrcorner", 0x231f, b'c'), ("frown", 0x2322, b'r'), ("smile", 0x2323, b'r'), ("lmoustache", 0x23b0, b'l'), ("rmoustache", 0x23b1, b'c'), ("bigtriangleup", 0x25b3, b'b'), ("triangleright", 0x25b7, b'b'),
    ("triangleleft", 0x25c1, b'b'), ("bigstar", 0x2605, b'o'), ("spadesuit", 0x2660, b'o'), ("heartsuit", 0x2661, b'o'), ("diamondsuit", 0x2662, b'o'), ("clubsuit", 0x2663, b'o'), ("flat", 0x266d, b'o'), ("natural", 0x266e, b'o'),
    ("sharp", 0x266f, b'o'), ("checkmark", 0x2713, b'o'), ("maltese", 0x2720, b'o'), ("perp", 0x27c2, b'r'), ("diagup", 0x27cb, b'o'), ("diagdown", 0x27cd, b'o'), ("langle", 0x27e8, b'l'), ("rangle", 0x27e9, b'c'),
    ("lAngle", 0x27ea, b'l'), ("rAngle", 0x27eb, b'c'), ("lgroup", 0x27ee, b'l'), ("rgroup", 0x27ef, b'c'), ("longleftarrow", 0x27f5, b'r'), ("longrightarrow", 0x27f6, b'r'), ("longleftrightarrow", 0x27f7, b'r'), ("Longleftarrow", 0x27f8, b'r'),
    ("Longrightarrow", 0x27f9, b'r'), ("Longleftrightarrow", 0x27fa, b'r'), ("longmapsto", 0x27fc, b'r'), ("lBrace", 0x2983, b'l'), ("rBrace", 0x2984, b'c'), ("llparenthesis", 0x2987, b'l'), ("rrparenthesis", 0x2988, b'c'), ("llangle", 0x2989, b'l'),
    ("rrangle", 0x298a, b'c'), ("bigodot", 0x2a00, b'p'), ("bigoplus", 0x2a01, b'p'), ("bigotimes", 0x2a02, b'p'), ("bigcupdot", 0x2a03, b'p'), ("biguplus", 0x2a04, b'p'), ("bigsqcap", 0x2a05, b'p'), ("bigsqcup", 0x2a06, b'p'),
    ("bigtimes", 0x2a09, b'p'), ("sumint", 0x2a0b, b'p'), ("iiiint", 0x2a0c, b'p'), ("intbar", 0x2a0d, b'p'), ("intBar", 0x2a0e, b'p'), ("fint", 0x2a0f, b'p'), ("cirfnint", 0x2a10, b'p'), ("awint", 0x2a11, b'p'),
    ("fcmp", 0x2a3e, b'b'), ("amalg", 0x2a3f, b'b'), ("doublebarwedge", 0x2a5e, b'b'), ("Coloneq", 0x2a74, b'r'), ("leqslant", 0x2a7d, b'r'), ("geqslant", 0x2a7e, b'r'), ("lessapprox", 0x2a85, b'r'), ("gtrapprox", 0x2a86, b'r'),
    ("lneq", 0x2a87, b'r'), ("gneq", 0x2a88, b'r'), ("lnapprox", 0x2a89, b'r'), ("gnapprox", 0x2a8a, b'r'), ("lesseqqgtr", 0x2a8b, b'r'), ("gtreqqless", 0x2a8c, b'r'), ("eqslantless", 0x2a95, b'r'), ("eqslantgtr", 0x2a96, b'r'),
    ("preceq", 0x2aaf, b'r'), ("succeq", 0x2ab0, b'r'), ("precneqq", 0x2ab5, b'r'), ("succneqq", 0x2ab6, b'r'), ("precapprox", 0x2ab7, b'r'), ("succapprox", 0x2ab8, b'r'), ("precnapprox", 0x2ab9, b'r'), ("succnapprox", 0x2aba, b'r'),
    ("subseteqq", 0x2ac5, b'r'), ("supseteqq", 0x2ac6, b'r'), ("subsetneqq", 0x2acb, b'r'), ("supsetneqq", 0x2acc, b'r'), ("Bbbk", 0x1d55c, b'o'), ("neq", 0x2260, b'r'), ("le", 0x2264, b'r'), ("ge", 0x2265, b'r'),
    ("to", 0x2192, b'r'), ("gets", 0x2190, b'r'), ("owns", 0x220b, b'r'), ("land", 0x2227, b'b'), ("lor", 0x2228, b'b'), ("lnot", 0xac, b'o'), ("lt", 0x3c, b'r'), ("gt", 0x3e, b'r'),
    ("emptyset", 0x2205, b'o'), ("alef", 0x2135, b'o'), ("alefsym", 0x2135, b'o'), ("Darr", 0x21d3, b'r'), ("dArr", 0x21d3, b'r'), ("darr", 0x2193, b'r'), ("Harr", 0x21d4, b'r'), ("hArr", 0x21d4, b'r'),
    ("harr", 0x2194, b'r'), ("Larr", 0x21d0, b'r'), ("lArr", 0x21d0, b'r'), ("larr", 0x2190, b'r'), ("Rarr", 0x21d2, b'r'), ("rArr", 0x21d2, b'r'), ("rarr", 0x2192, b'r'), ("Uarr", 0x21d1, b'r'),
    ("uArr", 0x21d1, b'r'), ("uarr", 0x2191, b'r'), ("Lrarr", 0x21d4, b'r'), ("lrArr", 0x21d4, b'r'), ("lrarr", 0x2194, b'r'), ("empty", 0x2205, b'o'), ("exist", 0x2203, b'o'), ("image", 0x2111, b'o'),
    ("real", 0x211c, b'o'), ("infin", 0x221e, b'o'), ("isin", 0x2208, b'r'), ("lang", 0x27e8, b'l'), ("rang", 0x27e9, b'c'), ("plusmn", 0xb1, b'b'), ("sect", 0xa7, b'o'), ("sub", 0x2282, b'r'),
    ("sube", 0x2286, b'r'), ("supe", 0x2287, b'r'), ("thetasym", 0x3d1, b'o'), ("weierp", 0x2118, b'o'), ("clubs", 0x2663, b'o'), ("spades", 0x2660, b'o'), ("cnums", 0x2102, b'o'), ("natnums", 0x2115, b'o'),
    ("reals", 0x211d, b'o'), ("Reals", 0x211d, b'o'), ("Complex", 0x2102, b'o'), ("N", 0x2115, b'o'), ("R", 0x211d, b'o'), ("Z", 0x2124, b'o'), ("doublecap", 0x22d2, b'b'), ("doublecup", 0x22d3, b'b'),
    ("doteqdot", 0x2251, b'r'), ("gggtr", 0x22d9, b'r'), ("llless", 0x22d8, b'r'), ("circledS", 0x24c8, b'o'), ("restriction", 0x21be, b'r'), ("dashleftarrow", 0x21e0, b'r'), ("dashrightarrow", 0x21e2, b'r'),
    ("backepsilon", 0x3f6, b'?'), ("lvert", 0x7c, b'l'), ("rvert", 0x7c, b'c'), ("lVert", 0x2016, b'l'), ("rVert", 0x2016, b'c'), ("lozenge", 0x25ca, b'o'), ("pounds", 0xa3, b'o'), ("yen", 0xa5, b'o'),
    ("copyright", 0xa9, b'o'), ("degree", 0xb0, b'o'), ("P", 0xb6, b'o'), ("S", 0xa7, b'o'), ("dag", 0x2020, b'?'), ("ddag", 0x2021, b'?'), ("notni", 0x220c, b'r'), ("ntriangleleft", 0x22ea, b'r'),
    ("ntriangleright", 0x22eb, b'r'), ("botdoteq", 0x2a66, b'r'), ("circlearrowleft", 0x21ba, b'r'), ("circlearrowright", 0x21bb, b'r'), ("llbracket", 0x27e6, b'l'), ("rrbracket", 0x27e7, b'c'), ("eth", 0xf0, b'o'), ("unlhd", 0x22b4, b'?'),
    ("unrhd", 0x22b5, b'?'), ("lhd", 0x22b2, b'?'), ("rhd", 0x22b3, b'?'), ("ratio", 0x2236, b'r'), ("ldotp", 0x2e, b'r'), ("{", 0x7b, b'l'), ("}", 0x7d, b'c'), ("|", 0x2016, b'o'),
    ("#", 0x23, b'o'), ("$", 0x24, b'o'), ("%", 0x25, b'o'), ("&", 0x26, b'o'), ("_", 0x5f, b'o'),
];
#[rustfmt::skip]
pub const RAW: &[(u32, u8)] = &[
    (0xa3, b'o'), (0xa5, b'o'), (0xa7, b'o'), (0xac, b'o'), (0xb1, b'b'), (0xb6, b'o'), (0xb7, b'?'), (0xd7, b'b'), (0xf0, b'o'), (0xf7, b'b'), (0x1b5, b'o'), (0x300, b'o'), (0x301, b'o'), (0x302, b'o'), (0x303, b'o'), (0x304, b'o'),
    (0x305, b'o'), (0x306, b'o'), (0x307, b'o'), (0x308, b'o'), (0x309, b'o'), (0x30a, b'o'), (0x30c, b'o'), (0x310, b'o'), (0x312, b'o'), (0x315, b'o'), (0x31a, b'o'), (0x330, b'o'), (0x332, b'o'), (0x338, b'o'), (0x34d, b'o'), (0x391, b'o'),
    (0x392, b'o'), (0x393, b'o'), (0x394, b'o'), (0x395, b'o'), (0x396, b'o'), (0x397, b'o'), (0x398, b'o'), (0x399, b'o'), (0x39a, b'o'), (0x39b, b'o'), (0x39c, b'o'), (0x39d, b'o'), (0x39e, b'o'), (0x39f, b'o'), (0x3a0, b'o'), (0x3a1, b'o'),
    (0x3a3, b'o'), (0x3a4, b'o'), (0x3a5, b'o'), (0x3a6, b'o'), (0x3a7, b'o'), (0x3a8, b'o'), (0x3a9, b'o'), (0x3b1, b'o'), (0x3b2, b'o'), (0x3b3, b'o'), (0x3b4, b'o'), (0x3b5, b'o'), (0x3b6, b'o'), (0x3b7, b'o'), (0x3b8, b'o'), (0x3b9, b'o'),
    (0x3ba, b'o'), (0x3bb, b'o'), (0x3bc, b'o'), (0x3bd, b'o'), (0x3be, b'o'), (0x3bf, b'o'), (0x3c0, b'o'), (0x3c1, b'o'), (0x3c2, b'o'), (0x3c3, b'o'), (0x3c4, b'o'), (0x3c5, b'o'), (0x3c6, b'o'), (0x3c7, b'o'), (0x3c8, b'o'), (0x3c9, b'o'),
    (0x3d1, b'o'), (0x3d5, b'o'), (0x3d6, b'o'), (0x3dc, b'o'), (0x3dd, b'o'), (0x3f0, b'o'), (0x3f1, b'o'), (0x3f4, b'o'), (0x3f5, b'o'), (0x3f6, b'o'), (0x2010, b'o'), (0x2015, b'o'), (0x2016, b'o'), (0x2017, b'o'), (0x2020, b'b'), (0x2021, b'b'),
    (0x2022, b'b'), (0x2025, b'o'), (0x2026, b'o'), (0x2032, b'o'), (0x2033, b'o'), (0x2034, b'o'), (0x2035, b'o'), (0x2036, b'o'), (0x2037, b'o'), (0x2038, b'o'), (0x203c, b'o'), (0x2040, b'b'), (0x2043, b'o'), (0x2044, b'b'), (0x2047, b'o'), (0x2050, b'?'),
    (0x2057, b'o'), (0x20ac, b'o'), (0x20d0, b'o'), (0x20d1, b'o'), (0x20d2, b'o'), (0x20d6, b'o'), (0x20d7, b'o'), (0x20db, b'o'), (0x20dc, b'o'), (0x20dd, b'o'), (0x20de, b'o'), (0x20df, b'o'), (0x20e1, b'o'), (0x20e4, b'o'), (0x20e7, b'o'), (0x20e8, b'o'),
    (0x20e9, b'o'), (0x20ec, b'o'), (0x20ed, b'o'), (0x20ee, b'o'), (0x20ef, b'o'), (0x20f0, b'o'), (0x2102, b'o'), (0x2107, b'o'), (0x210a, b'o'), (0x210b, b'o'), (0x210c, b'o'), (0x210d, b'o'), (0x210e, b'o'), (0x210f, b'o'), (0x2110, b'o'), (0x2111, b'o'),
    (0x2112, b'o'), (0x2113, b'o'), (0x2115, b'o'), (0x2118, b'o'), (0x2119, b'o'), (0x211a, b'o'), (0x211b, b'o'), (0x211c, b'o'), (0x211d, b'o'), (0x2124, b'o'), (0x2127, b'o'), (0x2128, b'o'), (0x2129, b'o'), (0x212b, b'o'), (0x212c, b'o'), (0x212d, b'o'),
    (0x212f, b'o'), (0x2130, b'o'), (0x2131, b'o'), (0x2132, b'o'), (0x2133, b'o'), (0x2134, b'o'), (0x2135, b'o'), (0x2136, b'o'), (0x2137, b'o'), (0x2138, b'o'), (0x213c, b'o'), (0x213d, b'o'), (0x213e, b'o'), (0x213f, b'o'), (0x2140, b'p'), (0x2141, b'o'),
    (0x2142, b'o'), (0x2143, b'o'), (0x2144, b'o'), (0x2145, b'o'), (0x2146, b'o'), (0x2147, b'o'), (0x2148, b'o'), (0x2149, b'o'), (0x214a, b'o'), (0x214b, b'b'), (0x2190, b'r'), (0x2191, b'r'), (0x2192, b'r'), (0x2193, b'r'), (0x2194, b'r'), (0x2195, b'r'),
    (0x2196, b'r'), (0x2197, b'r'), (0x2198, b'r'), (0x2199, b'r'), (0x219a, b'r'), (0x219b, b'r'), (0x219c, b'r'), (0x219d, b'r'), (0x219e, b'r'), (0x219f, b'r'), (0x21a0, b'r'), (0x21a1, b'r'), (0x21a2, b'r'), (0x21a3, b'r'), (0x21a4, b'r'), (0x21a5, b'r'),
    (0x21a6, b'r'), (0x21a7, b'r'), (0x21a8, b'o'), (0x21a9, b'r'), (0x21aa, b'r'), (0x21ab, b'r'), (0x21ac, b'r'), (0x21ad, b'r'), (0x21ae, b'r'), (0x21af, b'r'), (0x21b0, b'r'), (0x21b1, b'r'), (0x21b2, b'r'), (0x21b3, b'r'), (0x21b4, b'o'), (0x21b5, b'o'),
    (0x21b6, b'r'), (0x21b7, b'r'), (0x21b8, b'o'), (0x21b9, b'o'), (0x21ba, b'o'), (0x21bb, b'o'), (0x21bc, b'r'), (0x21bd, b'r'), (0x21be, b'r'), (0x21bf, b'r'), (0x21c0, b'r'), (0x21c1, b'r'), (0x21c2, b'r'), (0x21c3, b'r'), (0x21c4, b'r'), (0x21c5, b'r'),
    (0x21c6, b'r'), (0x21c7, b'r'), (0x21c8, b'r'), (0x21c9, b'r'), (0x21ca, b'r'), (0x21cb, b'r'), (0x21cc, b'r'), (0x21cd, b'r'), (0x21ce, b'r'), (0x21cf, b'r'), (0x21d0, b'r'), (0x21d1, b'r'), (0x21d2, b'r'), (0x21d3, b'r'), (0x21d4, b'r'), (0x21d5, b'r'),
    (0x21d6, b'r'), (0x21d7, b'r'), (0x21d8, b'r'), (0x21d9, b'r'), (0x21da, b'r'), (0x21db, b'r'), (0x21dc, b'r'), (0x21dd, b'r'), (0x21de, b'o'), (0x21df, b'o'), (0x21e0, b'o'), (0x21e1, b'o'), (0x21e2, b'o'), (0x21e3, b'o'), (0x21e4, b'r'), (0x21e5, b'r'),
    (0x21e6, b'o'), (0x21e7, b'o'), (0x21e8, b'o'), (0x21e9, b'o'), (0x21ea, b'o'), (0x21f4, b'r'), (0x21f5, b'r'), (0x21f6, b'r'), (0x21f7, b'r'), (0x21f8, b'r'), (0x21f9, b'r'), (0x21fa, b'r'), (0x21fb, b'r'), (0x21fc, b'r'), (0x21fd, b'r'), (0x21fe, b'r'),
    (0x21ff, b'r'), (0x2200, b'o'), (0x2201, b'o'), (0x2202, b'o'), (0x2203, b'o'), (0x2204, b'o'), (0x2205, b'o'), (0x2206, b'o'), (0x2207, b'o'), (0x2208, b'r'), (0x2209, b'r'), (0x220a, b'r'), (0x220b, b'r'), (0x220c, b'r'), (0x220d, b'r'), (0x220e, b'o'),
    (0x220f, b'p'), (0x2210, b'p'), (0x2211, b'p'), (0x2212, b'b'), (0x2213, b'b'), (0x2214, b'b'), (0x2215, b'b'), (0x2216, b'b'), (0x2217, b'b'), (0x2218, b'b'), (0x2219, b'b'), (0x221a, b'?'), (0x221b, b'?'), (0x221c, b'?'), (0x221d, b'r'), (0x221e, b'o'),
    (0x221f, b'o'), (0x2220, b'o'), (0x2221, b'o'), (0x2222, b'o'), (0x2223, b'r'), (0x2224, b'r'), (0x2225, b'r'), (0x2226, b'r'), (0x2227, b'b'), (0x2228, b'b'), (0x2229, b'b'), (0x222a, b'b'), (0x222b, b'p'), (0x222c, b'p'), (0x222d, b'p'), (0x222e, b'p'),
    (0x222f, b'p'), (0x2230, b'p'), (0x2231, b'p'), (0x2232, b'p'), (0x2233, b'p'), (0x2234, b'o'), (0x2235, b'o'), (0x2236, b'r'), (0x2237, b'r'), (0x2238, b'b'), (0x2239, b'r'), (0x223a, b'r'), (0x223b, b'r'), (0x223c, b'r'), (0x223d, b'r'), (0x223e, b'b'),
    (0x223f, b'o'), (0x2240, b'b'), (0x2241, b'r'), (0x2242, b'r'), (0x2243, b'r'), (0x2244, b'r'), (0x2245, b'r'), (0x2246, b'r'), (0x2247, b'r'), (0x2248, b'r'), (0x2249, b'r'), (0x224a, b'r'), (0x224b, b'r'), (0x224c, b'r'), (0x224d, b'r'), (0x224e, b'r'),
    (0x224f, b'r'), (0x2250, b'r'), (0x2251, b'r'), (0x2252, b'r'), (0x2253, b'r'), (0x2254, b'r'), (0x2255, b'r'), (0x2256, b'r'), (0x2257, b'r'), (0x2258, b'r'), (0x2259, b'r'), (0x225a, b'r'), (0x225b, b'r'), (0x225c, b'r'), (0x225d, b'r'), (0x225e, b'r'),
    (0x225f, b'r'), (0x2260, b'r'), (0x2261, b'r'), (0x2262, b'r'), (0x2263, b'r'), (0x2264, b'r'), (0x2265, b'r'), (0x2266, b'r'), (0x2267, b'r'), (0x2268, b'r'), (0x2269, b'r'), (0x226a, b'r'), (0x226b, b'r'), (0x226c, b'r'), (0x226d, b'r'), (0x226e, b'r'),
    (0x226f, b'r'), (0x2270, b'r'), (0x2271, b'r'), (0x2272, b'r'), (0x2273, b'r'), (0x2274, b'r'), (0x2275, b'r'), (0x2276, b'r'), (0x2277, b'r'), (0x2278, b'r'), (0x2279, b'r'), (0x227a, b'r'), (0x227b, b'r'), (0x227c, b'r'), (0x227d, b'r'), (0x227e, b'r'),
    (0x227f, b'r'), (0x2280, b'r'), (0x2281, b'r'), (0x2282, b'r'), (0x2283, b'r'), (0x2284, b'r'), (0x2285, b'r'), (0x2286, b'r'), (0x2287, b'r'), (0x2288, b'r'), (0x2289, b'r'), (0x228a, b'r'), (0x228b, b'r'), (0x228c, b'b'), (0x228d, b'b'), (0x228e, b'b'),
    (0x228f, b'r'), (0x2290, b'r'), (0x2291, b'r'), (0x2292, b'r'), (0x2293, b'b'), (0x2294, b'b'), (0x2295, b'b'), (0x2296, b'b'), (0x2297, b'b'), (0x2298, b'b'), (0x2299, b'b'), (0x229a, b'b'), (0x229b, b'b'), (0x229c, b'b'), (0x229d, b'b'), (0x229e, b'b'),
    (0x229f, b'b'), (0x22a0, b'b'), (0x22a1, b'b'), (0x22a2, b'r'), (0x22a3, b'r'), (0x22a4, b'o'), (0x22a5, b'o'), (0x22a6, b'r'), (0x22a7, b'r'), (0x22a8, b'r'), (0x22a9, b'r'), (0x22aa, b'r'), (0x22ab, b'r'), (0x22ac, b'r'), (0x22ad, b'r'), (0x22ae, b'r'),
    (0x22af, b'r'), (0x22b0, b'r'), (0x22b1, b'r'), (0x22b2, b'r'), (0x22b3, b'r'), (0x22b4, b'r'), (0x22b5, b'r'), (0x22b6, b'r'), (0x22b7, b'r'), (0x22b8, b'r'), (0x22b9, b'o'), (0x22ba, b'b'), (0x22bb, b'b'), (0x22bc, b'b'), (0x22bd, b'b'), (0x22be, b'o'),
    (0x22bf, b'o'), (0x22c0, b'p'), (0x22c1, b'p'), (0x22c2, b'p'), (0x22c3, b'p'), (0x22c4, b'b'), (0x22c5, b'b'), (0x22c6, b'b'), (0x22c7, b'b'), (0x22c8, b'r'), (0x22c9, b'b'), (0x22ca, b'b'), (0x22cb, b'b'), (0x22cc, b'b'), (0x22cd, b'r'), (0x22ce, b'b'),
    (0x22cf, b'b'), (0x22d0, b'r'), (0x22d1, b'r'), (0x22d2, b'b'), (0x22d3, b'b'), (0x22d4, b'r'), (0x22d5, b'r'), (0x22d6, b'r'), (0x22d7, b'r'), (0x22d8, b'r'), (0x22d9, b'r'), (0x22da, b'r'), (0x22db, b'r'), (0x22dc, b'r'), (0x22dd, b'r'), (0x22de, b'r'),
    (0x22df, b'r'), (0x22e0, b'r'), (0x22e1, b'r'), (0x22e2, b'r'), (0x22e3, b'r'), (0x22e4, b'r'), (0x22e5, b'r'), (0x22e6, b'r'), (0x22e7, b'r'), (0x22e8, b'r'), (0x22e9, b'r'), (0x22ea, b'r'), (0x22eb, b'r'), (0x22ec, b'r'), (0x22ed, b'r'), (0x22ee, b'r'),
    (0x22ef, b'o'), (0x22f0, b'r'), (0x22f1, b'r'), (0x22f2, b'r'), (0x22f3, b'r'), (0x22f4, b'r'), (0x22f5, b'r'), (0x22f6, b'r'), (0x22f7, b'r'), (0x22f8, b'r'), (0x22f9, b'r'), (0x22fa, b'r'), (0x22fb, b'r'), (0x22fc, b'r'), (0x22fd, b'r'), (0x22fe, b'r'),
    (0x22ff, b'r'), (0x2300, b'o'), (0x2302, b'o'), (0x2305, b'?'), (0x2306, b'?'), (0x2308, b'l'), (0x2309, b'c'), (0x230a, b'l'), (0x230b, b'c'), (0x2310, b'o'), (0x2311, b'o'), (0x2312, b'o'), (0x2313, b'o'), (0x2317, b'o'), (0x2319, b'o'), (0x231c, b'l'),
    (0x231d, b'c'), (0x231e, b'l'), (0x231f, b'c'), (0x2320, b'o'), (0x2321, b'o'), (0x2322, b'r'), (0x2323, b'r'), (0x232c, b'o'), (0x2332, b'o'), (0x2336, b'o'), (0x233d, b'?'), (0x233f, b'?'), (0x2340, b'o'), (0x2353, b'o'), (0x2370, b'o'), (0x237c, b'o'),
    (0x2394, b'o'), (0x239b, b'o'), (0x239c, b'o'), (0x239d, b'o'), (0x239e, b'o'), (0x239f, b'o'), (0x23a0, b'o'), (0x23a1, b'o'), (0x23a2, b'o'), (0x23a3, b'o'), (0x23a4, b'o'), (0x23a5, b'o'), (0x23a6, b'o'), (0x23a7, b'o'), (0x23a8, b'o'), (0x23a9, b'o'),
    (0x23aa, b'o'), (0x23ab, b'o'), (0x23ac, b'o'), (0x23ad, b'o'), (0x23ae, b'o'), (0x23af, b'o'), (0x23b0, b'l'), (0x23b1, b'c'), (0x23b2, b'o'), (0x23b3, b'o'), (0x23b4, b'o'), (0x23b5, b'o'), (0x23b6, b'o'), (0x23b7, b'o'), (0x23b8, b'o'), (0x23b9, b'o'),
    (0x23ce, b'o'), (0x23dc, b'o'), (0x23dd, b'o'), (0x23de, b'o'), (0x23df, b'o'), (0x23e0, b'o'), (0x23e1, b'o'), (0x23e2, b'o'), (0x23e3, b'o'), (0x23e4, b'o'), (0x23e5, b'o'), (0x23e6, b'o'), (0x23e7, b'o'), (0x2422, b'o'), (0x2423, b'o'), (0x2506, b'o'),
    (0x2580, b'o'), (0x2584, b'o'), (0x2588, b'o'), (0x258c, b'o'), (0x2590, b'o'), (0x2591, b'o'), (0x2592, b'o'), (0x2593, b'o'), (0x25a0, b'o'), (0x25a1, b'o'), (0x25a2, b'o'), (0x25a3, b'o'), (0x25a4, b'o'), (0x25a5, b'o'), (0x25a6, b'o'), (0x25a7, b'o'),
    (0x25a8, b'o'), (0x25a9, b'o'), (0x25aa, b'o'), (0x25ab, b'o'), (0x25ac, b'o'), (0x25ad, b'o'), (0x25ae, b'o'), (0x25af, b'o'), (0x25b0, b'o'), (0x25b1, b'o'), (0x25b2, b'o'), (0x25b3, b'b'), (0x25b4, b'o'), (0x25b5, b'?'), (0x25b6, b'o'), (0x25b7, b'b'),
    (0x25b8, b'o'), (0x25b9, b'o'), (0x25ba, b'o'), (0x25bb, b'o'), (0x25bc, b'o'), (0x25bd, b'o'), (0x25be, b'o'), (0x25bf, b'o'), (0x25c0, b'o'), (0x25c1, b'b'), (0x25c2, b'o'), (0x25c3, b'o'), (0x25c4, b'o'), (0x25c5, b'o'), (0x25c6, b'o'), (0x25c7, b'o'),
    (0x25c8, b'o'), (0x25c9, b'o'), (0x25ca, b'o'), (0x25cb, b'b'), (0x25cc, b'o'), (0x25cd, b'o'), (0x25ce, b'o'), (0x25cf, b'o'), (0x25d0, b'o'), (0x25d1, b'o'), (0x25d2, b'o'), (0x25d3, b'o'), (0x25d4, b'o'), (0x25d5, b'o'), (0x25d6, b'o'), (0x25d7, b'o'),
    (0x25d8, b'o'), (0x25d9, b'o'), (0x25da, b'o'), (0x25db, b'o'), (0x25dc, b'o'), (0x25dd, b'o'), (0x25de, b'o'), (0x25df, b'o'), (0x25e0, b'o'), (0x25e1, b'o'), (0x25e2, b'o'), (0x25e3, b'o'), (0x25e4, b'o'), (0x25e5, b'o'), (0x25e6, b'o'), (0x25e7, b'o'),
    (0x25e8, b'o'), (0x25e9, b'o'), (0x25ea, b'o'), (0x25eb, b'b'), (0x25ec, b'o'), (0x25ed, b'o'), (0x25ee, b'o'), (0x25ef, b'o'), (0x25f0, b'o'), (0x25f1, b'o'), (0x25f2, b'o'), (0x25f3, b'o'), (0x25f4, b'o'), (0x25f5, b'o'), (0x25f6, b'o'), (0x25f7, b'o'),
    (0x25f8, b'o'), (0x25f9, b'o'), (0x25fa, b'o'), (0x25fb, b'o'), (0x25fc, b'o'), (0x25fd, b'o'), (0x25fe, b'o'), (0x25ff, b'o'), (0x2605, b'o'), (0x2606, b'o'), (0x2609, b'o'), (0x2621, b'o'), (0x263b, b'o'), (0x263c, b'o'), (0x263d, b'o'), (0x263e, b'o'),
    (0x2640, b'o'), (0x2642, b'o'), (0x2660, b'o'), (0x2661, b'o'), (0x2662, b'o'), (0x2663, b'o'), (0x2664, b'o'), (0x2665, b'o'), (0x2666, b'o'), (0x2667, b'o'), (0x2669, b'o'), (0x266a, b'o'), (0x266b, b'o'), (0x266d, b'o'), (0x266e, b'o'), (0x266f, b'o'),
    (0x267e, b'o'), (0x2680, b'o'), (0x2681, b'o'), (0x2682, b'o'), (0x2683, b'o'), (0x2684, b'o'), (0x2685, b'o'), (0x2686, b'o'), (0x2687, b'o'), (0x2688, b'o'), (0x2689, b'o'), (0x26a5, b'o'), (0x26aa, b'o'), (0x26ab, b'o'), (0x26ac, b'o'), (0x26b2, b'o'),
    (0x2713, b'o'), (0x2720, b'o'), (0x272a, b'o'), (0x2736, b'o'), (0x273d, b'o'), (0x2772, b'l'), (0x2773, b'c'), (0x279b, b'o'), (0x27c0, b'o'), (0x27c1, b'o'), (0x27c2, b'r'), (0x27c3, b'o'), (0x27c4, b'o'), (0x27c5, b'l'), (0x27c6, b'c'), (0x27c7, b'b'),
    (0x27c8, b'r'), (0x27c9, b'r'), (0x27cb, b'o'), (0x27cc, b'?'), (0x27cd, b'o'), (0x27d0, b'o'), (0x27d1, b'b'), (0x27d2, b'r'), (0x27d3, b'?'), (0x27d4, b'?'), (0x27d5, b'p'), (0x27d6, b'p'), (0x27d7, b'p'), (0x27d8, b'p'), (0x27d9, b'p'), (0x27da, b'r'),
    (0x27db, b'r'), (0x27dc, b'r'), (0x27dd, b'r'), (0x27de, b'r'), (0x27df, b'r'), (0x27e0, b'?'), (0x27e1, b'?'), (0x27e2, b'?'), (0x27e3, b'?'), (0x27e4, b'?'), (0x27e5, b'?'), (0x27e6, b'l'), (0x27e7, b'c'), (0x27e8, b'l'), (0x27e9, b'c'), (0x27ea, b'l'),
    (0x27eb, b'c'), (0x27ec, b'l'), (0x27ed, b'c'), (0x27ee, b'l'), (0x27ef, b'c'), (0x27f0, b'r'), (0x27f1, b'r'), (0x27f2, b'r'), (0x27f3, b'r'), (0x27f4, b'r'), (0x27f5, b'r'), (0x27f6, b'r'), (0x27f7, b'r'), (0x27f8, b'r'), (0x27f9, b'r'), (0x27fa, b'r'),
    (0x27fb, b'r'), (0x27fc, b'r'), (0x27fd, b'r'), (0x27fe, b'r'), (0x27ff, b'r'), (0x2900, b'r'), (0x2901, b'r'), (0x2902, b'r'), (0x2903, b'r'), (0x2904, b'r'), (0x2905, b'r'), (0x2906, b'r'), (0x2907, b'r'), (0x2908, b'r'), (0x2909, b'r'), (0x290a, b'r'),
    (0x290b, b'r'), (0x290c, b'r'), (0x290d, b'r'), (0x290e, b'r'), (0x290f, b'r'), (0x2910, b'r'), (0x2911, b'r'), (0x2912, b'r'), (0x2913, b'r'), (0x2914, b'r'), (0x2915, b'r'), (0x2916, b'r'), (0x2917, b'r'), (0x2918, b'r'), (0x2919, b'?'), (0x291a, b'?'),
    (0x291b, b'r'), (0x291c, b'r'), (0x291d, b'r'), (0x291e, b'r'), (0x291f, b'r'), (0x2920, b'r'), (0x2921, b'r'), (0x2922, b'r'), (0x2923, b'r'), (0x2924, b'r'), (0x2925, b'r'), (0x2926, b'r'), (0x2927, b'r'), (0x2928, b'r'), (0x2929, b'r'), (0x292a, b'r'),
    (0x292b, b'?'), (0x292c, b'?'), (0x292d, b'?'), (0x292e, b'?'), (0x292f, b'?'), (0x2930, b'?'), (0x2931, b'?'), (0x2932, b'?'), (0x2933, b'r'), (0x2934, b'?'), (0x2935, b'?'), (0x2936, b'r'), (0x2937, b'r'), (0x2938, b'r'), (0x2939, b'r'), (0x293a, b'r'),
    (0x293b, b'r'), (0x293c, b'r'), (0x293d, b'r'), (0x293e, b'r'), (0x293f, b'r'), (0x2940, b'r'), (0x2941, b'r'), (0x2942, b'r'), (0x2943, b'r'), (0x2944, b'r'), (0x2945, b'r'), (0x2946, b'r'), (0x2947, b'r'), (0x2948, b'r'), (0x2949, b'r'), (0x294a, b'r'),
    (0x294b, b'r'), (0x294c, b'r'), (0x294d, b'r'), (0x294e, b'r'), (0x294f, b'r'), (0x2950, b'r'), (0x2951, b'r'), (0x2952, b'r'), (0x2953, b'r'), (0x2954, b'r'), (0x2955, b'r'), (0x2956, b'r'), (0x2957, b'r'), (0x2958, b'r'), (0x2959, b'r'), (0x295a, b'r'),
    (0x295b, b'r'), (0x295c, b'r'), (0x295d, b'r'), (0x295e, b'r'), (0x295f, b'r'), (0x2960, b'r'), (0x2961, b'r'), (0x2962, b'r'), (0x2963, b'r'), (0x2964, b'r'), (0x2965, b'r'), (0x2966, b'r'), (0x2967, b'r'), (0x2968, b'r'), (0x2969, b'r'), (0x296a, b'r'),
    (0x296b, b'r'), (0x296c, b'r'), (0x296d, b'r'), (0x296e, b'r'), (0x296f, b'r'), (0x2970, b'r'), (0x2971, b'r'), (0x2972, b'r'), (0x2973, b'r'), (0x2974, b'r'), (0x2975, b'r'), (0x2976, b'r'), (0x2977, b'r'), (0x2978, b'r'), (0x2979, b'r'), (0x297a, b'r'),
    (0x297b, b'r'), (0x297c, b'r'), (0x297d, b'r'), (0x297e, b'r'), (0x297f, b'r'), (0x2980, b'o'), (0x2981, b'o'), (0x2982, b'r'), (0x2983, b'l'), (0x2984, b'c'), (0x2985, b'l'), (0x2986, b'c'), (0x2987, b'l'), (0x2988, b'c'), (0x2989, b'l'), (0x298a, b'c'),
    (0x298b, b'l'), (0x298c, b'c'), (0x298d, b'l'), (0x298e, b'c'), (0x298f, b'l'), (0x2990, b'c'), (0x2991, b'l'), (0x2992, b'c'), (0x2993, b'l'), (0x2994, b'c'), (0x2995, b'l'), (0x2996, b'c'), (0x2997, b'l'), (0x2998, b'c'), (0x2999, b'o'), (0x299a, b'o'),
    (0x299b, b'o'), (0x299c, b'o'), (0x299d, b'o'), (0x299e, b'o'), (0x299f, b'o'), (0x29a0, b'o'), (0x29a1, b'o'), (0x29a2, b'o'), (0x29a3, b'o'), (0x29a4, b'o'), (0x29a5, b'o'), (0x29a6, b'o'), (0x29a7, b'o'), (0x29a8, b'o'), (0x29a9, b'o'), (0x29aa, b'o'),
    (0x29ab, b'o'), (0x29ac, b'o'), (0x29ad, b'o'), (0x29ae, b'o'), (0x29af, b'o'), (0x29b0, b'o'), (0x29b1, b'o'), (0x29b2, b'o'), (0x29b3, b'o'), (0x29b4, b'o'), (0x29b5, b'b'), (0x29b6, b'b'), (0x29b7, b'b'), (0x29b8, b'b'), (0x29b9, b'b'), (0x29ba, b'o'),
    (0x29bb, b'o'), (0x29bc, b'o'), (0x29bd, b'o'), (0x29be, b'o'), (0x29bf, b'o'), (0x29c0, b'b'), (0x29c1, b'b'), (0x29c2, b'o'), (0x29c3, b'o'), (0x29c4, b'b'), (0x29c5, b'b'), (0x29c6, b'b'), (0x29c7, b'b'), (0x29c8, b'b'), (0x29c9, b'o'), (0x29ca, b'o'),
    (0x29cb, b'o'), (0x29cc, b'o'), (0x29cd, b'?'), (0x29ce, b'r'), (0x29cf, b'r'), (0x29d0, b'r'), (0x29d1, b'r'), (0x29d2, b'r'), (0x29d3, b'r'), (0x29d4, b'r'), (0x29d5, b'r'), (0x29d6, b'?'), (0x29d7, b'?'), (0x29d8, b'l'), (0x29d9, b'c'), (0x29da, b'l'),
    (0x29db, b'c'), (0x29dc, b'o'), (0x29dd, b'o'), (0x29de, b'o'), (0x29df, b'r'), (0x29e0, b'?'), (0x29e1, b'r'), (0x29e2, b'b'), (0x29e3, b'r'), (0x29e4, b'r'), (0x29e5, b'r'), (0x29e6, b'r'), (0x29e7, b'o'), (0x29e8, b'o'), (0x29e9, b'o'), (0x29ea, b'o'),
    (0x29eb, b'?'), (0x29ec, b'o'), (0x29ed, b'o'), (0x29ee, b'o'), (0x29ef, b'o'), (0x29f0, b'o'), (0x29f1, b'o'), (0x29f2, b'o'), (0x29f3, b'o'), (0x29f4, b'r'), (0x29f5, b'b'), (0x29f6, b'b'), (0x29f7, b'b'), (0x29f8, b'p'), (0x29f9, b'p'), (0x29fa, b'b'),
    (0x29fb, b'b'), (0x29fc, b'l'), (0x29fd, b'c'), (0x29fe, b'?'), (0x29ff, b'?'), (0x2a00, b'p'), (0x2a01, b'p'), (0x2a02, b'p'), (0x2a03, b'p'), (0x2a04, b'p'), (0x2a05, b'p'), (0x2a06, b'p'), (0x2a07, b'p'), (0x2a08, b'p'), (0x2a09, b'p'), (0x2a0a, b'p'),
    (0x2a0b, b'p'), (0x2a0c, b'p'), (0x2a0d, b'p'), (0x2a0e, b'p'), (0x2a0f, b'p'), (0x2a10, b'p'), (0x2a11, b'p'), (0x2a12, b'p'), (0x2a13, b'p'), (0x2a14, b'p'), (0x2a15, b'p'), (0x2a16, b'p'), (0x2a17, b'p'), (0x2a18, b'p'), (0x2a19, b'p'), (0x2a1a, b'p'),
    (0x2a1b, b'p'), (0x2a1c, b'p'), (0x2a1d, b'p'), (0x2a1e, b'p'), (0x2a1f, b'?'), (0x2a20, b'?'), (0x2a21, b'?'), (0x2a22, b'b'), (0x2a23, b'b'), (0x2a24, b'b'), (0x2a25, b'b'), (0x2a26, b'b'), (0x2a27, b'b'), (0x2a28, b'b'), (0x2a29, b'b'), (0x2a2a, b'b'),
    (0x2a2b, b'b'), (0x2a2c, b'b'), (0x2a2d, b'b'), (0x2a2e, b'b'), (0x2a2f, b'b'), (0x2a30, b'b'), (0x2a31, b'b'), (0x2a32, b'b'), (0x2a33, b'b'), (0x2a34, b'b'), (0x2a35, b'b'), (0x2a36, b'b'), (0x2a37, b'b'), (0x2a38, b'b'), (0x2a39, b'b'), (0x2a3a, b'b'),
    (0x2a3b, b'b'), (0x2a3c, b'b'), (0x2a3d, b'b'), (0x2a3e, b'b'), (0x2a3f, b'b'), (0x2a40, b'b'), (0x2a41, b'b'), (0x2a42, b'b'), (0x2a43, b'b'), (0x2a44, b'b'), (0x2a45, b'b'), (0x2a46, b'b'), (0x2a47, b'b'), (0x2a48, b'b'), (0x2a49, b'b'), (0x2a4a, b'b'),
    (0x2a4b, b'b'), (0x2a4c, b'b'), (0x2a4d, b'b'), (0x2a4e, b'b'), (0x2a4f, b'b'), (0x2a50, b'b'), (0x2a51, b'b'), (0x2a52, b'b'), (0x2a53, b'b'), (0x2a54, b'b'), (0x2a55, b'b'), (0x2a56, b'b'), (0x2a57, b'b'), (0x2a58, b'b'), (0x2a59, b'?'), (0x2a5a, b'b'),
    (0x2a5b, b'b'), (0x2a5c, b'b'), (0x2a5d, b'b'), (0x2a5e, b'b'), (0x2a5f, b'b'), (0x2a60, b'b'), (0x2a61, b'?'), (0x2a62, b'b'), (0x2a63, b'b'), (0x2a64, b'b'), (0x2a65, b'b'), (0x2a66, b'r'), (0x2a67, b'r'), (0x2a68, b'r'), (0x2a69, b'r'), (0x2a6a, b'r'),
    (0x2a6b, b'r'), (0x2a6c, b'r'), (0x2a6d, b'r'), (0x2a6e, b'r'), (0x2a6f, b'r'), (0x2a70, b'r'), (0x2a71, b'?'), (0x2a72, b'?'), (0x2a73, b'r'), (0x2a74, b'r'), (0x2a75, b'r'), (0x2a76, b'r'), (0x2a77, b'r'), (0x2a78, b'r'), (0x2a79, b'r'), (0x2a7a, b'r'),
    (0x2a7b, b'r'), (0x2a7c, b'r'), (0x2a7d, b'r'), (0x2a7e, b'r'), (0x2a7f, b'r'), (0x2a80, b'r'), (0x2a81, b'r'), (0x2a82, b'r'), (0x2a83, b'r'), (0x2a84, b'r'), (0x2a85, b'r'), (0x2a86, b'r'), (0x2a87, b'r'), (0x2a88, b'r'), (0x2a89, b'r'), (0x2a8a, b'r'),
    (0x2a8b, b'r'), (0x2a8c, b'r'), (0x2a8d, b'r'), (0x2a8e, b'r'), (0x2a8f, b'r'), (0x2a90, b'r'), (0x2a91, b'r'), (0x2a92, b'r'), (0x2a93, b'r'), (0x2a94, b'r'), (0x2a95, b'r'), (0x2a96, b'r'), (0x2a97, b'r'), (0x2a98, b'r'), (0x2a99, b'r'), (0x2a9a, b'r'),
    (0x2a9b, b'r'), (0x2a9c, b'r'), (0x2a9d, b'r'), (0x2a9e, b'r'), (0x2a9f, b'r'), (0x2aa0, b'r'), (0x2aa1, b'r'), (0x2aa2, b'r'), (0x2aa3, b'r'), (0x2aa4, b'r'), (0x2aa5, b'r'), (0x2aa6, b'r'), (0x2aa7, b'r'), (0x2aa8, b'r'), (0x2aa9, b'r'), (0x2aaa, b'r'),
    (0x2aab, b'r'), (0x2aac, b'r'), (0x2aad, b'r'), (0x2aae, b'r'), (0x2aaf, b'r'), (0x2ab0, b'r'), (0x2ab1, b'r'), (0x2ab2, b'r'), (0x2ab3, b'r'), (0x2ab4, b'r'), (0x2ab5, b'r'), (0x2ab6, b'r'), (0x2ab7, b'r'), (0x2ab8, b'r'), (0x2ab9, b'r'), (0x2aba, b'r'),
    (0x2abb, b'r'), (0x2abc, b'r'), (0x2abd, b'r'), (0x2abe, b'r'), (0x2abf, b'r'), (0x2ac0, b'r'), (0x2ac1, b'r'), (0x2ac2, b'r'), (0x2ac3, b'r'), (0x2ac4, b'r'), (0x2ac5, b'r'), (0x2ac6, b'r'), (0x2ac7, b'r'), (0x2ac8, b'r'), (0x2ac9, b'r'), (0x2aca, b'r'),
    (0x2acb, b'r'), (0x2acc, b'r'), (0x2acd, b'r'), (0x2ace, b'r'), (0x2acf, b'r'), (0x2ad0, b'r'), (0x2ad1, b'r'), (0x2ad2, b'r'), (0x2ad3, b'r'), (0x2ad4, b'r'), (0x2ad5, b'r'), (0x2ad6, b'r'), (0x2ad7, b'r'), (0x2ad8, b'r'), (0x2ad9, b'?'), (0x2ada, b'?'),
    (0x2adb, b'?'), (0x2adc, b'?'), (0x2add, b'?'), (0x2ade, b'r'), (0x2adf, b'r'), (0x2ae0, b'r'), (0x2ae1, b'?'), (0x2ae2, b'r'), (0x2ae3, b'r'), (0x2ae4, b'r'), (0x2ae5, b'r'), (0x2ae6, b'r'), (0x2ae7, b'r'), (0x2ae8, b'r'), (0x2ae9, b'r'), (0x2aea, b'r'),
    (0x2aeb, b'r'), (0x2aec, b'?'), (0x2aed, b'?'), (0x2aee, b'r'), (0x2aef, b'?'), (0x2af0, b'?'), (0x2af1, b'o'), (0x2af2, b'r'), (0x2af3, b'r'), (0x2af4, b'?'), (0x2af5, b'?'), (0x2af6, b'b'), (0x2af7, b'r'), (0x2af8, b'r'), (0x2af9, b'r'), (0x2afa, b'r'),
    (0x2afb, b'?'), (0x2afc, b'p'), (0x2afd, b'b'), (0x2afe, b'b'), (0x2aff, b'p'), (0x2b12, b'o'), (0x2b13, b'o'), (0x2b14, b'o'), (0x2b15, b'o'), (0x2b16, b'o'), (0x2b17, b'o'), (0x2b18, b'o'), (0x2b19, b'o'), (0x2b1a, b'o'), (0x2b1b, b'o'), (0x2b1c, b'o'),
    (0x2b1d, b'o'), (0x2b1e, b'o'), (0x2b1f, b'o'), (0x2b20, b'o'), (0x2b21, b'o'), (0x2b22, b'o'), (0x2b23, b'o'), (0x2b24, b'o'), (0x2b25, b'o'), (0x2b26, b'o'), (0x2b27, b'o'), (0x2b28, b'o'), (0x2b29, b'o'), (0x2b2a, b'o'), (0x2b2b, b'o'), (0x2b2c, b'o'),
    (0x2b2d, b'o'), (0x2b2e, b'o'), (0x2b2f, b'o'), (0x2b30, b'r'), (0x2b31, b'r'), (0x2b32, b'r'), (0x2b33, b'r'), (0x2b34, b'r'), (0x2b35, b'r'), (0x2b36, b'r'), (0x2b37, b'r'), (0x2b38, b'r'), (0x2b39, b'r'), (0x2b3a, b'r'), (0x2b3b, b'r'), (0x2b3c, b'r'),
    (0x2b3d, b'r'), (0x2b3e, b'r'), (0x2b3f, b'r'), (0x2b40, b'r'), (0x2b41, b'r'), (0x2b42, b'r'), (0x2b43, b'r'), (0x2b44, b'r'), (0x2b45, b'r'), (0x2b46, b'r'), (0x2b47, b'r'), (0x2b48, b'r'), (0x2b49, b'r'), (0x2b4a, b'r'), (0x2b4b, b'r'), (0x2b4c, b'r'),
    (0x2b50, b'o'), (0x2b51, b'o'), (0x2b52, b'o'), (0x2b53, b'o'), (0x2b54, b'o'), (0x3012, b'o'), (0x3030, b'o'), (0x1d400, b'o'), (0x1d401, b'o'), (0x1d402, b'o'), (0x1d403, b'o'), (0x1d404, b'o'), (0x1d405, b'o'), (0x1d406, b'o'), (0x1d407, b'o'), (0x1d408, b'o'),
    (0x1d409, b'o'), (0x1d40a, b'o'), (0x1d40b, b'o'), (0x1d40c, b'o'), (0x1d40d, b'o'), (0x1d40e, b'o'), (0x1d40f, b'o'), (0x1d410, b'o'), (0x1d411, b'o'), (0x1d412, b'o'), (0x1d413, b'o'), (0x1d414, b'o'), (0x1d415, b'o'), (0x1d416, b'o'), (0x1d417, b'o'), (0x1d418, b'o'),
    (0x1d419, b'o'), (0x1d41a, b'o'), (0x1d41b, b'o'), (0x1d41c, b'o'), (0x1d41d, b'o'), (0x1d41e, b'o'), (0x1d41f, b'o'), (0x1d420, b'o'), (0x1d421, b'o'), (0x1d422, b'o'), (0x1d423, b'o'), (0x1d424, b'o'), (0x1d425, b'o'), (0x1d426, b'o'), (0x1d427, b'o'), (0x1d428, b'o'),
    (0x1d429, b'o'), (0x1d42a, b'o'), (0x1d42b, b'o'), (0x1d42c, b'o'), (0x1d42d, b'o'), (0x1d42e, b'o'), (0x1d42f, b'o'), (0x1d430, b'o'), (0x1d431, b'o'), (0x1d432, b'o'), (0x1d433, b'o'), (0x1d434, b'o'), (0x1d435, b'o'), (0x1d436, b'o'), (0x1d437, b'o'), (0x1d438, b'o'),
    (0x1d439, b'o'), (0x1d43a, b'o'), (0x1d43b, b'o'), (0x1d43c, b'o'), (0x1d43d, b'o'), (0x1d43e, b'o'), (0x1d43f, b'o'), (0x1d440, b'o'), (0x1d441, b'o'), (0x1d442, b'o'), (0x1d443, b'o'), (0x1d444, b'o'), (0x1d445, b'o'), (0x1d446, b'o'), (0x1d447, b'o'), (0x1d448, b'o'),
    (0x1d449, b'o'), (0x1d44a, b'o'), (0x1d44b, b'o'), (0x1d44c, b'o'), (0x1d44d, b'o'), (0x1d44e, b'o'), (0x1d44f, b'o'), (0x1d450, b'o'), (0x1d451, b'o'), (0x1d452, b'o'), (0x1d453, b'o'), (0x1d454, b'o'), (0x1d456, b'o'), (0x1d457, b'o'), (0x1d458, b'o'), (0x1d459, b'o'),
    (0x1d45a, b'o'), (0x1d45b, b'o'), (0x1d45c, b'o'), (0x1d45d, b'o'), (0x1d45e, b'o'), (0x1d45f, b'o'), (0x1d460, b'o'), (0x1d461, b'o'), (0x1d462, b'o'), (0x1d463, b'o'), (0x1d464, b'o'), (0x1d465, b'o'), (0x1d466, b'o'), (0x1d467, b'o'), (0x1d468, b'o'), (0x1d469, b'o'),
    (0x1d46a, b'o'), (0x1d46b, b'o'), (0x1d46c, b'o'), (0x1d46d, b'o'), (0x1d46e, b'o'), (0x1d46f, b'o'), (0x1d470, b'o'), (0x1d471, b'o'), (0x1d472, b'o'), (0x1d473, b'o'), (0x1d474, b'o'), (0x1d475, b'o'), (0x1d476, b'o'), (0x1d477, b'o'), (0x1d478, b'o'), (0x1d479, b'o'),
    (0x1d47a, b'o'), (0x1d47b, b'o'), (0x1d47c, b'o'), (0x1d47d, b'o'), (0x1d47e, b'o'), (0x1d47f, b'o'), (0x1d480, b'o'), (0x1d481, b'o'), (0x1d482, b'o'), (0x1d483, b'o'), (0x1d484, b'o'), (0x1d485, b'o'), (0x1d486, b'o'), (0x1d487, b'o'), (0x1d488, b'o'), (0x1d489, b'o'),
    (0x1d48a, b'o'), (0x1d48b, b'o'), (0x1d48c, b'o'), (0x1d48d, b'o'), (0x1d48e, b'o'), (0x1d48f, b'o'), (0x1d490, b'o'), (0x1d491, b'o'), (0x1d492, b'o'), (0x1d493, b'o'), (0x1d494, b'o'), (0x1d495, b'o'), (0x1d496, b'o'), (0x1d497, b'o'), (0x1d498, b'o'), (0x1d499, b'o'),
    (0x1d49a, b'o'), (0x1d49b, b'o'), (0x1d49c, b'o'), (0x1d49e, b'o'), (0x1d49f, b'o'), (0x1d4a2, b'o'), (0x1d4a5, b'o'), (0x1d4a6, b'o'), (0x1d4a9, b'o'), (0x1d4aa, b'o'), (0x1d4ab, b'o'), (0x1d4ac, b'o'), (0x1d4ae, b'o'), (0x1d4af, b'o'), (0x1d4b0, b'o'), (0x1d4b1, b'o'),
    (0x1d4b2, b'o'), (0x1d4b3, b'o'), (0x1d4b4, b'o'), (0x1d4b5, b'o'), (0x1d4b6, b'o'), (0x1d4b7, b'o'), (0x1d4b8, b'o'), (0x1d4b9, b'o'), (0x1d4bb, b'o'), (0x1d4bd, b'o'), (0x1d4be, b'o'), (0x1d4bf, b'o'), (0x1d4c0, b'o'), (0x1d4c1, b'o'), (0x1d4c2, b'o'), (0x1d4c3, b'o'),
    (0x1d4c5, b'o'), (0x1d4c6, b'o'), (0x1d4c7, b'o'), (0x1d4c8, b'o'), (0x1d4c9, b'o'), (0x1d4ca, b'o'), (0x1d4cb, b'o'), (0x1d4cc, b'o'), (0x1d4cd, b'o'), (0x1d4ce, b'o'), (0x1d4cf, b'o'), (0x1d4d0, b'o'), (0x1d4d1, b'o'), (0x1d4d2, b'o'), (0x1d4d3, b'o'), (0x1d4d4, b'o'),
    (0x1d4d5, b'o'), (0x1d4d6, b'o'), (0x1d4d7, b'o'), (0x1d4d8, b'o'), (0x1d4d9, b'o'), (0x1d4da, b'o'), (0x1d4db, b'o'), (0x1d4dc, b'o'), (0x1d4dd, b'o'), (0x1d4de, b'o'), (0x1d4df, b'o'), (0x1d4e0, b'o'), (0x1d4e1, b'o'), (0x1d4e2, b'o'), (0x1d4e3, b'o'), (0x1d4e4, b'o'),
    (0x1d4e5, b'o'), (0x1d4e6, b'o'), (0x1d4e7, b'o'), (0x1d4e8, b'o'), (0x1d4e9, b'o'), (0x1d4ea, b'o'), (0x1d4eb, b'o'), (0x1d4ec, b'o'), (0x1d4ed, b'o'), (0x1d4ee, b'o'), (0x1d4ef, b'o'), (0x1d4f0, b'o'), (0x1d4f1, b'o'), (0x1d4f2, b'o'), (0x1d4f3, b'o'), (0x1d4f4, b'o'),
    (0x1d4f5, b'o'), (0x1d4f6, b'o'), (0x1d4f7, b'o'), (0x1d4f8, b'o'), (0x1d4f9, b'o'), (0x1d4fa, b'o'), (0x1d4fb, b'o'), (0x1d4fc, b'o'), (0x1d4fd, b'o'), (0x1d4fe, b'o'), (0x1d4ff, b'o'), (0x1d500, b'o'), (0x1d501, b'o'), (0x1d502, b'o'), (0x1d503, b'o'), (0x1d504, b'o'),
    (0x1d505, b'o'), (0x1d507, b'o'), (0x1d508, b'o'), (0x1d509, b'o'), (0x1d50a, b'o'), (0x1d50d, b'o'), (0x1d50e, b'o'), (0x1d50f, b'o'), (0x1d510, b'o'), (0x1d511, b'o'), (0x1d512, b'o'), (0x1d513, b'o'), (0x1d514, b'o'), (0x1d516, b'o'), (0x1d517, b'o'), (0x1d518, b'o'),
    (0x1d519, b'o'), (0x1d51a, b'o'), (0x1d51b, b'o'), (0x1d51c, b'o'), (0x1d51e, b'o'), (0x1d51f, b'o'), (0x1d520, b'o'), (0x1d521, b'o'), (0x1d522, b'o'), (0x1d523, b'o'), (0x1d524, b'o'), (0x1d525, b'o'), (0x1d526, b'o'), (0x1d527, b'o'), (0x1d528, b'o'), (0x1d529, b'o'),
    (0x1d52a, b'o'), (0x1d52b, b'o'), (0x1d52c, b'o'), (0x1d52d, b'o'), (0x1d52e, b'o'), (0x1d52f, b'o'), (0x1d530, b'o'), (0x1d531, b'o'), (0x1d532, b'o'), (0x1d533, b'o'), (0x1d534, b'o'), (0x1d535, b'o'), (0x1d536, b'o'), (0x1d537, b'o'), (0x1d538, b'o'), (0x1d539, b'o'),
    (0x1d53b, b'o'), (0x1d53c, b'o'), (0x1d53d, b'o'), (0x1d53e, b'o'), (0x1d540, b'o'), (0x1d541, b'o'), (0x1d542, b'o'), (0x1d543, b'o'), (0x1d544, b'o'), (0x1d546, b'o'), (0x1d54a, b'o'), (0x1d54b, b'o'), (0x1d54c, b'o'), (0x1d54d, b'o'), (0x1d54e, b'o'), (0x1d54f, b'o'),
    (0x1d550, b'o'), (0x1d552, b'o'), (0x1d553, b'o'), (0x1d554, b'o'), (0x1d555, b'o'), (0x1d556, b'o'), (0x1d557, b'o'), (0x1d558, b'o'), (0x1d559, b'o'), (0x1d55a, b'o'), (0x1d55b, b'o'), (0x1d55c, b'o'), (0x1d55d, b'o'), (0x1d55e, b'o'), (0x1d55f, b'o'), (0x1d560, b'o'),
    (0x1d561, b'o'), (0x1d562, b'o'), (0x1d563, b'o'), (0x1d564, b'o'), (0x1d565, b'o'), (0x1d566, b'o'), (0x1d567, b'o'), (0x1d568, b'o'), (0x1d569, b'o'), (0x1d56a, b'o'), (0x1d56b, b'o'), (0x1d56c, b'o'), (0x1d56d, b'o'), (0x1d56e, b'o'), (0x1d56f, b'o'), (0x1d570, b'o'),
    (0x1d571, b'o'), (0x1d572, b'o'), (0x1d573, b'o'), (0x1d574, b'o'), (0x1d575, b'o'), (0x1d576, b'o'), (0x1d577, b'o'), (0x1d578, b'o'), (0x1d579, b'o'), (0x1d57a, b'o'), (0x1d57b, b'o'), (0x1d57c, b'o'), (0x1d57d, b'o'), (0x1d57e, b'o'), (0x1d57f, b'o'), (0x1d580, b'o'),
    (0x1d581, b'o'), (0x1d582, b'o'), (0x1d583, b'o'), (0x1d584, b'o'), (0x1d585, b'o'), (0x1d586, b'o'), (0x1d587, b'o'), (0x1d588, b'o'), (0x1d589, b'o'), (0x1d58a, b'o'), (0x1d58b, b'o'), (0x1d58c, b'o'), (0x1d58d, b'o'), (0x1d58e, b'o'), (0x1d58f, b'o'), (0x1d590, b'o'),
    (0x1d591, b'o'), (0x1d592, b'o'), (0x1d593, b'o'), (0x1d594, b'o'), (0x1d595, b'o'), (0x1d596, b'o'), (0x1d597, b'o'), (0x1d598, b'o'), (0x1d599, b'o'), (0x1d59a, b'o'), (0x1d59b, b'o'), (0x1d59c, b'o'), (0x1d59d, b'o'), (0x1d59e, b'o'), (0x1d59f, b'o'), (0x1d5a0, b'o'),
    (0x1d5a1, b'o'), (0x1d5a2, b'o'), (0x1d5a3, b'o'), (0x1d5a4, b'o'), (0x1d5a5, b'o'), (0x1d5a6, b'o'), (0x1d5a7, b'o'), (0x1d5a8, b'o'), (0x1d5a9, b'o'), (0x1d5aa, b'o'), (0x1d5ab, b'o'), (0x1d5ac, b'o'), (0x1d5ad, b'o'), (0x1d5ae, b'o'), (0x1d5af, b'o'), (0x1d5b0, b'o'),
    (0x1d5b1, b'o'), (0x1d5b2, b'o'), (0x1d5b3, b'o'), (0x1d5b4, b'o'), (0x1d5b5, b'o'), (0x1d5b6, b'o'), (0x1d5b7, b'o'), (0x1d5b8, b'o'), (0x1d5b9, b'o'), (0x1d5ba, b'o'), (0x1d5bb, b'o'), (0x1d5bc, b'o'), (0x1d5bd, b'o'), (0x1d5be, b'o'), (0x1d5bf, b'o'), (0x1d5c0, b'o'),
    (0x1d5c1, b'o'), (0x1d5c2, b'o'), (0x1d5c3, b'o'), (0x1d5c4, b'o'), (0x1d5c5, b'o'), (0x1d5c6, b'o'), (0x1d5c7, b'o'), (0x1d5c8, b'o'), (0x1d5c9, b'o'), (0x1d5ca, b'o'), (0x1d5cb, b'o'), (0x1d5cc, b'o'), (0x1d5cd, b'o'), (0x1d5ce, b'o'), (0x1d5cf, b'o'), (0x1d5d0, b'o'),
    (0x1d5d1, b'o'), (0x1d5d2, b'o'), (0x1d5d3, b'o'), (0x1d5d4, b'o'), (0x1d5d5, b'o'), (0x1d5d6, b'o'), (0x1d5d7, b'o'), (0x1d5d8, b'o'), (0x1d5d9, b'o'), (0x1d5da, b'o'), (0x1d5db, b'o'), (0x1d5dc, b'o'), (0x1d5dd, b'o'), (0x1d5de, b'o'), (0x1d5df, b'o'), (0x1d5e0, b'o'),
    (0x1d5e1, b'o'), (0x1d5e2, b'o'), (0x1d5e3, b'o'), (0x1d5e4, b'o'), (0x1d5e5, b'o'), (0x1d5e6, b'o'), (0x1d5e7, b'o'), (0x1d5e8, b'o'), (0x1d5e9, b'o'), (0x1d5ea, b'o'), (0x1d5eb, b'o'), (0x1d5ec, b'o'), (0x1d5ed, b'o'), (0x1d5ee, b'o'), (0x1d5ef, b'o'), (0x1d5f0, b'o'),
    (0x1d5f1, b'o'), (0x1d5f2, b'o'), (0x1d5f3, b'o'), (0x1d5f4, b'o'), (0x1d5f5, b'o'), (0x1d5f6, b'o'), (0x1d5f7, b'o'), (0x1d5f8, b'o'), (0x1d5f9, b'o'), (0x1d5fa, b'o'), (0x1d5fb, b'o'), (0x1d5fc, b'o'), (0x1d5fd, b'o'), (0x1d5fe, b'o'), (0x1d5ff, b'o'), (0x1d600, b'o'),
    (0x1d601, b'o'), (0x1d602, b'o'), (0x1d603, b'o'), (0x1d604, b'o'), (0x1d605, b'o'), (0x1d606, b'o'), (0x1d607, b'o'), (0x1d608, b'o'), (0x1d609, b'o'), (0x1d60a, b'o'), (0x1d60b, b'o'), (0x1d60c, b'o'), (0x1d60d, b'o'), (0x1d60e, b'o'), (0x1d60f, b'o'), (0x1d610, b'o'),
    (0x1d611, b'o'), (0x1d612, b'o'), (0x1d613, b'o'), (0x1d614, b'o'), (0x1d615, b'o'), (0x1d616, b'o'), (0x1d617, b'o'), (0x1d618, b'o'), (0x1d619, b'o'), (0x1d61a, b'o'), (0x1d61b, b'o'), (0x1d61c, b'o'), (0x1d61d, b'o'), (0x1d61e, b'o'), (0x1d61f, b'o'), (0x1d620, b'o'),
    (0x1d621, b'o'), (0x1d622, b'o'), (0x1d623, b'o'), (0x1d624, b'o'), (0x1d625, b'o'), (0x1d626, b'o'), (0x1d627, b'o'), (0x1d628, b'o'), (0x1d629, b'o'), (0x1d62a, b'o'), (0x1d62b, b'o'), (0x1d62c, b'o'), (0x1d62d, b'o'), (0x1d62e, b'o'), (0x1d62f, b'o'), (0x1d630, b'o'),
    (0x1d631, b'o'), (0x1d632, b'o'), (0x1d633, b'o'), (0x1d634, b'o'), (0x1d635, b'o'), (0x1d636, b'o'), (0x1d637, b'o'), (0x1d638, b'o'), (0x1d639, b'o'), (0x1d63a, b'o'), (0x1d63b, b'o'), (0x1d63c, b'o'), (0x1d63d, b'o'), (0x1d63e, b'o'), (0x1d63f, b'o'), (0x1d640, b'o'),
    (0x1d641, b'o'), (0x1d642, b'o'), (0x1d643, b'o'), (0x1d644, b'o'), (0x1d645, b'o'), (0x1d646, b'o'), (0x1d647, b'o'), (0x1d648, b'o'), (0x1d649, b'o'), (0x1d64a, b'o'), (0x1d64b, b'o'), (0x1d64c, b'o'), (0x1d64d, b'o'), (0x1d64e, b'o'), (0x1d64f, b'o'), (0x1d650, b'o'),
    (0x1d651, b'o'), (0x1d652, b'o'), (0x1d653, b'o'), (0x1d654, b'o'), (0x1d655, b'o'), (0x1d656, b'o'), (0x1d657, b'o'), (0x1d658, b'o'), (0x1d659, b'o'), (0x1d65a, b'o'), (0x1d65b, b'o'), (0x1d65c, b'o'), (0x1d65d, b'o'), (0x1d65e, b'o'), (0x1d65f, b'o'), (0x1d660, b'o'),
    (0x1d661, b'o'), (0x1d662, b'o'), (0x1d663, b'o'), (0x1d664, b'o'), (0x1d665, b'o'), (0x1d666, b'o'), (0x1d667, b'o'), (0x1d668, b'o'), (0x1d669, b'o'), (0x1d66a, b'o'), (0x1d66b, b'o'), (0x1d66c, b'o'), (0x1d66d, b'o'), (0x1d66e, b'o'), (0x1d66f, b'o'), (0x1d670, b'o'),
    (0x1d671, b'o'), (0x1d672, b'o'), (0x1d673, b'o'), (0x1d674, b'o'), (0x1d675, b'o'), (0x1d676, b'o'), (0x1d677, b'o'), (0x1d678, b'o'), (0x1d679, b'o'), (0x1d67a, b'o'), (0x1d67b, b'o'), (0x1d67c, b'o'), (0x1d67d, b'o'), (0x1d67e, b'o'), (0x1d67f, b'o'), (0x1d680, b'o'),
    (0x1d681, b'o'), (0x1d682, b'o'), (0x1d683, b'o'), (0x1d684, b'o'), (0x1d685, b'o'), (0x1d686, b'o'), (0x1d687, b'o'), (0x1d688, b'o'), (0x1d689, b'o'), (0x1d68a, b'o'), (0x1d68b, b'o'), (0x1d68c, b'o'), (0x1d68d, b'o'), (0x1d68e, b'o'), (0x1d68f, b'o'), (0x1d690, b'o'),
    (0x1d691, b'o'), (0x1d692, b'o'), (0x1d693, b'o'), (0x1d694, b'o'), (0x1d695, b'o'), (0x1d696, b'o'), (0x1d697, b'o'), (0x1d698, b'o'), (0x1d699, b'o'), (0x1d69a, b'o'), (0x1d69b, b'o'), (0x1d69c, b'o'), (0x1d69d, b'o'), (0x1d69e, b'o'), (0x1d69f, b'o'), (0x1d6a0, b'o'),
    (0x1d6a1, b'o'), (0x1d6a2, b'o'), (0x1d6a3, b'o'), (0x1d6a4, b'o'), (0x1d6a5, b'o'), (0x1d6a8, b'o'), (0x1d6a9, b'o'), (0x1d6aa, b'o'), (0x1d6ab, b'o'), (0x1d6ac, b'o'), (0x1d6ad, b'o'), (0x1d6ae, b'o'), (0x1d6af, b'o'), (0x1d6b0, b'o'), (0x1d6b1, b'o'), (0x1d6b2, b'o'),
    (0x1d6b3, b'o'), (0x1d6b4, b'o'), (0x1d6b5, b'o'), (0x1d6b6, b'o'), (0x1d6b7, b'o'), (0x1d6b8, b'o'), (0x1d6b9, b'o'), (0x1d6ba, b'o'), (0x1d6bb, b'o'), (0x1d6bc, b'o'), (0x1d6bd, b'o'), (0x1d6be, b'o'), (0x1d6bf, b'o'), (0x1d6c0, b'o'), (0x1d6c1, b'o'), (0x1d6c2, b'o'),
    (0x1d6c3, b'o'), (0x1d6c4, b'o'), (0x1d6c5, b'o'), (0x1d6c6, b'o'), (0x1d6c7, b'o'), (0x1d6c8, b'o'), (0x1d6c9, b'o'), (0x1d6ca, b'o'), (0x1d6cb, b'o'), (0x1d6cc, b'o'), (0x1d6cd, b'o'), (0x1d6ce, b'o'), (0x1d6cf, b'o'), (0x1d6d0, b'o'), (0x1d6d1, b'o'), (0x1d6d2, b'o'),
    (0x1d6d3, b'o'), (0x1d6d4, b'o'), (0x1d6d5, b'o'), (0x1d6d6, b'o'), (0x1d6d7, b'o'), (0x1d6d8, b'o'), (0x1d6d9, b'o'), (0x1d6da, b'o'), (0x1d6db, b'o'), (0x1d6dc, b'o'), (0x1d6dd, b'o'), (0x1d6de, b'o'), (0x1d6df, b'o'), (0x1d6e0, b'o'), (0x1d6e1, b'o'), (0x1d6e2, b'o'),
    (0x1d6e3, b'o'), (0x1d6e4, b'o'), (0x1d6e5, b'o'), (0x1d6e6, b'o'), (0x1d6e7, b'o'), (0x1d6e8, b'o'), (0x1d6e9, b'o'), (0x1d6ea, b'o'), (0x1d6eb, b'o'), (0x1d6ec, b'o'), (0x1d6ed, b'o'), (0x1d6ee, b'o'), (0x1d6ef, b'o'), (0x1d6f0, b'o'), (0x1d6f1, b'o'), (0x1d6f2, b'o'),
    (0x1d6f3, b'o'), (0x1d6f4, b'o'), (0x1d6f5, b'o'), (0x1d6f6, b'o'), (0x1d6f7, b'o'), (0x1d6f8, b'o'), (0x1d6f9, b'o'), (0x1d6fa, b'o'), (0x1d6fb, b'o'), (0x1d6fc, b'o'), (0x1d6fd, b'o'), (0x1d6fe, b'o'), (0x1d6ff, b'o'), (0x1d700, b'o'), (0x1d701, b'o'), (0x1d702, b'o'),
    (0x1d703, b'o'), (0x1d704, b'o'), (0x1d705, b'o'), (0x1d706, b'o'), (0x1d707, b'o'), (0x1d708, b'o'), (0x1d709, b'o'), (0x1d70a, b'o'), (0x1d70b, b'o'), (0x1d70c, b'o'), (0x1d70d, b'o'), (0x1d70e, b'o'), (0x1d70f, b'o'), (0x1d710, b'o'), (0x1d711, b'o'), (0x1d712, b'o'),
    (0x1d713, b'o'), (0x1d714, b'o'), (0x1d715, b'o'), (0x1d716, b'o'), (0x1d717, b'o'), (0x1d718, b'o'), (0x1d719, b'o'), (0x1d71a, b'o'), (0x1d71b, b'o'), (0x1d71c, b'o'), (0x1d71d, b'o'), (0x1d71e, b'o'), (0x1d71f, b'o'), (0x1d720, b'o'), (0x1d721, b'o'), (0x1d722, b'o'),
    (0x1d723, b'o'), (0x1d724, b'o'), (0x1d725, b'o'), (0x1d726, b'o'), (0x1d727, b'o'), (0x1d728, b'o'), (0x1d729, b'o'), (0x1d72a, b'o'), (0x1d72b, b'o'), (0x1d72c, b'o'), (0x1d72d, b'o'), (0x1d72e, b'o'), (0x1d72f, b'o'), (0x1d730, b'o'), (0x1d731, b'o'), (0x1d732, b'o'),
    (0x1d733, b'o'), (0x1d734, b'o'), (0x1d735, b'o'), (0x1d736, b'o'), (0x1d737, b'o'), (0x1d738, b'o'), (0x1d739, b'o'), (0x1d73a, b'o'), (0x1d73b, b'o'), (0x1d73c, b'o'), (0x1d73d, b'o'), (0x1d73e, b'o'), (0x1d73f, b'o'), (0x1d740, b'o'), (0x1d741, b'o'), (0x1d742, b'o'),
    (0x1d743, b'o'), (0x1d744, b'o'), (0x1d745, b'o'), (0x1d746, b'o'), (0x1d747, b'o'), (0x1d748, b'o'), (0x1d749, b'o'), (0x1d74a, b'o'), (0x1d74b, b'o'), (0x1d74c, b'o'), (0x1d74d, b'o'), (0x1d74e, b'o'), (0x1d74f, b'o'), (0x1d750, b'o'), (0x1d751, b'o'), (0x1d752, b'o'),
    (0x1d753, b'o'), (0x1d754, b'o'), (0x1d755, b'o'), (0x1d756, b'o'), (0x1d757, b'o'), (0x1d758, b'o'), (0x1d759, b'o'), (0x1d75a, b'o'), (0x1d75b, b'o'), (0x1d75c, b'o'), (0x1d75d, b'o'), (0x1d75e, b'o'), (0x1d75f, b'o'), (0x1d760, b'o'), (0x1d761, b'o'), (0x1d762, b'o'),
    (0x1d763, b'o'), (0x1d764, b'o'), (0x1d765, b'o'), (0x1d766, b'o'), (0x1d767, b'o'), (0x1d768, b'o'), (0x1d769, b'o'), (0x1d76a, b'o'), (0x1d76b, b'o'), (0x1d76c, b'o'), (0x1d76d, b'o'), (0x1d76e, b'o'), (0x1d76f, b'o'), (0x1d770, b'o'), (0x1d771, b'o'), (0x1d772, b'o'),
    (0x1d773, b'o'), (0x1d774, b'o'), (0x1d775, b'o'), (0x1d776, b'o'), (0x1d777, b'o'), (0x1d778, b'o'), (0x1d779, b'o'), (0x1d77a, b'o'), (0x1d77b, b'o'), (0x1d77c, b'o'), (0x1d77d, b'o'), (0x1d77e, b'o'), (0x1d77f, b'o'), (0x1d780, b'o'), (0x1d781, b'o'), (0x1d782, b'o'),
    (0x1d783, b'o'), (0x1d784, b'o'), (0x1d785, b'o'), (0x1d786, b'o'), (0x1d787, b'o'), (0x1d788, b'o'), (0x1d789, b'o'), (0x1d78a, b'o'), (0x1d78b, b'o'), (0x1d78c, b'o'), (0x1d78d, b'o'), (0x1d78e, b'o'), (0x1d78f, b'o'), (0x1d790, b'o'), (0x1d791, b'o'), (0x1d792, b'o'),
    (0x1d793, b'o'), (0x1d794, b'o'), (0x1d795, b'o'), (0x1d796, b'o'), (0x1d797, b'o'), (0x1d798, b'o'), (0x1d799, b'o'), (0x1d79a, b'o'), (0x1d79b, b'o'), (0x1d79c, b'o'), (0x1d79d, b'o'), (0x1d79e, b'o'), (0x1d79f, b'o'), (0x1d7a0, b'o'), (0x1d7a1, b'o'), (0x1d7a2, b'o'),
    (0x1d7a3, b'o'), (0x1d7a4, b'o'), (0x1d7a5, b'o'), (0x1d7a6, b'o'), (0x1d7a7, b'o'), (0x1d7a8, b'o'), (0x1d7a9, b'o'), (0x1d7aa, b'o'), (0x1d7ab, b'o'), (0x1d7ac, b'o'), (0x1d7ad, b'o'), (0x1d7ae, b'o'), (0x1d7af, b'o'), (0x1d7b0, b'o'), (0x1d7b1, b'o'), (0x1d7b2, b'o'),
    (0x1d7b3, b'o'), (0x1d7b4, b'o'), (0x1d7b5, b'o'), (0x1d7b6, b'o'), (0x1d7b7, b'o'), (0x1d7b8, b'o'), (0x1d7b9, b'o'), (0x1d7ba, b'o'), (0x1d7bb, b'o'), (0x1d7bc, b'o'), (0x1d7bd, b'o'), (0x1d7be, b'o'), (0x1d7bf, b'o'), (0x1d7c0, b'o'), (0x1d7c1, b'o'), (0x1d7c2, b'o'),
    (0x1d7c3, b'o'), (0x1d7c4, b'o'), (0x1d7c5, b'o'), (0x1d7c6, b'o'), (0x1d7c7, b'o'), (0x1d7c8, b'o'), (0x1d7c9, b'o'), (0x1d7ca, b'o'), (0x1d7cb, b'o'), (0x1d7ce, b'o'), (0x1d7cf, b'o'), (0x1d7d0, b'o'), (0x1d7d1, b'o'), (0x1d7d2, b'o'), (0x1d7d3, b'o'), (0x1d7d4, b'o'),
    (0x1d7d5, b'o'), (0x1d7d6, b'o'), (0x1d7d7, b'o'), (0x1d7d8, b'o'), (0x1d7d9, b'o'), (0x1d7da, b'o'), (0x1d7db, b'o'), (0x1d7dc, b'o'), (0x1d7dd, b'o'), (0x1d7de, b'o'), (0x1d7df, b'o'), (0x1d7e0, b'o'), (0x1d7e1, b'o'), (0x1d7e2, b'o'), (0x1d7e3, b'o'), (0x1d7e4, b'o'),
    (0x1d7e5, b'o'), (0x1d7e6, b'o'), (0x1d7e7, b'o'), (0x1d7e8, b'o'), (0x1d7e9, b'o'), (0x1d7ea, b'o'), (0x1d7eb, b'o'), (0x1d7ec, b'o'), (0x1d7ed, b'o'), (0x1d7ee, b'o'), (0x1d7ef, b'o'), (0x1d7f0, b'o'), (0x1d7f1, b'o'), (0x1d7f2, b'o'), (0x1d7f3, b'o'), (0x1d7f4, b'o'),
    (0x1d7f5, b'o'), (0x1d7f6, b'o'), (0x1d7f7, b'o'), (0x1d7f8, b'o'), (0x1d7f9, b'o'), (0x1d7fa, b'o'), (0x1d7fb, b'o'), (0x1d7fc, b'o'), (0x1d7fd, b'o'), (0x1d7fe, b'o'), (0x1d7ff, b'o'), (0x1eef0, b'?'), (0x1eef1, b'?'),
];
