//! Formulas from the repository's own tests (tools/corpus.py), shortest first.
pub const CORPUS: &[&str] = &[
    "f'",
    "4+",
    "x^",
    "\\\\",
    "\\a",
    "\\c",
    "\\g",
    "x^2",
    "f''",
    "4+,",
    "x^^",
    "x^_",
    "\\éx",
    "\\ae",
    "a_2",
    "\\zz",
    "x\\\\y",
    "x\\ y",
    "f'''",
    "(+x)",
    "(x+)",
    "4==4",
    "_1^2",
    "{x^}",
    "x__3",
    "\\def",
    "\\foo",
    "x^2_3",
    "x_3^2",
    "x{:x}",
    "{x:}x",
    "x{:}x",
    "\\not=",
    "f''''",
    "\\sum'",
    "\\int'",
    "x=!=x",
    "x+(x)",
    "(x)+x",
    "4{+}4",
    "{4+}x",
    "x{=x}",
    "{x=}x",
    "x_==4",
    "\\asdf",
    "$x^2$",
    "x & y",
    "#1+#2",
    "\\bb{}",
    "\\half",
    "\\zzzz",
    "\\o{2}",
    "\\n{2}",
    "\\sin x",
    "\\log_x",
    "\\bm{x}",
    "f'''''",
    "P(x|y)",
    "\\%\\$\\#",
    "\\N\\R\\Z",
    "x = +4",
    "x+ = 4",
    "==^2 x",
    "x =_+4",
    "4++++4",
    "4=\\;=4",
    "x \\! x",
    "9\\asdf",
    "x\\kern",
    "\\let x",
    "\\alpha",
    "\\bb{C}",
    "\\text x",
    "{\\bf x}",
    "\\sin(x)",
    "\\sin[x]",
    "\\sqrt 2",
    "\\sqrt12",
    "\\frac12",
    "g_{1=1}",
    "\\dot{x}",
    "\\int dx",
    "\\sqrt :",
    "x_{x:x}",
    "\\not\\lt",
    "\\not< x",
    "f''^2_3",
    "x\\And x",
    "\\fbox{}",
    "\\set{x}",
    "\\sqrt  ",
    "{\\sqrt}",
    "{\\text}",
    "\\global",
    "\\begin{",
    "\\mathtt2",
    "{x\\sin}x",
    "\\frac 12",
    "\\binom12",
    "\\vec{x}'",
    "f^\\prime",
    "x =\\, +4",
    "x+ \\,= 4",
    "\\sum + 4",
    "4 + \\sum",
    "x =_2 +4",
    "x\\And =x",
    "x^\\relax",
    "\\left( x",
    "\\large x",
    "x\\kern1e",
    "\\let\\zzz",
    "\\def\\zzz",
    "1.1\\asdf",
    "\\sqrt\\bf",
    "\\sqrt{3}",
    "\\sqrt{#}",
    "\\f{1}{2}",
    "\\add 2 3",
    "\\text{Γγ}",
    "{\\bf_2 x}",
    "\\sin\\{x\\}",
    "x{\\sin x}",
    "\\int_0 dx",
    "\\int^1 dx",
    "\\prod_n n",
    "\\eqref{a}",
    "\\mathrm x",
    "\\mathit x",
    "\\mathbb N",
    "\\bigl)+ x",
    "\\sqrt{=3}",
    "=\\vec{=}x",
    "\\sqrt\\sum",
    "2+\\bigm|)",
    "2+\\bigm()",
    "x\\bigm/ x",
    "A B \\dots",
    "a\\relax b",
    "\\sqrt[lim",
    "\\text{x{}",
    "\\sum\\text",
    "\\global x",
    "\\def x{y}",
    "{x_\\bf x}",
    "a \\bmod b",
    "f(x) \\,\\!",
    "\\dddot{x}",
    "x + \\eq 3",
    "\\odv{}{x}",
    "\\odv{y}{}",
    "\\two{a}{}",
    "\\two{}{b}",
    "n \\in \\zz",
    "\\zzz\\zzzz",
    "\\text{x}~y",
    "\\text{\\rq}",
    "\\textit{x}",
    "\\textbf{x}",
    "\\texttt{x}",
    "\\mathtt{x}",
    "{x\\bf_2 x}",
    "\\sin\\sin x",
    "\\sqrt{x+2}",
    "g_{\\mu\\nu}",
    "\\oint_C dz",
    "\\mathbb{R}",
    "\\sum\\log n",
    "\\mathstrut",
    "f^{\\prime}",
    "P(x\\mid y)",
    "\\fbox{a b}",
    "\\sout{abc}",
    "\\def\\zzz{1",
    "f(x) = x^2",
    "\\zz \\oldzz",
    "\\text{hi}xx",
    "\\text    xx",
    "\\text{a\\}b}",
    "\\text{<\\&>}",
    "\\sqrt[3]{x}",
    "\\frac{1}{2}",
    "\\int_0^1 dx",
    "\\int^1_0 dx",
    "\\not\\subset",
    "\\not\\exists",
    "\\xmapsto{x}",
    "\\xtofrom{x}",
    "\\sqrt{\\log}",
    "\\sqrt[+]{x}",
    "x =_{2} + 4",
    "\\sin + \\cos",
    "x\\kern1em y",
    "x\\mathbin|y",
    "x\\mathord+y",
    "A,B,\\dots,Z",
    "A,B,\\dots Z",
    "A B \\dots Z",
    "\\boxed{abc}",
    "x + \\fbox x",
    "x =\\relax y",
    "\\set{x|x<5}",
    "\\set{x|y}|z",
    "\\text{hello",
    "\\text{\\max}",
    "\\hspace{  }",
    "x\\kern1mu y",
    "x\\kern2ly y",
    "\\{1,e,\\pi\\}",
    "10^{10^{8}}",
    "\\mathbb{#1}",
    "\\hspace{#1}",
    "\\gdef\\zz{z}",
    "\\text{x   y}",
    "\\text{x\\o y}",
    "\\phi/\\varphi",
    "x = 3+\\alpha",
    "(\\notag + 1)",
    "\\mathrm{x}^2",
    "\\int\\limits'",
    "\\hspace{1cm}",
    "x\\kern1.5emx",
    "x\\kern.5em y",
    "x\\kern+2pt y",
    "x\\kern1 em y",
    "x\\kern-1em y",
    "x\\hskip1em y",
    "x\\mkern9mu y",
    "x\\mskip3mu y",
    "x \\enspace x",
    "a\\mathop{+}b",
    "\\Braket{=|x}",
    "\\eqref{eq:a}",
    "\\end{matrix}",
    "\\int__3 x dx",
    "\\hspace{2ly}",
    "x\\mkern1em y",
    "x\\kern1e m y",
    "{\\color - x}",
    "a^2, a^{x+3}",
    "\\binom{n}{k}",
    "\\text{x y z}",
    "x \\hs{3em} y",
    "\\def\\a{\\a}\\a",
    "\\text\\large x",
    "\\textbf{1234}",
    "\\mathbf{1234}",
    "\\max\\limits^x",
    "\\max_{x\\in X}",
    "\\log\\limits_x",
    "\\sum\\limits n",
    "\\big| x \\big|",
    "x\\kern1,5em y",
    "x\\hskip-1em y",
    "x\\mkern-9mu y",
    "x\\mskip-3mu y",
    "x \\idotsint =",
    "x\\mathbin{|}y",
    "x\\mathord{+}y",
    "x\\mathord{=}y",
    "x\\mathord{<}y",
    "x+\\mathopen)y",
    "\\mathclose(+x",
    "\\int \\dots dx",
    "\\Set{ = | x }",
    "\\set{ = | x }",
    "\\fbox{\\alpha}",
    "\\text{if $y$}",
    "\\begin{matrix",
    "\\hspace{22öm}",
    "\\let\\zzz\\asdf",
    "\\def{\\zzz}{y}",
    "\\def\\zzz x{1}",
    "\\tbinom{n}{k}",
    "\\dbinom{n}{k}",
    "),\n    (217, ",
    "\\let\\oldzz\\zz",
    "\\def \\a {x}\\a",
    "\\textbf{1234.}",
    "\\mathbf{1234.}",
    "\\overset{n}{X}",
    "\\int\\limits dx",
    "\\mathrm{x\\sin}",
    "\\overset{!}{+}",
    "\\xLeftarrow{x}",
    "\\xlongequal{x}",
    "\\sqrt[\\log]{x}",
    "x_{\\ldots\\log}",
    "x \\mathbin{} y",
    "x \\mathord{} y",
    "y \\mathrel , =",
    "\\sideset''\\sum",
    "\\int^\\limits a",
    "\\int_\\limits a",
    "\\hspace{2b2cm}",
    "\\def\\zzz#1x{1}",
    "\\def\\zzz#1 {1}",
    "\\def\\zzz#1{#2}",
    "\\cramped[1]{x}",
    "|z + 1| \\leq 2",
    "\\wideparen{AB}",
    "S=dD\\sin\\alpha",
    "\\text{a b}\\sum",
    "\\frac{1}{\\two}",
    "\\let\\a\\alpha\\a",
    "\\textbf{1234.5}",
    "\\mathbf{1234.5}",
    "\\max\\limits_x y",
    "\\undergroup{AB}",
    "\\mathrm{\\sin x}",
    "\\overset{'}{=}x",
    "\\mathit{a{bc}d}",
    "\\xrightarrow{x}",
    "\\bigl| x \\bigr|",
    "\\hspace{  4em }",
    "\\ket{x\\ket f} x",
    "\\sideset'{}\\sum",
    "\\sideset{}'\\sum",
    "A + B +\\dots +Z",
    "A + B +\\dots -Z",
    "A = B =\\dots =Z",
    "\\int_'\\limits^a",
    "x\\hspace{1mu} y",
    "x\\mspace{1em} y",
    "x\\kern1.2.3em y",
    "\\def\\zzz#1#1{1}",
    "\\sqrt[3]\\asdf 3",
    "\\sideset{}{}{a}",
    "\\sideset{}{}{+}",
    "\\frac{2}{4}=0.5",
    "\\text{\\sout{q}}",
    "\\let\\a=\\alpha\\a",
    "\\let\\eq==x\\eq y",
    "\\def\\inner{y}\\g",
    "\\text{ \\text{a}}",
    "\\text{\\emph{x}y}",
    "\\left( x \\right)",
    "\\left( x \\right.",
    "\\int\\limits_0 dx",
    "\\int\\limits^1 dx",
    "\\sum_{i = 0}^∞ i",
    "x\\overset{!}{=}x",
    "\\overset{!}{=}'x",
    "\\left(x=\\right)x",
    "x\\bigm\\uparrow x",
    "x\\mspace{18mu} y",
    "x \\mathbin{++} y",
    "x \\mathord{++} y",
    "y \\mathpunct - x",
    "_1^2 \\frac{a}{b}",
    "\\sideset ab \\int",
    "\\begin{matrix} x",
    "\\not\\text{hello}",
    "\\def\\zzz#1.#2{1}",
    "\\def\\zzz#1 #2{1}",
    "\\sqrt\\def\\zzz{1}",
    "\\mathrm{ab\\asdf}",
    "x_2^3 \\\\ {x_2}^3",
    "\\sum_{k=1}^N k^2",
    "\\def\\a{\\alpha}\\a",
    "\\text{x{y}z{}p{}}",
    "\\emph{a\\emph{b}c}",
    "\\int_{0+1}^\\infty",
    "\\lparen x \\rparen",
    "\\bigl\\| x \\bigr\\|",
    "a\\textcolor{red}x",
    "\\hspace{  4  em }",
    "a \\equiv r \\mod n",
    "\\phase{-78^\\circ}",
    "\\mathchoice{a}{b}",
    "\\sqrt[3\\rbrack{1}",
    "\\newcommand{x}{y}",
    "\\newcommand\\zzz#1",
    "\\sqrt\\gdef\\zzz{1}",
    "\\dot{x}, \\ddot{x}",
    "\\prod_{i=1}^N x_i",
    "( \\frac{1}{2} )^n",
    "\\mathrlap{\\,/}{=}",
    "ax^2 + bx + c = 0",
    "\\def\\nop{}a\\nop b",
    "\\text{ \\textit{a}}",
    "\\sin\\left(x\\right)",
    "\\int\\limits_0^1 dx",
    "\\int\\limits^1_0 dx",
    "\\int_0^1\\limits dx",
    "\\int_0\\limits^1 dx",
    "{\\scriptstyle 1=1}",
    "\\sqrt\\lbrack 4]{2}",
    "\\xhookleftarrow{x}",
    "\\xleftharpoonup{x}",
    "\\slashed{\\partial}",
    "a \\equiv b \\pod{m}",
    "\\operatorname[lim}",
    "\\operatorname{a$b}",
    "\\operatorname{\\ae}",
    "{x_\\color{blue} x}",
    "| \\uparrow \\rangle",
    "\\sum_{i=0}^{n-1} i",
    "\\let\\a = \\alpha \\a",
    "\\global\\let\\f\\frac",
    "\\textbf{a \\small b}",
    "\\boldsymbol{\\alpha}",
    "\\operatorname{sn} x",
    "\\int'''\\limits_3 dx",
    "\\int_3\\limits''' dx",
    "\\sum\\limits_{i=1}^N",
    "\\sqrt{\\phantom{x}y}",
    "\\mathit{\\mathrm{a}}",
    "x+\\xrightarrow{x}=y",
    "\\xhookrightarrow{x}",
    "\\xleftrightarrow{x}",
    "\\xrightharpoonup{x}",
    "x \\displaystyle = x",
    ", \\displaystyle = x",
    "a\\textcolor{red}{}b",
    "{\\frac12\\mathbin)y}",
    "⅀\\displaylimits_0^1",
    "\\newcommand{\\zzz}{1",
    "1.\\newcommand\\zzz#1",
    "\\renewcommand{x}{y}",
    "\\sqrt\\let\\zzz\\alpha",
    "\\def\\zzz{\\asdf}\\zzz",
    "\\sqrt\\color{blue} x",
    "{x_\\displaystyle x}",
    "\\coprod_{i=1}^N x_i",
    "\\bigcap_{i=1}^n E_i",
    "\\bigcup_{i=1}^n E_i",
    "\\mathit{0123456789}",
    "\\let\\f\\frac\\f{1}{2}",
    "\\global\\let\\a\\alpha",
    "\\text{\\'{aa} \\`{aa}}",
    "x\\left(\\sin x\\right)",
    "\\operatorname{max}_x",
    "\\int\\nolimits_0^1 dx",
    "\\sqrt{\\hphantom{x}y}",
    "\\sqrt{\\vphantom{x}y}",
    "\\mathit{\\mathbf{a}b}",
    "\\mathit{\\mathrm{a}b}",
    "\\mathrm{\\mathit{a}b}",
    "\\overset{\\prime}{=}x",
    "\\left/\\frac12\\right)",
    "\\xleftharpoondown{x}",
    "\\not \\mathcal{CHANC}",
    "\\newcommand{\\a}{1}#1",
    "\\renewcommand\\zzz{1}",
    "\\sqrt\\displaystyle x",
    "\\sideset{}{}{\\int a}",
    "\\min(x,y), \\max(x,y)",
    "\\mapsto, \\longmapsto",
    "| {\\uparrow} \\rangle",
    "\\newcommand{\\baz}{y}",
    "\\global\\let\\c\\cfgcmd",
    "\\text{\\textbackslash}",
    "x\\left(x\\sin \\right)x",
    "\\operatorname*{max}_x",
    "\\overbrace{a+b+c}^{d}",
    "\\xrightharpoondown{x}",
    "\\xtwoheadleftarrow{x}",
    "a\\mathchoice{}{}{}{}b",
    "\\providecommand{x}{y}",
    "\\def\\zzz{\\def\\yyy{1}}",
    "\\sideset{}{}{ a \\sum}",
    "s_k \\equiv 0 \\pmod{m}",
    "\\overset{\\frown} {AB}",
    "\\iint\\limits_D dx\\,dy",
    "x = \\mycmd{3} + \\half",
    "\\def\\cfgcmd{y}\\cfgcmd",
    "\\def\\a{\\b}\\def\\b{x}\\a",
    "\\def \\a #1{[#1]}\\a{x}",
    "\\text{ {\\textit{a}b}c}",
    "\\text{ {\\textit a b}c}",
    "\\text{{\\textit \\; b}c}",
    "\\text{\\'a \\`a \\\"a \\^a}",
    "\\sin\\displaylimits_0^1",
    "\\max\\displaylimits_0^1",
    "\\sum\\displaylimits_0^1",
    "\\underbrace{a+b+c}_{d}",
    "\\mathcal A, \\mathscr A",
    "\\xleftrightharpoons{x}",
    "\\xrightleftharpoons{x}",
    "\\xtwoheadrightarrow{x}",
    "\\dots\\mathbin+, \\dots+",
    "\\sideset{a}{b}\\int^5_6",
    "\\frac{A \\dots}{B\\dots}",
    "a_{\\angl n} + a_\\angln",
    "\\Braket{\\phi\\vert\\psi}",
    "\\raisebox{1em}{foobar}",
    "\\renewcommand{\\zzz}{1}",
    "{\\color[HTML]{f0a}x^2}",
    "\\lim_{n \\to \\infty}x_n",
    "x = \\half, \\withText 3",
    "\\newcommand{\\a}{x\\a}\\a",
    "\\def\\drop#1{z}\\drop{y}",
    "\\global\\gdef\\a{\\alpha}",
    "\\newcommand{\\zzz}{q}\\g",
    "\\text{a\\textit\\large b}",
    "\\operatorname{ hel lo }",
    "\\operatorname{arg\\,max}",
    "\\cramped[]{\\frac{2}{4}}",
    "\\left(=\\middle|=\\right)",
    "\\idotsint\\limits_0^1 xy",
    "⅀ \\limits_{i=0}^3 a + b",
    "x^{a \\equiv b \\pmod{m}}",
    "\\raisebox{-1em}{foobar}",
    "\\text{hello}\\limits_0^1",
    "\\sqrt\\global\\def\\zzz{1}",
    "\\sideset{}{}{\\sum \\sum}",
    "\\frac{1}{2}\\mspace{3mu}",
    "\\def\\zz{1}\\def\\zz{2}\\zz",
    "\\gdef\\bb#1{\\mathbb{#1}}",
    "a := 2 \\land b :\\equiv 3",
    "\\mathrm{ab\\mathit{cd}ef}",
    "\\mathbf{\\nabla} + \\nabla",
    "\\sideset{^1_2}{_4^3}\\sum",
    "\\sideset{''^a_b}{''}\\int",
    "\\sideset{^1_2}{_4^3}\\int",
    "a \\Eqcolon b \\Eqqcolon c",
    "\\mathchoice{D}{T}{S}{SS}",
    "\\Set{ x | x<\\dfrac 1 2 }",
    "\\newcommand{\\frac}[2]{x}",
    "\\newcommand{\\zzz}[1]{#2}",
    "\\providecommand{\\frac}{1",
    "+, -, \\pm, \\mp, \\dotplus",
    "\\frac{1}{\\nosuchcommand}",
    "\\newcommand{\\inner}{y}\\g",
    "\\def\\zzz{z}\\gdef\\zzzz{q}",
    "\\text{x\\;x\\:x\\,x\\>x\\ x~x}",
    "\\P\\S\\sect\\text{\\P\\S\\sect}",
    "\\int\\displaylimits_0^1 dx",
    "x^\\begingroup ab\\endgroup",
    "\\mathit{\\operatorname{a}}",
    "{\\color[HTML]{f101a1}x^2}",
    "{\\color[HTML]{F101A1}x^2}",
    "\\sqrt\\newcommand{\\zzz}{1}",
    "\\genfrac[]{0pt}{00}{a}{b}",
    "\\Rrightarrow, \\Lleftarrow",
    "\\frac{a}{b}\\ \\tfrac{a}{b}",
    "\\newcommand{\\nop}{}x^\\nop",
    "\\newcommand{\\foo}{x+\\baz}",
    "\\underleftarrow{a+b+c}_{d}",
    "\\cramped{{x^2}^2}\\ {x^2}^2",
    "\\genfrac(]{4em}2{a+b}{c+d}",
    "\\mathcal{AB}, \\mathscr{AB}",
    "\\prescript{1}{2}{\\sum}^3_4",
    "\\sqrt\\global\\let\\zzz\\alpha",
    "\\left( \\frac{x}{y} \\right!",
    "\\preccurlyeq, \\curlyeqprec",
    "\\succcurlyeq, \\curlyeqsucc",
    "\\forall, \\exists, \\nexists",
    "\\therefore, \\because, \\And",
    "\\frac{\\sum_{k=1}^N k^2}{a}",
    "\\iiint\\limits_E dx\\,dy\\,dz",
    "\\text{if} n \\text{is even}",
    "\\text{if }n\\text{ is even}",
    "| \\mathord\\uparrow \\rangle",
    "\\newcommand{\\nop}{}a\\nop b",
    "\\renewcommand{\\epsilon}{e}",
    "\\global\\global\\let\\a\\alpha",
    "\\global\\def\\add#1#2{#1+#2}",
    "\\text{{\\large x \\huge y} z}",
    "{x+\\bf x}{x\\bf + x}{x+\\bf)}",
    "\\mathtt{x{\\it ab\\bf asbc}x}",
    "\\operatorname{max}\\limits_x",
    "\\left[ x  ( x + 2 ) \\right]",
    "\\underrightarrow{a+b+c}_{d}",
    "\\overset{\\implies}{xxxxxxx}",
    "x + \\lvert + y + \\rvert + z",
    "x + \\lVert + y + \\rVert + z",
    "\\mathchoice{ab}{cd}{ef}{gh}",
    "\\mathchoice{\\frac}{x}{y}{z}",
    "\\operatorname{\\end{matrix}}",
    "\\renewcommand{\\frac}[1]{#2}",
    "\\global\\newcommand{\\zzz}{1}",
    "\\cap, \\Cap, \\sqcap, \\bigcap",
    "\\subset, \\Subset, \\sqsubset",
    "\\supset, \\Supset, \\sqsupset",
    "\\vartriangle, \\triangledown",
    "\\textstyle \\sum_{k=1}^N k^2",
    "\\aleph \\beth \\gimel \\daleth",
    "\\text{if}~n\\ \\text{is even}",
    "\\lim_{z\\to z_0} f(z)=f(z_0)",
    "\\newcommand{\\foo}{\\epsilon}",
    "\\def\\add#1#2{#1+#2}\\add 2 3",
    "\\text{\\textit{a \\large b} c}",
    "\\operatorname*{max}\\limits_x",
    "\\mathbb{N} \\cup \\mathbb{N}^+",
    "\\genfrac(]{0pt}{2}{a+b}{c+d}",
    "\\mathit{ab \\max \\alpha\\beta}",
    "\\mathit{a\\operatorname{bc}d}",
    "\\overset{!}{\\left(x+\\right)}",
    "\\prescript{}{2}{\\frac{a}{b}}",
    "\\sideset{^1_2}{_4^3}\\int^5_6",
    "A + B +\\dots \\boldsymbol{+}Z",
    "\\genfrac(]{1pg}{2}{a+b}{c+d}",
    "\\newcommand{\\zzz}{\\asdf}\\zzz",
    "\\sqrt\\renewcommand{\\frac}{1}",
    "\\lim u, \\liminf v, \\limsup w",
    "\\textstyle \\prod_{i=1}^N x_i",
    "\\left ( \\frac{a}{b} \\right )",
    "\\newcommand{\\p}[1]{x^#1}\\p{}",
    "\\newcommand{\\eq}{=}x + \\eq 3",
    "\\newcommand{\\zz}{\\mathbb{Z}}",
    "\\def\\zz{\\mathbb{Z}}x \\in \\zz",
    "\\def\\bb#1{\\mathbb{#1}}\\bb{C}",
    "\\def\\sq#1{#1^2}\\sq{y}+\\sq{y}",
    "\\global\\global\\def\\a{\\alpha}",
    "\\def\\a{1}\\a\\gdef\\a{\\alpha}\\a",
    "\\left\\{ x  ( x + 2 ) \\right\\}",
    "{\\color[RGB]{255 ,0, 127}x^2}",
    "{\\color[rgb]{1, 0.33,0.5}x^2}",
    "\\prescript{1}{2}{\\frac{a}{b}}",
    "\\begin{matrix] 1 \\end{matrix}",
    "\\begin[matrix} x \\end{matrix}",
    "\\operatorname{\\begin{matrix}}",
    "\\sqrt\\providecommand{\\zzz}{1}",
    "\\hat{a}, \\widehat{a}, \\vec{a}",
    "\\lor \\vee, \\curlyvee, \\bigvee",
    "\\left| \\uparrow \\right\\rangle",
    "\\newcommand{\\foo}{x+\\baz}\\foo",
    "\\operatorname*{max}\\nolimits_x",
    "\\genfrac(]{0.4pt}{2}{a+b}{c+d}",
    "\\genfrac(]{0.4ex}{2}{a+b}{c+d}",
    "\\underset{z\\sim Z}{\\mathbb{E}}",
    "\\prescript{}{2}{\\frac{a}{b}}^3",
    "\\begin{matrix} 1 \\end{bmatrix}",
    "\\min x, \\max y, \\inf s, \\sup t",
    "\\textstyle \\coprod_{i=1}^N x_i",
    "\\left ( \\frac{1}{2} \\right )^n",
    "\\renewcommand{\\zz}{\\mathbb{Q}}",
    "\\def\\inner{x}\\gdef\\g{\\inner+1}",
    "\\underleftrightarrow{a+b+c}_{d}",
    "\\genfrac(]   {1pt}{2}{a+b}{c+d}",
    "\\displaystyle a \\equiv r \\mod n",
    "\\prescript{3}{2}{\\frac{a}{b}}_2",
    "\\begin{xmatrix} 1 \\end{xmatrix}",
    "\\newcommand{\\zzz}{\\gdef\\yyy{1}}",
    "\\arcsin h, \\arccos i, \\arctan j",
    "\\bigoplus, \\bigotimes, \\bigodot",
    "\\textstyle \\int_{-N}^{N} e^x dx",
    "\\iiiint\\limits_F dx\\,dy\\,dz\\,dt",
    "\\newcommand{\\zz}{\\mathbb{Z}}\\zz",
    "\\def\\frac#1#2{#1/#2}\\frac{1}{2}",
    "\\prescript{}{2}{\\frac{a}{b}}_2^3",
    "\\prescript{2}{}{\\frac{a}{b}}^3_2",
    "\\prescript{}{2}{\\frac{a}{b}^2_3}",
    "\\sideset{a ^1_2}{b _4^3}\\int^5_6",
    "\\displaystyle a \\equiv b \\pod{m}",
    "\\left(\\operatorname{hello\\right)",
    "\\sgn r, \\left\\vert s \\right\\vert",
    "\\dim p, \\deg q, \\det m, \\ker\\phi",
    "=, \\ne, \\neq, \\equiv, \\not\\equiv",
    "\\underbrace{ a+b+\\cdots+z }_{26}",
    "x=\\frac{-b\\pm\\sqrt{b^2-4ac}}{2a}",
    "\\newcommand{\\a}{x}\\let\\a\\alpha\\a",
    "\\newcommand{\\zz}{1}\\def\\zz{2}\\zz",
    "\\def\\a{\\b}\\def\\b{x}\\a\\def\\b{y}\\a",
    "\\begin{align}&x\\\\=\\;&2\\end{align}",
    "\\operatorname {{\\pi} o \\pounds a}",
    "\\bigl(\\log\\bigr) + \\big(\\log\\big)",
    "\\newcommand{\\zzz}{\\let\\yyy\\alpha}",
    "\\begin{multline}1&1\\end{multline}",
    "\\in, \\notin \\not\\in, \\ni, \\not\\ni",
    "\\setminus, \\smallsetminus, \\times",
    "10^{30} a^{2+2} \\\\ a_{i,j} b_{f'}",
    "\\textstyle \\lim_{n \\to \\infty}x_n",
    "\\frac{\\mathrm d #1}{\\mathrm d #2}",
    "\\newcommand{\\zzz}{z}\\gdef\\g{\\zzz}",
    "\\begin{align}\\tag{a_b}1\\end{align}",
    "{x_\\begin{array}{|c|}a\\end{array}}",
    "\\exp_a b = a^b, \\exp b = e^b, 10^m",
    "\\ln c, \\lg d = \\log e, \\log_{10} f",
    "\\sinh k, \\cosh l, \\tanh m, \\coth n",
    "\\mid, \\nmid, \\shortmid, \\nshortmid",
    "\\geqslant, \\ngeqslant, \\eqslantgtr",
    "\\Uparrow, \\Downarrow, \\Updownarrow",
    "\\uparrow, \\downarrow, \\updownarrow",
    "\\int_{1}^{3}\\frac{e^3/x}{x^2}\\, dx",
    "{\\scriptstyle\\text{abcdefghijklm}}",
    "\\newcommand\\half{\\frac{1}{2}}\\half",
    "\\let\\a\\alpha\\renewcommand{\\a}{x}\\a",
    "\\def\\zz{1}\\renewcommand{\\zz}{2}\\zz",
    "\\let\\a\\zzzz\\newcommand{\\zzzz}{x}\\a",
    "\\text{!\"\\#\\$\\%'()*+,-./:;=?@[]\\_`|}",
    "\\begin{align} 1\\notag\\\\2\\end{align}",
    "\\begin{align} \\notag1\\\\2\\end{align}",
    "\\begin{align} 1\\\\\\notag2\\end{align}",
    "\\begin{align}\\frac1{2+3}\\end{align}",
    "\\begin{equation}x\\\\=1\\end{equation}",
    "\\prod_i \\prod^n \\prod^n_i \\prod_i^n",
    "\\genfrac(]{  1pt     }{2}{a+b}{c+d}",
    "\\left(\\frac12\\middle|\\frac12\\right)",
    "\\left(\\frac12\\middle]\\frac12\\right)",
    "x\\bra{\\uparrow} + \\ket{\\downarrow}y",
    "⅀\\nolimits_0\\displaylimits^1\\limits",
    "⅀\\nolimits_0\\limits^1\\displaylimits",
    "⅀\\displaylimits_0\\limits^1\\nolimits",
    "\\sqrt\\begin{array}{|c|}a\\end{array}",
    "\\leqslant, \\nleqslant, \\eqslantless",
    "\\overbrace{ 1+2+\\cdots+100 }^{5050}",
    "\\left . \\frac{A}{B} \\right \\} \\to X",
    "\\text{\\textsf{textual description}}",
    "u'' + p(x)u' + q(x)u=f(x),\\quad x>a",
    "\\begin{array}{c|c}#1 & 0\\end{array}",
    "\\newcommand{\\imp}{\\implies}a \\imp b",
    "\\gdef\\m#1{\\sqrt{#1}}\\global\\let\\n\\m",
    "\\operatorname{max}\\displaylimits_x^y",
    "\\begin{pmatrix} x \\\\ y \\end{pmatrix}",
    "\\gcd(m, n), \\operatorname{lcm}(m, n)",
    "\\cdot, * \\ast, \\star, \\circ, \\bullet",
    "\\land \\wedge, \\curlywedge, \\bigwedge",
    "\\frac{\\sum\\limits^{^N}_{k=1} k^2}{a}",
    "\\text{x\\huge y \\textit{x} {\\large z}}",
    "\\operatorname{\\text{ab}c\\textit{de}f}",
    "\\displaystyle\\mathchoice{D}{T}{S}{SS}",
    "\\begin{aligned}\\tag{32}1\\end{aligned}",
    "\\cramped[\\scriptstyle\\scriptstyle]{x}",
    "\\left / \\frac{a}{b} \\right \\backslash",
    "\\newcommand{\\zz}{\\mathbb{Z}}x \\in \\zz",
    "\\newcommand{\\bb}[1]{\\mathbb{#1}}\\bb{}",
    "\\sin\\nolimits_0\\displaylimits^1\\limits",
    "\\sin\\nolimits_0\\limits^1\\displaylimits",
    "\\sin\\displaylimits_0\\limits^1\\nolimits",
    "\\max\\nolimits_0\\displaylimits^1\\limits",
    "\\max\\nolimits_0\\limits^1\\displaylimits",
    "\\max\\displaylimits_0\\limits^1\\nolimits",
    "\\sum\\nolimits_0\\displaylimits^1\\limits",
    "\\sum\\nolimits_0\\limits^1\\displaylimits",
    "\\sum\\displaylimits_0\\limits^1\\nolimits",
    "\\raisebox{1em}{\\raisebox{1em}{foobar}}",
    "\\raisebox{1em}{\\raisebox{1pt}{foobar}}",
    "\\begin{aligned}\\tag*{32}1\\end{aligned}",
    "\\Pr j, \\hom l, \\lVert z \\rVert, \\arg z",
    "\\gtrsim, \\gnsim, \\gtrapprox, \\gnapprox",
    "\\vdash \\dashv, \\vDash, \\Vdash, \\models",
    "\\nearrow, \\swarrow, \\nwarrow, \\searrow",
    "\\textstyle \\int\\limits_{-N}^{N} e^x dx",
    "\\int_{(x,y)\\in C} x^3\\, dx + 4y^2\\, dy",
    "\\det(\\mathsf{A}-\\lambda\\mathsf{I}) = 0",
    "\\newcommand{\\bb}[1]{\\mathbb{#1}}\\bb{C}",
    "\\newcommand{\\zoo}[1]{\\ket{a}#1}\\zoo{b}",
    "\\newcommand{\\zoo}[1]{\\pod{a}#1}\\zoo{b}",
    "\\providecommand\\half{\\frac{1}{2}}\\half",
    "\\renewcommand{\\half}{\\frac{1}{3}}\\half",
    "\\begin{align*} 1\\\\2\\tag{32}\\end{align*}",
    "\\begin{align*} \\tag{32}1\\\\2\\end{align*}",
    "\\begin{align} x \\tag{} \\\\ y \\end{align}",
    "\\begin{multline}x=\\\\1+\\\\2\\end{multline}",
    "{x^2}^2\\ \\cramped[ \\textstyle]{{x^2}^2}",
    "\\cramped[ \\scriptscriptstyle ]{{x^2}^2}",
    "\\begin{cases} 1 \\\\ \\hline 2 \\end{cases}",
    "\\newcommand{\\zzz}{\\newcommand{\\yyy}{1}}",
    "\\dot{a}, \\ddot{a}, \\acute{a}, \\grave{a}",
    "dt, \\mathrm{d}t, \\partial t, \\nabla\\psi",
    "\\boxplus, \\boxminus, \\boxtimes, \\boxdot",
    "\\circleddash, \\circledcirc, \\circledast",
    "\\Vvdash \\nvdash \\nVdash \\nvDash \\nVDash",
    "\\ulcorner \\urcorner \\llcorner \\lrcorner",
    "\\Leftarrow, \\nLeftarrow, \\Longleftarrow",
    "\\oint_{(x,y)\\in C} x^3\\, dx + 4y^2\\, dy",
    "\\begin{align} x \\tag{0} \\\\ y \\end{align}",
    "\\begin{array}{lcr} 0 & 1 & 2 \\end{array}",
    "\\sideset{^1_2 aaaaa}{_4^3 bbbbb}\\int^5_6",
    "\\raisebox{1em}{foo{\\raisebox{1pt}{bar}}}",
    "\\raisebox{1em}{foo{\\raisebox{1em}{bar}}}",
    "\\newcommand{\\zzz}{1}\\newcommand{\\zzz}{2}",
    "\\newcommand{\\zzz}{\\global\\let\\yyy\\alpha}",
    "\\check{a}, \\breve{a}, \\tilde{a}, \\bar{a}",
    "\\oplus, \\ominus, \\otimes, \\oslash, \\odot",
    "\\lesssim, \\lnsim, \\lessapprox, \\lnapprox",
    "\\left \\langle \\frac{a}{b} \\right \\rangle",
    "\\newcommand{\\a}{\\b}\\newcommand{\\b}{\\a}\\a",
    "\\providecommand{\\half}{\\frac{1}{3}}\\half",
    "\\newcommand{\\zzz}{z}\\global\\let\\zzzz\\zzz",
    "\\int\\nolimits_0\\displaylimits^1\\limits dx",
    "\\int\\nolimits_0\\limits^1\\displaylimits dx",
    "\\int\\displaylimits_0\\limits^1\\nolimits dx",
    "\\begin{align} 1\\label{eq:1}\\\\2\\end{align}",
    "\\cramped[\\displaystyle]{{x^2}^2}\\ {x^2}^2",
    "x\\qquad x\\quad x\\;x\\:x\\>x\\,x\\ x~x\\space x",
    "\\raisebox{1em}{foo{\\raisebox{-1em}{bar}}}",
    "\\begin{align} 1\\\\2\\label{eq:a}\\end{align}",
    "\\begin{  pmatrix   } x \\\\ y \\end{pmatrix}",
    "\\begin{matrix}\\operatorname{\\end{matrix}}",
    "\\int\\limits_{1}^{3}\\frac{e^3/x}{x^2}\\, dx",
    "\\frac{2}{4}=0.5\\text{ or }{2 \\over 4}=0.5",
    "\\begin{{gather*}} {latex} \\end{{gather*}}",
    "\\newcommand{\\txt}[1]{\\text{a#1b}}\\txt{xy}",
    "\\providecommand{\\zz}{\\mathbb{Z}}x \\in \\zz",
    "\\renewcommand{\\frac}[2]{#1/#2}\\frac{1}{2}",
    "\\newcommand{\\a}{\\b\\b}\\newcommand{\\b}{x}\\a",
    "\\newcommand{\\a}{1}\\a\\global\\let\\a\\alpha\\a",
    "\\textit{a\\textbf{b}}, \\textbf{c\\textit{d}}",
    "\\left\\ulcorner \\frac{x}{y} \\right\\lrcorner",
    "\\begin{align} x \\tag{<b>} \\\\ y \\end{align}",
    "\\left(\\frac12\\middle\\uparrow\\frac12\\right)",
    "\\textcolor{purple}{a\\textcolor{green}{b}c}",
    "\\begin{array}{ ||::|l } 10\\\\ 2 \\end{array}",
    "a\\nobreakspace b + \\text{c\\nobreakspace d}",
    "\\begin{array}{cc} 1 & \\hline 2 \\end{array}",
    "\\cfrac{2}{c+\\cfrac{2}{d+\\cfrac{2}{4}}} = a",
    "\\begin{matrix} x & y \\\\ z & v \\end{matrix}",
    "\\operatorname*{median}_{j\\,\\ne\\,i} X_{i,j}",
    "\\newcommand{\\pair}[2]{(#1, #2)}\\pair{x}{y}",
    "\\newcommand{\\zoo}[2]{\\ket{#2}#1}\\zoo{b}{c}",
    "\\providecommand{\\bb}[1]{\\mathbb{#1}}\\bb{C}",
    "\\newcommand{\\halves}[1]{#1\\half}\\halves{3}",
    "\\let\\a\\alpha\\renewcommand{\\alpha}{\\beta}\\a",
    "\\newcommand{\\m}[1]{\\sqrt{#1}}\\let\\n\\m\\n{2}",
    "\\Gamma\\varGamma\\boldsymbol{\\Gamma\\varGamma}",
    "{fi}\\ \\mathit{fi}\\ \\mathrm{fi}\\ \\texttt{fi}",
    "\\begin{align}\\label{a}1\\label{b}\\end{align}",
    "\\# \\$ \\% \\wedge \\& \\_ \\{ \\} \\sim \\backslash",
    "\\times, \\div, \\divideontimes, /, \\backslash",
    "\\prec, \\nprec, \\preceq, \\npreceq, \\precneqq",
    "\\succ, \\nsucc, \\succeq, \\nsucceq, \\succneqq",
    "\\amalg \\P \\S \\% \\dagger\\ddagger\\ldots\\cdots",
    "\\providecommand{\\frac}[2]{#1/#2}\\frac{1}{2}",
    "\\begin{align} 1\\mathbf{\\notag}\\\\2\\end{align}",
    "\\begin{equation} x\\label{eq:1}\\end{equation}",
    "\\{ \\}, \\text\\O \\empty \\emptyset, \\varnothing",
    "\\begin{vmatrix} x & y \\\\ z & v \\end{vmatrix}",
    "\\begin{Vmatrix} x & y \\\\ z & v \\end{Vmatrix}",
    "\\begin{Bmatrix} x & y \\\\ z & v \\end{Bmatrix}",
    "\\begin{pmatrix} x & y \\\\ z & v \\end{pmatrix}",
    "\\renewcommand{\\epsilon}{\\varepsilon}\\epsilon",
    "\\let\\a\\alpha\\let\\b\\a\\renewcommand{\\a}{x}\\a\\b",
    "\\begin{align} 1_{x\\label{eq:1}}\\\\2\\end{align}",
    "\\begin{align}\\eqref{a}\\\\x\\label{a}\\end{align}",
    "\\leftarrow \\gets, \\nleftarrow, \\longleftarrow",
    "\\Iota \\Kappa \\Lambda \\Mu \\Nu \\Xi \\Omicron \\Pi",
    "\\iota \\kappa \\lambda \\mu \\nu \\xi \\omicron \\pi",
    "\\boldsymbol{\\varrho\\varsigma\\vartheta\\varphi}",
    "\\left\\lmoustache \\frac{x}{y} \\right\\rmoustache",
    "\\begin{align} 1\\nonumber\\tag{32}\\\\2\\end{align}",
    "\\begin{align} 1\\\\2\\nonumber\\tag{32}\\end{align}",
    "\\begin{multline}x=\\tag{4}\\\\1+\\\\2\\end{multline}",
    "\\sin a, \\cos b, \\tan c, \\cot d, \\sec e, \\csc f",
    "\\precsim, \\precnsim, \\precapprox, \\precnapprox",
    "\\succsim, \\succnsim, \\succapprox, \\succnapprox",
    "\\rightarrow \\to, \\nrightarrow, \\longrightarrow",
    "\\smile \\frown \\wr \\triangleleft \\triangleright",
    "x', y'', f', f'' \\\\ x^\\prime, y^{\\prime\\prime}",
    "\\Rho \\Sigma \\Tau \\Upsilon \\Phi \\Chi \\Psi \\Omega",
    "\\rho \\sigma \\tau \\upsilon \\phi \\chi \\psi \\omega",
    "\\left [ 0,1 \\right ) \\left \\langle \\psi \\right |",
    "\\boldsymbol{\\varepsilon\\digamma\\varkappa \\varpi}",
    "\\let\\oldalpha\\alpha\\def\\alpha{1+\\oldalpha}\\alpha",
];
