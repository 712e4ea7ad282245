"""Wrote symex/props/src/symbols.rs once, out of docs/unicode-math-table.html (the table of the unicode-math package) and the
synonyms below. Kept for reference; no check runs it: the oracle must not follow the repository.
Usage: symbols.py um.json sig.json (um.json: [name, code, class]; sig.json: what the library was seen to do, to tell where MathML's
operator dictionary and unicode-math disagree)."""
import json, sys
MAJ = {'alpha': '0000', 'ord': '0000', 'bin': '1000', 'rel': '1111', 'op': '1001', 'open': '1011', 'close': '0110', 'punct': '1111', 'fence': '0000'}
CL = {'alpha': 'o', 'ord': 'o', 'fence': 'o', 'bin': 'b', 'rel': 'r', 'op': 'p', 'open': 'l', 'close': 'c', 'punct': 'r'}
SYN = """neq 2260 r|le 2264 r|ge 2265 r|to 2192 r|gets 2190 r|owns 220B r|land 2227 b|lor 2228 b|lnot AC o|lt 3C r|gt 3E r|emptyset 2205 o|alef 2135 o|alefsym 2135 o
Darr 21D3 r|dArr 21D3 r|darr 2193 r|Harr 21D4 r|hArr 21D4 r|harr 2194 r|Larr 21D0 r|lArr 21D0 r|larr 2190 r|Rarr 21D2 r|rArr 21D2 r|rarr 2192 r|Uarr 21D1 r|uArr 21D1 r|uarr 2191 r
Lrarr 21D4 r|lrArr 21D4 r|lrarr 2194 r|empty 2205 o|exist 2203 o|image 2111 o|real 211C o|infin 221E o|isin 2208 r|lang 27E8 l|rang 27E9 c|plusmn B1 b|sect A7 o|sub 2282 r|sube 2286 r|supe 2287 r
thetasym 3D1 o|weierp 2118 o|clubs 2663 o|spades 2660 o|cnums 2102 o|natnums 2115 o|reals 211D o|Reals 211D o|Complex 2102 o|N 2115 o|R 211D o|Z 2124 o|doublecap 22D2 b|doublecup 22D3 b|doteqdot 2251 r
gggtr 22D9 r|llless 22D8 r|circledS 24C8 o|restriction 21BE r|dashleftarrow 21E0 r|dashrightarrow 21E2 r|backepsilon 3F6 ?|lvert 7C l|rvert 7C c|lVert 2016 l|rVert 2016 c|lozenge 25CA o
pounds A3 o|yen A5 o|copyright A9 o|degree B0 o|P B6 o|S A7 o|dag 2020 ?|ddag 2021 ?|notni 220C r|ntriangleleft 22EA r|ntriangleright 22EB r|botdoteq 2A66 r|circlearrowleft 21BA r|circlearrowright 21BB r
llbracket 27E6 l|rrbracket 27E7 c|eth F0 o|unlhd 22B4 ?|unrhd 22B5 ?|lhd 22B2 ?|rhd 22B3 ?|ratio 2236 r|ldotp 2E r|{ 7B l|} 7D c|| 2016 o|# 23 o|$ 24 o|% 25 o|& 26 o|_ 5F o"""
um = json.load(open(sys.argv[1]))
rows = json.load(open(sys.argv[2]))
names = []
for n, c, d, a, b, r in rows:
    if d in MAJ and b == MAJ[d] and chr(c) in r:
        names.append((n, c, CL[d]))
for l in SYN.replace('\n', '|').replace('|| 2016', '|\x01 2016').split('|'):
    n, c, k = l.split()
    names.append((n.replace('\x01', '|'), int(c, 16), k))
raw = {}
for n, c, d, a, b, r in rows:
    if c > 0x7f:
        k = CL[d] if d in MAJ and a == MAJ[d] else '?' if d in MAJ else 'o' if a == '0000' else '?'
        if raw.get(c, k) != k: k = '?'
        raw[c] = k
w = open('/verif/symex/props/src/symbols.rs', 'w')
w.write("//! Symbols by name and by code point, with their class (o: ordinary, b: binary, r: relation or punctuation, p: operator, l: opening, c: closing,\n//! ?: not said), from the table of the unicode-math package; see tools/symbols.py.\n#[rustfmt::skip]\npub const NAMES: &[(&str, u32, u8)] = &[\n")
for i in range(0, len(names), 8):
    w.write("    " + " ".join('("%s", 0x%x, b\'%s\'),' % (n.replace('\\', '\\\\'), c, k) for n, c, k in names[i:i + 8]) + "\n")
w.write("];\n#[rustfmt::skip]\npub const RAW: &[(u32, u8)] = &[\n")
rs = sorted(raw.items())
for i in range(0, len(rs), 16):
    w.write("    " + " ".join("(0x%x, b'%s')," % x for x in rs[i:i + 16]) + "\n")
w.write("];\n")
print(len(names), len(rs), sum(1 for x in rs if x[1] == '?'))
