//! A strict reader for the markup the converter produces, and the MathML Core content model.

#[derive(Debug, Clone, PartialEq)]
pub struct El<'a> {
    pub tag: &'a str,
    pub attrs: Vec<(&'a str, &'a str)>,
    pub kids: Vec<Kid<'a>>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Kid<'a> {
    E(El<'a>),
    T(&'a str),
}

impl<'a> El<'a> {
    pub fn attr(&self, n: &str) -> Option<&'a str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1)
    }
    pub fn els(&self) -> impl Iterator<Item = &El<'a>> {
        self.kids.iter().filter_map(|k| match k {
            Kid::E(e) => Some(e),
            Kid::T(_) => None,
        })
    }
    pub fn el(&self, i: usize) -> Option<&El<'a>> {
        self.els().nth(i)
    }
    pub fn n(&self) -> usize {
        self.els().count()
    }
    /// The raw text (with entities) of a leaf.
    pub fn text(&self) -> &'a str {
        match self.kids.first() {
            Some(Kid::T(t)) if self.kids.len() == 1 => t,
            _ => "",
        }
    }
    /// All text below, raw, in order.
    pub fn all_text(&self, out: &mut String) {
        for k in &self.kids {
            match k {
                Kid::E(e) => e.all_text(out),
                Kid::T(t) => out.push_str(t),
            }
        }
    }
    /// Visit every element, depth first.
    pub fn walk<'s>(&'s self, f: &mut dyn FnMut(&'s El<'a>)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn count(&self, tag: &str) -> usize {
        let mut n = 0;
        self.walk(&mut |e| n += (e.tag == tag) as usize);
        n
    }
    pub fn find(&self, tag: &str) -> Option<&El<'a>> {
        if self.tag == tag {
            return Some(self);
        }
        self.els().find_map(|e| e.find(tag))
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}
type R<T> = Result<T, &'static str>;

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> R<&'a str> {
        let st = self.i;
        loop {
            let c = self.peek();
            if (c | 32).wrapping_sub(b'a') < 26 || c == b'-' || c == b':' {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.i == st {
            return Err("markup: a tag or attribute name is missing (unescaped '<'?)");
        }
        Ok(&self.s[st..self.i])
    }
    fn entity(&mut self) -> R<()> {
        // after '&'
        for e in ["amp;", "lt;", "gt;", "quot;", "apos;", "#x27;", "#39;", "#34;", "nbsp;"] {
            if self.b[self.i..].starts_with(e.as_bytes()) {
                self.i += e.len();
                return Ok(());
            }
        }
        Err("markup: '&' does not start a character reference")
    }
    fn element(&mut self, depth: usize) -> R<El<'a>> {
        if depth > 200 {
            return Err("markup: nested too deeply for the reader");
        }
        if !self.eat(b'<') {
            return Err("markup: an element is missing");
        }
        let tag = self.name()?;
        let mut attrs: Vec<(&'a str, &'a str)> = Vec::new();
        loop {
            let sp = self.eat(b' ');
            if sp {
                while self.eat(b' ') {}
            }
            if self.eat(b'/') {
                if !self.eat(b'>') {
                    return Err("markup: '/' inside a tag");
                }
                return Ok(El { tag, attrs, kids: Vec::new() });
            }
            if self.eat(b'>') {
                break;
            }
            if !sp {
                return Err("markup: no space before an attribute");
            }
            let n = self.name()?;
            if !(self.eat(b'=') && self.eat(b'"')) {
                return Err("markup: an attribute without a quoted value");
            }
            let st = self.i;
            loop {
                if self.i >= self.b.len() {
                    return Err("markup: an attribute value does not end");
                }
                match self.b[self.i] {
                    b'"' => break,
                    b'<' => return Err("markup: '<' in an attribute value"),
                    b'&' => {
                        self.i += 1;
                        self.entity()?;
                    }
                    _ => self.i += 1,
                }
            }
            let v = &self.s[st..self.i];
            self.i += 1;
            if attrs.iter().any(|a| a.0 == n) {
                return Err("markup: the same attribute twice on one element");
            }
            attrs.push((n, v));
        }
        let mut kids = Vec::new();
        loop {
            let st = self.i;
            loop {
                if self.i >= self.b.len() {
                    return Err("markup: an element is not closed");
                }
                match self.b[self.i] {
                    b'<' => break,
                    b'>' => return Err("markup: unescaped '>' in text"),
                    b'&' => {
                        self.i += 1;
                        self.entity()?;
                    }
                    _ => self.i += 1,
                }
            }
            if self.i > st {
                kids.push(Kid::T(&self.s[st..self.i]));
            }
            if self.b.get(self.i + 1) == Some(&b'/') {
                self.i += 2;
                let n = self.name()?;
                if n != tag {
                    return Err("markup: the closing tag does not match the opening tag");
                }
                if !self.eat(b'>') {
                    return Err("markup: a malformed closing tag");
                }
                return Ok(El { tag, attrs, kids });
            }
            kids.push(Kid::E(self.element(depth + 1)?));
        }
    }
}

/// Read a complete document: exactly one element and nothing around it.
pub fn parse(s: &str) -> Result<El<'_>, &'static str> {
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    let e = p.element(0)?;
    if p.i != p.b.len() {
        return Err("markup: something follows the root element");
    }
    Ok(e)
}

const ATTRS: &[&str] = &[
    "xmlns", "display", "style", "class", "id", "href", "linethickness", "displaystyle", "scriptlevel", "accent",
    "accentunder", "stretchy", "largeop", "movablelimits", "form", "fence", "separator", "symmetric", "lspace",
    "rspace", "minsize", "maxsize", "width", "height", "depth", "voffset", "notation", "mathvariant", "encoding",
];

fn blank(s: &str) -> bool {
    s.bytes().all(|b| b == b' ' || b == b'\n' || b == b'\t')
}

/// The MathML Core content model (plus the text-level HTML the converter puts inside `mtext`).
pub fn schema(root: &El) -> Result<(), &'static str> {
    if root.tag != "math" {
        return Err("schema: the root is not <math>");
    }
    attrs(root)?;
    for k in &root.kids {
        sub(k, root)?;
    }
    Ok(())
}
fn attrs(e: &El) -> Result<(), &'static str> {
    for (n, _) in &e.attrs {
        if !ATTRS.contains(n) {
            return Err("schema: an attribute which is not part of MathML Core");
        }
    }
    Ok(())
}
fn sub(k: &Kid, parent: &El) -> Result<(), &'static str> {
    let e = match k {
        Kid::T(t) => {
            if !blank(t) {
                return Err("schema: text outside of a token element");
            }
            return Ok(());
        }
        Kid::E(e) => e,
    };
    attrs(e)?;
    let n = e.n();
    match e.tag {
        "mi" | "mn" | "mo" | "annotation" => {
            if n != 0 {
                return Err("schema: an element inside a token element");
            }
            return Ok(());
        }
        "mtext" => return phrasing(e),
        "mspace" | "mprescripts" | "none" => {
            if !e.kids.is_empty() {
                return Err("schema: an empty element has content");
            }
            if e.tag == "mprescripts" && parent.tag != "mmultiscripts" {
                return Err("schema: <mprescripts/> outside of <mmultiscripts>");
            }
            return Ok(());
        }
        "msub" | "msup" | "munder" | "mover" | "mfrac" | "mroot" | "semantics" => {
            if n != 2 {
                return Err("schema: an element which takes two children has another number of them");
            }
        }
        "msubsup" | "munderover" => {
            if n != 3 {
                return Err("schema: an element which takes three children has another number of them");
            }
        }
        "mmultiscripts" => {
            let pre = e.els().position(|c| c.tag == "mprescripts");
            if e.els().filter(|c| c.tag == "mprescripts").count() > 1 {
                return Err("schema: two <mprescripts/>");
            }
            let ok = match pre {
                None => n % 2 == 1,
                Some(p) => p % 2 == 1 && (n - p - 1) % 2 == 0,
            };
            if !ok {
                return Err("schema: the scripts of <mmultiscripts> do not come in pairs");
            }
        }
        "mtable" => {
            if e.els().any(|c| c.tag != "mtr") {
                return Err("schema: a child of <mtable> is not <mtr>");
            }
        }
        "mtr" => {
            if parent.tag != "mtable" || e.els().any(|c| c.tag != "mtd") {
                return Err("schema: <mtr> misplaced or with a child other than <mtd>");
            }
        }
        "mtd" => {
            if parent.tag != "mtr" {
                return Err("schema: <mtd> outside of <mtr>");
            }
        }
        "mrow" | "msqrt" | "mpadded" | "mphantom" | "menclose" | "mstyle" | "merror" => {}
        _ => return Err("schema: an element which is not part of MathML Core"),
    }
    for k in &e.kids {
        sub(k, e)?;
    }
    Ok(())
}
fn phrasing(e: &El) -> Result<(), &'static str> {
    for k in &e.kids {
        if let Kid::E(c) = k {
            if !matches!(c.tag, "b" | "i" | "em" | "code" | "span" | "s" | "u" | "a") {
                return Err("schema: an element in <mtext> which is not text-level HTML");
            }
            attrs(c)?;
            phrasing(c)?;
        }
    }
    Ok(())
}

/// Decode the character references in raw text.
pub fn unescape(s: &str) -> String {
    let b = s.as_bytes();
    let mut o: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    'l: while i < b.len() {
        if b[i] == b'&' {
            for (e, c) in [
                ("&amp;", b'&'),
                ("&lt;", b'<'),
                ("&gt;", b'>'),
                ("&quot;", b'"'),
                ("&apos;", b'\''),
                ("&#x27;", b'\''),
                ("&#39;", b'\''),
                ("&#34;", b'"'),
            ] {
                if b[i..].starts_with(e.as_bytes()) {
                    o.push(c);
                    i += e.len();
                    continue 'l;
                }
            }
        }
        o.push(b[i]);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(o) }
}
