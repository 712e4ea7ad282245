//! The command-line tool's own source, with a door into its private functions.
#![allow(warnings)]
include!("/repo/crates/math-core-cli/src/main.rs");

pub mod door {
    use super::*;

    pub struct Delims {
        pub inline: (&'static str, &'static str),
        pub block: (&'static str, &'static str),
    }
    /// The document with every formula replaced by `[1:...]` or `[2:...]`.
    pub fn outline(input: &str, d: &Delims, escaped: bool) -> Result<String, String> {
        let mut r = Replacer::new(d.inline, d.block, escaped);
        let mut unit = ();
        let r = r.replace(input, &mut unit, |_: &mut (), buf: &mut String, s: &str, t: MathDisplay| {
            buf.push_str(if t == MathDisplay::Block { "[2:" } else { "[1:" });
            buf.push_str(s);
            buf.push_str("]");
            Ok(())
        });
        r.map_err(|e| e.to_string())
    }
    /// The document with its formulas converted; whether it was refused because of a formula.
    pub fn convert(input: &str, d: &Delims, c: &mut LatexToMathML, go_on: bool) -> Result<String, String> {
        let mut r = Replacer::new(d.inline, d.block, false);
        crate::replace(&mut r, input, c, go_on).map_err(|e| e.to_string())
    }
    pub fn entities(input: &str) -> String {
        let mut b = String::from("left over");
        crate::html_entities::replace_html_entities(&mut b, input).to_string()
    }
}
