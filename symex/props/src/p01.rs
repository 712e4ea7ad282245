//! Well-formedness: whatever the input and the configuration, a successful conversion is well-formed, schema-valid
//! MathML Core in which nothing from the input is markup.
use crate::*;

fn cfg(v: u32) -> MathCoreConfig {
    let mut c = MathCoreConfig::default();
    match v {
        0 => {}
        1 => {
            c.pretty_print = PrettyPrint::Always;
            c.xml_namespace = true;
            c.annotation = true;
            c.ignore_unknown_commands = true;
            c.unicode_substitution = UnicodeSubstitution::Never;
            c.allow_unreliable_rendering = true;
            c.id_prefix = "p\"<&'>-".into();
            c.css_classes.unknown_command = "u\"<&'>".into();
        }
        _ => {
            c.annotation = true;
            c.pretty_print = PrettyPrint::Auto;
            c.ignore_unknown_commands = true;
            c.id_prefix = "p-".into();
        }
    }
    c
}
const NV: u32 = 2;

pub fn jobs(tier: u32) -> Vec<u32> {
    fam::jobs(tier, NV)
}

pub fn oracle(out: &str) {
    match xml::parse(out) {
        Ok(e) => {
            if let Err(m) = xml::schema(&e) {
                sx::fail(m)
            }
        }
        Err(m) => sx::fail(m),
    }
}

pub fn run(k: u32) {
    let (tier, k) = (k / fam::TIER, k % fam::TIER);
    let f = fam::nth(tier, (k / NV) as usize);
    let v = k % NV;
    let b = fam::make(f);
    let c = new(cfg(v));
    match conv(&c, b.as_str(), v == 1) {
        Ok(o) => {
            sx::note(&o);
            oracle(&o);
            sx::cover(1);
        }
        Err(_) => sx::cover(2),
    }
}
