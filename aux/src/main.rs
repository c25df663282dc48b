//! C27: all argument lists over a vocabulary, up to a length, are given to each argument type of fieldx_aux; what it makes of
//! them must be what the reference model of the documented syntax says.
//!
//! aux COVERAGE.json REPLAY.txt [LENGTH]; aux --replay 'TYPE' 'argument'
mod types;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is visible of a parsed argument
pub type Seen = Vec<(&'static str, String)>;

/// An argument of a list: what it looks like and what it is for the reference model
#[derive(Clone, Copy, Debug)]
pub struct Sub {
    pub text: &'static str,
    /// The setting, "" for a literal, "?" for what isn't known
    pub key: &'static str,
    pub val: &'static str,
}

pub const fn s(text: &'static str, key: &'static str, val: &'static str) -> Sub {
    Sub { text, key, val }
}

pub enum Form<'a> {
    Keyword,
    List(&'a [Sub]),
    Value(&'static str),
}

pub struct Type {
    pub name: &'static str,
    pub vocabulary: Vec<Sub>,
    /// Longest list
    pub most: usize,
    pub parse: Box<dyn Fn(&syn::Meta) -> darling::Result<Seen>>,
    /// `None`: must be rejected; `Some(Err(()))`: not specified
    pub model: Box<dyn Fn(&Form) -> Verdict>,
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Is(Seen),
    Rejected,
    Open,
}

pub struct Run {
    states: u64,
    checked: u64,
    accepted: u64,
    rejected: u64,
    open: u64,
    bad: Vec<String>,
}

fn look(t: &Type, text: &str) -> Result<darling::Result<Seen>, ()> {
    let meta: syn::Meta = syn::parse_str(text).unwrap_or_else(|e| panic!("{text}: {e}"));
    catch_unwind(AssertUnwindSafe(|| (t.parse)(&meta))).map_err(|_| ())
}

/// Spaces between tokens don't matter
fn same((a, b): (&(&'static str, String), &(&'static str, String))) -> bool {
    a.0 == b.0 && a.1.replace(' ', "") == b.1.replace(' ', "")
}

impl Run {
    fn one(&mut self, t: &Type, form: &Form) {
        let text = match form {
            Form::Keyword => "arg".to_string(),
            Form::List(l) => format!("arg({})", l.iter().map(|s| s.text).collect::<Vec<_>>().join(", ")),
            Form::Value(v) => format!("arg = {v}"),
        };
        self.states += 1;
        let got = look(t, &text);
        let want = (t.model)(form);
        let what = match (&got, &want) {
            (Err(()), _) => "panicked".to_string(),
            (_, Verdict::Open) => {
                self.open += 1;
                return;
            }
            (Ok(Ok(seen)), Verdict::Is(w)) => {
                self.checked += w.len() as u64;
                self.accepted += 1;
                if seen.len() == w.len() && seen.iter().zip(w).all(same) {
                    return;
                }
                let mut d = String::new();
                for ((k, a), (_, b)) in seen.iter().zip(w).filter(|(a, b)| !same((a, b))) {
                    write!(d, "{k} is {a}, must be {b}; ").unwrap();
                }
                d
            }
            (Ok(Err(_)), Verdict::Rejected) => {
                self.checked += 1;
                self.rejected += 1;
                return;
            }
            (Ok(Ok(_)), Verdict::Rejected) => "accepted, must be rejected".to_string(),
            (Ok(Err(e)), Verdict::Is(_)) => format!("rejected ({e}), must be accepted"),
        };
        self.bad.push(format!("{}  {text}  {what}", t.name));
    }

    fn all(&mut self, t: &Type, most: usize) {
        self.one(t, &Form::Keyword);
        for v in ["\"str\"", "1", "true"] {
            self.one(t, &Form::Value(v));
        }
        let mut list = vec![];
        self.lists(t, most, &mut list);
    }

    fn lists(&mut self, t: &Type, most: usize, list: &mut Vec<Sub>) {
        self.one(t, &Form::List(list));
        if list.len() < most {
            for s in &t.vocabulary {
                list.push(*s);
                self.lists(t, most, list);
                list.pop();
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a == "--replay") == Some(true) {
        let t = types::types().into_iter().find(|t| t.name == args[2]).expect("unknown type");
        println!("{:#?}", look(&t, &args[3]));
        return;
    }
    let most = args.get(3).map_or(3, |a| a.parse().unwrap());
    let mut run = Run { states: 0, checked: 0, accepted: 0, rejected: 0, open: 0, bad: vec![] };
    let types = types::types();
    for t in &types {
        run.all(t, if most > 4 { most.min(t.most + 1) } else { most.min(t.most) });
    }
    let conv = types::conversions();
    for (name, ok) in &conv {
        run.states += 1;
        run.checked += 1;
        if !ok {
            run.bad.push(format!("conversion  {name}"));
        }
    }
    println!("{} types, {} arguments: {} accepted, {} rejected, {} unspecified; {} observations; {} conversions",
        types.len(), run.states, run.accepted, run.rejected, run.open, run.checked, conv.len());
    std::fs::write(&args[1], format!(
        "{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"types\": {}, \"accepted\": {}, \"rejected\": {}, \"unspecified\": {}, \"samples\": [\"arg(off, \\\"name\\\", public(crate)) as FXHelper: off, name not in effect, pub(crate)\"]}}",
        run.states, run.checked, run.states - run.bad.len() as u64, types.len(), run.accepted, run.rejected, run.open)).unwrap();
    if !run.bad.is_empty() {
        let n = run.bad.len();
        run.bad.sort_by_key(|b| b.len());
        let mut per = std::collections::HashMap::<String, usize>::new();
        run.bad.retain(|b| {
            let c = per.entry(b.split("  ").next().unwrap().to_string()).or_default();
            *c += 1;
            *c <= 12
        });
        let text = format!("{n} arguments are not what they should be:\n\n{}\n\n(aux --replay TYPE 'ARGUMENT' shows what an argument is parsed into)\n", run.bad.join("\n"));
        print!("{text}");
        std::fs::write(&args[2], text).unwrap();
        std::process::exit(1);
    }
}
