//! A stand-in for the command line parser the repository's CLI macros expect
//! (`clap::Clap`, 3.0 beta, not available offline).  It parses `argv` set by
//! the simulator for the current thread instead of the process arguments.
use std::cell::RefCell;

pub use clap_stub_derive::Clap;

thread_local! {
    static ARGV: RefCell<Vec<String>> = RefCell::new(Vec::new());
}

/// Sets the command line the next `parse()` on this thread sees
/// (without the program name).
pub fn set_argv(args: &[&str]) {
    ARGV.with(|a| *a.borrow_mut() = args.iter().map(|s| s.to_string()).collect());
}

pub trait Clap: Sized {
    fn from_args(args: &[String]) -> Self;
    fn parse() -> Self {
        let args = ARGV.with(|a| a.borrow().clone());
        Self::from_args(&args)
    }
}

/// Looks an option up by its long or short name.
pub fn lookup(args: &[String], short: Option<&str>, long: &str, default: Option<&str>) -> String {
    let l = format!("--{}", long);
    let s = short.map(|s| format!("-{}", s));
    let mut i = 0;
    while i < args.len() {
        if args[i] == l || Some(&args[i]) == s.as_ref() {
            return args.get(i + 1).cloned().unwrap_or_default();
        }
        i += 1;
    }
    match default {
        Some(d) => d.to_string(),
        None => panic!("missing required argument --{}", long),
    }
}

pub fn kebab(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                r.push('-');
            }
            r.extend(c.to_lowercase());
        } else if c == '_' {
            r.push('-');
        } else {
            r.push(c);
        }
    }
    r
}
