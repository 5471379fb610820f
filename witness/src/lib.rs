//! Type-level witnesses for C16: this crate builds exactly if they hold.
use sql_parse::*;

fn shared<T: Send + Sync>() {}

/// what a parse takes and gives can be sent to and shared between threads
pub fn threads() {
    shared::<Statement<'static>>();
    shared::<Issues<'static>>();
    shared::<Issue<'static>>();
    shared::<Fragment<'static>>();
    shared::<ParseOptions>();
}

/// a tree outlives options, issues and parser: it borrows from the text only
pub fn statement<'a>(src: &'a str) -> Option<Statement<'a>> {
    let options = ParseOptions::new();
    let mut issues = Issues::new(src);
    parse_statement(src, &mut issues, &options)
}

pub fn statements<'a>(src: &'a str) -> Vec<Statement<'a>> {
    let options = ParseOptions::new();
    let mut issues = Issues::new(src);
    parse_statements(src, &mut issues, &options)
}

/// so do the issues
pub fn issues<'a>(src: &'a str) -> Vec<Issue<'a>> {
    let options = ParseOptions::new();
    let mut issues = Issues::new(src);
    parse_statements(src, &mut issues, &options);
    issues.into_vec()
}

/// options are only read, and one value serves several parses at a time
pub fn twice<'a>(a: &'a str, b: &'a str, options: &ParseOptions) -> (Vec<Statement<'a>>, Vec<Statement<'a>>) {
    let (mut i, mut j) = (Issues::new(a), Issues::new(b));
    let (pa, pb): (fn(&'a str, &mut Issues<'a>, &ParseOptions) -> Vec<Statement<'a>>, _) = (parse_statements, parse_statements);
    let _: fn(&'a str, &mut Issues<'a>, &ParseOptions) -> Vec<Statement<'a>> = pb;
    (pa(a, &mut i, options), pb(b, &mut j, options))
}
