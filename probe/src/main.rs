//! Observation point of the conformance checks: runs the public API of mofmt
//! (`parse`, `pretty_print`) on documents read from stdin and reports what it
//! did, one JSON object per line.  No private item of mofmt is used.
//!
//! First line:    kinds TAB name=hex of a sample lexeme TAB ...
//! Token kinds are reported by comparing them with the kinds of the samples.
//! Request line:  <flags> TAB <entry> TAB <name> TAB <hex of the UTF-8 source>
//!   flags: any of  t (tokens, comments)  e (events)  b (tree of build_tree)
//!                  f (format)  F (format twice)
//! Answer line:   {"id":n,"errors":[..],"tokens":[..],...,"panic":null|"text"}

use mofmt::{build_tree, parse, pretty_print, SyntaxKind};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! kinds {
    ($($k:ident)*) => {
        fn kind(name: &str) -> SyntaxKind {
            match name {
                $( stringify!($k) => SyntaxKind::$k, )*
                _ => panic!("probe: unknown entry {}", name),
            }
        }
    };
}

kinds! {
    StoredDefinition ClassDefinition ClassPrefixes ClassSpecifier LongClassSpecifier
    ShortClassSpecifier DerClassSpecifier BasePrefix EnumList EnumerationLiteral Composition
    LanguageSpecification ExternalFunctionCall ElementList Element ImportClause ImportList
    ExtendsClause ConstrainingClause ClassOrInheritanceModification
    ArgumentOrInheritanceModificationList InheritanceModification ComponentClause TypePrefix
    ComponentList ComponentDeclaration ConditionAttribute Declaration Modification
    ModificationExpression ClassModification ArgumentList Argument
    ElementModificationOrReplaceable ElementModification ElementRedeclaration ElementReplaceable
    ComponentClause1 ComponentDeclaration1 ShortClassDefinition EquationSection AlgorithmSection
    Equation Statement IfEquation IfStatement ForEquation ForStatement ForIndices ForIndex
    WhileStatement WhenEquation WhenStatement ConnectEquation Expression SimpleExpression
    LogicalExpression LogicalTerm LogicalFactor Relation RelationalOperator ArithmeticExpression
    AddOperator Term MulOperator Factor Primary TypeSpecifier Name ComponentReference
    ResultReference FunctionCallArgs FunctionArguments FunctionArgumentsNonFirst ArrayArguments
    ArrayArgumentsNonFirst NamedArguments NamedArgument FunctionArgument
    FunctionPartialApplication OutputExpressionList ExpressionList ArraySubscripts Subscript
    Description DescriptionString AnnotationClause
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(out, "\\u{:04x}", u);
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| (c as char).to_digit(16).expect("probe: bad hex") as u8;
    (0..b.len() / 2).map(|i| v(b[2 * i]) * 16 + v(b[2 * i + 1])).collect()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
    let stdin = io::stdin();
    let stdout = io::stdout();
    let mut w = stdout.lock();
    let mut lines = stdin.lock().lines();

    // The kinds of the sample lexemes (the type has no public name)
    let header = lines.next().expect("probe: no header").expect("probe: stdin");
    let mut kinds = Vec::new();
    for field in header.split('\t').skip(1) {
        let (name, hex) = field.split_once('=').expect("probe: bad header");
        let text = String::from_utf8(unhex(hex)).unwrap();
        let parsed = catch_unwind(AssertUnwindSafe(|| parse("", &text, SyntaxKind::StoredDefinition)));
        if let Ok(parsed) = parsed {
            if let Some(tok) = parsed.tokens.first().or(parsed.comments.first()) {
                kinds.push((name.to_string(), tok.kind));
            }
        }
    }

    let run = |flags: &str, entry: &str, name: &str, src: &str, out: &mut String| {
        let parsed = parse(name, src, kind(entry));
        out.push_str(",\"errors\":[");
        for (i, e) in parsed.errors.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            esc(e, out);
        }
        out.push(']');
        let errors = parsed.errors.len();
        if flags.contains('t') {
            for (key, toks) in [("tokens", &parsed.tokens), ("comments", &parsed.comments)] {
                let _ = write!(out, ",\"{}\":[", key);
                for (i, t) in toks.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('[');
                    let known = kinds.iter().find(|k| k.1 == t.kind);
                    esc(known.map_or("?", |k| k.0.as_str()), out);
                    out.push(',');
                    esc(&t.text, out);
                    let _ = write!(
                        out,
                        ",{},{},{},{},{},{},{}]",
                        t.idx, t.start.pos, t.start.line, t.start.col, t.end.pos, t.end.line, t.end.col
                    );
                }
                out.push(']');
            }
        }
        if flags.contains('e') {
            out.push_str(",\"events\":[");
            for (i, e) in parsed.events.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                esc(&format!("{:?}", e), out);
            }
            out.push(']');
        }
        if errors == 0 && flags.contains('b') {
            let again = parse(name, src, kind(entry));
            let tree = format!("{:?}", build_tree(again.tokens, again.events));
            out.push_str(",\"built\":");
            esc(&tree, out);
        }
        if errors == 0 && (flags.contains('f') || flags.contains('F')) {
            let text = pretty_print(parsed.tokens, parsed.comments, parsed.events);
            out.push_str(",\"out\":");
            esc(&text, out);
            if flags.contains('F') {
                // What the command line tool writes: the formatted text and a line end.
                let again = text + "\n";
                let p2 = parse(name, &again, kind(entry));
                let _ = write!(out, ",\"errors2\":{}", p2.errors.len());
                if p2.errors.is_empty() {
                    out.push_str(",\"out2\":");
                    esc(&pretty_print(p2.tokens, p2.comments, p2.events), out);
                }
            }
        }
    };

    for (id, line) in lines.enumerate() {
        let line = line.expect("probe: stdin");
        let mut parts = line.splitn(4, '\t');
        let flags = parts.next().unwrap().to_string();
        let entry = parts.next().unwrap().to_string();
        let name = parts.next().unwrap().to_string();
        let src = String::from_utf8(unhex(parts.next().unwrap())).expect("probe: source is not UTF-8");
        let mut out = format!("{{\"id\":{}", id);
        // A document whose handling never returns must be told apart from the
        // ones before it: answers are flushed one by one.
        let mut body = String::new();
        match catch_unwind(AssertUnwindSafe(|| run(&flags, &entry, &name, &src, &mut body))) {
            Ok(()) => {
                out.push_str(&body);
                out.push_str(",\"panic\":null}\n");
            }
            Err(_) => {
                // a panic happens in a call of mofmt, so between two fields
                out.push_str(&body);
                out.push_str(",\"panic\":");
                LAST_PANIC.with(|p| esc(&p.borrow(), &mut out));
                out.push_str("}\n");
            }
        }
        w.write_all(out.as_bytes()).unwrap();
        w.flush().unwrap();
    }
}
