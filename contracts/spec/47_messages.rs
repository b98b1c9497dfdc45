// ===== what the messages of errors say (C01, C05, C09, C12, C13) =====
/// n is o followed by a text in which d occurs
#[verifier::opaque]
pub open spec fn says(o: Seq<char>, n: Seq<char>, d: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| n == #[trigger] (((o + a) + d) + b) }
/// n is o followed by a text in which d occurs and later e
#[verifier::opaque]
pub open spec fn says2(o: Seq<char>, n: Seq<char>, d: Seq<char>, e: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| n == #[trigger] (((((o + a) + d) + b) + e) + c) }
pub mod message_facts {
    use super::*;
    pub broadcast proof fn now(o: Seq<char>, a: Seq<char>, d: Seq<char>) ensures says(o, #[trigger] ((o + a) + d), d) {
        reveal(says);
        assert((o + a) + d =~= ((o + a) + d) + Seq::<char>::empty());
    }
    pub broadcast proof fn at_once(o: Seq<char>, d: Seq<char>) ensures says(o, #[trigger] (o + d), d) {
        reveal(says);
        assert(o + d =~= ((o + Seq::<char>::empty()) + d) + Seq::<char>::empty());
    }
    pub broadcast proof fn more(o: Seq<char>, t: Seq<char>, d: Seq<char>, x: Seq<char>) requires #[trigger] says(o, t, d) ensures says(o, #[trigger] (t + x), d) {
        reveal(says);
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| t == #[trigger] (((o + a) + d) + b);
        assert(t + x =~= ((o + a) + d) + (b + x));
    }
    pub broadcast proof fn now2(o: Seq<char>, t: Seq<char>, d: Seq<char>, e: Seq<char>) requires #[trigger] says(o, t, d) ensures says2(o, #[trigger] (t + e), d, e) {
        reveal(says); reveal(says2);
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| t == #[trigger] (((o + a) + d) + b);
        assert(t + e =~= ((((o + a) + d) + b) + e) + Seq::<char>::empty());
    }
    pub broadcast proof fn more2(o: Seq<char>, t: Seq<char>, d: Seq<char>, e: Seq<char>, x: Seq<char>) requires #[trigger] says2(o, t, d, e) ensures says2(o, #[trigger] (t + x), d, e) {
        reveal(says2);
        let (a, b, c) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>| t == #[trigger] (((((o + a) + d) + b) + e) + c);
        assert(t + x =~= ((((o + a) + d) + b) + e) + (c + x));
    }
    pub broadcast group telling { now, at_once, more, now2, more2 }
}
/// what an error's message says beyond its fixed words: n is what was written after o
pub open spec fn kind_says(k: ErrorKind, o: Seq<char>, n: Seq<char>) -> bool {
    match k {
        ErrorKind::UnexpectedToken(c) | ErrorKind::IllegalCharacter(c) | ErrorKind::ExpectedToken(c) => says(o, n, seq![c]),
        ErrorKind::MalformedNumber(t) => says(o, n, t@),
        ErrorKind::VariableNotDeclared(x, _) => says(o, n, x@),
        ErrorKind::TooFewArguments(k, n2) | ErrorKind::TooManyArguments(k, n2) => says2(o, n, int_text(k as int), int_text(n2 as int)),
        ErrorKind::UnexpectedEndOfExpression | ErrorKind::MissingArgument => true,
    }
}
pub open spec fn wrote_some(a: Formatter, b: Formatter, r: FmtResult) -> bool { b.sure() == a.sure() && (a.sure() ==> r is Ok) }
/// what the help of an error says
pub open spec fn help_says(k: ErrorKind, n: Seq<char>) -> bool {
    match k {
        ErrorKind::ExpectedToken(c) => says(Seq::empty(), n, seq![c]),
        ErrorKind::VariableNotDeclared(_, v) => exists|sep: Seq<char>| says(Seq::empty(), n, #[trigger] joined(texts(v@), sep)),
        ErrorKind::TooFewArguments(k, m) => says(Seq::empty(), n, int_text(k - m)),
        ErrorKind::TooManyArguments(k, m) => says(Seq::empty(), n, int_text(m - k)),
        _ => true,
    }
}
