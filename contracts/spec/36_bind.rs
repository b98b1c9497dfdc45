// ===== binding =====
pub open spec fn bind_error_lists(e: BindError, l: Seq<Seq<char>>) -> bool {
    match e { BindError::OneVariable(s) => l.len() == 1 && s@ == l[0], BindError::MultipleVariables(s) => l.len() > 1 && s@ == joined(l, ", "@) }
}
/// the error names exactly the variables of d, each once
pub open spec fn names_missing(e: BindError, d: Set<Seq<char>>) -> bool { exists|l: Seq<Seq<char>>| l.no_duplicates() && l.to_set() == d && #[trigger] bind_error_lists(e, l) }
pub proof fn join_step(all: Seq<Seq<char>>, k: int, sep: Seq<char>) requires 0 <= k < all.len()
    ensures joined(all.take(k + 1), sep) == joined(all.take(k), sep) + (if k > 0 { sep } else { Seq::<char>::empty() }) + all[k]
{
    let t = all.take(k + 1);
    assert(t.drop_last() =~= all.take(k));
    assert(t.last() == all[k]);
    if k == 0 { assert(joined(all.take(k), sep) =~= Seq::<char>::empty()); assert(joined(t, sep) == t[0]); assert(joined(t, sep) =~= joined(all.take(k), sep) + Seq::<char>::empty() + all[k]); }
}
pub proof fn empty_listing() ensures forall|l: Seq<Seq<char>>| #[trigger] l.to_set() == Set::<Seq<char>>::empty() <==> l.len() == 0 {
    assert forall|l: Seq<Seq<char>>| #[trigger] l.to_set() == Set::<Seq<char>>::empty() <==> l.len() == 0 by {
        if l.len() > 0 { assert(l.to_set().contains(l[0])); } else { assert(l.to_set() =~= Set::empty()); }
    }
}
pub proof fn empty_difference() ensures forall|a: Set<Seq<char>>, b: Set<Seq<char>>| #[trigger] a.difference(b) == Set::<Seq<char>>::empty() <==> a.subset_of(b) {
    assert forall|a: Set<Seq<char>>, b: Set<Seq<char>>| #[trigger] a.difference(b) == Set::<Seq<char>>::empty() <==> a.subset_of(b) by {
        if a.subset_of(b) { assert(a.difference(b) =~= Set::empty()); }
        else { let x = choose|x: Seq<char>| a.contains(x) && !b.contains(x); assert(a.difference(b).contains(x)); }
    }
}
pub proof fn pairs_dom(s: Seq<(&str, f64)>, x: Seq<char>) ensures pairs_map(s).dom().contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0@ == x decreases s.len() {
    if s.len() > 0 {
        let p = s.drop_last();
        pairs_dom(p, x);
        if exists|i: int| 0 <= i < p.len() && #[trigger] p[i].0@ == x { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i].0@ == x; assert(s[i].0@ == x); }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0@ == x { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0@ == x; if i < p.len() { assert(p[i].0@ == x); } }
        if s.last().0@ == x { assert(s[s.len() - 1].0@ == x); }
    }
}
/// a bound expression has all the values it needs
pub proof fn bound_all(x: Xprs, s: Seq<(&str, f64)>, names: Seq<&str>)
    requires vars_exact(x), x.vars@.subset_of(strs(names).to_set()), s.len() == names.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == names[i]
    ensures has_all(x.root.tree(), pairs_map(s))
{
    assert forall|v: Seq<char>| #[trigger] occurs(x.root.tree(), v) implies pairs_map(s).dom().contains(v) by {
        assert(x.vars@.contains(v));
        assert(strs(names).to_set().contains(v));
        let i = choose|i: int| 0 <= i < strs(names).len() && strs(names)[i] == v;
        assert(s[i].0@ == v);
        pairs_dom(s, v);
    }
}
// ---- when two errors are equal
pub open spec fn bind_error_eq(a: BindError, b: BindError) -> bool {
    match (a, b) {
        (BindError::OneVariable(x), BindError::OneVariable(y)) => x@ == y@,
        (BindError::MultipleVariables(x), BindError::MultipleVariables(y)) => x@ == y@,
        _ => false,
    }
}
pub open spec fn kind_eq(a: ErrorKind, b: ErrorKind) -> bool {
    match (a, b) {
        (ErrorKind::UnexpectedEndOfExpression, ErrorKind::UnexpectedEndOfExpression) | (ErrorKind::MissingArgument, ErrorKind::MissingArgument) => true,
        (ErrorKind::UnexpectedToken(x), ErrorKind::UnexpectedToken(y)) => x == y,
        (ErrorKind::IllegalCharacter(x), ErrorKind::IllegalCharacter(y)) => x == y,
        (ErrorKind::ExpectedToken(x), ErrorKind::ExpectedToken(y)) => x == y,
        (ErrorKind::MalformedNumber(x), ErrorKind::MalformedNumber(y)) => x@ == y@,
        (ErrorKind::VariableNotDeclared(x, v), ErrorKind::VariableNotDeclared(y, w)) => x@ == y@ && texts(v@) == texts(w@),
        (ErrorKind::TooFewArguments(x, m), ErrorKind::TooFewArguments(y, n)) => x == y && m == n,
        (ErrorKind::TooManyArguments(x, m), ErrorKind::TooManyArguments(y, n)) => x == y && m == n,
        _ => false,
    }
}
