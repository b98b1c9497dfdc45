// ===== expressions as mathematical trees =====
pub struct FunV { pub name: Seq<char>, pub fid: int, pub arity: Option<u8> }
pub enum Tree {
    Num(V),
    Var(Seq<char>),
    Un(Operator, Box<Tree>),
    Bin(Operator, Box<Tree>, Box<Tree>),
    Call(FunV, Seq<Tree>),
}
pub open spec fn un(op: Operator, a: Tree) -> Tree { Tree::Un(op, Box::new(a)) }
pub open spec fn bin(op: Operator, a: Tree, b: Tree) -> Tree { Tree::Bin(op, Box::new(a), Box::new(b)) }
/// the function behind a function pointer: what it returns, and for how many arguments it may be called
pub uninterp spec fn fcall(fid: int, args: Seq<V>) -> V;
pub uninterp spec fn callable(fid: int, n: int) -> bool;
/// does not tell 0 from -0
pub open spec fn insensitive(fid: int) -> bool {
    forall|a: Seq<V>, b: Seq<V>| zeqs(a, b) ==> zeq(#[trigger] fcall(fid, a), #[trigger] fcall(fid, b))
}
impl Function {
    pub open spec fn view(&self) -> FunV { FunV { name: self.name@, fid: self.func.fid(), arity: self.nb_args } }
}
/// calls with the declared number of arguments (any number when variadic) are within the function's precondition
pub open spec fn fun_ok(f: FunV) -> bool {
    match f.arity { Some(k) => callable(f.fid, k as int), None => forall|n: int| n >= 0 ==> #[trigger] callable(f.fid, n) }
}
pub open spec fn arity_ok(f: FunV, n: int) -> bool { match f.arity { Some(k) => n == k, None => true } }
impl<'a> Element<'a> {
    pub open spec fn tree(self) -> Tree decreases self {
        match self {
            Element::Number(n) => Tree::Num(fv(n)),
            Element::Variable(v) => Tree::Var(v@),
            Element::UnOp(u) => Tree::Un(u.op, Box::new(u.operand.tree())),
            Element::BinOp(b) => Tree::Bin(b.op, Box::new(b.lhs.tree()), Box::new(b.rhs.tree())),
            Element::Function(c) => Tree::Call(c.desc@, trees(c.args@)),
        }
    }
}
pub open spec fn trees(s: Seq<Element>) -> Seq<Tree> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { s[i].tree() } else { arbitrary() })
}
impl<'a> BinOp<'a> { pub open spec fn tree(self) -> Tree { bin(self.op, self.lhs.tree(), self.rhs.tree()) } }
impl<'a> UnOp<'a> { pub open spec fn tree(self) -> Tree { un(self.op, self.operand.tree()) } }
impl<'a> FunctionCall<'a> { pub open spec fn tree(self) -> Tree { Tree::Call(self.desc@, trees(self.args@)) } }

/// the trees the library builds
pub open spec fn wf(t: Tree) -> bool decreases t {
    match t {
        Tree::Num(_) | Tree::Var(_) => true,
        Tree::Un(op, a) => (op == Operator::Plus || op == Operator::Minus || op == Operator::Factorial) && wf(*a),
        Tree::Bin(op, a, b) => op != Operator::Factorial && wf(*a) && wf(*b),
        Tree::Call(f, args) => fun_ok(f) && arity_ok(f, args.len() as int) && (forall|i: int| 0 <= i < args.len() ==> wf(#[trigger] args[i])),
    }
}
pub open spec fn occurs(t: Tree, x: Seq<char>) -> bool decreases t {
    match t {
        Tree::Num(_) => false,
        Tree::Var(y) => x == y,
        Tree::Un(op, a) => occurs(*a, x),
        Tree::Bin(op, a, b) => occurs(*a, x) || occurs(*b, x),
        Tree::Call(f, args) => exists|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x),
    }
}
pub open spec fn vars(t: Tree) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| occurs(t, x)) }
pub open spec fn closed(t: Tree) -> bool decreases t {
    match t {
        Tree::Num(_) => true,
        Tree::Var(_) => false,
        Tree::Un(op, a) => closed(*a),
        Tree::Bin(op, a, b) => closed(*a) && closed(*b),
        Tree::Call(f, args) => forall|i: int| 0 <= i < args.len() ==> closed(#[trigger] args[i]),
    }
}
pub type Env = Map<Seq<char>, V>;
pub open spec fn vun(op: Operator, a: V) -> V {
    match op { Operator::Minus => vneg(a), Operator::Factorial => vfact(a), _ => a }
}
pub open spec fn vbin(op: Operator, a: V, b: V) -> V {
    match op {
        Operator::Plus => vadd(a, b),
        Operator::Minus => vsub(a, b),
        Operator::Times => vmul(a, b),
        Operator::Divide => vdiv(a, b),
        Operator::Power => vpow(a, b),
        Operator::Modulo => vrem(a, b),
        Operator::Factorial => a,
    }
}
/// what an expression evaluates to
pub open spec fn den(t: Tree, env: Env) -> V decreases t {
    match t {
        Tree::Num(v) => v,
        Tree::Var(x) => env[x],
        Tree::Un(op, a) => vun(op, den(*a, env)),
        Tree::Bin(op, a, b) => vbin(op, den(*a, env), den(*b, env)),
        Tree::Call(f, args) => fcall(f.fid, dens(args, env)),
    }
}
pub open spec fn dens(args: Seq<Tree>, env: Env) -> Seq<V> decreases args {
    Seq::new(args.len(), |i: int| if 0 <= i < args.len() { den(args[i], env) } else { arbitrary() })
}
/// one step meets no NaN, no division by zero and no negative power of zero
pub open spec fn ok_bin(op: Operator, a: V, b: V) -> bool {
    !is_nan(vbin(op, a, b))
    && ((op == Operator::Divide || op == Operator::Modulo) ==> !isz(b))
    && (op == Operator::Power ==> !(isz(a) && ltz(b)))
}
/// evaluation meets none of these anywhere (constant subexpressions exempt unless strict)
pub open spec fn good(t: Tree, env: Env, strict: bool) -> bool decreases t {
    (!strict && closed(t)) || match t {
        Tree::Num(v) => !is_nan(v),
        Tree::Var(x) => !is_nan(env[x]),
        Tree::Un(op, a) => !is_nan(vun(op, den(*a, env))) && good(*a, env, strict),
        Tree::Bin(op, a, b) => ok_bin(op, den(*a, env), den(*b, env)) && good(*a, env, strict) && good(*b, env, strict),
        Tree::Call(f, args) => insensitive(f.fid) && !is_nan(fcall(f.fid, dens(args, env)))
            && (forall|i: int| 0 <= i < args.len() ==> good(#[trigger] args[i], env, strict)),
    }
}
/// every constant subexpression is a single number
pub open spec fn folded(t: Tree) -> bool decreases t {
    (closed(t) ==> t is Num) && match t {
        Tree::Num(_) | Tree::Var(_) => true,
        Tree::Un(op, a) => folded(*a),
        Tree::Bin(op, a, b) => folded(*a) && folded(*b),
        Tree::Call(f, args) => forall|i: int| 0 <= i < args.len() ==> folded(#[trigger] args[i]),
    }
}
/// t may stand for s: C07/C15's guarantee (and C08's, for constants), as one relation
#[verifier::opaque]
pub open spec fn refines(s: Tree, t: Tree) -> bool {
    (wf(s) ==> wf(t)) && r_occ(s, t) && (closed(s) ==> closed(t)) && r_den(s, t) && r_good(s, t)
}
pub open spec fn r_occ(s: Tree, t: Tree) -> bool { forall|x: Seq<char>| #![trigger occurs(t, x)] #![trigger occurs(s, x)] occurs(t, x) ==> occurs(s, x) }
pub open spec fn r_den(s: Tree, t: Tree) -> bool { closed(s) ==> forall|env: Env| #![trigger den(t, env)] #![trigger den(s, env)] den(t, env) == den(s, env) }
pub open spec fn r_good(s: Tree, t: Tree) -> bool {
    forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) ==> good(t, env, false) && zeq(den(s, env), den(t, env))
}
pub open spec fn refines_all(s: Seq<Tree>, t: Seq<Tree>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> refines(#[trigger] s[i], #[trigger] t[i])
}
/// structural equality up to commuting + and *, numbers compared as f64
pub open spec fn eqs(a: Tree, b: Tree) -> bool decreases a {
    match (a, b) {
        (Tree::Num(x), Tree::Num(y)) => feq(x, y),
        (Tree::Var(x), Tree::Var(y)) => x == y,
        (Tree::Un(o, x), Tree::Un(p, y)) => o == p && eqs(*x, *y),
        (Tree::Bin(o, x, y), Tree::Bin(p, z, w)) => o == p && ((eqs(*x, *z) && eqs(*y, *w))
            || ((o == Operator::Plus || o == Operator::Times) && eqs(*x, *w) && eqs(*y, *z))),
        (Tree::Call(f, x), Tree::Call(g, y)) => f == g && x.len() == y.len()
            && (forall|i: int| 0 <= i < x.len() ==> eqs(#[trigger] x[i], y[i])),
        _ => false,
    }
}
pub open spec fn eqss(x: Seq<Tree>, y: Seq<Tree>) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> eqs(#[trigger] x[i], y[i])
}
/// t with x replaced by the number v
pub open spec fn subst(t: Tree, x: Seq<char>, v: V) -> Tree decreases t {
    match t {
        Tree::Num(n) => t,
        Tree::Var(y) => if x == y { Tree::Num(v) } else { t },
        Tree::Un(op, a) => Tree::Un(op, Box::new(subst(*a, x, v))),
        Tree::Bin(op, a, b) => Tree::Bin(op, Box::new(subst(*a, x, v)), Box::new(subst(*b, x, v))),
        Tree::Call(f, args) => Tree::Call(f, substs(args, x, v)),
    }
}
pub open spec fn substs(args: Seq<Tree>, x: Seq<char>, v: V) -> Seq<Tree> decreases args {
    Seq::new(args.len(), |i: int| if 0 <= i < args.len() { subst(args[i], x, v) } else { arbitrary() })
}
// ---- display
/// how Rust writes a f64
pub uninterp spec fn vtext(a: V) -> Seq<char>;
pub open spec fn op_char(op: Operator) -> char {
    match op {
        Operator::Plus => '+', Operator::Minus => '-', Operator::Times => '*', Operator::Divide => '/',
        Operator::Power => '^', Operator::Modulo => '%', Operator::Factorial => '!',
    }
}
pub open spec fn paren(s: Seq<char>) -> Seq<char> { seq!['('] + s + seq![')'] }
/// the text of t as the operand of an operator that binds tighter than a sign
pub open spec fn as_operand(t: Tree, text: Seq<char>) -> Seq<char> { if t is Num && neg_sign(t->Num_0) { paren(text) } else { text } }
/// the text of t
pub open spec fn disp(t: Tree) -> Seq<char> decreases t {
    match t {
        Tree::Num(v) => vtext(v),
        Tree::Var(x) => x,
        Tree::Un(op, a) => if op == Operator::Factorial { paren(as_operand(*a, disp(*a)) + seq![op_char(op)]) } else { paren(seq![op_char(op)] + disp(*a)) },
        Tree::Bin(op, a, b) => paren((if op == Operator::Power { as_operand(*a, disp(*a)) } else { disp(*a) }) + seq![' '] + seq![op_char(op)] + seq![' '] + disp(*b)),
        Tree::Call(f, args) => f.name + paren(joined(disps(args), seq![',', ' '])),
    }
}
pub open spec fn disps(args: Seq<Tree>) -> Seq<Seq<char>> decreases args {
    Seq::new(args.len(), |i: int| if 0 <= i < args.len() { disp(args[i]) } else { arbitrary() })
}
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
/// every number of t is finite
pub open spec fn tidy(t: Tree) -> bool decreases t {
    match t {
        Tree::Num(v) => finite(v),
        Tree::Var(_) => true,
        Tree::Un(op, a) => tidy(*a),
        Tree::Bin(op, a, b) => tidy(*a) && tidy(*b),
        Tree::Call(f, args) => forall|i: int| 0 <= i < args.len() ==> tidy(#[trigger] args[i]),
    }
}
