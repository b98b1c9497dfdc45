"""refac.py [ids]: behaviour-preserving edits of /repo, applied one at a time in a scratch copy of
/repo and /verif (tools/alt.sh), on which the checks have to stay quiet (or say no-failing-input-found)."""
R = []
def r(id, props, *edits):
    R.append((id, props, edits))
P = "src/parser.rs"; X = "src/xprs.rs"; S = "src/element/simplify.rs"
r("r01_element_loop", "C02", (P, """        let mut el = self.atom()?;

        // BinOp with higher precedence
        while let Some((op, op_precedence)) =
            self.get_operator_infos(precedence)
        {
            let rhs = self.element(op_precedence)?;
            el = BinOp::new_element(op, el, rhs);
        }

        #[cfg(feature = "compile-time-optimizations")]
        {
            el = el.simplify();
        };

        Ok(el)
""", """        let mut lhs = self.atom()?;

        loop {
            let Some((op, op_precedence)) = self.get_operator_infos(precedence) else {
                break;
            };
            let rhs = self.element(op_precedence)?;
            lhs = BinOp::new_element(op, lhs, rhs);
        }

        #[cfg(feature = "compile-time-optimizations")]
        return Ok(lhs.simplify());

        #[cfg(not(feature = "compile-time-optimizations"))]
        Ok(lhs)
"""))
r("r02_arguments", "C04 C13", (P, """        let mut args = Vec::new();

        // no arguments
        if self.next_trim() == Some(&b')') {
            return Ok(args);
        }

        loop {
            let arg = self.argument()?;
            args.push(arg);
""", """        // no arguments
        if self.next_trim() == Some(&b')') {
            return Ok(Vec::new());
        }

        let mut arguments = Vec::with_capacity(2);
        loop {
            arguments.push(self.argument()?);
"""), (P, """                Some(&b',') => self.cursor += 1,
                Some(&b')') => break,
                Some(&tok) => {
                    yeet!(ParseError::new_unexpected_token(self, tok))
                },
                None => {
                    yeet!(ParseError::new_unexpected_end_of_expression(self))
                },
            }
        }
        Ok(args)
""", """                Some(&b')') => return Ok(arguments),
                Some(&b',') => self.cursor += 1,
                None => {
                    yeet!(ParseError::new_unexpected_end_of_expression(self))
                },
                Some(&tok) => {
                    yeet!(ParseError::new_unexpected_token(self, tok))
                },
            }
        }
"""))
r("r03_parse_call", "C04 C13", (P, """                let args = self.parse_arguments()?;
                self.assert_eq_consume(b')')?;
                if let Some(nb_args) = func.nb_args {
                    use core::cmp::Ordering::{Equal, Greater, Less};
                    match args.len().cmp(&nb_args.into()) {
                        Equal => (),
                        Less => {
                            yeet!(ParseError::new_too_few_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                        Greater => {
                            yeet!(ParseError::new_too_many_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                    }
                }
                FunctionCall::new_element(func, args)
""", """                let args = self.parse_arguments()?;
                self.assert_eq_consume(b')')?;
                self.check_arity(&func, args.len(), identifier_start)?;
                FunctionCall::new_element(func, args)
"""), (P, """    /// Parses a number in the mathematical expression.
""", """    /// Checks the number of arguments of a call.
    fn check_arity(&self, func: &crate::token::Function, got: usize, start: usize) -> Result<(), ParseError> {
        let Some(expected) = func.nb_args else {
            return Ok(());
        };
        if got < usize::from(expected) {
            yeet!(ParseError::new_too_few_arguments(self, expected, got, start));
        }
        if got > usize::from(expected) {
            yeet!(ParseError::new_too_many_arguments(self, expected, got, start));
        }
        Ok(())
    }

    /// Parses a number in the mathematical expression.
"""))
r("r03b_arity_ifs", "C04 C13", (P, """                    use core::cmp::Ordering::{Equal, Greater, Less};
                    match args.len().cmp(&nb_args.into()) {
                        Equal => (),
                        Less => {
                            yeet!(ParseError::new_too_few_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                        Greater => {
                            yeet!(ParseError::new_too_many_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                    }
""", """                    let got = args.len();
                    let expected = usize::from(nb_args);
                    if got < expected {
                        yeet!(ParseError::new_too_few_arguments(self, nb_args, got, identifier_start));
                    } else if got > expected {
                        yeet!(ParseError::new_too_many_arguments(self, nb_args, got, identifier_start));
                    }
"""))
r("r04_atom_helper", "C01 C02", (P, """            b'(' => {
                self.cursor += 1;
                let el = self.element(precedence::NO_PRECEDENCE)?;
                self.assert_eq_consume(b')')?;
                self.after_number = false;
                el
            },
""", """            b'(' => self.parse_group()?,
"""), (P, """    /// Parses an identifier in the mathematical expression.
""", """    /// Parses a parenthesised expression.
    fn parse_group(&mut self) -> Result<Element<'input>, ParseError> {
        self.cursor += 1;
        let el = self.element(precedence::NO_PRECEDENCE)?;
        self.assert_eq_consume(b')')?;
        self.after_number = false;
        Ok(el)
    }

    /// Parses an identifier in the mathematical expression.
"""))
r("r04b_atom_split", "C01 C02", (P, """            op @ (b'+' | b'-') => {
                self.cursor += 1;
                #[allow(clippy::unreachable)]
                let operator = match op {
                    b'+' => Operator::Plus,
                    b'-' => Operator::Minus,
                    _ => unreachable!(),
                };
                let operand = self.element(precedence::UNOP_PRECEDENCE)?;
                // the operand already had its chance to get a factorial
                return Ok(UnOp::new_element(operator, operand));
            },
""", """            op @ (b'+' | b'-') => {
                let operator = if op == b'+' { Operator::Plus } else { Operator::Minus };
                self.cursor += 1;
                return self
                    .element(precedence::UNOP_PRECEDENCE)
                    .map(|operand| UnOp::new_element(operator, operand));
            },
"""))
r("r05_exponent", "C03", (P, """        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));
        let is_exponent =
            might_be_exponent && matches!(self.next(), Some(&(b'0'..=b'9')));

        self.cursor +=
            usize::from(is_exponent_with_sign) * 2 + usize::from(is_exponent);
""", """        if might_be_exponent {
            let next = self.next().copied();
            if next.is_some_and(|ch| ch.is_ascii_digit()) {
                self.cursor += 1;
            } else if matches!(next, Some(b'+' | b'-'))
                && self.next_at(2).is_some_and(u8::is_ascii_digit)
            {
                self.cursor += 2;
            }
        }
"""))
r("r05b_exponent_helper", "C03", (P, """        let is_exponent_with_sign = might_be_exponent
            && matches!(self.next(), Some(&b'+' | &b'-'))
            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));
        let is_exponent =
            might_be_exponent && matches!(self.next(), Some(&(b'0'..=b'9')));

        self.cursor +=
            usize::from(is_exponent_with_sign) * 2 + usize::from(is_exponent);
""", """        if might_be_exponent {
            self.cursor += self.exponent_len();
        }
"""), (P, """    /// Parses a list of arguments in a function call.
""", """    /// Length of the exponent's marker.
    fn exponent_len(&self) -> usize {
        match (self.next(), self.next_at(2)) {
            (Some(&(b'0'..=b'9')), _) => 1,
            (Some(&(b'+' | b'-')), Some(&(b'0'..=b'9'))) => 2,
            _ => 0,
        }
    }

    /// Parses a list of arguments in a function call.
"""))
r("r06_operator_infos", "C02", (P, """        let current_byte = *self.next_trim()?;
        // check for binary operator
        if let Ok(op) = Operator::try_from(current_byte) {
            let op_p = precedence::get_for_op(op);
            if op_p <= precedence {
                return None;
            }
            self.cursor += 1;
            return Some((op, op_p));
        }

        match current_byte {
            // if multiplication precedence is lower than current precedence
            // we now we don't need implicit multiplication
            _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
            // if it's an identifier or an opening parenthesis
            // we can consider its an implicit multiplication
            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            // if it's a number implicit multiplication is
            // only possible if previous token isn't a number
            b'0'..=b'9' if !self.after_number => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            _ => None,
        }
""", """        let Some(&current_byte) = self.next_trim() else {
            return None;
        };
        match Operator::try_from(current_byte) {
            Ok(op) => {
                let op_p = precedence::get_for_op(op);
                if op_p > precedence {
                    self.cursor += 1;
                    Some((op, op_p))
                } else {
                    None
                }
            },
            Err(_) => {
                let starts_factor = current_byte.is_ascii_alphabetic()
                    || current_byte == b'('
                    || (current_byte.is_ascii_digit() && !self.after_number);
                (starts_factor && IMPLICIT_MULTIPLICATION_INFO.1 > precedence)
                    .then_some(IMPLICIT_MULTIPLICATION_INFO)
            },
        }
"""))
r("r07_skip_while", "C01 C03", (P, """        while self.current().is_some_and(predicate) {
            self.cursor += 1;
        }
""", """        while let Some(ch) = self.current() {
            if !predicate(ch) {
                break;
            }
            self.cursor += 1;
        }
"""))
r("r08_consume", "C02", (P, """        let eq = self.next_trim() == Some(&tok);
        self.cursor += usize::from(eq);
        eq
""", """        match self.next_trim() {
            Some(&next) if next == tok => {
                self.cursor += 1;
                true
            },
            _ => false,
        }
"""))
r("r09_argument", "C04 C13", (P, """        self.element(precedence::NO_PRECEDENCE).map_err(
            #[cold]
            |err| match err.kind {
                ErrorKind::UnexpectedToken(_) => {
                    ParseError::new_missing_argument(self)
                },
                ErrorKind::UnexpectedEndOfExpression
                | ErrorKind::ExpectedToken(_)
                | ErrorKind::MalformedNumber(_)
                | ErrorKind::IllegalCharacter(_)
                | ErrorKind::VariableNotDeclared(_, _)
                | ErrorKind::TooFewArguments(_, _)
                | ErrorKind::TooManyArguments(_, _)
                | ErrorKind::MissingArgument => err,
            },
        )
""", """        match self.element(precedence::NO_PRECEDENCE) {
            Err(err) if matches!(err.kind, ErrorKind::UnexpectedToken(_)) => {
                Err(ParseError::new_missing_argument(self))
            },
            other => other,
        }
"""))
r("r10_parse", "C12 C01", (P, """        if let Some(expected) = self.ctx.get_expected_vars() {
            if let Some(unknown_var) = xprs.vars.difference(expected).min() {
                let mut available_vars = expected
                    .iter()
                    .map(|&str| str.to_owned())
                    .collect::<Vec<_>>();
                available_vars.sort_unstable();
                yeet!(ParseError::new_variable_not_declared(
                    input,
                    unknown_var,
                    available_vars
                ))
            }
        }

        Ok(xprs)
""", """        let Some(expected) = self.ctx.get_expected_vars() else {
            return Ok(xprs);
        };
        match xprs.vars.difference(expected).min() {
            None => Ok(xprs),
            Some(unknown_var) => {
                let mut available_vars: Vec<String> =
                    expected.iter().map(|name| name.to_string()).collect();
                available_vars.sort();
                Err(ParseError::new_variable_not_declared(input, unknown_var, available_vars))
            },
        }
"""))
r("r11_eval_loop", "C05", (X, """                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))
                    .collect::<Result<Vec<_>, EvalError>>()?;
                func.call(&args)
""", """                let mut args = Vec::with_capacity(func.args.len());
                for arg in &func.args {
                    args.push(self.eval_element(arg)?);
                }
                func.call(&args)
"""))
r("r12_eval_helper", "C05", (X, """                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                #[allow(clippy::unreachable)]
                match binop.op {
                    Operator::Plus => left + right,
                    Operator::Minus => left - right,
                    Operator::Times => left * right,
                    Operator::Divide => left / right,
                    Operator::Power => left.powf(right),
                    Operator::Modulo => left % right,
                    Operator::Factorial => unreachable!(),
                }
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))""", """                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                Self::apply(binop.op, left, right)
            },
            Element::Function(ref func) => {
                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element(arg))"""), (X, """    /// Evaluates an element within an expression without checking for errors.
""", """    /// Applies a binary operator.
    fn apply(op: Operator, left: f64, right: f64) -> f64 {
        match op {
            Operator::Plus => left + right,
            Operator::Minus => left - right,
            Operator::Times => left * right,
            Operator::Divide => left / right,
            Operator::Power => left.powf(right),
            Operator::Modulo => left % right,
            Operator::Factorial => unreachable!(),
        }
    }

    /// Evaluates an element within an expression without checking for errors.
"""))
r("r13_eval_var", "C05", (X, """            Element::Variable(name) => *self.variables.get(name).ok_or_else(
                #[cold]
                || EvalError(name.to_owned()),
            )?,
""", """            Element::Variable(name) => match self.variables.get(name) {
                Some(&value) => value,
                None => yeet!(EvalError(name.to_owned())),
            },
"""))
r("r13b_unchecked", "C05", (X, """                let args = func
                    .args
                    .iter()
                    .map(|arg| self.eval_element_unchecked(arg))
                    .collect::<Vec<_>>();
                func.call(&args)
""", """                let mut values = Vec::new();
                for arg in func.args.iter() {
                    let value = self.eval_element_unchecked(arg);
                    values.push(value);
                }
                func.call(&values)
"""))
r("r14_simplify_call", "C07 C15", (S, """        let mut args_values: Vec<f64> = Vec::with_capacity(self.args.len());

        self.args = self
            .args
            .into_iter()
            .map(|arg| {
                let simplified = arg.simplify();
                if let Element::Number(num) = simplified {
                    args_values.push(num);
                }
                simplified
            })
            .collect();

        if args_values.len() == self.args.len() {
            self.call(&args_values).into()
        } else {
            self.into()
        }
""", """        let mut simplified_args = Vec::with_capacity(self.args.len());
        let mut args_values: Vec<f64> = Vec::with_capacity(self.args.len());
        for arg in self.args {
            let simplified = arg.simplify();
            if let Element::Number(num) = simplified {
                args_values.push(num);
            }
            simplified_args.push(simplified);
        }
        self.args = simplified_args;

        if args_values.len() != self.args.len() {
            return self.into();
        }
        self.call(&args_values).into()
"""))
r("r14b_simplify_for_call", "C15", (S, """        self.args = self
            .args
            .into_iter()
            .map(|arg| arg.simplify_for(var))
            .collect();
        self.simplify()""", """        let mut args = Vec::new();
        for arg in self.args {
            args.push(arg.simplify_for(var));
        }
        self.args = args;
        self.simplify()"""))
r("r15_fold_helper", "C08 C07", (S, """                #[allow(clippy::unreachable)]
                let result = match op {
                    Plus => lhs + rhs,
                    Minus => lhs - rhs,
                    Times => lhs * rhs,
                    Divide => lhs / rhs,
                    Power => lhs.powf(rhs),
                    Modulo => lhs % rhs,
                    Factorial => unreachable!(),
                };
                Number(result)
            },""", """                Number(fold(op, lhs, rhs))
            },"""), (S, """impl<'a> Simplify<'a> for UnOp<'a> {""", """/// Folds two numbers.
fn fold(op: Operator, lhs: f64, rhs: f64) -> f64 {
    match op {
        Operator::Plus => lhs + rhs,
        Operator::Minus => lhs - rhs,
        Operator::Times => lhs * rhs,
        Operator::Divide => lhs / rhs,
        Operator::Power => lhs.powf(rhs),
        Operator::Modulo => lhs % rhs,
        Operator::Factorial => unreachable!(),
    }
}

impl<'a> Simplify<'a> for UnOp<'a> {"""), (S, "use Operator::{Divide, Factorial, Minus, Modulo, Plus, Power, Times};", "use Operator::{Divide, Minus, Modulo, Plus, Power, Times};"))
r("r16_reorder_arms", "C07 C15", (S, """            // 0 * a => 0
            BinOp { op: Times, lhs, .. } if lhs == Number(0.0) => Number(0.0),
            // a * 0 => 0
            BinOp { op: Times, rhs, .. } if rhs == Number(0.0) => Number(0.0),
            // 1 * a => a
            BinOp {
                op: Times,
                lhs,
                rhs,
            } if lhs == Number(1.0) => rhs,
            // a * 1 => a
            BinOp {
                op: Times,
                lhs,
                rhs,
            } if rhs == Number(1.0) => lhs,
""", """            // a * 1 => a
            BinOp {
                op: Times,
                lhs,
                rhs,
            } if rhs == Number(1.0) => lhs,
            // 1 * a => a
            BinOp {
                op: Times,
                lhs,
                rhs,
            } if lhs == Number(1.0) => rhs,
            // 0 * a => 0, a * 0 => 0
            BinOp { op: Times, lhs, rhs } if rhs == Number(0.0) || lhs == Number(0.0) => Number(0.0),
"""))
r("r17_unop", "C07 C15", (S, """        self.operand = self.operand.simplify();
        #[allow(clippy::unreachable)]
        match self.op {
            Operator::Plus => self.operand,
            Operator::Factorial => match self.operand {
                Element::Number(num) => Element::Number(factorial(num)),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
            Operator::Minus => match self.operand {
                Element::Number(num) => Element::Number(-num),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
            Operator::Times
            | Operator::Divide
            | Operator::Power
            | Operator::Modulo => unreachable!(),
        }
""", """        let operand = self.operand.simplify();
        if self.op == Operator::Plus {
            return operand;
        }
        if let Element::Number(num) = operand {
            return match self.op {
                Operator::Minus => Element::Number(-num),
                Operator::Factorial => Element::Number(factorial(num)),
                _ => unreachable!(),
            };
        }
        self.operand = operand;
        self.into()
"""))
r("r18_simplify_for_el", "C15", (S, """            Self::Variable(name) if name == var.0 => Self::Number(var.1),
            Self::Number(_) | Self::Variable(_) => self,
""", """            Self::Number(num) => Self::Number(num),
            Self::Variable(name) => {
                let (target, value) = var;
                if name == target {
                    Self::Number(value)
                } else {
                    Self::Variable(name)
                }
            },
"""))
r("r19_display_call", "C14", ("src/element/function_call.rs", """        let args = self
            .args
            .iter()
            .map(|arg| format!("{arg}"))
            .collect::<Vec<_>>();
        write!(fmt, "{}({})", self.desc.name, args.join(", "))
""", """        write!(fmt, "{}(", self.desc.name)?;
        for (idx, arg) in self.args.iter().enumerate() {
            if idx > 0 {
                write!(fmt, ", ")?;
            }
            write!(fmt, "{arg}")?;
        }
        write!(fmt, ")")
"""))
r("r19b_display_call2", "C14", ("src/element/function_call.rs", """        let args = self
            .args
            .iter()
            .map(|arg| format!("{arg}"))
            .collect::<Vec<_>>();
        write!(fmt, "{}({})", self.desc.name, args.join(", "))
""", """        let args: Vec<String> = self.args.iter().map(ToString::to_string).collect();
        let list = args.join(", ");
        write!(fmt, "{}({list})", self.desc.name)
"""))
r("r20_display_el", "C14", ("src/element/mod.rs", """            Self::Number(num) => write!(fmt, "{num}"),
            Self::BinOp(ref binop) => write!(fmt, "{binop}"),
            Self::UnOp(ref unop) => write!(fmt, "{unop}"),
            Self::Function(ref func) => write!(fmt, "{func}"),
            Self::Variable(var) => write!(fmt, "{var}"),
""", """            Self::Variable(var) => fmt.write_str(var),
            Self::Number(num) => write!(fmt, "{}", num),
            Self::UnOp(ref unop) => fmt::Display::fmt(unop, fmt),
            Self::BinOp(ref binop) => binop.fmt(fmt),
            Self::Function(ref func) => write!(fmt, "{}", func),
"""))
r("r21_display_op", "C14", ("src/token/operator.rs", """        match *self {
            Self::Factorial => write!(fmt, "!"),
            Self::Plus => write!(fmt, "+"),
            Self::Minus => write!(fmt, "-"),
            Self::Times => write!(fmt, "*"),
            Self::Divide => write!(fmt, "/"),
            Self::Power => write!(fmt, "^"),
            Self::Modulo => write!(fmt, "%"),
        }
""", """        let symbol = match *self {
            Self::Plus => '+',
            Self::Minus => '-',
            Self::Times => '*',
            Self::Divide => '/',
            Self::Power => '^',
            Self::Modulo => '%',
            Self::Factorial => '!',
        };
        write!(fmt, "{symbol}")
"""))
r("r22_simp_in_place", "C15 C06 C19", (X, """        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
        tmp = tmp.simplify_for(var);
        self.root = tmp;
        self.update_vars();
""", """        let root = mem::replace(&mut self.root, Element::Number(0.0));
        self.root = root.simplify_for(var);
        self.update_vars();
"""))
r("r22b_simp_calls", "C15 C06", (X, """        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
        tmp = tmp.simplify_for(var);
        self.root = tmp;
        self.update_vars();
""", """        self.simplify_for_multiple_in_place(&[var]);
"""))
r("r23_simp_fold", "C15 C06", (X, """        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
        for &var in vars {
            tmp = tmp.simplify_for(var);
        }
        self.root = tmp;
""", """        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
        self.root = vars.iter().fold(root, |acc, &var| acc.simplify_for(var));
"""))
r("r23b_simp_index", "C15 C06", (X, """        for &var in vars {
            tmp = tmp.simplify_for(var);
        }
""", """        for idx in 0..vars.len() {
            tmp = tmp.simplify_for(vars[idx]);
        }
"""))
r("r24_bind_helper", "C09", (X, """    pub fn bind(self, var: &'a str) -> Result<impl Fn(f64) -> f64 + 'a, BindError> {
        let variables: HashSet<&str> = HashSet::from([var]);
        let missing_vars = self.vars.difference(&variables);
        if let Some(bind_error) = BindError::from_diff(missing_vars) {
            yeet!(bind_error);
        }
        Ok(""", """    pub fn bind(self, var: &'a str) -> Result<impl Fn(f64) -> f64 + 'a, BindError> {
        self.check_bound(&HashSet::from([var]))?;
        Ok("""), (X, """    /// Creates a function of two [`f64`] based""", """    /// Checks that the given names cover the variables.
    fn check_bound(&self, variables: &HashSet<&str>) -> Result<(), BindError> {
        match BindError::from_diff(self.vars.difference(variables)) {
            Some(bind_error) => Err(bind_error),
            None => Ok(()),
        }
    }

    /// Creates a function of two [`f64`] based"""))
r("r24b_bind_match", "C09", (X, """    pub fn bind2(self, var1: &'a str, var2: &'a str) -> Result<impl Fn(f64, f64) -> f64 + 'a, BindError> {
        let variables: HashSet<&str> = HashSet::from([var1, var2]);
        let missing_vars = self.vars.difference(&variables);
        if let Some(bind_error) = BindError::from_diff(missing_vars) {
            yeet!(bind_error);
        }
        Ok(move |val1, val2| self.eval_unchecked(&[(var1, val1), (var2, val2)].into()))
""", """    pub fn bind2(self, first: &'a str, second: &'a str) -> Result<impl Fn(f64, f64) -> f64 + 'a, BindError> {
        let names = HashSet::from([first, second]);
        match BindError::from_diff(self.vars.difference(&names)) {
            Some(error) => Err(error),
            None => Ok(move |x, y| {
                let values = HashMap::from([(first, x), (second, y)]);
                self.eval_unchecked(&values)
            }),
        }
"""))
r("r25_from_diff", "C09", (X, """        let mut peekable = missing_vars.peekable();
        let mut count: usize = 0;
        let mut missing_vars_str = String::new();
        while let Some(missing_var) = peekable.next() {
            count += 1;
            missing_vars_str.push_str(missing_var);
            if peekable.peek().is_some() {
                missing_vars_str.push_str(", ");
            }
        }
        match count {
            0 => None,
            1 => Some(Self::OneVariable(missing_vars_str)),
            _ => Some(Self::MultipleVariables(missing_vars_str)),
        }
""", """        let names: Vec<&str> = missing_vars.copied().collect();
        match names.as_slice() {
            [] => None,
            [name] => Some(Self::OneVariable((*name).to_owned())),
            _ => Some(Self::MultipleVariables(names.join(", "))),
        }
"""))
r("r25b_from_diff_loop", "C09", (X, """        let mut count: usize = 0;
        let mut missing_vars_str = String::new();
        while let Some(missing_var) = peekable.next() {
            count += 1;
            missing_vars_str.push_str(missing_var);
            if peekable.peek().is_some() {
                missing_vars_str.push_str(", ");
            }
        }
""", """        let mut missing_vars_str = String::new();
        let mut count: usize = 0;
        while let Some(name) = peekable.next() {
            missing_vars_str.push_str(name);
            count += 1;
            let more = peekable.peek().is_some();
            if more {
                missing_vars_str.push_str(", ");
            }
        }
"""))
r("r26_find_vars", "C06", ("src/element/mod.rs", """                func.args.iter().for_each(|arg| arg.find_variables(vars));
""", """                for arg in &func.args {
                    arg.find_variables(vars);
                }
"""), ("src/element/mod.rs", """                binop.lhs.find_variables(vars);
                binop.rhs.find_variables(vars);
""", """                binop.rhs.find_variables(vars);
                binop.lhs.find_variables(vars);
"""))
r("r27_context_delegate", "C12", ("src/context.rs", """        mut self,
        name: &'names str,
        value: T,
    ) -> Self {
        self.symbols.insert(name, value.into().into());
        self
    }
""", """        mut self,
        name: &'names str,
        value: T,
    ) -> Self {
        self.set_var(name, value);
        self
    }
"""), ("src/context.rs", """    pub fn set_fn(&mut self, func: Function) {
        self.symbols.insert(func.name, func.into());
    }
""", """    pub fn set_fn(&mut self, func: Function) {
        let name = func.name;
        let symbol = Symbol::Function(func);
        self.symbols.insert(name, symbol);
    }
"""))
r("r27b_context_struct", "C12", ("src/context.rs", """        self.symbols = symbols;
        self
""", """        Self { symbols, ..self }
"""), ("src/context.rs", """    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {
        self.expected_vars = Some(expected_vars);
""", """    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {
        self.expected_vars.replace(expected_vars);
"""))
r("r29_factorial", "C10", ("src/utils/factorial.rs", """    if num < ZERO {
        return f64::NAN;
    }

    if num.is_infinite() {
        return f64::INFINITY;
    }

    if num.fract() != ZERO {
        return f64::NAN;
    }

    // is enough to max out a f64
    if num > MAX {
        return f64::INFINITY;
    }
""", """    if num == f64::INFINITY {
        return f64::INFINITY;
    }

    if num < ZERO || num.fract() != ZERO {
        return f64::NAN;
    }

    // is enough to max out a f64
    if num > MAX {
        return f64::INFINITY;
    }
"""))
r("r29b_factorial_cast", "C10", ("src/utils/factorial.rs", """    let index = trust_me!(num.to_int_unchecked::<usize>());
""", """    #[allow(clippy::as_conversions, clippy::cast_possible_truncation, clippy::cast_sign_loss)]
    let index = num as usize;
"""), ("src/utils/factorial.rs", "use crate::utils::hidden_macros::trust_me;\n", ""))
r("r31_macro_destructure", "C16 C11", ("src/token/function.rs", """        move |args| $function(args[0], args[1])
""", """        move |values| {
            let (first, second) = (values[0], values[1]);
            $function(first, second)
        }
"""))
r("r32_builtins", "C11", ("src/utils/built_in_functions.rs", """    args.iter().sum::<f64>() / args.len() as f64
""", """    let total: f64 = args.iter().sum();
    let count = args.len() as f64;
    total / count
"""), ("src/utils/built_in_functions.rs", """    args.iter().fold(f64::INFINITY, |acc, &x| acc.min(x))
""", """    args.iter().copied().fold(f64::INFINITY, f64::min)
"""))
r("r33_names", "C11 C04", ("src/token/identifier.rs", """            "pi" => f64::consts::PI.into(),
            "e" => f64::consts::E.into(),
""", """            "e" => Identifier::Constant(f64::consts::E),
            "pi" => Identifier::Constant(f64::consts::PI),
"""), ("src/token/identifier.rs", """            "invert" | "recip" => built_in_functions::RECIP.into(),
""", """            "recip" => built_in_functions::RECIP.into(),
            "invert" => built_in_functions::RECIP.into(),
"""))
r("r34_precedence", "C02", ("src/utils/precedence.rs", """        Operator::Plus | Operator::Minus => 1,
        Operator::Times | Operator::Divide | Operator::Modulo => 2,
        // uses `4` because `pejmdas` feature uses `3`
        Operator::Power => 4,
        Operator::Factorial => 5,
""", """        Operator::Factorial => 50,
        Operator::Power => 40,
        Operator::Times | Operator::Divide | Operator::Modulo => 20,
        Operator::Plus | Operator::Minus => 10,
"""), ("src/utils/precedence.rs", "pub const UNOP_PRECEDENCE: usize = 3;", "pub const UNOP_PRECEDENCE: usize = 30;"),
 ("src/utils/precedence.rs", "const IMPLICIT_MULTIPLICATION_PRECEDENCE: usize = 3;", "const IMPLICIT_MULTIPLICATION_PRECEDENCE: usize = 30;"))
r("r35_error_helper", "C13 C01", (P, """    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
        Self {
            kind: ErrorKind::UnexpectedToken(parser.char_or(tok)),
            span: parser.cursor.into(),
            src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
        }
    }
""", """    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
        let kind = ErrorKind::UnexpectedToken(parser.char_or(tok));
        Self::at_cursor(parser, kind)
    }

    /// Creates an error at the cursor.
    fn at_cursor(parser: &ParserImpl, kind: ErrorKind) -> Self {
        let src = trust_me!(str::from_utf8_unchecked(parser.input)).to_owned();
        Self { kind, span: parser.cursor.into(), src }
    }
"""))
r("r35b_help", "C01", (P, """                let excess = got - usize::from(expected);
                format!(
                    "Try removing {excess} argument{}.",
                    if excess > 1 { "s" } else { "" }
                )
""", """                let count = got - usize::from(expected);
                let plural = if count > 1 { "s" } else { "" };
                format!("Try removing {count} argument{plural}.")
"""))
r("r36_binop_eq", "C17", ("src/element/binop.rs", """        self.op == other.op
            && match self.op {
                // non commutative operators
                Operator::Divide
                | Operator::Minus
                | Operator::Modulo
                | Operator::Power => {
                    self.lhs == other.lhs && self.rhs == other.rhs
                },
                // commutative operators
                Operator::Plus | Operator::Times => {
                    (self.lhs == other.lhs && self.rhs == other.rhs)
                        || (self.lhs == other.rhs && self.rhs == other.lhs)
                },
                // not a binary operator
                Operator::Factorial => unreachable!(),
            }
""", """        if self.op != other.op {
            return false;
        }
        if self.lhs == other.lhs && self.rhs == other.rhs {
            return true;
        }
        matches!(self.op, Operator::Plus | Operator::Times)
            && self.lhs == other.rhs
            && self.rhs == other.lhs
"""))
r("r37_fn_eq", "C17", ("src/token/function.rs", """        match *self {
            Self::Static(func1) => match *other {
                Self::Static(func2) => func1 == func2,
                Self::Dyn(_) => false,
            },
            Self::Dyn(ref func1) => match *other {
                Self::Dyn(ref func2) => Arc::ptr_eq(func1, func2),
                Self::Static(_) => false,
            },
        }
""", """        match (self, other) {
            (Self::Static(func1), Self::Static(func2)) => func1 == func2,
            (Self::Dyn(func1), Self::Dyn(func2)) => Arc::ptr_eq(func1, func2),
            (Self::Static(_), Self::Dyn(_)) | (Self::Dyn(_), Self::Static(_)) => false,
        }
"""))
r("r38_identifier_order", "C04", (P, """        let ident = self
            .ctx
            .get(name)
            .cloned()
            .map_or_else(|| Identifier::from_str(name), Into::into);
""", """        let ident = match self.ctx.get(name) {
            Some(symbol) => symbol.clone().into(),
            None => Identifier::from_str(name),
        };
"""))
r("r39_parse_impl", "C01 C06", (P, """        let mut vars: HashSet<&str> = HashSet::default();
        root.find_variables(&mut vars);

        Ok(Xprs { root, vars })
""", """        let mut xprs = Xprs { root, vars: HashSet::new() };
        xprs.root.find_variables(&mut xprs.vars);
        Ok(xprs)
"""))
r("r40_take_while", "C03 C04", (P, """        let start = self.cursor;
        self.skip_while(predicate);
        let end = self.cursor;
        trust_me!(
            #[allow(clippy::indexing_slicing)]
            str::from_utf8_unchecked(&self.input[start..end])
        )
    }
}
""", """        let start = self.cursor;
        self.skip_while(predicate);
        let taken = &self.input[start..self.cursor];
        trust_me!(str::from_utf8_unchecked(taken))
    }
}
"""))

r("r41_loop_match", "C02", (P, """        while let Some((op, op_precedence)) =
            self.get_operator_infos(precedence)
        {
            let rhs = self.element(op_precedence)?;
            el = BinOp::new_element(op, el, rhs);
        }
""", """        loop {
            match self.get_operator_infos(precedence) {
                Some((op, level)) => {
                    let right = self.element(level)?;
                    el = BinOp::new_element(op, el, right);
                },
                None => break,
            }
        }
"""))
r("r42_sign_helper", "C02 C01", (P, """                #[allow(clippy::unreachable)]
                let operator = match op {
                    b'+' => Operator::Plus,
                    b'-' => Operator::Minus,
                    _ => unreachable!(),
                };
                let operand = self.element(precedence::UNOP_PRECEDENCE)?;
                // the operand already had its chance to get a factorial
                return Ok(UnOp::new_element(operator, operand));
""", """                return self.signed(op == b'-');
"""), (P, """    /// Parses an identifier in the mathematical expression.""", """    /// Parses the operand of a sign.
    fn signed(&mut self, negative: bool) -> Result<Element<'input>, ParseError> {
        let operator = if negative { Operator::Minus } else { Operator::Plus };
        let operand = self.element(precedence::UNOP_PRECEDENCE)?;
        // the operand already had its chance to get a factorial
        Ok(UnOp::new_element(operator, operand))
    }

    /// Parses an identifier in the mathematical expression."""))
r("r44_ident_nested", "C04 C13", (P, """            Identifier::Function(func) if self.consume_if_eq(b'(') => {
                let args""", """            Identifier::Function(func) => {
                if !self.consume_if_eq(b'(') {
                    return Err(ParseError::new_expected_token(self, b'('));
                }
                let args"""), (P, """            Identifier::Function(_) => {
                yeet!(ParseError::new_expected_token(self, b'('))
            },
        };

        self.after""", """        };

        self.after"""))
r("r45_arity_helper", "C04 C13", (P, """                if let Some(nb_args) = func.nb_args {
                    use core::cmp::Ordering::{Equal, Greater, Less};
                    match args.len().cmp(&nb_args.into()) {
                        Equal => (),
                        Less => {
                            yeet!(ParseError::new_too_few_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                        Greater => {
                            yeet!(ParseError::new_too_many_arguments(
                                self,
                                nb_args,
                                args.len(),
                                identifier_start
                            ))
                        },
                    }
                }
""", """                self.check_arity(func.nb_args, args.len(), identifier_start)?;
"""), (P, """    /// Parses a number in the mathematical expression.""", """    /// Checks the number of arguments of a call.
    fn check_arity(&self, arity: Option<u8>, got: usize, start: usize) -> Result<(), ParseError> {
        let Some(nb_args) = arity else {
            return Ok(());
        };
        let expected = usize::from(nb_args);
        if got < expected {
            return Err(ParseError::new_too_few_arguments(self, nb_args, got, start));
        }
        if got > expected {
            return Err(ParseError::new_too_many_arguments(self, nb_args, got, start));
        }
        Ok(())
    }

    /// Parses a number in the mathematical expression."""))
r("r47_char_or_match", "C13 C01", (P, """        self.input
            .get(self.cursor..)
            .and_then(|rest| str::from_utf8(rest).ok())
            .and_then(|rest| rest.chars().next())
            .unwrap_or(char::from(tok))
""", """        let decoded = match self.input.get(self.cursor..) {
            Some(rest) => match str::from_utf8(rest) {
                Ok(text) => text.chars().next(),
                Err(_) => None,
            },
            None => None,
        };
        match decoded {
            Some(ch) => ch,
            None => char::from(tok),
        }
"""))
r("r48_implicit_first", "C02", (P, """        match current_byte {
            // if multiplication precedence is lower than current precedence
            // we now we don't need implicit multiplication
            _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
            // if it's an identifier or an opening parenthesis
            // we can consider its an implicit multiplication
            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            // if it's a number implicit multiplication is
            // only possible if previous token isn't a number
            b'0'..=b'9' if !self.after_number => {
                Some(IMPLICIT_MULTIPLICATION_INFO)
            },
            _ => None,
        }
""", """        let starts_factor = match current_byte {
            b'A'..=b'Z' | b'a'..=b'z' | b'(' => true,
            b'0'..=b'9' => !self.after_number,
            _ => false,
        };
        let (_, level) = IMPLICIT_MULTIPLICATION_INFO;
        if starts_factor && level > precedence {
            Some(IMPLICIT_MULTIPLICATION_INFO)
        } else {
            None
        }
"""))
r("r48b_op_match", "C02", (P, """        if let Ok(op) = Operator::try_from(current_byte) {
            let op_p = precedence::get_for_op(op);
            if op_p <= precedence {
                return None;
            }
            self.cursor += 1;
            return Some((op, op_p));
        }

        match current_byte {""", """        let explicit = Operator::try_from(current_byte).ok();
        if let Some(op) = explicit {
            let op_p = precedence::get_for_op(op);
            return if op_p > precedence {
                self.cursor += 1;
                Some((op, op_p))
            } else {
                None
            };
        }

        match current_byte {"""))
r("r51_argument_matches", "C13", (P, """        self.element(precedence::NO_PRECEDENCE).map_err(
            #[cold]
            |err| match err.kind {
                ErrorKind::UnexpectedToken(_) => {
                    ParseError::new_missing_argument(self)
                },
                ErrorKind::UnexpectedEndOfExpression
                | ErrorKind::ExpectedToken(_)
                | ErrorKind::MalformedNumber(_)
                | ErrorKind::IllegalCharacter(_)
                | ErrorKind::VariableNotDeclared(_, _)
                | ErrorKind::TooFewArguments(_, _)
                | ErrorKind::TooManyArguments(_, _)
                | ErrorKind::MissingArgument => err,
            },
        )
""", """        let parsed = self.element(precedence::NO_PRECEDENCE);
        if let Err(err) = &parsed {
            if matches!(err.kind, ErrorKind::UnexpectedToken(_)) {
                return Err(ParseError::new_missing_argument(self));
            }
        }
        parsed
"""))
r("r52_is_num", "C07 C15", (S, """            BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,""", """            BinOp { op: Plus, lhs, rhs } if is_number(&lhs, 0.0) => rhs,"""), (S, """            BinOp { op: Plus, lhs, rhs } if rhs == Number(0.0) => lhs,""", """            BinOp { op: Plus, lhs, rhs } if is_number(&rhs, 0.0) => lhs,"""), (S, """impl<'a> Simplify<'a> for BinOp<'a> {""", """/// Whether an element is the given number.
fn is_number(element: &Element, num: f64) -> bool {
    *element == Element::Number(num)
}

impl<'a> Simplify<'a> for BinOp<'a> {"""))
r("r53_fold_fn", "C08 C07", (S, """                #[allow(clippy::unreachable)]
                let result = match op {
                    Plus => lhs + rhs,
                    Minus => lhs - rhs,
                    Times => lhs * rhs,
                    Divide => lhs / rhs,
                    Power => lhs.powf(rhs),
                    Modulo => lhs % rhs,
                    Factorial => unreachable!(),
                };
                Number(result)
""", """                Number(fold(op, lhs, rhs))
"""), (S, """        use Operator::{Divide, Factorial, Minus, Modulo, Plus, Power, Times};""", """        use Operator::{Divide, Minus, Modulo, Plus, Power, Times};"""), (S, """impl<'a> Simplify<'a> for BinOp<'a> {""", """/// Folds two numbers.
#[allow(clippy::unreachable)]
fn fold(op: Operator, lhs: f64, rhs: f64) -> f64 {
    match op {
        Operator::Modulo => lhs % rhs,
        Operator::Power => lhs.powf(rhs),
        Operator::Divide => lhs / rhs,
        Operator::Times => lhs * rhs,
        Operator::Minus => lhs - rhs,
        Operator::Plus => lhs + rhs,
        Operator::Factorial => unreachable!(),
    }
}

impl<'a> Simplify<'a> for BinOp<'a> {"""))
r("r54_unop_tuple", "C07 C15", (S, """            Operator::Factorial => match self.operand {
                Element::Number(num) => Element::Number(factorial(num)),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
            Operator::Minus => match self.operand {
                Element::Number(num) => Element::Number(-num),
                Element::UnOp(_)
                | Element::BinOp(_)
                | Element::Function(_)
                | Element::Variable(_) => self.into(),
            },
""", """            Operator::Factorial | Operator::Minus => {
                let Element::Number(num) = self.operand else {
                    return self.into();
                };
                let folded = if self.op == Operator::Minus { -num } else { factorial(num) };
                Element::Number(folded)
            },
"""))
r("r55_bind_n_map", "C09", (X, """        Ok(move |values| self.eval_unchecked(&vars.into_iter().zip(values).collect()))""", """        Ok(move |values| {
            let variables = vars.into_iter().zip(values).collect();
            self.eval_unchecked(&variables)
        })"""))
r("r55b_bind_runtime", "C09", (X, """        let variables: HashSet<&str> = vars.iter().copied().collect();
        let missing_vars = self.vars.difference(&variables);
        if let Some(bind_error) = BindError::from_diff(missing_vars) {
            yeet!(bind_error);
        }
        // can't""", """        let variables = vars.iter().copied().collect::<HashSet<&str>>();
        let error = BindError::from_diff(self.vars.difference(&variables));
        if let Some(bind_error) = error {
            return Err(bind_error);
        }
        // can't"""))
r("r58_ident_split", "C11 C04", ("src/token/identifier.rs", """        match value {
            /* Constants */
            "pi" => f64::consts::PI.into(),
            "e" => f64::consts::E.into(),
""", """        /* Constants */
        if value == "pi" {
            return f64::consts::PI.into();
        }
        if value == "e" {
            return f64::consts::E.into();
        }
        match value {
"""))
r("r58b_ident_const", "C11 C04", ("src/token/identifier.rs", """            "pi" => f64::consts::PI.into(),
            "e" => f64::consts::E.into(),
""", """            "pi" => Identifier::Constant(f64::consts::PI),
            "e" => Identifier::Constant(f64::consts::E),
"""))
r("r59_eval_tuple", "C05", (X, """                let left = self.eval_element(&binop.lhs)?;
                let right = self.eval_element(&binop.rhs)?;
                #[allow""", """                let (left, right) = (
                    self.eval_element(&binop.lhs)?,
                    self.eval_element(&binop.rhs)?,
                );
                #[allow"""))
r("r59b_eval_split", "C05 C08", (X, """            Element::UnOp(ref unop) => {
                let operand = self.eval_element(&unop.operand)?;
                #[allow(clippy::unreachable)]
                match unop.op {
                    Operator::Plus => operand,
                    Operator::Minus => -operand,
                    Operator::Factorial => factorial(operand),
                    Operator::Times
                    | Operator::Divide
                    | Operator::Power
                    | Operator::Modulo => unreachable!(),
                }
            },
""", """            Element::UnOp(ref unop) => Self::apply(unop.op, self.eval_element(&unop.operand)?),
"""), (X, """    const fn new<'a>(variables: &'a HashMap<&str, f64>) -> XprsImpl<'a> {""", """    #[allow(clippy::unreachable)]
    fn apply(op: Operator, operand: f64) -> f64 {
        match op {
            Operator::Plus => operand,
            Operator::Minus => -operand,
            Operator::Factorial => factorial(operand),
            Operator::Times | Operator::Divide | Operator::Power | Operator::Modulo => {
                unreachable!()
            },
        }
    }

    const fn new<'a>(variables: &'a HashMap<&str, f64>) -> XprsImpl<'a> {"""))
r("r60_update_vars", "C06", (X, """        self.vars.clear();
        self.root.find_variables(&mut self.vars);
""", """        let mut vars = HashSet::new();
        self.root.find_variables(&mut vars);
        self.vars = vars;
"""))
r("r61_find_if", "C06", ("src/element/mod.rs", """            Self::Function(ref func) => {
                func.args.iter().for_each(|arg| arg.find_variables(vars));
            },
""", """            Self::Function(ref func) => {
                for arg in &func.args {
                    arg.find_variables(vars);
                }
            },
"""))
r("r62_help_helper", "C13 C01", (P, """                let excess = got - usize::from(expected);
                format!(
                    "Try removing {excess} argument{}.",
                    if excess > 1 { "s" } else { "" }
                )
""", """                let excess = got - usize::from(expected);
                format!("Try removing {excess} argument{}.", plural(excess))
"""), (P, """                let missing = usize::from(expected) - got;
                format!(
                    "Try adding {missing} argument{}.",
                    if missing > 1 { "s" } else { "" }
                )
""", """                let missing = usize::from(expected) - got;
                format!("Try adding {missing} argument{}.", plural(missing))
"""), (P, """impl miette::Diagnostic for ParseError {""", """/// The ending of a plural.
const fn plural(count: usize) -> &'static str {
    if count > 1 {
        "s"
    } else {
        ""
    }
}

impl miette::Diagnostic for ParseError {"""))
r("r63_parse_early", "C12", (P, """        if let Some(expected) = self.ctx.get_expected_vars() {
            if let Some(unknown_var) = xprs.vars.difference(expected).min() {
                let mut available_vars = expected
                    .iter()
                    .map(|&str| str.to_owned())
                    .collect::<Vec<_>>();
                available_vars.sort_unstable();
                yeet!(ParseError::new_variable_not_declared(
                    input,
                    unknown_var,
                    available_vars
                ))
            }
        }

        Ok(xprs)
""", """        let Some(expected) = self.ctx.get_expected_vars() else {
            return Ok(xprs);
        };
        match xprs.vars.difference(expected).min() {
            None => Ok(xprs),
            Some(unknown_var) => {
                let mut available_vars = expected
                    .iter()
                    .map(|&str| str.to_owned())
                    .collect::<Vec<_>>();
                available_vars.sort_unstable();
                Err(ParseError::new_variable_not_declared(
                    input,
                    unknown_var,
                    available_vars,
                ))
            },
        }
"""))
r("r64_exponent_if", "C03", (P, """        self.cursor +=
            usize::from(is_exponent_with_sign) * 2 + usize::from(is_exponent);

        self.skip_while(u8::is_ascii_digit);
        let end = self.cursor;
""", """        if is_exponent_with_sign {
            self.cursor += 2;
        } else if is_exponent {
            self.cursor += 1;
        }
        self.skip_while(u8::is_ascii_digit);
        let end = self.cursor;
"""))
r("r65_args_flag", "C04", (P, """            match self.next_trim() {
                Some(&b',') => self.cursor += 1,
                Some(&b')') => break,
                Some(&tok) => {
                    yeet!(ParseError::new_unexpected_token(self, tok))
                },
                None => {
                    yeet!(ParseError::new_unexpected_end_of_expression(self))
                },
            }
""", """            let Some(&tok) = self.next_trim() else {
                yeet!(ParseError::new_unexpected_end_of_expression(self))
            };
            if tok == b')' {
                break;
            }
            if tok != b',' {
                yeet!(ParseError::new_unexpected_token(self, tok))
            }
            self.cursor += 1;
"""))
r("r66_eq_order", "C17", ("src/element/binop.rs", """        self.op == other.op
            && match self.op {
                // non commutative operators
                Operator::Divide
                | Operator::Minus
                | Operator::Modulo
                | Operator::Power => {
                    self.lhs == other.lhs && self.rhs == other.rhs
                },
                // commutative operators
                Operator::Plus | Operator::Times => {
                    (self.lhs == other.lhs && self.rhs == other.rhs)
                        || (self.lhs == other.rhs && self.rhs == other.lhs)
                },
                // not a binary operator
                Operator::Factorial => unreachable!(),
            }
""", """        if self.op != other.op {
            return false;
        }
        let commutes = matches!(self.op, Operator::Plus | Operator::Times);
        if self.lhs == other.lhs && self.rhs == other.rhs {
            return true;
        }
        commutes && self.lhs == other.rhs && self.rhs == other.lhs
"""))
r("r67_display_helper", "C14", ("src/element/binop.rs", """        match self.op {
            Operator::Power => {
                write!(
                    fmt,
                    "({} {} {})",
                    self.lhs.as_base(),
                    self.op,
                    self.rhs
                )
            },
            Operator::Plus
            | Operator::Minus
            | Operator::Times
            | Operator::Divide
            | Operator::Modulo
            | Operator::Factorial => {
                write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
            },
        }
""", """        write!(fmt, "(")?;
        if self.op == Operator::Power {
            write!(fmt, "{}", self.lhs.as_base())?;
        } else {
            write!(fmt, "{}", self.lhs)?;
        }
        write!(fmt, " {} {})", self.op, self.rhs)
"""))
r("r68_symbol_const", "C04 C12", ("src/context.rs", """        self.symbols.get(name)
""", """        let symbol: Option<&Symbol> = self.symbols.get(name);
        symbol
"""))
r("r69_ident_if_let", "C04", (P, """        let ident = self
            .ctx
            .get(name)
            .cloned()
            .map_or_else(|| Identifier::from_str(name), Into::into);
""", """        let ident = if let Some(symbol) = self.ctx.get(name) {
            Identifier::from(symbol.clone())
        } else {
            Identifier::from_str(name)
        };
"""))
r("r70_byte_consts", "C04 C02", (P, """        if self.next_trim() == Some(&b')') {
            return Ok(args);
        }
""", """        if self.next_trim() == Some(&CLOSE) {
            return Ok(args);
        }
"""), (P, """                Some(&b')') => break,
""", """                Some(&CLOSE) => break,
"""), (P, """struct ParserImpl<'input, 'ctx> {""", """/// Ends arguments and groups.
const CLOSE: u8 = b')';

struct ParserImpl<'input, 'ctx> {"""))

import os, subprocess, sys, time
ALT = os.environ.get("ALT", "/tmp/alt1")

def main():
    want = sys.argv[1:]
    for id, props, edits in R:
        if want and id not in want and not any(id.startswith(w + "_") for w in want):
            continue
        repo = ALT + "/repo"
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        bad = False
        for f, old, new in edits:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                print(id, "EDIT matches", s.count(old), old[:80]); bad = True; break
            open(repo + "/" + f, "w").write(s.replace(old, new))
        if bad:
            continue
        p = subprocess.run("cargo test --offline --quiet 2>&1 | grep -E '^error|FAILED|panicked' | head -5", shell=True, cwd=repo, capture_output=True, text=True,
                           env=dict(os.environ, CARGO_TARGET_DIR=ALT + "/target"))
        if p.stdout.strip():
            print(id, "TESTS:", p.stdout[:600]); continue
        for c in (os.environ.get("PROPS") or props).split():
            t = time.time()
            if os.environ.get("MODE") == "proof":
                q = subprocess.run(["python3", "-c", """
import sys, json; sys.path.insert(0, '.')
import proof
for p in proof.PROPS.values(): p['quick'] = [('stable', 'pemdas,opt')]; p.pop('kani', None)
r = proof.run('%s', 'quick')
for f in r['failed'][:4]: print('FAILED', f['name']); print(f['output'][:900])
for u in r['coverage']['undecided'][:6]: print('U', u[:400])
print(r['status'][:110])
""" % c], cwd=ALT + "/verif", capture_output=True, text=True)
                out = q.stdout + q.stderr
                open("/tmp/w/refac_%s_%s.txt" % (id, c), "w").write(out)
                ls = out.splitlines()
                print("%-24s %s %3.0fs %s" % (id, c, time.time() - t, ls[-1] if ls else "?"), flush=True)
                for l in [l for l in ls if l.startswith(("FAILED", "U ", "Error", "Traceback"))][:3]:
                    print("      " + l[:230], flush=True)
                continue
            q = subprocess.run(["python3", "check.py", c, "quick"], cwd=ALT + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            open("/tmp/w/refac_%s_%s.txt" % (id, c), "w").write(q.stdout + q.stderr)
            last = [l for l in q.stdout.splitlines() if l.strip()]
            print("%-24s %s rc=%d %3.0fs %s" % (id, c, q.returncode, time.time() - t, " | ".join(l[:260] for l in last[-2:])), flush=True)
    subprocess.run(["git", "-C", ALT + "/repo", "checkout", "-q", "--", "."], check=True)

main()
