# property -> what Verus checks for it
CORE = ["", "tree_facts", "g_build", "canaries"]
CAN = ["canary_values", "canary_values_terms", "canary_eval"]
FUNS = "functions behind a Function are deterministic, return, and see their arguments' values only"
MSG = ["message_facts", "g_messages"]
PROPS["C05"] = dict(modules=CORE + ["g_eval"] + MSG, quick=ACONFIGS, canaries=CAN,
    says="for every tree and every valuation, eval returns the value den(tree, valuation) defines when every variable of the tree has a value, and names a missing variable otherwise, in the error and in its message; eval_unchecked agrees; termination",
    assumes=[FUNS])
SIMP = ["tree_lemmas", "rules", "fix_lemmas", "eq_facts", "g_eq", "g_simplify"]
PROPS["C15"] = dict(modules=CORE + SIMP + ["g_vars", "g_fix"], quick=ACONFIGS, canaries=CAN + ["canary_simp"],
    says="for every tree and every variable-value list, simplify_for, simplify_for_in_place, simplify_for_multiple and simplify_for_multiple_in_place give a tree without those variables that has, wherever the original evaluates without NAN, division by zero or a negative power of zero, the original's value with the first given value of each name; the variable set is recomputed exactly; termination",
    assumes=[FUNS, "the algebraic facts about f64 listed as axioms in contracts/spec/10_values.rs (0 + a = a as numbers, and so on)"])
PROPS["C17"] = dict(modules=CORE + ["tree_lemmas", "eq_facts", "g_eq"], quick=ACONFIGS, canaries=CAN, kani=["functions"],
    says="== on expressions decides eqs (structure up to commuting + and *, numbers as f64) for all trees without panicking; eqs is symmetric, and equal trees have equal values wherever evaluation meets no NaN, no division by zero and no negative power of zero (Verus); == on functions compares function, name and arity (Kani)",
    assumes=[FUNS, "Vec's == is elementwise"])
PROPS["C09"] = dict(modules=CORE + ["g_eval", "g_bind"] + MSG, quick=ACONFIGS, canaries=CAN,
    says="for every expression whose variable set is exact, bind, bind2..bind9, bind_n and bind_n_runtime succeed iff the variables are among the names; the error otherwise lists exactly the missing ones, each once, separated by commas, and its message says that list; the returned closures return what evaluation returns with each name mapped to its value, the last one winning; bind_n_runtime's reports missing values",
    rest="that every expression the library hands out has an exact variable set is C06",
    assumes=[FUNS, "HashSet::difference yields each missing element once; HashMap::from and collect keep the last pair of a key"])
PROPS["C11"] = dict(modules=CORE + ["g_builtins"], quick=ACONFIGS, canaries=CAN,
    says="Identifier::from_str maps exactly the documented names to functions with the documented arity, and each of these, called with that many values, returns the documented f64 operation of them in order (folds for min, max, sum, mean); pi and e are the constants; every other name is a variable",
    assumes=[FUNS, "a const item denotes one function each time it is used (one assume per built-in)", "f64's methods and libc's tgamma compute the functions they are named after", "iter().sum() adds from left to right starting at a zero"])
PARSE = ["text_facts", "parse_facts", "g_lexer", "g_parser"]
PCAN = CAN + ["canary_parse", "canary_errors"]
UTF = "vstd's UTF-8 model is what core::str implements; a str is at most isize::MAX bytes long"
CTX = "a function of the context may be called with as many arguments as it declares"
PROPS["C01"] = dict(modules=CORE + SIMP + PARSE + ["g_vars", "g_context", "g_builtins", "g_errors"] + MSG, quick=ACONFIGS, canaries=PCAN,
    says="for every text and every context, Parser::parse and Xprs::try_from terminate and return, with every index in bounds, no arithmetic overflow, every unchecked UTF-8 conversion valid and every panicking branch unreachable, including simplification and folding at parse time; an error quotes the text, its span lies within it, and rendering it does not fail: the message and help() are written without underflow, labels() gives that span and source_code() that text",
    rest="stack use (nesting deeper than the stack is out of scope); miette's own report layout",
    assumes=[UTF, CTX])
PROPS["C02"] = dict(modules=CORE + PARSE, quick=ACONFIGS, canaries=PCAN,
    says="for every text and context, parsing succeeds iff the grammar g_parse (contracts/spec/40_parser.rs) derives a tree from the text, and the expression is that tree (without optimisation: exactly; with optimisation: a tree that may stand for it, refines)",
    assumes=[UTF, CTX])
PROPS["C03"] = dict(modules=CORE + PARSE, quick=ACONFIGS, canaries=PCAN,
    says="for every text, a literal ends at num_end (the maximal run, the exponent only when digits follow), its value is Rust's own conversion of the text without underscores, and when there is none the error quotes exactly that text",
    assumes=[UTF, "str::parse::<f64> rounds correctly", "String::replace removes every underscore"])
PROPS["C04"] = dict(modules=CORE + PARSE + ["g_context", "g_builtins"], quick=ACONFIGS, canaries=PCAN,
    says="for every text and context, a name denotes the context's symbol of that exact name, else the built-in, else a variable; a function's name is accepted iff a parenthesised list of that many expressions follows (any number when variadic), its arguments in source order; any other name is never called",
    assumes=[UTF, CTX])
PROPS["C06"] = dict(modules=CORE + SIMP + PARSE + ["g_vars", "g_fix", "g_eval"], quick=ACONFIGS, canaries=PCAN + ["canary_simp"],
    says="the variable set of every expression that parsing returns, and of every expression after any of the simplifications, is exactly the set of variables occurring in its tree; eval succeeds iff the given names cover it",
    assumes=[UTF, CTX])
PROPS["C07"] = dict(modules=CORE + SIMP + PARSE, quick=ACONFIGS, canaries=PCAN + ["canary_simp"],
    says="for every text and context, the tree parsed with optimisation stands in the relation refines to the tree the text denotes (which is what parsing without optimisation returns): no other variable, and an equal value wherever the latter evaluates without NaN, division by zero or a negative power of zero outside constant subexpressions",
    assumes=[FUNS, UTF, CTX, "the algebraic facts about f64 listed as axioms in contracts/spec/10_values.rs (0 + a = a as numbers, and so on)"])
PROPS["C08"] = dict(modules=CORE + SIMP + PARSE + ["g_eval"], quick=ACONFIGS, canaries=PCAN + ["canary_simp"],
    says="for every text and context, a constant tree keeps its exact value den(tree) under optimisation and is folded to one number; both configurations accept the same texts (those g_parse derives a tree from); eval returns den(tree) in both",
    assumes=[FUNS, UTF, CTX, "f64 operations give the same result at parse time and at evaluation time (one uninterpreted function each)"])
PROPS["C12"] = dict(modules=CORE + PARSE + ["g_context"] + MSG, quick=ACONFIGS, canaries=PCAN,
    says="every Context operation updates exactly the symbol or variable set it names, the last definition of a name wins, and lookups return it; with expected variables, Parser::parse succeeds only with an expression whose variables are among them, and otherwise names a variable of the expression that is not, listing exactly the expected ones, which help() shows; without, every variable is allowed",
    rest="that parsing does not change the context follows from its signature (&self)", assumes=[UTF, "HashMap::insert, get and HashSet behave as mathematical maps and sets"])
PROPS["C13"] = dict(modules=CORE + PARSE + MSG, quick=ACONFIGS, canaries=PCAN,
    says="every error of the parser satisfies err_ok: the character named is the one at the reported position, a malformed literal is exactly the one quoted, counts are the function's arity and the number of arguments given and the span starts at the function's name, an end-of-input error means the input was consumed; the message and the help of an error show that character, text and those counts, and its label is its span",
    assumes=[UTF, CTX])
PROPS["C14"] = dict(modules=CORE + SIMP + PARSE + ["g_builtins", "display_facts", "g_display", "reread", "round_trip", "own_names"], quick=ACONFIGS, canaries=PCAN + ["canary_simp", "canary_display"],
    says="for every expression with finite numbers, displaying it gives disp(tree); for every such expression that parsing or simplifying gave, and every context where its functions are what their names denote and its variables are no symbols, parsing that text succeeds and gives a tree with no other variable and with an equal value wherever the first evaluates without NaN, division by zero or a negative power of zero, and without optimisation and negative numbers a tree with the same text; every built-in is what its own name denotes",
    assumes=[FUNS, UTF, CTX, "Rust writes a finite f64 as digits with at most one point, preceded by - exactly when its sign bit is set, and reads that text back exactly", "format! and write! write their pieces in order"])
PROPS["C10"] = dict(modules=CORE + SIMP + ["g_eval", "g_builtins"], quick=ACONFIGS, canaries=CAN + ["canary_simp"], kani=["factorial"],
    says="for every f64, factorial returns NaN for NaN, negative and non-whole numbers, infinity above 170, and otherwise exactly the value of the recurrence 0! = 1, n! = n (n-1)! with one rounding per step (Kani, all bit patterns; the conversion and the index are in bounds); the operator ! and the built-in factorial, evaluated, simplified or folded, apply this one function (Verus, all trees)",
    assumes=["the recurrence is computed by rustc's const evaluation of f64 multiplication"])
PROPS["C16"] = dict(modules=CORE + ["g_eval"], quick=ACONFIGS, canaries=CAN, kani=["macros", "functions"],
    says="for every arity 0 to 9, in the named static, named dynamic and unnamed dynamic forms, and for all argument bit patterns, a function made by the macro declares that arity and its name, calls the wrapped function once with exactly the given values in order, and returns its result; the variadic forms hand on the very list (Kani); evaluation of a call hands the function the values of its arguments in order (Verus, all trees)",
    rest="the variadic harness's list is a block of any length up to 2^46 bytes and of any contents",
    assumes=["the wrapped function is represented by one that records its arguments and returns an arbitrary value"])
PROPS["C18"] = dict(modules=CORE + SIMP + PARSE + ["g_vars", "g_eval", "g_clone", "twice"], quick=ACONFIGS, canaries=PCAN, level="exploration",
    says="for every text, context and valuation, the real functions called twice, with other calls in between: both parses accept or both reject, without optimisation they give the same tree and variable set, with it two trees made from the same one, constants with the very same value; both evaluations, of an expression or of its clone, succeed with the same number or both fail; every clone of a library type is what it was cloned from",
    rest="that the optimised trees and the errors are identical, the same across threads and after long histories: bounded comparison; Send and Sync: checked by rustc",
    assumes=[FUNS, UTF, CTX])
PROPS["C19"] = dict(modules=CORE + SIMP + PARSE + ["g_vars", "g_fix", "g_eval", "g_bind", "g_clone"], quick=ACONFIGS, canaries=PCAN, level="exploration",
    says="every function of the library on the way to a call of a user's function is accepted by Verus under Rust's ownership rules: it duplicates or forgets no value (raw pointer reads, ManuallyDrop, forget are not accepted), and the preconditions of the remaining unsafe operations (from_utf8_unchecked, to_int_unchecked) are discharged",
    rest="unwinding itself: contracts cannot express it; bounded: functions panicking at every call of every operation, with owners and blocks counted",
    assumes=[FUNS, UTF, CTX])
