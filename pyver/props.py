"""What each check claims, trusts and assumes."""

TRUSTED = [
    "pyver (/verif/pyver): the symbolic executor for the Python subset and its axioms for lists, folds and strings",
    "z3 4.x and cvc5 1.1.2 (an obligation is discharged when one of them answers unsat to its negation)",
    "CPython 3.12 and its library behave as the executor models them (str, list, dict, re.fullmatch with simple classes)",
]

ASSUMPTIONS = [
    "the callers pass arguments of the annotated types (str, bool, list of str) and no object with overridden operators",
    "no MemoryError, KeyboardInterrupt or recursion-depth limit; contracts are partial: they say nothing about a call that does not return",
    "the functions and tables of the package are not rebound or mutated from outside while a call runs",
]

BASE = ("Every obligation generated from the current source is discharged for all inputs; strings and lists are unbounded. "
        "Trusted: the executor and its axioms, z3, cvc5. ")

PROPS = {
    "C01": {"level": "proof", "limit": 170, "note": BASE + "Partial correctness; str.lower on non-ASCII letters is left uninterpreted."},
    "C02": {"level": "proof", "limit": 100, "note": BASE + "Proved: the span function. Bounded only (random search): the spans reported by the builder."},
    "C04": {"level": "proof", "limit": 150, "note": BASE + "Types, undivided pieces, rafsi form, compound size, and the yes/no question."},
    "C05": {"level": "proof", "limit": 330, "note": BASE + "Contract of check_zihevla_or_rafsi assumed and only tested (bounded)."},
    "C10": {"level": "proof", "limit": 330, "depends": ["C04", "C05"], "note": BASE + "Leans on the clauses of C05 for the component words."},
    "C11": {"level": "proof", "limit": 60, "note": BASE + "Proved: the score and the tie-break. Bounded only: the score of a two-component lujvo."},
    "C13": {"level": "proof", "limit": 60, "note": BASE + "Normal form, delegation and information flow; str.lower outside ASCII is left "
            "uninterpreted; a tanru is a str or a list of str."},
    "C16": {"level": "proof", "limit": 100, "note": BASE + "The clauses speak of jvokaha accepting 'to'+word; jvokaha itself is not specified here."},
    "C20": {"level": "proof", "limit": 30, "note": "A data invariant: evaluated on every entry of the table that is loaded, so complete without a solver.",
            "technique": "data-structure invariant on the real table, discharged by evaluating it on every entry"},
    "C08": {"level": "proof", "limit": 60, "note": BASE + "The grammar's tables are written independently in pyver/spec.py."},
}
