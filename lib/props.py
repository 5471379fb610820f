"""What each property asks of the analyses."""

DIALECTS = ["MariaDB", "PostgreSQL", "Sqlite"]


def token(r):
    """the token-level abstract interpretation of the parser, per dialect"""
    runs = r.engine("token", r.tier)
    if runs is None:
        return []
    if sorted(set(x["dialect"] for x in runs)) != sorted(DIALECTS):
        r.find("anchor missing: the dialects are no longer MariaDB, PostgreSQL and Sqlite", str([x["dialect"] for x in runs]))
    for x in runs:
        for f in x["findings"]:
            if f["prop"] in (r.prop, "ALL"):
                key = f"{f['func']}: {f['what']}" if f["func"] else f["what"]
                r.find(key, f"under {x['dialect']}: {f['detail']}")
        for t in x["tags"] if r.prop == "C11" and x["arguments"] == "None" else []:
            if t == "expression::Expression::Arg":
                r.find("an argument can be part of a result although no placeholder style is configured")
        if x["exhausted"]:
            r.find(f"the analysis of {x['dialect']} did not finish")
        for u in x["unmodelled"]:
            r.find(f"the analysis has no model for {u}")
    c = r.coverage
    c["runs"] = len(runs)
    for k in ("contexts", "functions", "blocks", "calls"):
        c[k] = sum(x[k] for x in runs)
    r.floor("functions_per_run", min((x["functions"] for x in runs), default=0), 300)
    return runs


# floors for what the character-level analysis must have looked at
LEX = {"outcomes": 45, "patterns": 40, "dfa_states": 60, "functions": 6, "slices": 200, "edges": 50000}


def lex(r, props):
    """the character-level abstract interpretation of the tokenizer and of the functions that decode and cut the text"""
    if r.engine("token", r.tier) is None:
        return None
    x = r.engine("lex", f"@token-{r.tier}")
    if x is None:
        return None
    for p, f in x["findings"]:
        if p in props or p == "MODEL":
            r.find(f)
    for u in x["unmodelled"]:
        r.find(f"the analysis of the tokenizer has no model for {u}")
    for k, n in LEX.items():
        v = x[k]
        r.floor("lexer_" + k, v if isinstance(v, int) else len(v), n)
    return x


def seen(runs, k):
    s = {}
    for x in runs:
        for n, v in x["seen"].get(k, {}).items():
            s[n] = s.get(n, 0) + v
    return s


def c01(r):
    runs = token(r)
    r.floor("panic_sites_discharged", min((x["panic_sites_discharged"] for x in runs), default=0), 200)
    lex(r, ("PANIC",))
    cover = r.engine("cover")
    if cover is None:
        return
    r.floor("span_implementations_evaluated", len(cover["nodes"]), 325)
    full = {}  # list field -> is it never empty where it is built
    for x in runs:
        for k, (n, empty) in x["lists"].items():
            full[k] = full.get(k, True) and not empty
    n = 0
    for node, fn, what, any_of in cover["panics"]:
        n += 1
        held = [f for f in any_of if full.get(f) and f not in cover["shortened"]]
        if not held:
            r.find(f"span() of {node} panics" + (f" when {' and '.join(any_of)} is empty" if any_of else ""), f"{what} in {fn}; none of the lists that would rule it out is non-empty wherever the node is built")
    r.coverage["span_panics_to_rule_out"] = n


def c02(r):
    runs = token(r)
    r.floor("loop_back_edges", min((x["loop_backedges"] for x in runs), default=0), 60)
    r.floor("left_edges", min((x["left_edges"] for x in runs), default=0), 300)
    lex(r, ("LOOP",))


def c03(r):
    runs = token(r)
    r.floor("exits", sum(len(x["exits"]) for x in runs), 6)
    r.coverage["clean_exits"] = sum(1 for x in runs for e in x["exits"] if not e["with_error"])


def c04(r):
    runs = token(r)
    b = seen(runs, "C04branches")
    r.coverage["branches_on_warning_options"] = sorted(b)
    r.floor("branches", len(b), 2)
    r.floor("warnings_recorded_under_an_option", sum(seen(runs, "C04").values()), 3)


def c05(r):
    runs = token(r)
    names = r.spec["dialects"]
    have = {}
    for x in runs:
        have.setdefault(x["dialect"], set()).update(x["tags"])
    n = 0
    for d, h in have.items():
        if d not in names:
            continue
        i = names.index(d)
        for t, ds in r.spec["tags"].items():
            n += 1
            if i in ds and t not in h:
                r.find(f"{t} cannot be part of an accepted statement under {d}")
            if i not in ds and t in h:
                r.find(f"{t} can be part of a statement accepted without Error under {d}")
        for t in h - set(r.spec["tags"]):
            r.notes.append(f"construct unknown to the specification: {t}")
    r.floor("constructs_compared", n, 3600)
    r.coverage["dialect_specific_constructs"] = sum(1 for d in r.spec["tags"].values() if len(d) < len(names))


# parts a span implementation need not join: in the grammar they lie between two parts it does join
ENCLOSED = {
    ("create::CreateIndex", ".if_not_exists?"): (".create_span", ".on_span"),
    ("create::CreateFunction", ".params[].0?"): (".function_span", ".return_type"),
    ("create::CreateFunction", ".params[].1"): (".function_span", ".return_type"),
    ("create::CreateFunction", ".params[].2"): (".function_span", ".return_type"),
    ("create::CreateFunction", ".returns_span"): (".function_span", ".return_type"),
}


def c06(r):
    c = r.engine("cover")
    if c is None:
        return
    un = set(map(tuple, c["uncovered"]))
    used = 0
    for n, f in sorted(un):
        e = ENCLOSED.get((n, f))
        if e and all(x in c["leaves"][n] and (n, x) not in un for x in e):
            used += 1
            continue
        r.find(f"the span of {n} leaves out {f}")
    for t in c["no_span"]:
        r.find(f"{t} holds spans but has none itself")
    for x in c["notes"]:
        r.find(x)
    r.coverage["enclosed_parts"] = used
    r.coverage["functions_evaluated"] = c["evaluated"]
    r.floor("node_variants", len(c["nodes"]), 325)
    r.floor("components", sum(map(len, c["leaves"].values())), 640)


def c08(r):
    runs = token(r)
    s = seen(runs, "C08")
    r.coverage["builds_checked"] = sum(s.values())
    r.floor("span_fields_checked", len(s), 340)
    for f in r.spec["spans"]:
        if f not in s:
            r.find(f"span field {f} of the specification is no longer built")


def c09(r):
    runs = token(r)
    s = seen(runs, "C09")
    r.coverage["builds_checked"] = sum(s.values())
    r.floor("variants_checked", len(s), 430)
    sure = seen(runs, "C09sure")
    r.floor("variants_with_definite_evidence", len(sure), 425)
    for f in r.spec["variants"]:
        if f not in s:
            r.find(f"variant {f} of the specification is no longer built")


def c10(r):
    p = r.engine("prec")
    if p is None:
        return
    for f in p["findings"]:
        r.find(f)
    for n in p["notes"]:
        r.find(n)
    for k in ("roots", "pushed", "binary_builds", "unary_builds", "states"):
        r.coverage[k] = p[k]
    r.floor("operators_reaching_the_stack", len(p["pushed"]), 25)
    r.floor("pairs_left_standing", len(p["stays"]), 120)
    r.floor("pairs_grouped_first", len(p["folds"]), 300)


def c11(r):
    runs = token(r)
    s = seen(runs, "C11")
    r.coverage["argument_sites"] = s
    for k in ("<QuestionMark> as expression::Expression::Arg under QuestionMark", "<PercentS> as expression::Expression::Arg under Percent", "<DollarArg> as expression::Expression::Arg under Dollar"):
        if k not in s:
            r.find(f"no argument is built from {k}")
    r.floor("functions_with_counter_checked", len(seen(runs, "C11exits")), 25)
    lex(r, ("C11",))


def c07(r):
    runs = token(r)
    s = seen(runs, "C07")
    r.coverage["spans_checked"] = sum(s.values())
    r.floor("span_fields_and_issue_sites_checked", len(s), 350)
    x = lex(r, ("C07",))
    if x is not None:
        r.coverage["functions_that_make_issues"] = x["makers"]
        r.floor("issue_makers_evaluated", len(x["makers"]), 3)


def c13(r):
    runs = token(r)
    r.floor("builders_of_string_literals", len(seen(runs, "C13")), 1)
    x = lex(r, ("C13",))
    if x is not None:
        r.coverage["decoders"] = x["decoders"]
        r.floor("decoders_evaluated", len(x["decoders"]), 2)


def c14(r):
    x = lex(r, ("C14",))
    if x is not None:
        r.coverage["token_names_checked"] = x["names"]
        r.floor("names", x["names"], 1500)


def c15(r):
    x = lex(r, ("C15",))
    if x is not None:
        r.floor("keywords", x["keywords"], 850)
        for k, n in (("reserved", 240), ("expr_ident", 600)):
            r.floor(f"words_{k}", len(x["reserved"].get(k, [])), n)


def c24(r):
    runs = token(r)
    s = seen(runs, "C24")
    r.coverage["sites"] = s
    for k in ("statement::Statement::Copy", "statement::Statement::Stdin"):
        if k not in s:
            r.find(f"anchor missing: {k} is never built")
    r.floor("places_that_read_data", sum(1 for k in s if not k.startswith("statement::Statement::")), 1)
    lex(r, ("C24",))


def c12(r):
    runs = token(r)
    r.floor("functions_with_modes_checked", len(seen(runs, "C12")), 25)


DELIMITERS = ["DoubleDollar", "SemiColon"]


def c18(r):
    """what happens between two statements, per dialect and per delimiter"""
    runs = r.engine("confine")
    if runs is None:
        return
    if sorted((x["dialect"], x["delimiter"]) for x in runs) != [(a, b) for a in sorted(DIALECTS) for b in DELIMITERS]:
        r.find("anchor missing: the analysis must cover every dialect with each delimiter", str([(x["dialect"], x["delimiter"]) for x in runs]))
    s = {}
    for x in runs:
        for f in x["findings"]:
            r.find(f"{f['func']}: {f['what']}" if f["func"] else f["what"], f"under {x['dialect']} with the delimiter {x['delimiter']}: {f['detail']}")
        if x["exhausted"]:
            r.find(f"the analysis of {x['dialect']} did not finish")
        for u in x["unmodelled"]:
            r.find(f"the analysis has no model for {u}")
        for k, n in x["seen"].items():
            s[k] = s.get(k, 0) + n
    r.coverage["runs"] = len(runs)
    r.coverage["delimiters"] = DELIMITERS
    r.coverage["events"] = s
    for k in ("contexts", "blocks", "calls"):
        r.coverage[k] = sum(x.get(k, 0) for x in runs)
    r.floor("functions_per_run", min((x["functions"] for x in runs), default=0), 300)
    r.floor("contexts_per_run", min((x["contexts"] for x in runs), default=0), 700)
    for what in (" calls ", " reads the delimiter", " adds a statement", " returns"):
        if not any(what in k for k in s):
            r.find(f"anchor missing: nothing was seen that{what.rstrip()}")


def c25(r):
    """brackets and commas, per dialect"""
    runs = r.engine("nest")
    if runs is None:
        return
    if sorted(x["dialect"] for x in runs) != sorted(DIALECTS):
        r.find("anchor missing: the dialects are no longer MariaDB, PostgreSQL and Sqlite", str([x["dialect"] for x in runs]))
    for x in runs:
        for f in x["findings"]:
            r.find(f"{f['func']}: {f['what']}" if f["func"] else f["what"], f"under {x['dialect']}: {f['detail']}")
        if x["exhausted"]:
            r.find(f"the analysis of {x['dialect']} did not finish")
        for u in x["unmodelled"]:
            r.find(f"the analysis has no model for {u}")
    c = r.coverage
    c["runs"] = len(runs)
    for k in ("contexts", "blocks", "calls"):
        c[k] = sum(x.get(k, 0) for x in runs)
    c["functions_that_build_parts"] = sorted({k for x in runs for k in x["seen"]})
    types = {k.split(" ", 1)[1] for x in runs for k in x["pushes"]}
    c["types_of_list_elements"] = sorted(types)
    c["tokens_seen_after_a_comma"] = min((len(x["after_comma"]) for x in runs), default=0)
    r.floor("functions_per_run", min((x["functions"] for x in runs), default=0), 300)
    r.floor("contexts_per_run", min((x["contexts"] for x in runs), default=0), 700)
    r.floor("functions_that_give_balanced_parts", min((len(x["seen"]) for x in runs), default=0), 25)
    r.floor("list_types", len(types), 30)


def c26(r):
    runs = token(r)
    s = seen(runs, "C26")
    r.coverage["sites"] = s
    r.floor("constructs_checked", len(s), 30)


def scan(r):
    s = r.engine("scan")
    if s is None:
        return None
    for k in ("functions", "local_functions", "calls_out", "crates", "statics", "types_of_the_interface"):
        r.coverage[k] = s[k]
    r.floor("functions_reachable", s["functions"], 900)
    r.floor("functions_of_the_crate", s["local_functions"], 500)
    r.floor("calls_into_the_standard_library", s["calls_out"], 2000)
    return s


def c16(r):
    s = scan(r)
    if s is None:
        return
    for f in s["pure"]:
        r.find(f)
    r.floor("types_of_options_and_issues", s["types_of_the_interface"], 10)
    w = r.witness()
    if w:
        first = next((l for l in w.splitlines() if l.startswith("error")), "error")
        r.find(f"a type-level witness does not build: {first}", w)
    r.coverage["witnesses"] = "Send + Sync of Statement, Issues, Issue, Fragment, ParseOptions; trees and issues borrow only from the text; options are read only"


def c17(r):
    s = scan(r)
    if s is None:
        return
    for f in s["issues"]:
        r.find(f)
    r.coverage["borrows_for_change"] = s["issue_writes"]
    r.floor("functions_that_record", len(s["recorders"]), 3)


def c19(r):
    runs = token(r)
    r.floor("constructs_in_results", min((len(x["tags"]) for x in runs), default=0), 1000)


def c20(r):
    runs = token(r)
    s = seen(runs, "C20")
    r.coverage["sites"] = s
    r.floor("sites_checked", len(s), 4)
    lex(r, ("C20",))


DEFAULTS = {"dialect": "MariaDB", "arguments": "None", "warn_unquoted_identifiers": "false", "warn_none_capital_keywords": "false", "list_hack": "false"}
HACK = "expression::Expression::ListHack"


def c23(r):
    o = r.engine("options")
    if o is None:
        return
    for f in o["findings"]:
        r.find(f)
    for k, v in DEFAULTS.items():
        if o["defaults"].get(k) != v:
            r.find(f"the default of {k} is {o['defaults'].get(k)}, not {v}")
        if k not in o["setters"]:
            r.find(f"anchor missing: setter ParseOptions::{k}")
    if "get_dialect" not in o["getters"]:
        r.find("anchor missing: ParseOptions::get_dialect")
    r.coverage["setters"] = o["setters"]
    r.coverage["getters"] = o["getters"]
    r.coverage["defaults"] = o["defaults"]
    on, off = token(r), r.engine("token", "nohack") or []
    for x in off:
        if HACK in x["tags"]:
            r.find(f"under {x['dialect']} _LIST_ can become the list expression although the list hack is off")
    for x in on:
        if HACK not in x["tags"]:
            r.find(f"under {x['dialect']} _LIST_ never becomes the list expression")
    r.floor("runs_with_the_list_hack_off", len(off), 3)


ABS = "Abstract interpretation of the crate's monomorphic MIR at the level of token kinds, from the two public entry points, per SQL dialect, over all inputs: "
CHAR = "Abstract interpretation of the tokenizer's MIR at the level of characters, over all inputs (each character is refined to a class of characters only as far as the code looks at it): "
CHECKS = {
    "C01": (c01, "other", ABS + "every panic site (assert terminators, unwrap/expect, indexing, panicking std calls) must be unreachable."),
    "C02": (c02, "other", ABS + "every loop back edge must have consumed a token, advanced a finite iterator or be infeasible at end of input; no cycle of calls without consumption."),
    "C03": (c03, "other", ABS + "on each exit without an Error issue the result must be Some, the last token read must be Eof, no placeholder or skipped token may have occurred."),
    "C04": (c04, "other", ABS + "the values of the warn_ options are marked and followed through copies, fields, calls and logic; from each branch on a marked value up to the point where its arms meet again (postdominator), and in everything called there, no token may be read, no parser state, result or value used later may change, and no issue but a Warning may be recorded."),
    "C05": (c05, "other", ABS + "the set of tree constructs (types, variants, presence and absence of optional fields) that can be part of a result without Error is computed and compared with the reviewed table in spec/spec.json."),
    "C06": (c06, "other", "Abstract evaluation of every Spanned/OptSpanned implementation (inlining the generic span code) on a symbolic node: a range is abstracted by the set of components it is known to contain, lists by induction over their elements, optional parts and variants by cases; every component that is present must be in the set on every path."),
    "C07": (c07, "other", ABS + "every span stored in the tree or given to an issue must start where a token starts, end where one ends, be in order, and not be invented. " + CHAR + "the spans the tokenizer gives must be in order and at character boundaries. Symbolic evaluation of every function that makes an issue, a fragment or an empty list of issues: its text must be the source cut at its span."),
    "C08": (c08, "other", ABS + "each time a tree node is built, the tokens at which each of its span fields starts and ends are computed and compared with the reviewed table in spec/spec.json."),
    "C09": (c09, "other", ABS + "each time an enum variant of the tree is built, the keywords definitely or possibly read for it are compared with those of it and its sibling variants in spec/spec.json."),
    "C10": (c10, "other", "Abstract interpretation of the functions that keep the operator stack, over the kinds of its members (anything that was ever pushed may lie below what is known): whenever an operator or postfix predicate takes its left operand, every operator grouped since the last push must bind at least as tight and the one left standing looser, per the reviewed order in spec/spec.json; operands of a built node must be in source order; nothing may be left on the stack at the end."),
    "C11": (c11, "other", ABS + "the argument counter is tracked relative to the number of arguments built; style and index of each built argument are checked."),
    "C12": (c12, "other", ABS + "the delimiter and the compound-statement permission at every exit of every parsing function must be the value at entry."),
    "C13": (c13, "other", ABS + "the text of every string literal built must be the decoded texts of the literal tokens read, in their order. " + CHAR + "the decoding functions are evaluated on the characters of every text the tokenizer accepts for that quote, and what they give is compared with the rule."),
    "C14": (c14, "other", CHAR + "for each path that hands out a token, the language of the texts on it is intersected with automata for the reviewed spellings in spec/tokens.json (all other tokens, and longer matches of other tokens); names in messages are evaluated and compared."),
    "C15": (c15, "other", CHAR + "the keyword lookup is evaluated symbolically, its table must be sorted and hold every keyword once in the spelling of its name; the word looked up must be the bare word's own text; the reserved words are compared with spec/tokens.json."),
    "C16": (c16, "other", "Effect analysis over everything reachable from the two entry points in the monomorphic call graph: calls leave the crate only into core and alloc, and there not to cells, atomics, raw pointers or addresses; no static that can change; no comparison, hash or print of a pointer; contents of already recorded issues are not read; the types reachable from the options and the issues have no interior mutability or shared ownership. A crate of type-level witnesses (Send, Sync, what the results borrow) must build against the current tree."),
    "C17": (c17, "other", "Effect analysis over everything reachable from the two entry points: the list of issues, its members and their fragments are changed only by pushing at the end; nothing is assigned through a reference to them, no list is replaced, made anew or dropped, and each path of a function that hands out a new issue pushes exactly one."),
    "C18": (c18, "other", ABS + "with a delimiter fixed as ; or as $$: the delimiter must be read alone and nowhere else, a statement may begin only after one (or an Error for its absence), each statement that was parsed is added once at the end of the one list returned, and the list is returned only at the end of the text."),
    "C19": (c19, "other", ABS + "no parsed tree node may be dropped or overwritten on a path that ends without Error."),
    "C23": (c23, "other", "Symbolic evaluation of the MIR of every setter, getter and constructor of ParseOptions on an arbitrary value: each setter must give the old value with exactly its own option replaced by its argument. The abstract interpretation of the parser is run with the list hack on and off; with it off the list expression must not be buildable."),
    "C25": (c25, "other", ABS + "the brackets read and not yet matched, and whether the token read last is an opening bracket or a comma, are followed: a bracket may be closed only by its counterpart, no part that is returned without Error may leave one open, none may end behind a comma, and each element added to a list that is written with commas must be separated from the one before by exactly one."),
    "C26": (c26, "other", ABS + "each time a tree node is built, the parts it may have or lack together, and the kinds of statement or table it may hold, are compared with the reviewed tables in spec/spec.json; a combination counts unless an Error is recorded on every path that has it."),
    "C20": (c20, "other", ABS + "where text and span are put together they must stem from the same token. " + CHAR + "the text handed out with a name or number is the token's own text."),
    "C24": (c24, "other", ABS + "after a COPY ... FROM STDIN that stands in a list of statements the data must be read next, with nothing read ahead, and kept as a statement of its own with its own text and span; data is read nowhere else. " + CHAR + "the data must begin after the rest of the line and reach to the end mark or the end of the text."),
}

TRUST_DEFAULT = "Trusted: rustc's MIR, the engine's models of the standard-library calls and of the tokenizer (any token sequence), and the reviewed tables; function contracts are computed, not assumed. Recursion depth and allocation failure are outside."
TRUST = {}
T_ABS = "interprocedural abstract interpretation (dataflow over token kinds) on monomorphic MIR"
TECHNIQUE = {k: T_ABS for k in CHECKS}
TECHNIQUE["C04"] = "noninterference by taint and control-dependence tracking inside the abstract interpretation on MIR"
TECHNIQUE["C06"] = "abstract evaluation (set-of-covered-components domain) of the span functions' MIR"
TECHNIQUE["C10"] = "abstract interpretation of the operator-stack automaton on MIR, compared with a reviewed precedence table"
T_CHR = "abstract interpretation of the tokenizer on MIR over character classes, compared with automata for the reviewed spellings"
for k in ("C14", "C15"):
    TECHNIQUE[k] = T_CHR
for k in ("C07", "C13", "C24"):
    TECHNIQUE[k] = T_ABS + ", and of the tokenizer over character classes"
TECHNIQUE["C16"] = "effect analysis on the call graph of monomorphic MIR, plus type-level witnesses that must compile"
TECHNIQUE["C17"] = "effect analysis on the call graph of monomorphic MIR"
TECHNIQUE["C23"] = "symbolic evaluation of straight-line MIR (value flow per field), plus abstract interpretation of the parser with the option fixed"
NOT_APPLICABLE = {
    "C21": "The parser is recursive descent without a depth limit: the property is false for the code as designed (deep nesting overflows the stack), and how deep is too deep depends on frame sizes and the stack at run time, which no static rule on the source bounds.",
    "C22": "Needs the dialects' reference grammars and semantics as an oracle; these are not in the repository nor the sandbox, and the crate accepts a deliberately approximate grammar.",
}
