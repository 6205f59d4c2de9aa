// ---- what the driver is given -----------------------------------------------------------------------------
//@type lapex/src/lib.rs ParsingAlgorithm #[derive(Structural, PartialEq, Eq, Copy, Clone)]
//@type lapex/src/lib.rs Language
#[verifier::external_body]
#[derive(Debug)]
pub struct LapexParsingError { t: u8 }
// what the front end returns: rules whose spans lie in the text, no empty literals, alternatives or sequences,
// precedences within a machine word, and (the crate's limit) no right-hand side of more than 255 symbols
pub open spec fn tok_sane(r: Spanned<TokenRule>, t: Seq<char>) -> bool {
    &&& placed(r.span, t) && prec_ok(r.inner)
    &&& match r.inner.pattern {
        TokenPattern::Literal { characters } => characters@.len() > 0,
        TokenPattern::Pattern { pattern } => shape_ok(pattern),
    }
}
pub open spec fn toks_sane(r: Seq<Spanned<TokenRule>>, t: Seq<char>) -> bool { forall|k: int| 0 <= k < r.len() ==> tok_sane(#[trigger] r[k], t) }
pub open spec fn sane(rs: &RuleSet, t: Seq<char>) -> bool {
    &&& toks_sane(rs.token_rules@, t)
    &&& spans_in(rs, t)
    &&& all_full(rs)
    &&& forall|g: Grammar, sy: Names, m: u16| #[trigger] gram_of(rs, &g, sy, m) ==> small(&g)
}
pub trait LapexInputParser: Sized {
    spec fn reads(&self, t: Seq<char>, rs: RuleSet) -> bool;
    fn parse_lapex<'src>(&self, source: &'src str) -> (r: Result<RuleSet<'src>, LapexParsingError>)
        ensures r matches Ok(rs) ==> self.reads(source@, rs) && sane(&rs, source@);
}

// ---- the writers it hands things to ------------------------------------------------------------------------
pub uninterp spec fn ids<T>(s: Seq<T>) -> int;
pub open spec fn put(g0: &GeneratedCodeWriter, g1: &GeneratedCodeWriter, p: Put) -> bool {
    g1.log() == g0.log().push(p) && forall|d: Seq<char>| g0.goes(d) ==> #[trigger] g1.goes(d)
}
pub trait LexerCodeGen: Sized {
    spec fn part(&self) -> Part;
    fn generate_tokens(&self, rules: &[Spanned<TokenRule>], gen: &mut GeneratedCodeWriter)
        ensures put(old(gen), final(gen), Put::Tokens(self.part(), ids(rules@)));
    fn generate_lexer(&self, rules: &[Spanned<TokenRule>], alphabet: &[RangeInclusive<u32>], dfa: &Dfa<&TokenRule, usize>, gen: &mut GeneratedCodeWriter)
        ensures put(old(gen), final(gen), Put::Lexer(self.part(), ids(rules@), ids(alphabet@), idof(dfa)));
}
pub trait LRParserCodeGen: Sized {
    spec fn part(&self) -> Part;
    fn generate_code(&self, grammar: &Grammar, parser_table: &ActionGotoTable, gen: &mut GeneratedCodeWriter)
        ensures put(old(gen), final(gen), Put::Parser(self.part(), idof(grammar), idof(parser_table)));
}
pub trait LLParserCodeGen: Sized {
    spec fn part(&self) -> Part;
    fn generate_code(&self, grammar: &Grammar, parser_table: &LLParserTable, gen: &mut GeneratedCodeWriter)
        ensures put(old(gen), final(gen), Put::Parser(self.part(), idof(grammar), idof(parser_table)));
}
pub trait LanguageFactory<Lexer: LexerCodeGen, LR: LRParserCodeGen, LL: LLParserCodeGen, GLR: LRParserCodeGen>: Sized {
    spec fn lang(&self) -> OutLang;
    fn lexer(&self) -> (r: Lexer)
        ensures r.part() == Part::Lexer(self.lang());
    fn lr_parser(&self) -> (r: LR)
        ensures r.part() == Part::Lr(self.lang());
    fn glr_parser(&self) -> (r: GLR)
        ensures r.part() == Part::Glr(self.lang());
    fn ll_parser(&self) -> (r: LL)
        ensures r.part() == Part::Ll(self.lang());
}
#[verifier::external_body]
pub fn output_table(grammar: &Grammar, table: &ActionGotoTable, output: &mut VxOut) -> (r: Result<(), Error>)
    ensures r is Ok ==> final(output).tables() == old(output).tables().push((idof(grammar), idof(table))),
{ unimplemented!() }

// ---- what it must do ----------------------------------------------------------------------------------------
pub ghost struct Job { pub lang: OutLang, pub lexer: bool, pub alg: ParsingAlgorithm, pub table: bool, pub file: Seq<char>, pub dir: Seq<char> }
pub type Errs = Result<(), Vec<LapexError>>;
pub open spec fn lexed<'r>(j: Job, rules: Seq<Spanned<TokenRule<'r>>>, x: RDfa<'r>, al: Alphabet, p: Put) -> bool {
    al.wf() && sorts_all(al, rules, x) && p == Put::Lexer(Part::Lexer(j.lang), ids(rules), ids(al.ranges@), idof(&x))
}
// the log after the lexer part (None: it ended in an error)
pub open spec fn lex_part<'r>(j: Job, rules: Seq<Spanned<TokenRule<'r>>>, l: Seq<Put>) -> bool {
    let t = Put::Tokens(Part::Lexer(j.lang), ids(rules));
    if j.lexer { l.len() == 2 && l[0] == t && exists|x: RDfa<'r>, al: Alphabet| #[trigger] lexed(j, rules, x, al, l[1]) } else { l == seq![t] }
}
pub open spec fn lex_refused<'r>(j: Job, t: Seq<char>, rules: Seq<Spanned<TokenRule<'r>>>, l: Seq<Put>, r: Errs) -> bool {
    j.lexer && l == seq![Put::Tokens(Part::Lexer(j.lang), ids(rules))]
        && r is Err && exists|e: PrecedenceError| #[trigger] ties(rules, e) && tie_told(r->Err_0@, e, j.file, t)
}
// the parser of a table, and the table itself if asked for
pub open spec fn table_put(j: Job, part: Part, g: int, t: int, l0: Seq<Put>) -> Seq<Put> {
    (if j.table { l0.push(Put::Text("table"@, seq![(g, t)])) } else { l0 }).push(Put::Parser(part, g, t))
}
pub open spec fn table_puts(j: Job, part: Part, g: int, t: int, l0: Seq<Put>, l: Seq<Put>) -> bool {
    ||| l == table_put(j, part, g, t, l0)
    // the order of the two files does not matter
    ||| j.table && l == l0.push(Put::Parser(part, g, t)).push(Put::Text("table"@, seq![(g, t)]))
}
pub open spec fn lr_part<'g, 'r, const N: usize>(j: Job, t: Seq<char>, g: &Grammar, part: Part, x: GenerationResult<'g, 'r, N>, l0: Seq<Put>, l: Seq<Put>, r: Errs) -> bool {
    match x {
        GenerationResult::NoConflicts(tab) => r is Ok && table_puts(j, part, idof(g), idof(&tab), l0, l),
        GenerationResult::AllowedConflicts { table: tab, .. } => r is Ok && table_puts(j, part, idof(g), idof(&tab), l0, l),
        GenerationResult::BadConflicts(cs) => r is Err && l == l0 && tell_all(r->Err_0@, cs@, g, j.file, t),
    }
}
pub open spec fn parsed(j: Job, t: Seq<char>, g: &Grammar, l0: Seq<Put>, l: Seq<Put>, r: Errs) -> bool {
    match j.alg {
        ParsingAlgorithm::LL1 => r is Ok && exists|tab: LLParserTable| #[trigger] crate::ll::tab_exact(g, tab.table@) && l == l0.push(Put::Parser(Part::Ll(j.lang), idof(g), idof(&tab))),
        ParsingAlgorithm::LR0 => exists|x: GenerationResult<0>| #[trigger] made(g, false, false, x) && lr_part(j, t, g, Part::Lr(j.lang), x, l0, l, r),
        ParsingAlgorithm::LR1 => exists|x: GenerationResult<1>| #[trigger] made(g, false, false, x) && lr_part(j, t, g, Part::Lr(j.lang), x, l0, l, r),
        ParsingAlgorithm::LALR => exists|x: GenerationResult<1>| #[trigger] made(g, true, false, x) && lr_part(j, t, g, Part::Lr(j.lang), x, l0, l, r),
        ParsingAlgorithm::GLR => exists|x: GenerationResult<1>| #[trigger] made(g, true, true, x) && lr_part(j, t, g, Part::Glr(j.lang), x, l0, l, r),
    }
}
pub open spec fn built_of(rs: &RuleSet, g: &Grammar) -> bool { exists|sy: Names, m: u16| #[trigger] gram_of(rs, g, sy, m) }
pub open spec fn parts_of(j: Job, t: Seq<char>, rs: &RuleSet, g: &Grammar, l0: Seq<Put>, l: Seq<Put>, r: Errs) -> bool {
    lex_part(j, rs.token_rules@, l0) && built_of(rs, g) && parsed(j, t, g, l0, l, r)
}
pub open spec fn carried_out(j: Job, t: Seq<char>, rs: &RuleSet, l: Seq<Put>, r: Errs) -> bool {
    ||| lex_refused(j, t, rs.token_rules@, l, r)
    ||| exists|g: Grammar, l0: Seq<Put>| #[trigger] parts_of(j, t, rs, &g, l0, l, r)
}
pub open spec fn done_for<I: LapexInputParser>(j: Job, ip: I, t: Seq<char>, l: Seq<Put>, r: Errs) -> bool {
    exists|rs: RuleSet| #[trigger] ip.reads(t, rs) && carried_out(j, t, &rs, l, r)
}
// w: what was written (None: nothing), to files of the output directory
pub open spec fn plan<I: LapexInputParser>(j: Job, ip: I, w: Option<&GeneratedCodeWriter>, r: Errs) -> bool {
    match file_text(j.file) {
        None => w is None && r is Err && io_told(r->Err_0@, j.file),
        Some(t) => w is Some && w->0.goes(j.dir) && done_for(j, ip, t, w->0.log(), r),
    }
}
// a run did the job: what was proved at the end of it, under a name
pub uninterp spec fn did_job<I: LapexInputParser>(j: Job, ip: I, r: Errs) -> bool;
#[verifier::external_body]
pub proof fn done<I: LapexInputParser>(j: Job, ip: I, w: Option<&GeneratedCodeWriter>, r: Errs)
    requires plan(j, ip, w, r),
    ensures did_job(j, ip, r),
{ }

// what is sane can be reported, and built
pub broadcast proof fn lemma_tie_placed<'r>(rules: Seq<Spanned<TokenRule<'r>>>, t: Seq<char>, e: PrecedenceError)
    requires #[trigger] toks_sane(rules, t), #[trigger] ties(rules, e),
    ensures forall|k: int| 0 <= k < e.rules@.len() ==> placed((#[trigger] e.rules@[k]).span, t),
{
    assert forall|k: int| 0 <= k < e.rules@.len() implies placed((#[trigger] e.rules@[k]).span, t) by {
        assert(has_tied(rules, e, k));
        let q = choose|q: int| tied_rule(rules, e, k, q);
        assert(tok_sane(rules[q], t));
    }
}
pub broadcast proof fn lemma_tok_prec<'r>(r: Spanned<TokenRule<'r>>, t: Seq<char>)
    requires #[trigger] tok_sane(r, t),
    ensures prec_ok(r.inner),
{ }
// ---- the driver -----------------------------------------------------------------------------------------------
//@fn lapex/src/lib.rs generate_lexer_and_parser trysame
//@rename expect vx_got
//@rename into vx_same
//@sub generate_table (&grammar) ==> crate::ll::generate_table (&grammar)
//@sub generate_table :: ==> crate::ps::generate_table ::
//@spec
    ensures did_job(Job { lang: language.lang(), lexer: generate_lexer, alg: algorithm, table: generate_table, file: grammar_path@, dir: target_path@ }, input_parser, r),
//@closure has io |$1: Error| -> (x: Vec<LapexError>) requires read_error($1, grammar_path@) ensures io_told(x@, grammar_path@)
//@closure has with_default |$1: &'static str| -> (x: Result<BufWriter, Error>) ensures x matches Ok(w) ==> w.at() == joined(target_path@, $1@)
//@closure has precedence |$1: PrecedenceError| -> (x: Vec<LapexError>)
    requires forall|k: int| 0 <= k < $1.rules@.len() ==> placed((#[trigger] $1.rules@[k]).span, file_contents@),
    ensures tie_told(x@, $1, grammar_path@, file_contents@)
//@closure has output_table |$1: &mut VxOut| -> (x: Result<(), Error>) ensures x is Ok ==> final($1).tables() == old($1).tables().push((idof(&grammar), idof(&parser_table)))
//@at start
    broadcast use {lemma_sorted, lemma_cands, lemma_ties, lemma_tellable, lemma_kind, lemma_tie_placed};
    let ghost j = Job { lang: language.lang(), lexer: generate_lexer, alg: algorithm, table: generate_table, file: grammar_path@, dir: target_path@ };
    let ghost mut l0 = Seq::<Put>::empty();
//@at call parse_lapex 0 after
    proof { assert(input_parser.reads(file_contents@, rules)); assert(sane(&rules, file_contents@)); assert(spans_in(&rules, file_contents@)); }
//@at call with_default 0 after
    proof { assert(gen.goes(target_path@)); }
//@at call generate_lexer 0 before
    proof { assert(sorts_all(alphabet, rules.token_rules@, dfa)); }
//@at call generate_lexer 0 after
    proof {
        let l = gen.log();
        assert(l.len() == 2); assert(l[0] == Put::Tokens(Part::Lexer(j.lang), ids(rules.token_rules@)));
        assert(l[1] == Put::Lexer(Part::Lexer(j.lang), ids(rules.token_rules@), ids(alphabet.ranges@), idof(&dfa)));
        assert(lexed(j, rules.token_rules@, dfa, alphabet, l[1]));
    }
//@at call from_rule_set 0 before
    proof { l0 = gen.log(); assert(lex_part(j, rules.token_rules@, l0)); }
//@at call from_rule_set 0 after
    proof { assert(grammar.wf()); assert(small(&grammar)); }
//@at exits before gen
    proof { done(j, input_parser, None, vx_ret); }
//@at exits since grammar
    proof { assert(parsed(j, file_contents@, &grammar, l0, gen.log(), vx_ret)); assert(parts_of(j, file_contents@, &rules, &grammar, l0, gen.log(), vx_ret)); }
//@at exits since gen
    proof { assert(gen.goes(j.dir)); assert(input_parser.reads(file_contents@, rules)); assert(carried_out(j, file_contents@, &rules, gen.log(), vx_ret)); done(j, input_parser, Some(&gen), vx_ret); }
//@end
// ---- the two languages ----------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct CppLexerCodeGen { t: u8 }
impl CppLexerCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LexerCodeGen for CppLexerCodeGen {
    open spec fn part(&self) -> Part { Part::Lexer(OutLang::Cpp) }
    #[verifier::external_body]
    fn generate_tokens(&self, rules: &[Spanned<TokenRule>], gen: &mut GeneratedCodeWriter) { unimplemented!() }
    #[verifier::external_body]
    fn generate_lexer(&self, rules: &[Spanned<TokenRule>], alphabet: &[RangeInclusive<u32>], dfa: &Dfa<&TokenRule, usize>, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct CppLRParserCodeGen { t: u8 }
impl CppLRParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LRParserCodeGen for CppLRParserCodeGen {
    open spec fn part(&self) -> Part { Part::Lr(OutLang::Cpp) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &ActionGotoTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct CppGLRParserCodeGen { t: u8 }
impl CppGLRParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LRParserCodeGen for CppGLRParserCodeGen {
    open spec fn part(&self) -> Part { Part::Glr(OutLang::Cpp) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &ActionGotoTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct CppLLParserCodeGen { t: u8 }
impl CppLLParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LLParserCodeGen for CppLLParserCodeGen {
    open spec fn part(&self) -> Part { Part::Ll(OutLang::Cpp) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &LLParserTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
//@type lapex/src/lib.rs CppLanguageFactory
//@fn lapex/src/lib.rs CppLanguageFactory::lexer
//@spec
    ensures r.part() == Part::Lexer(OutLang::Cpp),
//@end
//@fn lapex/src/lib.rs CppLanguageFactory::lr_parser
//@spec
    ensures r.part() == Part::Lr(OutLang::Cpp),
//@end
//@fn lapex/src/lib.rs CppLanguageFactory::glr_parser
//@spec
    ensures r.part() == Part::Glr(OutLang::Cpp),
//@end
//@fn lapex/src/lib.rs CppLanguageFactory::ll_parser
//@spec
    ensures r.part() == Part::Ll(OutLang::Cpp),
//@end
impl LanguageFactory<CppLexerCodeGen, CppLRParserCodeGen, CppLLParserCodeGen, CppGLRParserCodeGen> for CppLanguageFactory {
    open spec fn lang(&self) -> OutLang { OutLang::Cpp }
    fn lexer(&self) -> (r: CppLexerCodeGen) { CppLanguageFactory::lexer(self) }
    fn lr_parser(&self) -> (r: CppLRParserCodeGen) { CppLanguageFactory::lr_parser(self) }
    fn glr_parser(&self) -> (r: CppGLRParserCodeGen) { CppLanguageFactory::glr_parser(self) }
    fn ll_parser(&self) -> (r: CppLLParserCodeGen) { CppLanguageFactory::ll_parser(self) }
}
#[verifier::external_body]
pub struct RustLexerCodeGen { t: u8 }
impl RustLexerCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LexerCodeGen for RustLexerCodeGen {
    open spec fn part(&self) -> Part { Part::Lexer(OutLang::Rust) }
    #[verifier::external_body]
    fn generate_tokens(&self, rules: &[Spanned<TokenRule>], gen: &mut GeneratedCodeWriter) { unimplemented!() }
    #[verifier::external_body]
    fn generate_lexer(&self, rules: &[Spanned<TokenRule>], alphabet: &[RangeInclusive<u32>], dfa: &Dfa<&TokenRule, usize>, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct RustLRParserCodeGen { t: u8 }
impl RustLRParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LRParserCodeGen for RustLRParserCodeGen {
    open spec fn part(&self) -> Part { Part::Lr(OutLang::Rust) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &ActionGotoTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct RustGLRParserCodeGen { t: u8 }
impl RustGLRParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LRParserCodeGen for RustGLRParserCodeGen {
    open spec fn part(&self) -> Part { Part::Glr(OutLang::Rust) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &ActionGotoTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
#[verifier::external_body]
pub struct RustLLParserCodeGen { t: u8 }
impl RustLLParserCodeGen {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
impl LLParserCodeGen for RustLLParserCodeGen {
    open spec fn part(&self) -> Part { Part::Ll(OutLang::Rust) }
    #[verifier::external_body]
    fn generate_code(&self, grammar: &Grammar, parser_table: &LLParserTable, gen: &mut GeneratedCodeWriter) { unimplemented!() }
}
//@type lapex/src/lib.rs RustLanguageFactory
//@fn lapex/src/lib.rs RustLanguageFactory::lexer
//@spec
    ensures r.part() == Part::Lexer(OutLang::Rust),
//@end
//@fn lapex/src/lib.rs RustLanguageFactory::lr_parser
//@spec
    ensures r.part() == Part::Lr(OutLang::Rust),
//@end
//@fn lapex/src/lib.rs RustLanguageFactory::glr_parser
//@spec
    ensures r.part() == Part::Glr(OutLang::Rust),
//@end
//@fn lapex/src/lib.rs RustLanguageFactory::ll_parser
//@spec
    ensures r.part() == Part::Ll(OutLang::Rust),
//@end
impl LanguageFactory<RustLexerCodeGen, RustLRParserCodeGen, RustLLParserCodeGen, RustGLRParserCodeGen> for RustLanguageFactory {
    open spec fn lang(&self) -> OutLang { OutLang::Rust }
    fn lexer(&self) -> (r: RustLexerCodeGen) { RustLanguageFactory::lexer(self) }
    fn lr_parser(&self) -> (r: RustLRParserCodeGen) { RustLanguageFactory::lr_parser(self) }
    fn glr_parser(&self) -> (r: RustGLRParserCodeGen) { RustLanguageFactory::glr_parser(self) }
    fn ll_parser(&self) -> (r: RustLLParserCodeGen) { RustLanguageFactory::ll_parser(self) }
}
pub open spec fn lang_of(l: Language) -> OutLang { match l { Language::Cpp => OutLang::Cpp, Language::Rust => OutLang::Rust } }
//@fn lapex/src/lib.rs generate
//@spec
    ensures did_job(Job { lang: lang_of(language), lexer: generate_lexer, alg: algorithm, table: generate_table, file: grammar_path@, dir: target_path@ }, input_parser, r),
//@end
