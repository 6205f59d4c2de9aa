// ---- how the emitted C++ names symbols -------------------------------------------------------------------
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VxUpper { spec fn vx_str(&self) -> Seq<char>; fn vx_upper(&self) -> (r: String) ensures r@ == upper(self.vx_str()); }
impl VxUpper for str {
    open spec fn vx_str(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_upper(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn en(g: &Grammar, x: Symbol) -> Seq<char> {
    if g.productions@.contains_key(x) { "NT_"@ + upper(g.productions@[x]@) } else { "NT_ANON"@ + dec(x->NonTerminal_0 as nat) }
}
pub open spec fn tkn(g: &Grammar, t: Symbol) -> Seq<char> { if t is End { "EOF"@ } else { g.tokens@[t]@ } }
pub open spec fn ens_text(p: Seq<char>, g: &Grammar, s: Seq<Symbol>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { p } else { ens_text(p, g, s, n - 1) + en(g, s[n - 1]) + ",\n"@ } }
//@fn lapex-parser/src/grammar.rs Grammar::get_production_name
//@spec
    ensures
        r is Some <==> non_terminal is NonTerminal && self.productions@.contains_key(*non_terminal),
        r is Some ==> r->0@ == self.productions@[*non_terminal]@,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::get_token_name
//@spec
    requires self.tokens@.contains_key(Symbol::Terminal(index)),
    ensures r@ == self.tokens@[Symbol::Terminal(index)]@,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::terminals_with_names
//@spec
    requires self.wf(),
    ensures r.pos() == 0, named(self, self.ts(), r.seq()),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), self.wf(),
            it0.seq().len() == self.ts().len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == self.ts()[i] && *it0.seq()[i].1 == self.tokens@[self.ts()[i]],
            acc0@.len() == it0.pos(), named(self, self.ts().take(it0.pos() as int), acc0@),
        decreases it0.seq().len() - it0.pos(),
//@at end
    assert(self.ts().take(self.ts().len() as int) =~= self.ts());
//@end
// symbols with their names
pub open spec fn named(g: &Grammar, xs: Seq<Symbol>, s: Seq<(Symbol, &str)>) -> bool {
    s.len() == xs.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == xs[i] && s[i].1@ == tkn(g, xs[i])
}
