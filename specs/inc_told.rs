// ---- conflicts of a grammar built from a rule set can be told ------------------------------------------------
pub proof fn lemma_source(rs: &RuleSet, r: Seq<Rule>, k: nat, sy: Names, n: int, i: int)
    requires built(r, rs, k, sy, n), k <= rs.production_rules@.len(), 0 <= i < r.len(),
    ensures from_rules(rs, r[i]),
    decreases k,
{
    let m = nrules(rs, (k - 1) as nat, sy, n) as int;
    if i < m {
        assert(r.take(m)[i] == r[i]);
        lemma_source(rs, r.take(m), (k - 1) as nat, sy, n, i);
    } else {
        assert(r.take(m).len() == m);
        assert(r[i].rule == &rs.production_rules@[k - 1]);
    }
}
pub open spec fn from_rules(rs: &RuleSet, r: Rule) -> bool { exists|q: int| 0 <= q < rs.production_rules@.len() && r.rule == &#[trigger] rs.production_rules@[q] }
pub open spec fn spans_in(rs: &RuleSet, t: Seq<char>) -> bool { forall|k: int| 0 <= k < rs.production_rules@.len() ==> placed((#[trigger] rs.production_rules@[k]).span, t) }
pub proof fn lemma_item_placed<'g, 'r, const N: usize>(rs: &RuleSet, g: &Grammar, sy: Names, m: u16, t: Seq<char>, en: Item<'g, 'r, N>, a: Item<'g, 'r, N>)
    requires gram_of(rs, g, sy, m), spans_in(rs, t), is_entry(g, en), own_item(g, en, a),
    ensures placed(item_span(core(a)), t),
{
    let r = *a.rule.0;
    if a == en {
        assert(r == g.entry_rule);
        assert(from_rules(rs, r));
    } else {
        let i = choose|i: int| 0 <= i < g.rules@.len() && g.rules@[i] == r;
        lemma_source(rs, g.rules@, rs.production_rules@.len(), sy, m + 1, i);
    }
}
pub proof fn lemma_told<'g, 'r, const N: usize>(rs: &RuleSet, g: &Grammar, sy: Names, m: u16, t: Seq<char>, lalr: bool, allow: bool, x: GenerationResult<'g, 'r, N>, k: int)
    requires gram_of(rs, g, sy, m), spans_in(rs, t), g.wf(), made(g, lalr, allow, x), x matches GenerationResult::BadConflicts(cs) && 0 <= k < cs@.len(),
    ensures tellable(x->BadConflicts_0@[k], g, t),
{
    let (en, p, cs) = choose|en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, cs: Set<Conflict<'g, 'r>>| #[trigger] judged(g, lalr, allow, en, p, cs, x) && tabled(g, lalr, en, p, x);
    let c = x->BadConflicts_0@[k];
    assert(x->BadConflicts_0@.contains(c));
    assert(cs.contains(c));
    let st = p.sts();
    let es = p.es();
    assert(is_conflict(st, es, c));
    if exists|i: int, la: [Symbol; N]| 0 <= i < st.len() && #[trigger] is_rr(st, c, i, la) {
        let (i, la) = choose|i: int, la: [Symbol; N]| 0 <= i < st.len() && #[trigger] is_rr(st, c, i, la);
        let v = choose|v: Seq<Item<'g, 'r, N>>| #[trigger] rr(st, c, i, la, v);
        let items = c->items;
        assert forall|j: int| 0 <= j < items@.len() implies placed(item_span(#[trigger] items@[j]), t) by {
            assert(v.contains(v[j]));
            assert(completed(st[i], la, v[j]));
            assert(st[i].contains(v[j]));
            lemma_item_placed(rs, g, sy, m, t, en, v[j]);
            assert(items@[j] == core(v[j]));
        }
    } else {
        let (i, la, a, w) = choose|i: int, la: [Symbol; N], a: Item<'g, 'r, N>, w: Symbol| 0 <= i < st.len() && #[trigger] sr(st, es, c, i, la, a, w);
        assert(st[i].contains(a));
        lemma_item_placed(rs, g, sy, m, t, en, a);
        if w is Terminal {
            let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == w;
            assert(edge_exact(g, lalr, st, es[j]));
            let b = choose|b: Item<'g, 'r, N>| #[trigger] il(st[i]).contains(b) && moves(b, w);
            assert(st[i].contains(b));
            assert(own_item(g, en, b));
            let r = *b.rule.0;
            assert(g.entry_rule.lhs is None);
            let q = choose|q: int| 0 <= q < g.rules@.len() && g.rules@[q] == r;
            assert(rule_wf(g, g.rules@[q]));
            assert(sym_wf(g, r.rhs@[b.d()]));
            assert(vx_order(g.tokens@.dom()).contains(w));
        }
    }
}
// what a caller of the two steps can conclude
pub broadcast proof fn lemma_tellable<'g, 'r, const N: usize>(rs: &RuleSet, g: &Grammar, sy: Names, m: u16, t: Seq<char>, lalr: bool, allow: bool, x: GenerationResult<'g, 'r, N>)
    requires #[trigger] gram_of(rs, g, sy, m), #[trigger] spans_in(rs, t), g.wf(), #[trigger] made(g, lalr, allow, x),
    ensures x matches GenerationResult::BadConflicts(cs) ==> forall|k: int| 0 <= k < cs@.len() ==> tellable(#[trigger] cs@[k], g, t),
{
    if x is BadConflicts {
        assert forall|k: int| 0 <= k < x->BadConflicts_0@.len() implies tellable(#[trigger] x->BadConflicts_0@[k], g, t) by { lemma_told(rs, g, sy, m, t, lalr, allow, x, k); }
    }
}
pub broadcast proof fn lemma_kind<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, allow: bool, x: GenerationResult<'g, 'r, N>)
    requires #[trigger] made(g, lalr, allow, x),
    ensures x is AllowedConflicts ==> allow, x is BadConflicts ==> !allow,
{
    let (en, p, cs) = choose|en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, cs: Set<Conflict<'g, 'r>>| #[trigger] judged(g, lalr, allow, en, p, cs, x) && tabled(g, lalr, en, p, x);
    assert(outcome(cs, allow, x));
}
