// ---- the action/goto table ---------------------------------------------------------------------------
//@type lapex-parser/src/lr_parser/mod.rs TableEntry
//@type lapex-parser/src/lr_parser/mod.rs ActionGotoTable
//@type lapex-parser/src/lr_parser/mod.rs GenerationResult
pub type TE<'g, 'r> = TableEntry<'g, 'r>;
pub type Cells<'g, 'r> = Map<(usize, Symbol), Vec<TE<'g, 'r>>>;
// what a cell holds
pub open spec fn cell<'g, 'r>(m: Cells<'g, 'r>, i: int, x: Symbol) -> Seq<TE<'g, 'r>> {
    if m.contains_key((i as usize, x)) { m[(i as usize, x)]@ } else { Seq::empty() }
}
pub open spec fn filled<'g, 'r>(m: Cells<'g, 'r>) -> bool { forall|k: (usize, Symbol)| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0 }
// one entry added to one cell
pub open spec fn put<'g, 'r>(m: Cells<'g, 'r>, i: int, x: Symbol, e: TE<'g, 'r>, n: Cells<'g, 'r>) -> bool {
    &&& filled(m) ==> filled(n)
    &&& forall|j: int, y: Symbol| 0 <= j <= usize::MAX ==> #[trigger] cell(n, j, y) == (if j == i && y == x { cell(m, i, x).push(e) } else { cell(m, j, y) })
}
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::new
//@spec
    ensures filled(r.entries@), forall|i: int, x: Symbol| (#[trigger] cell(r.entries@, i, x)).len() == 0, r.state_count == state_count, r.entry_state == entry_state,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::get_entry
//@spec
    ensures
        r is Some <==> self.entries@.contains_key((state, symbol)),
        r is Some ==> r == Some(&self.entries@[(state, symbol)]) && r->0@ == cell(self.entries@, state as int, symbol),
        r is None ==> cell(self.entries@, state as int, symbol).len() == 0,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::entry_state
//@spec
    ensures r == self.entry_state,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::states
//@spec
    ensures r == self.state_count,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::insert_reduce
//@spec
    ensures put(old(self).entries@, state.i as int, symbol, TableEntry::Reduce { rule }, final(self).entries@), final(self).state_count == old(self).state_count, final(self).entry_state == old(self).entry_state,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::insert_shift
//@spec
    ensures put(old(self).entries@, state.i as int, symbol, TableEntry::Shift { target: target.i }, final(self).entries@), final(self).state_count == old(self).state_count, final(self).entry_state == old(self).entry_state,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::insert_error
//@spec
    ensures put(old(self).entries@, state.i as int, symbol, TableEntry::Error, final(self).entries@), final(self).state_count == old(self).state_count, final(self).entry_state == old(self).entry_state,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::insert_accept
//@spec
    ensures put(old(self).entries@, state.i as int, symbol, TableEntry::Accept, final(self).entries@), final(self).state_count == old(self).state_count, final(self).entry_state == old(self).entry_state,
//@end
// the cells of a state, listed by terminal (and end of input) and by nonterminal
pub open spec fn listed<'a, 'g, 'r>(m: Cells<'g, 'r>, i: usize, xs: Seq<Symbol>, s: Seq<(Symbol, Option<&'a Vec<TE<'g, 'r>>>)>) -> bool {
    s.len() == xs.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 == xs[k] && (match s[k].1 { Some(v) => m.contains_key((i, xs[k])) && *v == m[(i, xs[k])], None => !m.contains_key((i, xs[k])) })
}
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::iter_state_terminals
//@spec
    ensures r.pos() == 0, listed(self.entries@, state, grammar.ts().push(Symbol::End), r.seq()),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() =~= grammar.ts().push(Symbol::End),
            acc0@.len() == it0.pos(), listed(self.entries@, state, it0.seq().take(it0.pos() as int), acc0@),
        decreases it0.seq().len() - it0.pos(),
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::iter_state_non_terminals
//@spec
    ensures r.pos() == 0, listed(self.entries@, state, grammar.nts(), r.seq()),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == grammar.nts(),
            acc0@.len() == it0.pos(), listed(self.entries@, state, it0.seq().take(it0.pos() as int), acc0@),
        decreases it0.seq().len() - it0.pos(),
//@end

// ---- what the cells must hold
// item a calls for its reduction on x
pub open spec fn looks<const N: usize>(g: &Grammar, a: Item<N>, x: Symbol) -> bool {
    a.after() is None && if N == 0 { g.ts().contains(x) || x == Symbol::End } else { a.lookahead@[0] == x }
}
pub open spec fn selects<'g, 'r, const N: usize>(g: &Grammar, s: Set<Item<'g, 'r, N>>, x: Symbol, v: Seq<Item<'g, 'r, N>>) -> bool {
    v.no_duplicates() && forall|a: Item<'g, 'r, N>| #[trigger] v.contains(a) <==> s.contains(a) && looks(g, a, x)
}
pub open spec fn red<'g, 'r, const N: usize>(a: Item<'g, 'r, N>) -> TE<'g, 'r> { TableEntry::Reduce { rule: a.rule.0 } }
pub open spec fn reds<'g, 'r, const N: usize>(v: Seq<Item<'g, 'r, N>>) -> Seq<TE<'g, 'r>> { Seq::new(v.len(), |i: int| red(v[i])) }
// the state i moves on x to t
pub open spec fn leads(es: Seq<GEdge<Symbol>>, i: int, x: Symbol, t: int) -> bool { exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x && es[j].t.i == t }
// besides the reductions: accept for the entry symbol in the entry state, the shift, or an error where nothing applies
pub open spec fn rest_ok<'g, 'r>(g: &Grammar, es: Seq<GEdge<Symbol>>, en: int, i: int, x: Symbol, none: bool, w: Seq<TE<'g, 'r>>) -> bool {
    if i == en && x == g.entry_symbol { w == seq![TE::<'g, 'r>::Accept] }
    else if exists|t: int| leads(es, i, x, t) { exists|t: usize| leads(es, i, x, t as int) && w == seq![#[trigger] shift_to::<'g, 'r>(t)] }
    else { w.len() == 0 || (none && w == seq![TE::<'g, 'r>::Error]) }
}
pub open spec fn shift_to<'g, 'r>(t: usize) -> TE<'g, 'r> { TableEntry::Shift { target: t } }
pub open spec fn cell_made<'g, 'r, const N: usize>(c: Seq<TE<'g, 'r>>, g: &Grammar, st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, en: int, i: int, x: Symbol, v: Seq<Item<'g, 'r, N>>, w: Seq<TE<'g, 'r>>) -> bool {
    selects(g, st[i], x, v) && rest_ok(g, es, en, i, x, v.len() == 0, w) && c.to_multiset() == (reds(v) + w).to_multiset()
}
// C12: a cell
pub open spec fn cell_ok<'g, 'r, const N: usize>(c: Seq<TE<'g, 'r>>, g: &Grammar, st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, en: int, i: int, x: Symbol) -> bool {
    exists|v: Seq<Item<'g, 'r, N>>, w: Seq<TE<'g, 'r>>| #[trigger] cell_made(c, g, st, es, en, i, x, v, w)
}
pub open spec fn entry_sane<'g, 'r>(g: &Grammar, n: int, e: TE<'g, 'r>) -> bool {
    match e { TableEntry::Shift { target } => target < n, TableEntry::Reduce { rule } => g.rules@.contains(*rule), _ => true }
}
pub open spec fn table_ok<'g, 'r, const N: usize>(g: &Grammar, p: ParserGraph<'g, 'r, N>, t: ActionGotoTable<'g, 'r>) -> bool {
    &&& t.state_count == p.sts().len() && t.entry_state == p.entry_state->0.i && filled(t.entries@)
    &&& forall|i: int, x: Symbol| 0 <= i < p.sts().len() ==> cell_ok(#[trigger] cell(t.entries@, i, x), g, p.sts(), p.es(), t.entry_state as int, i, x)
    &&& forall|i: int, x: Symbol, k: int| 0 <= i < p.sts().len() && 0 <= k < cell(t.entries@, i, x).len() ==> entry_sane(g, p.sts().len() as int, #[trigger] cell(t.entries@, i, x)[k])
    &&& forall|i: int, x: Symbol| p.sts().len() <= i <= usize::MAX ==> (#[trigger] cell(t.entries@, i, x)).len() == 0
}
// the entries of the first k items
pub open spec fn sel<'g, 'r, const N: usize>(g: &Grammar, o: Seq<Item<'g, 'r, N>>, k: int, x: Symbol) -> Seq<Item<'g, 'r, N>>
    decreases k,
{ if k <= 0 { Seq::empty() } else if looks(g, o[k - 1], x) { sel(g, o, k - 1, x).push(o[k - 1]) } else { sel(g, o, k - 1, x) } }
pub proof fn lemma_sel<'g, 'r, const N: usize>(g: &Grammar, o: Seq<Item<'g, 'r, N>>, k: int, x: Symbol)
    requires o.no_duplicates(), 0 <= k <= o.len(),
    ensures
        sel(g, o, k, x).no_duplicates(),
        forall|a: Item<'g, 'r, N>| #[trigger] sel(g, o, k, x).contains(a) <==> looks(g, a, x) && exists|j: int| 0 <= j < k && #[trigger] o[j] == a,
    decreases k,
{
    if k > 0 {
        lemma_sel(g, o, k - 1, x);
        let s = sel(g, o, k - 1, x);
        if looks(g, o[k - 1], x) {
            lemma_push_has(s, o[k - 1]);
            if s.contains(o[k - 1]) { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] o[j] == o[k - 1]; assert(false); }
            assert(s.push(o[k - 1]).no_duplicates());
        }
        assert forall|a: Item<'g, 'r, N>| #[trigger] sel(g, o, k, x).contains(a) <==> looks(g, a, x) && exists|j: int| 0 <= j < k && #[trigger] o[j] == a by {
            if looks(g, a, x) && exists|j: int| 0 <= j < k && #[trigger] o[j] == a {
                let j = choose|j: int| 0 <= j < k && #[trigger] o[j] == a;
                if j < k - 1 { assert(s.contains(a)); }
            }
            if sel(g, o, k, x).contains(a) {
                if s.contains(a) { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] o[j] == a; assert(o[j] == a); } else { assert(o[k - 1] == a); }
            }
        }
    }
}
// a state's cells from its items and edges
pub proof fn lemma_cell<'g, 'r, const N: usize>(c: Seq<TE<'g, 'r>>, g: &Grammar, st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, en: int, i: int, x: Symbol, w: Seq<TE<'g, 'r>>)
    requires c == reds(sel(g, vx_order(st[i]), vx_order(st[i]).len() as int, x)) + w, rest_ok(g, es, en, i, x, sel(g, vx_order(st[i]), vx_order(st[i]).len() as int, x).len() == 0, w),
    ensures cell_ok(c, g, st, es, en, i, x),
{
    let o = vx_order(st[i]);
    lemma_sel(g, o, o.len() as int, x);
    let v = sel(g, o, o.len() as int, x);
    assert forall|a: Item<'g, 'r, N>| #[trigger] v.contains(a) <==> st[i].contains(a) && looks(g, a, x) by {
        if st[i].contains(a) { assert(o.contains(a)); let j = choose|j: int| 0 <= j < o.len() && o[j] == a; assert(o[j] == a); }
    }
    assert(cell_made(c, g, st, es, en, i, x, v, w));
}
pub proof fn lemma_pairs_map<K, V>(s: Seq<(K, V)>, k: K)
    ensures
        pairs_to_map(s).contains_key(k) <==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k,
        pairs_to_map(s).contains_key(k) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k && s[j].1 == pairs_to_map(s)[k],
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_pairs_map(d, k);
        let l = s.len() - 1;
        assert(s[l] == s.last());
        if pairs_to_map(d).contains_key(k) {
            let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == k && d[j].1 == pairs_to_map(d)[k];
            assert(s[j] == d[j]);
        }
        if exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k;
            if j < l { assert(d[j] == s[j]); }
        }
    }
}
// what build_table needs of the graph (C10 gives it)
pub open spec fn a_symbol(g: &Grammar, x: Symbol) -> bool { g.ts().contains(x) || g.nts().contains(x) }
pub open spec fn graph_fit<'g, 'r, const N: usize>(g: &Grammar, p: ParserGraph<'g, 'r, N>) -> bool {
    &&& N <= 1 && g.wf() && p.wf() && p.entry_state is Some && p.entry_state->0.i < p.sts().len()
    &&& functional(p.es())
    &&& forall|j: int| 0 <= j < p.es().len() ==> (#[trigger] p.es()[j]).t.i < p.sts().len() && a_symbol(g, p.es()[j].w)
    &&& forall|i: int, a: Item<'g, 'r, N>| 0 <= i < p.sts().len() && #[trigger] p.sts()[i].contains(a) && a.after() is None ==> g.rules@.contains(*a.rule.0)
}
pub proof fn lemma_fit<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>)
    requires N <= 1, g.wf(), is_entry(g, en), is_automaton(g, lalr, en, p), tidy(g, lalr, en, p),
    ensures graph_fit(g, p),
{
    assert forall|i: int, a: Item<'g, 'r, N>| 0 <= i < p.sts().len() && #[trigger] p.sts()[i].contains(a) && a.after() is None implies g.rules@.contains(*a.rule.0) by {
        assert(own_item(g, en, a));
        assert(en.after() is Some);
    }
    assert forall|j: int| 0 <= j < p.es().len() implies (#[trigger] p.es()[j]).t.i < p.sts().len() && a_symbol(g, p.es()[j].w) by {
        let e = p.es()[j];
        assert(edge_exact(g, lalr, p.sts(), e));
        let s = p.sts()[e.s.i as int];
        let a = choose|a: Item<'g, 'r, N>| #[trigger] il(s).contains(a) && moves(a, e.w);
        assert(s.contains(a));
        assert(own_item(g, en, a));
        assert(a != en);
        let k = choose|k: int| 0 <= k < g.rules@.len() && g.rules@[k] == *a.rule.0;
        assert(rule_wf(g, g.rules@[k]));
        assert(sym_wf(g, g.rules@[k].rhs@[a.d()]));
    }
}
pub open spec fn seen_state<'a, 'g, 'r, const N: usize>(s: Seq<(&'a BTreeSet<Item<'g, 'r, N>>, &'a NodeIndex)>, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && (*(#[trigger] s[j]).1).i == i }
pub proof fn lemma_listed_once<'a, 'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, s: Seq<(&'a BTreeSet<Item<'g, 'r, N>>, &'a NodeIndex)>, k: int)
    requires p.wf(), pairs_of(p.state_map.a_b_map@, s), 0 <= k < s.len(),
    ensures !seen_state(s, k, (*s[k].1).i as int),
{
    if seen_state(s, k, (*s[k].1).i as int) {
        let j = choose|j: int| 0 <= j < k && (*(#[trigger] s[j]).1).i == (*s[k].1).i;
        let o = vx_order(p.state_map.a_b_map@.dom());
        assert(p.state_map.a_b_map@.contains_key(o[j]) && p.state_map.a_b_map@.contains_key(o[k]));
        assert(p.state_map.a_b_map@[o[j]] == p.state_map.a_b_map@[o[k]]) by { assert(*s[j].1 == *s[k].1); }
        assert(o[j] == o[k]);
    }
}
pub open spec fn tail_of<'g, 'r>(g: &Grammar, rm: Map<Symbol, NodeIndex>, en: int, i: int, x: Symbol, none: bool) -> Seq<TE<'g, 'r>> {
    if i == en && x == g.entry_symbol { seq![TableEntry::Accept] } else if rm.contains_key(x) { seq![shift_to(rm[x].i)] } else if none { seq![TableEntry::Error] } else { Seq::empty() }
}
pub open spec fn targets(es: Seq<GEdge<Symbol>>, i: int, rm: Map<Symbol, NodeIndex>) -> bool {
    &&& forall|x: Symbol, t: int| #[trigger] leads(es, i, x, t) ==> rm.contains_key(x)
    &&& forall|x: Symbol| #[trigger] rm.contains_key(x) ==> leads(es, i, x, rm[x].i as int)
}
pub open spec fn state_cells<'g, 'r, const N: usize>(m: Cells<'g, 'r>, g: &Grammar, p: ParserGraph<'g, 'r, N>, en: int, i: int) -> bool {
    forall|x: Symbol| cell_ok(#[trigger] cell(m, i, x), g, p.sts(), p.es(), en, i, x) && forall|k: int| 0 <= k < cell(m, i, x).len() ==> entry_sane(g, p.sts().len() as int, #[trigger] cell(m, i, x)[k])
}
pub proof fn lemma_state_cells<'g, 'r, const N: usize>(m: Cells<'g, 'r>, n: Cells<'g, 'r>, g: &Grammar, p: ParserGraph<'g, 'r, N>, i: int, rm: Map<Symbol, NodeIndex>)
    requires
        graph_fit(g, p), 0 <= i < p.sts().len(), targets(p.es(), i, rm),
        forall|x: Symbol| #[trigger] cell(m, i, x) == reds(sel(g, vx_order(p.sts()[i]), vx_order(p.sts()[i]).len() as int, x)),
        forall|x: Symbol| #[trigger] cell(n, i, x) == (if a_symbol(g, x) { cell(m, i, x) + tail_of(g, rm, p.entry_state->0.i as int, i, x, cell(m, i, x).len() == 0) } else { cell(m, i, x) }),
    ensures state_cells(n, g, p, p.entry_state->0.i as int, i),
{
    let en = p.entry_state->0.i as int;
    let o = vx_order(p.sts()[i]);
    assert forall|x: Symbol| cell_ok(#[trigger] cell(n, i, x), g, p.sts(), p.es(), en, i, x) && forall|k: int| 0 <= k < cell(n, i, x).len() ==> entry_sane(g, p.sts().len() as int, #[trigger] cell(n, i, x)[k]) by {
        let v = sel(g, o, o.len() as int, x);
        let none = v.len() == 0;
        let w: Seq<TE<'g, 'r>> = if a_symbol(g, x) { tail_of(g, rm, en, i, x, none) } else { Seq::empty() };
        assert(cell(m, i, x) == reds(v));
        assert(cell(n, i, x) =~= reds(v) + w);
        if !a_symbol(g, x) {
            assert(x != g.entry_symbol);
            if exists|t: int| leads(p.es(), i, x, t) {
                let t = choose|t: int| leads(p.es(), i, x, t);
                let j = choose|j: int| 0 <= j < p.es().len() && (#[trigger] p.es()[j]).s.i == i && p.es()[j].w == x && p.es()[j].t.i == t;
            }
        } else if !(i == en && x == g.entry_symbol) && rm.contains_key(x) {
            assert(leads(p.es(), i, x, rm[x].i as int));
            assert(w == seq![shift_to::<'g, 'r>(rm[x].i)]);
        }
        assert(rest_ok(g, p.es(), en, i, x, none, w));
        lemma_cell(cell(n, i, x), g, p.sts(), p.es(), en, i, x, w);
        assert forall|k: int| 0 <= k < cell(n, i, x).len() implies entry_sane(g, p.sts().len() as int, #[trigger] cell(n, i, x)[k]) by {
            if k < v.len() {
                lemma_sel(g, o, o.len() as int, x);
                assert(v.contains(v[k]));
                let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == v[k];
                assert(p.sts()[i].contains(v[k]));
            } else if w.len() > 0 && !(i == en && x == g.entry_symbol) && rm.contains_key(x) {
                let t = rm[x].i as int;
                let j = choose|j: int| 0 <= j < p.es().len() && (#[trigger] p.es()[j]).s.i == i && p.es()[j].w == x && p.es()[j].t.i == t;
            }
        }
    }
}
pub open spec fn same_but<'g, 'r>(m: Cells<'g, 'r>, n: Cells<'g, 'r>, i: int) -> bool { forall|j: int, y: Symbol| 0 <= j <= usize::MAX && j != i ==> #[trigger] cell(n, j, y) == cell(m, j, y) }
pub proof fn lemma_takes<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|x: T| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k], s.no_duplicates() ==> !s.take(k).contains(s[k]),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_push_has(s.take(k), s[k]);
}
pub proof fn lemma_symbols(g: &Grammar)
    requires g.wf(),
    ensures (g.ts() + g.nts()).no_duplicates(), forall|x: Symbol| #[trigger] (g.ts() + g.nts()).contains(x) <==> a_symbol(g, x), g.ts().push(Symbol::End).no_duplicates(),
        forall|x: Symbol| #[trigger] g.ts().push(Symbol::End).contains(x) <==> g.ts().contains(x) || x == Symbol::End,
{
    let s = g.ts() + g.nts();
    lemma_push_has(g.ts(), Symbol::End);
    assert forall|x: Symbol| #[trigger] s.contains(x) <==> a_symbol(g, x) by {
        if g.ts().contains(x) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == x; assert(s[j] == x); }
        if g.nts().contains(x) { let j = choose|j: int| 0 <= j < g.nts().len() && g.nts()[j] == x; assert(s[g.ts().len() + j] == x); }
    }
}
//@fn lapex-parser/src/lr_parser/mod.rs build_table
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires graph_fit(grammar, parser_graph),
    ensures table_ok(grammar, parser_graph, r),
//@at start
    let ghost st = parser_graph.sts();
    let ghost es = parser_graph.es();
    let ghost en = parser_graph.entry_state->0.i as int;
    proof { lemma_symbols(grammar); }
//@loop 0
        invariant it0.pos() <= it0.seq().len(), it0.seq().len() == st.len(), acc0 == it0.pos(), st.len() <= usize::MAX,
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), pairs_of(parser_graph.state_map.a_b_map@, it1.seq()),
            table.state_count == st.len(), table.entry_state == en, filled(table.entries@),
            forall|k: int| 0 <= k < it1.pos() ==> state_cells(table.entries@, grammar, parser_graph, en, (*(#[trigger] it1.seq()[k]).1).i as int),
            forall|i: int, x: Symbol| 0 <= i <= usize::MAX && !seen_state(it1.seq(), it1.pos() as int, i) ==> (#[trigger] cell(table.entries@, i, x)).len() == 0,
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost m0 = table.entries@;
    let ghost n = (*state).i as int;
    let ghost s = item_set@;
    let ghost ord = vx_order(s);
    let ghost mut m2 = table.entries@;
    let ghost mut rm = Map::<Symbol, NodeIndex>::empty();
    proof {
        lemma_listed(parser_graph, it1.seq(), it1.pos() - 1);
        lemma_listed_once(parser_graph, it1.seq(), it1.pos() - 1);
        assert(st[n] == s);
        assert(nx(n) == *state);
        assert forall|x: Symbol| #[trigger] cell(m0, n, x) == reds(sel(grammar, ord, 0, x)) by { assert(cell(m0, n, x) =~= reds(sel(grammar, ord, 0, x))); }
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == ord.len(),
            forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == ord[i],
            table.state_count == st.len(), table.entry_state == en, filled(table.entries@),
            same_but(m0, table.entries@, n),
            forall|x: Symbol| #[trigger] cell(table.entries@, n, x) == reds(sel(grammar, ord, it2.pos() as int, x)),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost m1 = table.entries@;
    let ghost cur = *it2.seq()[it2.pos() - 1];
//@at loop 2 end
    proof {
        let kk = it2.pos() - 1;
        assert forall|x: Symbol| #[trigger] cell(table.entries@, n, x) == reds(sel(grammar, ord, kk + 1, x)) by {
            assert(cell(m1, n, x) == reds(sel(grammar, ord, kk, x)));
            assert(cell(table.entries@, n, x) =~= (if looks(grammar, cur, x) { cell(m1, n, x).push(red(cur)) } else { cell(m1, n, x) }));
            assert(reds(sel(grammar, ord, kk + 1, x)) =~= (if looks(grammar, cur, x) { reds(sel(grammar, ord, kk, x)).push(red(cur)) } else { reds(sel(grammar, ord, kk, x)) }));
        }
    }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), it3.seq() =~= grammar.ts().push(Symbol::End),
            table.state_count == st.len(), table.entry_state == en, filled(table.entries@),
            same_but(m1, table.entries@, n),
            forall|x: Symbol| #[trigger] cell(table.entries@, n, x) == (if it3.seq().take(it3.pos() as int).contains(x) { cell(m1, n, x).push(red(cur)) } else { cell(m1, n, x) }),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    proof { lemma_takes(it3.seq(), it3.pos() - 1); }
//@at loop 3 after
    proof {
        assert(it3.seq().take(it3.pos() as int) =~= it3.seq());
    }
//@loop 4
        invariant
            it4.pos() <= it4.seq().len(), out_refs(es, *state, it4.seq()),
            acc1@.len() == it4.pos(),
            forall|j: int| 0 <= j < acc1@.len() ==> (#[trigger] acc1@[j]) == (es[vx_out(es, *state)[j]].w, es[vx_out(es, *state)[j]].t),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 after
    proof {
        let out = vx_out(es, *state);
        let ps = acc1@;
        rm = pairs_to_map(ps);
        m2 = table.entries@;
        assert forall|x: Symbol, t: int| #[trigger] leads(es, n, x, t) implies rm.contains_key(x) by {
            let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == n && es[j].w == x && es[j].t.i == t;
            assert(es[j].s == *state);
            assert(out.contains(j));
            let q = choose|q: int| 0 <= q < out.len() && out[q] == j;
            assert(ps[q].0 == x);
            lemma_pairs_map(ps, x);
        }
        assert forall|x: Symbol| #[trigger] rm.contains_key(x) implies leads(es, n, x, rm[x].i as int) by {
            lemma_pairs_map(ps, x);
            let q = choose|q: int| 0 <= q < ps.len() && (#[trigger] ps[q]).0 == x && ps[q].1 == rm[x];
            assert(es[out[q]].s == *state);
        }
    }
//@loop 5
        invariant
            it5.pos() <= it5.seq().len(), it5.seq() == grammar.ts() + grammar.nts(), reachable_states@ == rm, targets(es, n, rm),
            table.state_count == st.len(), table.entry_state == en, filled(table.entries@),
            same_but(m2, table.entries@, n),
            forall|x: Symbol| #[trigger] cell(table.entries@, n, x) == (if it5.seq().take(it5.pos() as int).contains(x) { cell(m2, n, x) + tail_of(grammar, rm, en, n, x, cell(m2, n, x).len() == 0) } else { cell(m2, n, x) }),
        decreases it5.seq().len() - it5.pos(),
//@at loop 5 start
    let ghost m3 = table.entries@;
    proof { lemma_takes(it5.seq(), it5.pos() - 1); assert(cell(m3, n, symbol) == cell(m2, n, symbol)); }
//@at loop 5 end
    proof {
        let m4 = table.entries@;
        let w = tail_of::<'grammar, 'rules>(grammar, rm, en, n, symbol, cell(m2, n, symbol).len() == 0);
        assert(cell(m4, n, symbol) =~= cell(m2, n, symbol) + w);
        assert forall|x: Symbol| #[trigger] cell(m4, n, x) == (if it5.seq().take(it5.pos() as int).contains(x) { cell(m2, n, x) + tail_of(grammar, rm, en, n, x, cell(m2, n, x).len() == 0) } else { cell(m2, n, x) }) by {
            if x != symbol { assert(cell(m4, n, x) == cell(m3, n, x)); }
        }
    }
//@at loop 5 after
    proof {
        assert(it5.seq().take(it5.pos() as int) =~= it5.seq());
        lemma_state_cells(m2, table.entries@, grammar, parser_graph, n, rm);
    }
//@at loop 1 end
    proof {
        let m4 = table.entries@;
        assert(same_but(m0, m4, n));
        assert forall|k: int| 0 <= k < it1.pos() implies state_cells(m4, grammar, parser_graph, en, (*(#[trigger] it1.seq()[k]).1).i as int) by {
            let i = (*it1.seq()[k].1).i as int;
            if k < it1.pos() - 1 {
                assert(seen_state(it1.seq(), it1.pos() - 1, i));
                assert(state_cells(m0, grammar, parser_graph, en, i));
                assert forall|x: Symbol| cell_ok(#[trigger] cell(m4, i, x), grammar, st, es, en, i, x) && forall|k: int| 0 <= k < cell(m4, i, x).len() ==> entry_sane(grammar, st.len() as int, #[trigger] cell(m4, i, x)[k]) by {
                    assert(cell(m4, i, x) == cell(m0, i, x));
                }
            }
        }
        assert forall|i: int, x: Symbol| 0 <= i <= usize::MAX && !seen_state(it1.seq(), it1.pos() as int, i) implies (#[trigger] cell(m4, i, x)).len() == 0 by {
            assert((*it1.seq()[it1.pos() - 1].1).i == n);
            assert(i != n);
            assert(cell(m4, i, x) == cell(m0, i, x));
            if seen_state(it1.seq(), it1.pos() - 1, i) {
                let j = choose|j: int| 0 <= j < it1.pos() - 1 && (*(#[trigger] it1.seq()[j]).1).i == i;
                assert(seen_state(it1.seq(), it1.pos() as int, i));
            }
        }
    }
//@at loop 1 after
    proof {
        let m4 = table.entries@;
        assert forall|i: int| 0 <= i < st.len() implies #[trigger] state_cells(m4, grammar, parser_graph, en, i) by {
            let k = lemma_all_listed(parser_graph, it1.seq(), i);
            assert((*it1.seq()[k].1).i == i);
        }
        assert forall|i: int, x: Symbol| 0 <= i < st.len() implies cell_ok(#[trigger] cell(m4, i, x), grammar, st, es, en, i, x) by { assert(state_cells(m4, grammar, parser_graph, en, i)); }
        assert forall|i: int, x: Symbol, k: int| 0 <= i < st.len() && 0 <= k < cell(m4, i, x).len() implies entry_sane(grammar, st.len() as int, #[trigger] cell(m4, i, x)[k]) by { assert(state_cells(m4, grammar, parser_graph, en, i)); assert(cell_ok(cell(m4, i, x), grammar, st, es, en, i, x)); }
        assert forall|i: int, x: Symbol| st.len() <= i <= usize::MAX implies (#[trigger] cell(m4, i, x)).len() == 0 by {
            if seen_state(it1.seq(), it1.pos() as int, i) {
                let j = choose|j: int| 0 <= j < it1.pos() && (*(#[trigger] it1.seq()[j]).1).i == i;
                lemma_listed(parser_graph, it1.seq(), j);
            }
        }
    }
//@end
