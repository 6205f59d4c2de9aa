// ---- C11: what generation returns ----------------------------------------------------------------------
pub open spec fn lists<T>(v: Seq<T>, s: Set<T>) -> bool { v.no_duplicates() && forall|x: T| #[trigger] v.contains(x) <==> s.contains(x) }
pub open spec fn outcome<'g, 'r, const N: usize>(cs: Set<Conflict<'g, 'r>>, allow: bool, r: GenerationResult<'g, 'r, N>) -> bool {
    match r {
        GenerationResult::NoConflicts(_) => forall|c: Conflict<'g, 'r>| !#[trigger] cs.contains(c),
        GenerationResult::AllowedConflicts { table, conflicts } => allow && conflicts@.len() > 0 && lists(conflicts@, cs),
        GenerationResult::BadConflicts(conflicts) => !allow && conflicts@.len() > 0 && lists(conflicts@, cs),
    }
}
pub open spec fn judged<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, allow: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, cs: Set<Conflict<'g, 'r>>, r: GenerationResult<'g, 'r, N>) -> bool {
    is_entry(g, en) && is_automaton(g, lalr, en, p) && conflicts_exact(p.sts(), p.es(), cs) && outcome(cs, allow, r)
}
