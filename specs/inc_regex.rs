// ---- what a regular expression and a pattern mean: sets of words over characters ---------------------
pub type CW = Seq<char>;
pub type CL = ISet<CW>;
pub open spec fn ccut(x: CL, y: CL, w: CW, i: int) -> bool { 0 <= i <= w.len() && x.contains(w.take(i)) && y.contains(w.skip(i)) }
pub open spec fn ccat(x: CL, y: CL) -> CL { ISet::new(|w: CW| exists|i: int| #[trigger] ccut(x, y, w, i)) }
pub open spec fn cempty() -> CL { ISet::new(|w: CW| w == CW::empty()) }
pub open spec fn cpw(x: CL, k: nat) -> CL
    decreases k,
{ if k == 0 { cempty() } else { ccat(cpw(x, (k - 1) as nat), x) } }
pub open spec fn crep(x: CL, lo: nat, hi: Option<nat>) -> CL {
    ISet::new(|w: CW| exists|k: nat| lo <= k && (hi is None || k <= hi->0) && #[trigger] cpw(x, k).contains(w))
}
pub open spec fn onat(o: Option<u32>) -> Option<nat> { match o { Some(h) => Some(h as nat), None => None } }
pub open spec fn cchar(f: spec_fn(char) -> bool) -> CL { ISet::new(|w: CW| w.len() == 1 && f(w[0])) }

// a pattern
pub open spec fn chas(c: Characters, x: char) -> bool {
    match c { Characters::Single(a) => x == a, Characters::Range(a, b) => a as u32 <= x as u32 <= b as u32 }
}
pub open spec fn anyhas(s: Seq<Characters>, x: char) -> bool { exists|i: int| 0 <= i < s.len() && chas(#[trigger] s[i], x) }
pub open spec fn plang(p: Pattern) -> CL
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => pseq(elements@, elements@.len()),
        Pattern::Alternative { elements } => palt(elements@, elements@.len()),
        Pattern::Repetition { min, max, inner } => crep(plang(*inner), min as nat, onat(max)),
        Pattern::CharSet { chars, negated } => cchar(|x: char| anyhas(chars@, x) != negated),
        Pattern::Char { chars } => cchar(|x: char| chas(chars, x)),
    }
}
pub open spec fn pseq(s: Seq<Pattern>, n: nat) -> CL
    decreases s, n,
{ if n == 0 || n > s.len() { cempty() } else { ccat(pseq(s, (n - 1) as nat), plang(s[n - 1])) } }
pub open spec fn palt(s: Seq<Pattern>, n: nat) -> CL
    decreases s, n,
{ if n == 0 || n > s.len() { ISet::new(|w: CW| false) } else { palt(s, (n - 1) as nat).union(plang(s[n - 1])) } }

// an expression
pub open spec fn inranges(s: Seq<ClassUnicodeRange>, x: char) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_lo as u32 <= x as u32 <= s[i].vx_hi as u32
}
pub open spec fn hlang(h: Hir) -> CL
    decreases h,
{
    match h.vx_kind {
        HirKind::Empty => cempty(),
        HirKind::Literal(l) => ISet::new(|w: CW| l.0.decode() == Some(w)),
        HirKind::Class(Class::Unicode(u)) => cchar(|x: char| inranges(u.vx_ranges@, x)),
        HirKind::Class(Class::Bytes(_)) => ISet::new(|w: CW| false),
        HirKind::Look(_) => ISet::new(|w: CW| false),
        HirKind::Repetition(r) => crep(hlang(*r.sub), r.min as nat, onat(r.max)),
        HirKind::Capture(c) => hlang(*c.sub),
        HirKind::Concat(v) => hseq(v@, v@.len()),
        HirKind::Alternation(v) => halt(v@, v@.len()),
    }
}
pub open spec fn hseq(s: Seq<Hir>, n: nat) -> CL
    decreases s, n,
{ if n == 0 || n > s.len() { cempty() } else { ccat(hseq(s, (n - 1) as nat), hlang(s[n - 1])) } }
pub open spec fn halt(s: Seq<Hir>, n: nat) -> CL
    decreases s, n,
{ if n == 0 || n > s.len() { ISet::new(|w: CW| false) } else { halt(s, (n - 1) as nat).union(hlang(s[n - 1])) } }
// what has no meaning here: empty expressions, look-around, byte classes, lazy repetition, bytes that are no text
pub open spec fn hbad(h: Hir) -> bool
    decreases h,
{
    match h.vx_kind {
        HirKind::Empty => true,
        HirKind::Literal(l) => l.0.decode() is None,
        HirKind::Class(Class::Unicode(u)) => false,
        HirKind::Class(Class::Bytes(_)) => true,
        HirKind::Look(_) => true,
        HirKind::Repetition(r) => !r.greedy || hbad(*r.sub),
        HirKind::Capture(c) => hbad(*c.sub),
        HirKind::Concat(v) => hbads(v@, v@.len()),
        HirKind::Alternation(v) => hbads(v@, v@.len()),
    }
}
pub open spec fn hbads(s: Seq<Hir>, n: nat) -> bool
    decreases s, n,
{ if n == 0 || n > s.len() { false } else { hbads(s, (n - 1) as nat) || hbad(s[n - 1]) } }
pub proof fn lemma_hbads(s: Seq<Hir>, n: nat, m: nat)
    requires n <= m <= s.len(), hbads(s, n),
    ensures hbads(s, m),
    decreases m,
{ if n < m { lemma_hbads(s, n, (m - 1) as nat); } }

// a literal, character by character
pub open spec fn lits(els: Seq<Pattern>, t: Seq<char>) -> bool {
    els.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] els[i] == (Pattern::Char { chars: Characters::Single(t[i]) })
}
pub proof fn lemma_lits(els: Seq<Pattern>, t: Seq<char>, n: nat)
    requires lits(els, t), n <= t.len(),
    ensures pseq(els, n) == ISet::new(|w: CW| w == t.take(n as int)),
    decreases n,
{
    if n == 0 {
        assert(t.take(0) =~= CW::empty());
        assert(pseq(els, n) =~= ISet::new(|w: CW| w == t.take(n as int)));
    } else {
        lemma_lits(els, t, (n - 1) as nat);
        let c = t[n - 1];
        assert(els[n - 1] == (Pattern::Char { chars: Characters::Single(c) }));
        let a = pseq(els, (n - 1) as nat);
        let b = plang(els[n - 1]);
        assert forall|w: CW| ccat(a, b).contains(w) == (w == t.take(n as int)) by {
            if ccat(a, b).contains(w) {
                let i = choose|i: int| #[trigger] ccut(a, b, w, i);
                assert(w =~= w.take(i) + w.skip(i));
                assert(w =~= t.take(n as int));
            }
            if w == t.take(n as int) {
                assert(w.take(n - 1) =~= t.take(n - 1));
                assert(w.skip(n - 1).len() == 1 && w.skip(n - 1)[0] == c);
                assert(ccut(a, b, w, n - 1));
            }
        }
        assert(pseq(els, n) =~= ISet::new(|w: CW| w == t.take(n as int)));
    }
}
pub proof fn lemma_lit_lang(p: Pattern, t: Seq<char>)
    requires p is Sequence, lits(p->Sequence_elements@, t),
    ensures plang(p) == ISet::new(|w: CW| Some(t) == Some(w)),
{
    lemma_lits(p->Sequence_elements@, t, t.len());
    assert(t.take(t.len() as int) =~= t);
    assert(plang(p) =~= ISet::new(|w: CW| Some(t) == Some(w)));
}
pub open spec fn ranged(cs: Seq<Characters>, rs: Seq<ClassUnicodeRange>) -> bool {
    cs.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> #[trigger] cs[i] == Characters::Range(rs[i].vx_lo, rs[i].vx_hi)
}
pub proof fn lemma_ranged(p: Pattern, rs: Seq<ClassUnicodeRange>)
    requires p matches Pattern::CharSet { chars, negated } && !negated && ranged(chars@, rs),
    ensures plang(p) == cchar(|x: char| inranges(rs, x)),
{
    let cs = p->CharSet_chars@;
    assert forall|x: char| anyhas(cs, x) == inranges(rs, x) by {
        if anyhas(cs, x) { let i = choose|i: int| 0 <= i < cs.len() && chas(#[trigger] cs[i], x); assert(cs[i] == Characters::Range(rs[i].vx_lo, rs[i].vx_hi)); assert(rs[i].vx_lo as u32 <= x as u32); }
        if inranges(rs, x) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).vx_lo as u32 <= x as u32 <= rs[i].vx_hi as u32; assert(cs[i] == Characters::Range(rs[i].vx_lo, rs[i].vx_hi)); assert(chas(cs[i], x)); }
    }
    assert(plang(p) =~= cchar(|x: char| inranges(rs, x)));
}
// the parts of a concatenation or alternation
pub open spec fn parts(els: Seq<Pattern>, hs: Seq<Hir>, n: int) -> bool {
    0 <= n <= els.len() && n <= hs.len() && forall|i: int| 0 <= i < n ==> plang(#[trigger] els[i]) == hlang(hs[i])
}
pub proof fn lemma_parts(els: Seq<Pattern>, hs: Seq<Hir>, n: nat)
    requires parts(els, hs, n as int),
    ensures pseq(els, n) == hseq(hs, n), palt(els, n) == halt(hs, n),
    decreases n,
{
    if n > 0 { lemma_parts(els, hs, (n - 1) as nat); assert(plang(els[n - 1]) == hlang(hs[n - 1])); }
}
// ---- the text between a first and a last character -------------------------------------------------
pub open spec fn inside(t: Seq<char>) -> Seq<char> { t.subrange(1, t.len() - 1) }
// between two one-byte characters
pub open spec fn quoted(t: Seq<char>) -> bool { t.len() >= 2 && vx_utf8(t[0]) == 1 && vx_utf8(t.last()) == 1 }
pub open spec fn reads_regex(s: Seq<char>, r: Result<Pattern, RegexConversionError>) -> bool {
    match hir_of(s) {
        None => r is Err,
        Some(h) => (r is Err <==> hbad(h)) && (r is Ok ==> plang(r->Ok_0) == hlang(h)),
    }
}
// a measure for the recursion
pub open spec fn hheight(h: Hir) -> nat
    decreases h,
{
    match h.vx_kind {
        HirKind::Repetition(r) => hheight(*r.sub) + 1,
        HirKind::Capture(c) => hheight(*c.sub) + 1,
        HirKind::Concat(v) => hmaxh(v@, v@.len()) + 1,
        HirKind::Alternation(v) => hmaxh(v@, v@.len()) + 1,
        _ => 0,
    }
}
pub open spec fn hmaxh(s: Seq<Hir>, n: nat) -> nat
    decreases s, n,
{
    if n == 0 || n > s.len() { 0 } else {
        let a = hmaxh(s, (n - 1) as nat);
        let b = hheight(s[n - 1]);
        if a >= b { a } else { b }
    }
}
pub proof fn lemma_hmaxh(s: Seq<Hir>, n: nat, i: int)
    requires 0 <= i < n <= s.len(),
    ensures hheight(s[i]) <= hmaxh(s, n),
    decreases n,
{ if i < n - 1 { lemma_hmaxh(s, (n - 1) as nat, i); } }
impl FromSpecImpl<Error> for RegexConversionError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Error) -> Self { RegexConversionError::RegexSyntax(v) }
}
impl FromSpecImpl<Utf8Error> for RegexConversionError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Utf8Error) -> Self { RegexConversionError::Utf8Conversion(v) }
}
pub proof fn lemma_quoted(t: Seq<char>)
    requires quoted(t),
    ensures
        vx_boff(t, 1) == 1, vx_boff(t, (t.len() - 1) as nat) == vx_boff(t, t.len()) - 1, vx_boff(t, (t.len() - 1) as nat) >= 1,
{
    assert(vx_boff(t, 0) == 0);
    assert(vx_boff(t, 1) == vx_boff(t, 0) + vx_utf8(t[0]));
    assert(vx_boff(t, t.len()) == vx_boff(t, (t.len() - 1) as nat) + vx_utf8(t[t.len() - 1]));
    lemma_boff_le(t, 1, (t.len() - 1) as nat);
}
pub proof fn lemma_boff_le(s: Seq<char>, i: nat, j: nat)
    requires i <= j <= s.len(),
    ensures vx_boff(s, i) <= vx_boff(s, j),
    decreases j,
{ if i < j { lemma_boff_le(s, i, (j - 1) as nat); } }
// one step: the parts mean the same, so the whole does
pub open spec fn shape(p: Pattern, h: Hir) -> bool {
    match h.vx_kind {
        HirKind::Literal(l) => l.0.decode() is Some && p is Sequence && lits(p->Sequence_elements@, l.0.decode()->0),
        HirKind::Class(Class::Unicode(u)) => (p matches Pattern::CharSet { chars, negated } && !negated && ranged(chars@, u.vx_ranges@)),
        HirKind::Repetition(r) => (p matches Pattern::Repetition { min, max, inner } && min == r.min && max == r.max && plang(*inner) == hlang(*r.sub)),
        HirKind::Capture(c) => plang(p) == hlang(*c.sub),
        HirKind::Concat(v) => (p matches Pattern::Sequence { elements } && elements@.len() == v@.len() && parts(elements@, v@, v@.len() as int)),
        HirKind::Alternation(v) => (p matches Pattern::Alternative { elements } && elements@.len() == v@.len() && parts(elements@, v@, v@.len() as int)),
        _ => false,
    }
}
pub proof fn lemma_shape(p: Pattern, h: Hir)
    requires shape(p, h),
    ensures plang(p) == hlang(h),
{
    match h.vx_kind {
        HirKind::Literal(l) => { lemma_lit_lang(p, l.0.decode()->0); assert(plang(p) =~= hlang(h)); }
        HirKind::Class(Class::Unicode(u)) => { lemma_ranged(p, u.vx_ranges@); }
        HirKind::Concat(v) => { lemma_parts(p->Sequence_elements@, v@, v@.len()); }
        HirKind::Alternation(v) => { lemma_parts(p->Alternative_elements@, v@, v@.len()); }
        _ => { }
    }
}
