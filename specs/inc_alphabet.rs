// ---- characters a pattern mentions --------------------------------------------------------------
pub open spec fn mention1(c: Characters) -> Set<char> {
    match c {
        Characters::Single(a) => set![a],
        Characters::Range(a, b) => set![a, b],
    }
}
pub open spec fn mention_chars(s: Seq<Characters>, n: nat) -> Set<char>
    decreases n,
{ if n == 0 || n > s.len() { Set::empty() } else { mention_chars(s, (n - 1) as nat).union(mention1(s[n - 1])) } }
pub open spec fn mention(p: Pattern) -> Set<char>
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => mention_seq(elements@, elements@.len()),
        Pattern::Alternative { elements } => mention_seq(elements@, elements@.len()),
        Pattern::Repetition { min, max, inner } => mention(*inner),
        Pattern::CharSet { chars, negated } => mention_chars(chars@, chars@.len()),
        Pattern::Char { chars } => mention1(chars),
    }
}
pub open spec fn mention_seq(s: Seq<Pattern>, n: nat) -> Set<char>
    decreases s, n,
{ if n == 0 || n > s.len() { Set::empty() } else { mention_seq(s, (n - 1) as nat).union(mention(s[n - 1])) } }
pub open spec fn rule_mention(r: TokenRule) -> Set<char> {
    match r.pattern {
        TokenPattern::Literal { characters } => characters@.to_set(),
        TokenPattern::Pattern { pattern } => mention(pattern),
    }
}

// ---- partition of 0..=upto ----------------------------------------------------------------------
pub open spec fn contiguous(s: Seq<RangeInclusive<u32>>, upto: int) -> bool {
    &&& s.len() > 0
    &&& s[0].start == 0
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start <= s[i].end
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] adj(s, i)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).end < (#[trigger] s[j]).start
    &&& s[s.len() - 1].end == upto
}
pub open spec fn own_range(s: Seq<RangeInclusive<u32>>, c: char) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).start == c as u32 && s[i].end == c as u32
}
impl Alphabet {
    pub open spec fn wf(&self) -> bool { contiguous(self.ranges@, 0x10FFFF) }
}
pub open spec fn adj(s: Seq<RangeInclusive<u32>>, i: int) -> bool { s[i].end + 1 == s[i + 1].start }
pub open spec fn in_range(r: RangeInclusive<u32>, x: int) -> bool { r.start <= x <= r.end }
pub proof fn lemma_locate(s: Seq<RangeInclusive<u32>>, n: int, x: int)
    requires
        s.len() > 0, s[0].start == 0, 0 < n <= s.len(), 0 <= x <= s[n - 1].end,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start <= s[i].end,
        forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] adj(s, i),
    ensures exists|m: int| 0 <= m < n && in_range(#[trigger] s[m], x),
    decreases n,
{
    if x >= s[n - 1].start { assert(in_range(s[n - 1], x)); }
    else { assert(adj(s, n - 2)); lemma_locate(s, n - 1, x); }
}

// ---- a literal as a pattern ---------------------------------------------------------------------
pub open spec fn lit_of(p: Pattern, cs: Seq<char>) -> bool {
    p matches Pattern::Sequence { elements } && elements@.len() == cs.len()
        && forall|i: int| 0 <= i < cs.len() ==> #[trigger] elements@[i] == (Pattern::Char { chars: Characters::Single(cs[i]) })
}
pub broadcast proof fn lemma_lit(p: Pattern, cs: Seq<char>)
    requires #[trigger] lit_of(p, cs),
    ensures mention(p) == cs.to_set(),
{
    lemma_lit_n(p->Sequence_elements@, cs, cs.len());
    assert(cs.take(cs.len() as int) == cs);
}
pub proof fn lemma_lit_n(els: Seq<Pattern>, cs: Seq<char>, n: nat)
    requires n <= cs.len() == els.len(), forall|i: int| 0 <= i < cs.len() ==> #[trigger] els[i] == (Pattern::Char { chars: Characters::Single(cs[i]) }),
    ensures mention_seq(els, n) == cs.take(n as int).to_set(),
    decreases n,
{
    if n > 0 {
        lemma_lit_n(els, cs, (n - 1) as nat);
        assert(cs.take(n as int).drop_last() == cs.take(n - 1));
        assert forall|c: char| mention_seq(els, n).contains(c) == cs.take(n as int).to_set().contains(c) by {
            assert(els[n - 1] == (Pattern::Char { chars: Characters::Single(cs[n - 1]) }));
            assert(mention(els[n - 1]) == set![cs[n - 1]]);
            assert(cs.take(n as int)[n - 1] == cs[n - 1]);
            if cs.take(n as int).contains(c) {
                let k = choose|k: int| 0 <= k < n && cs.take(n as int)[k] == c;
                if k < n - 1 { assert(cs.take(n - 1)[k] == c); }
            }
            if cs.take(n - 1).contains(c) {
                let t = cs.take(n - 1);
                let k = choose|k: int| 0 <= k < n - 1 && t[k] == c;
                assert(cs.take(n as int)[k] == c);
            }
        }
        assert(mention_seq(els, n) =~= cs.take(n as int).to_set());
    } else {
        assert(cs.take(0).to_set() =~= Set::<char>::empty());
    }
}
