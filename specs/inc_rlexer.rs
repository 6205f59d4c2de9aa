//@stage lapex-rust-codegen/src/lexer/mod.rs as=rlexer
prog write_lexer LexProg
arms write_lexer alphabet_cases AlphaArm u32
arms write_lexer alphabet_reverse_cases RangeArm usize
arms write_lexer automaton_cases AutoArm (usize, Option<usize>)
var i usize
var start u32
var end u32
var state_id usize
var transition usize
var target_index usize
var name VxName
named TokenType
ghost LexG<'_>
//@end
//@include inc_tokens.rs

// ---- what the generated lexer computes -----------------------------------------------------------------
pub ghost struct LexG<'r> { pub d: GV<AutomatonState<&'r TokenRule<'r>>, usize>, pub al: Seq<RangeInclusive<u32>> }
pub open spec fn in_r(r: RangeInclusive<u32>, c: u32) -> bool { r.start <= c <= r.end }
pub open spec fn al_ok(al: Seq<RangeInclusive<u32>>) -> bool {
    0 < al.len() <= usize::MAX && (forall|i: int| 0 <= i < al.len() ==> (#[trigger] al[i]).start <= al[i].end)
        && forall|i: int, j: int| 0 <= i < j < al.len() ==> (#[trigger] al[i]).end < (#[trigger] al[j]).start
}
// the class of a code point: the index of the range that holds it
pub open spec fn cls(al: Seq<RangeInclusive<u32>>, c: u32) -> Option<usize> {
    if exists|i: int| 0 <= i < al.len() && in_r(#[trigger] al[i], c) {
        Some((choose|i: int| 0 <= i < al.len() && in_r(#[trigger] al[i], c)) as usize)
    } else { None }
}
pub proof fn lemma_cls(al: Seq<RangeInclusive<u32>>, c: u32, i: int)
    requires al_ok(al), 0 <= i < al.len(), in_r(al[i], c),
    ensures cls(al, c) == Some(i as usize),
{
    let j = choose|j: int| 0 <= j < al.len() && in_r(#[trigger] al[j], c);
    if i < j { assert(al[i].end < al[j].start); } else if j < i { assert(al[j].end < al[i].start); }
}
pub open spec fn tok_is(n: VxName, r: &TokenRule) -> bool { n == name_of(tk_name(r.name@)) }
pub ghost enum LexOut<'r> { Token(&'r TokenRule<'r>), Eof, BadChar(u32), BadClass(RangeInclusive<u32>) }
pub open spec fn stop<'r>(g: LexG<'r>, q: NodeIndex, a: usize) -> LexOut<'r> {
    match g.d.n[q.i as int] { AutomatonState::Accepting(r) => LexOut::Token(r), AutomatonState::Intermediate(_) => LexOut::BadClass(g.al[a as int]) }
}
// one call: from state q at character k; what is returned and where the next call starts
pub open spec fn lexrun<'r>(g: LexG<'r>, s: Seq<char>, q: NodeIndex, k: nat) -> (LexOut<'r>, nat)
    decreases s.len() - k,
{
    if k >= s.len() {
        (if q.i == 0 { LexOut::Eof } else { stop(g, q, 0) }, k)
    } else {
        match cls(g.al, s[k as int] as u32) {
            None => (LexOut::BadChar(s[k as int] as u32), k),
            Some(a) => match dstep(g.d.e, q, a) { Some(t) => lexrun(g, s, t, k + 1), None => (stop(g, q, a), k) },
        }
    }
}
pub open spec fn out_is(o: LexOut, r: Result<TokenType, LexerError>) -> bool {
    match o {
        LexOut::Token(t) => r == Ok::<TokenType, LexerError>(tok_of(t.name@)) && r != Ok::<TokenType, LexerError>(TokenType::EndOfFile),
        LexOut::Eof => r matches Ok(TokenType::EndOfFile),
        LexOut::BadChar(c) => r matches Err(LexerError::InvalidChar { bad_ch }) && bad_ch == c,
        LexOut::BadClass(x) => r matches Err(LexerError::UnexpectedAlphabet { range }) && range == x,
    }
}
// classes of the characters from..to
pub open spec fn classes(al: Seq<RangeInclusive<u32>>, s: Seq<char>, from: nat, to: nat) -> Seq<usize>
    decreases to,
{ if to <= from { seq![] } else { classes(al, s, from, (to - 1) as nat).push(cls(al, s[to - 1] as u32).unwrap()) } }
// a call consumes exactly the characters the automaton reads from its first state, as many as it can, and
// returns what the state it reaches says
pub proof fn lemma_lexrun<'r>(g: LexG<'r>, s: Seq<char>, k0: nat, q: NodeIndex, k: nat)
    requires k0 <= k <= s.len(), drun(g.d.e, classes(g.al, s, k0, k)) == Some(q), forall|i: int| k0 <= i < k ==> cls(g.al, #[trigger] s[i] as u32) is Some,
    ensures ({
        let (o, k2) = lexrun(g, s, q, k);
        let q2 = drun(g.d.e, classes(g.al, s, k0, k2));
        &&& k <= k2 <= s.len()
        &&& forall|i: int| k0 <= i < k2 ==> cls(g.al, #[trigger] s[i] as u32) is Some
        &&& q2 is Some
        &&& o is Token ==> g.d.n[q2->Some_0.i as int] == AutomatonState::Accepting(o->Token_0)
        &&& o is BadClass ==> g.d.n[q2->Some_0.i as int] is Intermediate
        &&& o is Eof ==> k2 == s.len() && q2->Some_0.i == 0
        &&& o is BadChar ==> k2 < s.len() && cls(g.al, s[k2 as int] as u32) is None
        &&& k2 < s.len() && !(o is BadChar) ==> cls(g.al, s[k2 as int] as u32) is Some && dstep(g.d.e, q2->Some_0, cls(g.al, s[k2 as int] as u32)->Some_0) is None
    }),
    decreases s.len() - k,
{
    if k < s.len() {
        if let Some(a) = cls(g.al, s[k as int] as u32) {
            if let Some(t) = dstep(g.d.e, q, a) {
                let c = classes(g.al, s, k0, k);
                assert(classes(g.al, s, k0, k + 1) == c.push(a));
                assert(c.push(a).drop_last() =~= c);
                lemma_lexrun(g, s, k0, t, k + 1);
            }
        }
    }
}

// ---- the generated program does -----------------------------------------------------------------------
pub open spec fn av(a: AlphaArm) -> usize { match a { AlphaArm::A_start_to_Some_i { start, i } => i, AlphaArm::A_start_end { start, end, i } => i } }
pub open spec fn alpha_ok(l: Seq<AlphaArm>, al: Seq<RangeInclusive<u32>>) -> bool {
    forall|c: u32| cls(al, c) == match #[trigger] vx_hit(l, c) { Some(a) => Some(av(a)), None => None }
}
pub open spec fn range_ok(l: Seq<RangeArm>, al: Seq<RangeInclusive<u32>>) -> bool {
    forall|k: usize| k < al.len() ==> match #[trigger] vx_hit(l, k) { Some(RangeArm::A_i_to_Some_start_end { i, start, end }) => al[k as int] == (RangeInclusive { start, end }), None => false }
}
pub open spec fn arm_is<'r>(d: GV<AutomatonState<&'r TokenRule<'r>>, usize>, q: usize, sym: Option<usize>, h: Option<AutoArm>) -> bool {
    h matches Some(a) && if q == 0 && sym is None { a is A_state_id_None } else if sym matches Some(x) && dstep(d.e, NodeIndex { i: q }, x) is Some {
        a matches AutoArm::A_state_id_Some_transition { state_id, transition, target_index } && target_index == dstep(d.e, NodeIndex { i: q }, sym->Some_0)->Some_0.i
    } else {
        match d.n[q as int] {
            AutomatonState::Accepting(r) => a matches AutoArm::A_state_id_X { state_id, name } && tok_is(name, r),
            AutomatonState::Intermediate(_) => a is A_state_id_transition,
        }
    }
}
pub open spec fn auto_ok<'r>(l: Seq<AutoArm>, d: GV<AutomatonState<&'r TokenRule<'r>>, usize>) -> bool {
    forall|q: usize, sym: Option<usize>| q < d.n.len() ==> arm_is(d, q, sym, #[trigger] vx_hit(l, (q, sym)))
}
pub open spec fn g_ok(g: LexG) -> bool {
    al_ok(g.al) && edges_in(g.d.e, g.d.n.len()) && det(g.d.e) && g.d.n.len() > 0
}
pub open spec fn prog_ok(p: LexProg, g: LexG) -> bool {
    g_ok(g) && alpha_ok(p.alphabet_cases@, g.al) && range_ok(p.alphabet_reverse_cases@, g.al) && auto_ok(p.automaton_cases@, g.d)
}
// while the arms are collected
pub open spec fn alpha_part(l: Seq<AlphaArm>, al: Seq<RangeInclusive<u32>>, n: int) -> bool {
    forall|c: u32| match #[trigger] vx_hit(l, c) { Some(a) => av(a) < n && in_r(al[av(a) as int], c), None => forall|i: int| 0 <= i < n ==> !in_r(#[trigger] al[i], c) }
}
pub open spec fn range_part(l: Seq<RangeArm>, al: Seq<RangeInclusive<u32>>, n: int) -> bool {
    forall|k: usize| match #[trigger] vx_hit(l, k) { Some(RangeArm::A_i_to_Some_start_end { i, start, end }) => k < n && al[k as int] == (RangeInclusive { start, end }), None => k >= n }
}
pub open spec fn arm_part(e: Seq<GEdge<usize>>, q: usize, j: int, sym: Option<usize>, h: Option<AutoArm>) -> bool {
    match sym {
        None => if q == 0 { h matches Some(a) && a is A_state_id_None } else { h is None },
        Some(x) => match h {
            Some(a) => a matches AutoArm::A_state_id_Some_transition { state_id, transition, target_index } && exists|i: int| 0 <= i < j && e[#[trigger] vx_out(e, NodeIndex { i: q })[i]].w == x && e[vx_out(e, NodeIndex { i: q })[i]].t.i == target_index,
            None => forall|i: int| 0 <= i < j ==> e[#[trigger] vx_out(e, NodeIndex { i: q })[i]].w != x,
        },
    }
}
pub proof fn lemma_arm_part(e: Seq<GEdge<usize>>, q: usize, x: usize, h: Option<AutoArm>)
    requires det(e), arm_part(e, q, vx_out(e, NodeIndex { i: q }).len() as int, Some(x), h),
    ensures
        h is None ==> dstep(e, NodeIndex { i: q }, x) is None,
        h matches Some(a) ==> a is A_state_id_Some_transition && dstep(e, NodeIndex { i: q }, x) is Some && a->A_state_id_Some_transition_target_index == dstep(e, NodeIndex { i: q }, x)->Some_0.i,
{
    let n = NodeIndex { i: q };
    let o = vx_out(e, n);
    axiom_vx_out(e, n);
    if exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == n && e[k].w == x {
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == n && e[k].w == x;
        assert(o.contains(k));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == k;
        assert(e[o[j]].w == x);
        assert(h is Some);
        let i = choose|i: int| 0 <= i < o.len() && e[#[trigger] o[i]].w == x && e[o[i]].t.i == h->Some_0->A_state_id_Some_transition_target_index;
        assert(e[o[i]].s == n);
        assert(o[i] == k);
    } else if h is Some {
        let i = choose|i: int| 0 <= i < o.len() && e[#[trigger] o[i]].w == x && e[o[i]].t.i == h->Some_0->A_state_id_Some_transition_target_index;
        assert(e[o[i]].s == n);
    }
}
pub open spec fn auto_part<'r>(l: Seq<AutoArm>, d: GV<AutomatonState<&'r TokenRule<'r>>, usize>, n: int) -> bool {
    forall|q: usize, sym: Option<usize>| if q < n { arm_is(d, q, sym, #[trigger] vx_hit(l, (q, sym))) } else { vx_hit(l, (q, sym)) is None }
}
//@type rlexer LexerCodeWriter
//@type rlexer LexerError
//@type rlexer Lexer
//@fn rlexer LexerCodeWriter::write_lexer
//@sub output : &mut dyn Write ==> output: &mut VxOut<LexProg>
//@rename parse vx_parse
//@spec
    requires
        self.dfa.wf(), g_ok(LexG { d: self.dfa.v(), al: self.alphabet@ }),
    ensures
        r is Ok ==> exists|p: LexProg| final(output)@ == old(output)@.push(p) && #[trigger] prog_ok(p, LexG { d: self.dfa.v(), al: self.alphabet@ }),
//@at start
    broadcast use lemma_hit_push;
    let ghost gd = self.dfa.v();
    let ghost al = self.alphabet@;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == al.len(), al == self.alphabet@,
            forall|k: int| 0 <= k < al.len() ==> (#[trigger] it0.seq()[k]).0 == k && *it0.seq()[k].1 == al[k],
            alpha_part(alphabet_cases@, al, it0.pos() as int), range_part(alphabet_reverse_cases@, al, it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_hit_push;
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == gd.n.len(), gd == self.dfa.v(), self.dfa.wf(), det(gd.e),
            it1.seq() == Seq::new(gd.n.len(), |i: int| (NodeIndex { i: i as usize }, &gd.n[i])),
            auto_part(automaton_cases@, gd, it1.pos() as int),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    broadcast use lemma_hit_push;
    let ghost n = (it1.pos() - 1) as usize;
    assert((index, node) == it1.seq()[n as int]);
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == vx_out(gd.e, index).len(), from_refs(gd.e, index, it2.seq()),
            gd == self.dfa.v(), state_id == n, index.i == n, n < gd.n.len(),
            forall|q: usize, sym: Option<usize>| if q < n { arm_is(gd, q, sym, #[trigger] vx_hit(automaton_cases@, (q, sym))) } else if q > n { vx_hit(automaton_cases@, (q, sym)) is None }
                else { arm_part(gd.e, n, it2.pos() as int, sym, vx_hit(automaton_cases@, (q, sym))) },
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    broadcast use lemma_hit_push;
    assert((transition, target) == it2.seq()[it2.pos() - 1]);
//@at call vx_emit 0 before
    proof {
        let g = LexG { d: gd, al: al };
        assert forall|c: u32| cls(al, c) == match #[trigger] vx_hit(tokens.alphabet_cases@, c) { Some(a) => Some(av(a)), None => None } by {
            if let Some(a) = vx_hit(tokens.alphabet_cases@, c) { lemma_cls(al, c, av(a) as int); }
        }
        assert(prog_ok(tokens, g));
    }
//@at loop 2 after
    assert forall|x: usize| true implies arm_part(gd.e, n, vx_out(gd.e, index).len() as int, Some(x), #[trigger] vx_hit(automaton_cases@, (n, Some(x)))) by { }
    assert forall|x: usize| true implies ({ let h = #[trigger] vx_hit(automaton_cases@, (n, Some(x)));
        (h is None ==> dstep(gd.e, index, x) is None) && (h matches Some(a) ==> a is A_state_id_Some_transition && dstep(gd.e, index, x) is Some && a->A_state_id_Some_transition_target_index == dstep(gd.e, index, x)->Some_0.i) }) by {
        lemma_arm_part(gd.e, n, x, vx_hit(automaton_cases@, (n, Some(x))));
    }
//@end
// ---- the generated lexer ----------------------------------------------------------------------------------
impl<'src> Lexer<'src> {
    // characters consumed so far
    pub open spec fn at(&self) -> nat { self.char_iter.pos() }
    pub open spec fn wf(&self) -> bool {
        &&& self.char_iter.seq() == self.src@ && self.at() <= self.src@.len()
        &&& vx_boff(self.src@, self.src@.len()) <= isize::MAX
        &&& self.position == vx_boff(self.src@, self.at())
    }
    // the current token's text is from..at()
    pub open spec fn from_is(&self, from: nat) -> bool { from <= self.at() && self.start == vx_boff(self.src@, from) }
}
pub proof fn lemma_boff_le(s: Seq<char>, i: nat, j: nat)
    requires i <= j <= s.len(),
    ensures vx_boff(s, i) <= vx_boff(s, j),
    decreases j,
{ if i < j { lemma_boff_le(s, i, (j - 1) as nat); } }
//@fn rlexer Lexer::new
//@spec
    ensures r.wf(), r.src == src, r.at() == 0, r.from_is(0),
//@end
//@fn rlexer Lexer::get_alphabet_index
//@spec
    requires prog_ok(*vx_p, vx_g),
    ensures r == cls(vx_g.al, c),
//@end
//@fn rlexer Lexer::get_alphabet_range
//@spec
    requires prog_ok(*vx_p, vx_g), c < vx_g.al.len(),
    ensures r == Some(vx_g.al[c as int]),
//@end
//@fn rlexer Lexer::next
//@rename len_utf8 vx_len_utf8
//@spec
    requires prog_ok(*vx_p, vx_g), old(self).wf(),
    ensures
        final(self).wf(), final(self).src == old(self).src, final(self).from_is(old(self).at()),
        ({
            let (o, k) = lexrun(vx_g, old(self).src@, NodeIndex { i: 0 }, old(self).at());
            final(self).at() == k && out_is(o, r)
        }),
//@loop 0
        invariant
            prog_ok(*vx_p, vx_g), self.wf(), self.src == old(self).src, self.from_is(old(self).at()), state < vx_g.d.n.len(),
            lexrun(vx_g, self.src@, NodeIndex { i: state }, self.at()) == lexrun(vx_g, old(self).src@, NodeIndex { i: 0 }, old(self).at()),
        decreases self.src@.len() - self.at(),
//@at start
    broadcast use lemma_tok_of;
//@at loop 0 start
    broadcast use lemma_tok_of;
//@at call vx_len_utf8 0 before
    proof { lemma_boff_le(self.src@, self.at(), self.src@.len()); }
//@end
//@fn rlexer Lexer::span
//@spec
    ensures r.start == self.start, r.end == self.position,
//@end
//@fn rlexer Lexer::slice
//@sub &self.src [self.span ()] ==> vx_str_index(self.src, self.span())
//@spec
    requires self.wf(), exists|from: nat| self.from_is(from),
    ensures forall|from: nat| #[trigger] self.from_is(from) ==> r@ == self.src@.subrange(from as int, self.at() as int),
//@end
