// ---- the C++ switches of the emitted lexer, as program text and as what they decide -----------------------
pub open spec fn in_r(r: RangeInclusive<u32>, c: u32) -> bool { r.start <= c <= r.end }
pub open spec fn al_ok(al: Seq<RangeInclusive<u32>>) -> bool {
    0 < al.len() <= usize::MAX && (forall|i: int| 0 <= i < al.len() ==> (#[trigger] al[i]).start <= al[i].end)
        && forall|i: int, j: int| 0 <= i < j < al.len() ==> (#[trigger] al[i]).end < (#[trigger] al[j]).start
}
// case lo: or case lo ... hi:, then i = class
pub ghost struct AArm { pub one: bool, pub lo: u32, pub hi: u32, pub i: usize }
pub open spec fn aarm_text(p: Seq<char>, x: AArm) -> Seq<char> {
    (if x.one { p + "case "@ + dec(x.lo as nat) + ":\n"@ } else { p + "case "@ + dec(x.lo as nat) + " ... "@ + dec(x.hi as nat) + ":\n"@ })
        + "i = "@ + dec(x.i as nat) + ";\n"@ + "break;\n"@
}
pub open spec fn aarms_text(p: Seq<char>, a: Seq<AArm>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { aarm_text(aarms_text(p, a.drop_last()), a.last()) } }
pub open spec fn alpha_text(p: Seq<char>, a: Seq<AArm>) -> Seq<char> {
    aarms_text(p + "uint32_t i;\n"@ + "switch (ch)\n"@ + "{\n"@, a) + "default:\n"@ + "return TokenType::TK_ERR;\n"@ + "}\n"@
}
pub open spec fn a_takes(x: AArm, c: u32) -> bool { x.lo <= c <= x.hi }
// the labels are one to one and every code point of class k takes an arm that sets i to k; no other does
pub open spec fn alpha_ok(a: Seq<AArm>, al: Seq<RangeInclusive<u32>>) -> bool {
    &&& forall|j: int| 0 <= j < a.len() ==> ((#[trigger] a[j]).one ==> a[j].lo == a[j].hi) && a[j].lo <= a[j].hi
    &&& forall|j: int, k: int, c: u32| 0 <= j < k < a.len() ==> !(#[trigger] a_takes(a[j], c) && #[trigger] a_takes(a[k], c))
    &&& forall|j: int, c: u32| 0 <= j < a.len() && #[trigger] a_takes(a[j], c) ==> a[j].i < al.len() && in_r(al[a[j].i as int], c)
    &&& forall|i: int, c: u32| 0 <= i < al.len() && #[trigger] in_r(al[i], c) ==> takes(a, c)
}
pub open spec fn sets(a: Seq<AArm>, i: int) -> bool { exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).i == i }
pub open spec fn takes(a: Seq<AArm>, c: u32) -> bool { exists|j: int| 0 <= j < a.len() && #[trigger] a_takes(a[j], c) }
pub open spec fn for_state(a: Seq<SArm>, q: usize) -> bool { exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).q == q }
pub open spec fn alpha_part(a: Seq<AArm>, al: Seq<RangeInclusive<u32>>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < a.len() ==> ((#[trigger] a[j]).one ==> a[j].lo == a[j].hi) && a[j].lo <= a[j].hi && a[j].i < n && al[a[j].i as int] == (RangeInclusive { start: a[j].lo, end: a[j].hi })
    &&& forall|j: int, k: int| 0 <= j < k < a.len() ==> (#[trigger] a[j]).i != (#[trigger] a[k]).i
    &&& forall|i: int| 0 <= i < n ==> #[trigger] sets(a, i)
}
pub proof fn lemma_alpha(a: Seq<AArm>, al: Seq<RangeInclusive<u32>>)
    requires al_ok(al), alpha_part(a, al, al.len() as int),
    ensures alpha_ok(a, al),
{
    assert forall|j: int, k: int, c: u32| 0 <= j < k < a.len() implies !(#[trigger] a_takes(a[j], c) && #[trigger] a_takes(a[k], c)) by {
        let (x, y) = (a[j].i as int, a[k].i as int);
        if x < y { assert(al[x].end < al[y].start); } else { assert(al[y].end < al[x].start); }
    }
    assert forall|i: int, c: u32| 0 <= i < al.len() && #[trigger] in_r(al[i], c) implies takes(a, c) by {
        assert(sets(a, i));
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).i == i;
        assert(a_takes(a[j], c));
    }
}
// the arms of a state: the end of the input, or a step on a class
pub ghost enum CArm { Eof, Go(usize, usize) }
pub open spec fn cval(x: CArm) -> usize { match x { CArm::Eof => 0, CArm::Go(c, t) => c } }
pub open spec fn carm_text(p: Seq<char>, x: CArm) -> Seq<char> {
    match x {
        CArm::Eof => p + "case 0: \n"@ + "return TokenType::TK_EOF;\n"@,
        CArm::Go(c, t) => p + "case "@ + dec(c as nat) + ": \n"@ + "this->ch = -1;\n"@ + "state = "@ + dec(t as nat) + ";\n"@ + "break;\n"@,
    }
}
pub open spec fn carms_text(p: Seq<char>, a: Seq<CArm>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { carm_text(carms_text(p, a.drop_last()), a.last()) } }
pub open spec fn uniq(a: Seq<CArm>) -> bool { forall|j: int, k: int| 0 <= j < k < a.len() ==> cval(#[trigger] a[j]) != cval(#[trigger] a[k]) }
pub open spec fn chit(a: Seq<CArm>, c: usize) -> Option<CArm> {
    if exists|j: int| 0 <= j < a.len() && cval(#[trigger] a[j]) == c { Some(a[choose|j: int| 0 <= j < a.len() && cval(#[trigger] a[j]) == c]) } else { None }
}
pub ghost struct SArm { pub q: usize, pub arms: Seq<CArm>, pub acc: Option<(Seq<char>, Seq<char>)> }
pub open spec fn sarm_text(p: Seq<char>, x: SArm) -> Seq<char> {
    let t = carms_text(p + "case "@ + dec(x.q as nat) + ":\n"@ + "switch (i)\n"@ + "{\n"@, x.arms) + "default:\n"@;
    (match x.acc {
        Some((name, note)) => t + "// ACCEPT: "@ + note + "\n"@ + "this->end_pos = this->position;\n"@ + "return TokenType::TK_"@ + name + ";\n"@,
        None => t + "return TokenType::TK_ERR;\n"@,
    }) + "}\n"@ + "break;\n"@
}
pub open spec fn sarms_text(p: Seq<char>, a: Seq<SArm>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { sarm_text(sarms_text(p, a.drop_last()), a.last()) } }
pub open spec fn auto_text(p: Seq<char>, a: Seq<SArm>) -> Seq<char> {
    sarms_text(p + "switch (state)\n"@ + "{\n"@, a) + "default:\n"@ + "return TokenType::TK_ERR;\n"@ + "}\n"@
}
// what a state does on class c (class 0 is also read at the end of the input): the end of the input in the
// first state, the automaton's step, or else what the state accepts
pub open spec fn step_is(x: SArm, e: Seq<GEdge<usize>>, c: usize) -> bool {
    chit(x.arms, c) == if c == 0 { if x.q == 0 { Some(CArm::Eof) } else { None } } else {
        match dstep(e, NodeIndex { i: x.q }, c) { Some(t) => Some(CArm::Go(c, t.i)), None => None }
    }
}
pub open spec fn acc_is<'r>(x: SArm, n: AutomatonState<&'r TokenRule<'r>>) -> bool {
    match n { AutomatonState::Accepting(r) => x.acc is Some && x.acc->Some_0.0 == r.name@, AutomatonState::Intermediate(_) => x.acc is None }
}
pub open spec fn sarm_ok<'r>(x: SArm, d: GV<AutomatonState<&'r TokenRule<'r>>, usize>) -> bool {
    &&& x.q < d.n.len() && uniq(x.arms) && acc_is(x, d.n[x.q as int])
    &&& forall|c: usize| #[trigger] step_is(x, d.e, c)
}
pub open spec fn auto_ok<'r>(a: Seq<SArm>, d: GV<AutomatonState<&'r TokenRule<'r>>, usize>, n: nat) -> bool {
    &&& forall|j: int| 0 <= j < a.len() ==> sarm_ok(#[trigger] a[j], d) && a[j].q < n
    &&& forall|j: int, k: int| 0 <= j < k < a.len() ==> (#[trigger] a[j]).q != (#[trigger] a[k]).q
    &&& forall|q: usize| q < n ==> #[trigger] for_state(a, q)
}
// the first j edges out of q are there
pub open spec fn arms_part(a: Seq<CArm>, e: Seq<GEdge<usize>>, q: usize, j: int) -> bool {
    let o = vx_out(e, NodeIndex { i: q });
    &&& uniq(a)
    &&& forall|c: usize| #[trigger] has_arm(a, c) <==> (c == 0 && q == 0) || (c != 0 && exists|i: int| 0 <= i < j && e[#[trigger] o[i]].w == c)
    &&& forall|k: int| 0 <= k < a.len() ==> match #[trigger] a[k] { CArm::Eof => q == 0, CArm::Go(c, t) => c != 0 && exists|i: int| 0 <= i < j && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t }
}
pub open spec fn has_arm(a: Seq<CArm>, c: usize) -> bool { exists|k: int| 0 <= k < a.len() && cval(#[trigger] a[k]) == c }
pub proof fn lemma_has_push(a: Seq<CArm>, x: CArm)
    ensures forall|c: usize| #[trigger] has_arm(a.push(x), c) <==> has_arm(a, c) || cval(x) == c,
{
    let b = a.push(x);
    assert forall|c: usize| #[trigger] has_arm(b, c) <==> has_arm(a, c) || cval(x) == c by {
        if has_arm(a, c) { let k = choose|k: int| 0 <= k < a.len() && cval(#[trigger] a[k]) == c; assert(b[k] == a[k]); }
        if cval(x) == c { assert(b[a.len() as int] == x); }
        if has_arm(b, c) && cval(x) != c { let k = choose|k: int| 0 <= k < b.len() && cval(#[trigger] b[k]) == c; assert(a[k] == b[k]); }
    }
}
pub proof fn lemma_arm_push(a: Seq<CArm>, e: Seq<GEdge<usize>>, q: usize, j: int)
    requires det(e), arms_part(a, e, q, j), 0 <= j < vx_out(e, NodeIndex { i: q }).len(),
    ensures ({
        let g = e[vx_out(e, NodeIndex { i: q })[j]];
        if g.w != 0 { arms_part(a.push(CArm::Go(g.w, g.t.i)), e, q, j + 1) } else { arms_part(a, e, q, j + 1) }
    }),
{
    let o = vx_out(e, NodeIndex { i: q });
    axiom_vx_out(e, NodeIndex { i: q });
    let g = e[o[j]];
    if g.w != 0 {
        let x = CArm::Go(g.w, g.t.i);
        let b = a.push(x);
        lemma_has_push(a, x);
        assert(!has_arm(a, g.w)) by {
            if has_arm(a, g.w) {
                let i = choose|i: int| 0 <= i < j && e[#[trigger] o[i]].w == g.w;
                assert(e[o[i]].s == e[o[j]].s);
                assert(o[i] != o[j]);
            }
        }
        assert(uniq(b)) by {
            assert forall|k: int, l: int| 0 <= k < l < b.len() implies cval(#[trigger] b[k]) != cval(#[trigger] b[l]) by {
                assert(b[k] == a[k]);
                if l < a.len() { assert(b[l] == a[l]); } else if cval(b[k]) == g.w { assert(has_arm(a, g.w)); }
            }
        }
        assert forall|k: int| 0 <= k < b.len() implies match #[trigger] b[k] { CArm::Eof => q == 0, CArm::Go(c, t) => c != 0 && exists|i: int| 0 <= i < j + 1 && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t } by {
            if k < a.len() {
                assert(b[k] == a[k]);
                if let CArm::Go(c, t) = a[k] { let i = choose|i: int| 0 <= i < j && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t; assert(e[o[i]].w == c); }
            } else { assert(e[o[j]].w == g.w); }
        }
    } else {
        assert forall|k: int| 0 <= k < a.len() implies match #[trigger] a[k] { CArm::Eof => q == 0, CArm::Go(c, t) => c != 0 && exists|i: int| 0 <= i < j + 1 && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t } by {
            if let CArm::Go(c, t) = a[k] { let i = choose|i: int| 0 <= i < j && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t; assert(e[o[i]].w == c); }
        }
    }
}
pub proof fn lemma_arms<'r>(x: SArm, d: GV<AutomatonState<&'r TokenRule<'r>>, usize>)
    requires det(d.e), x.q < d.n.len(), acc_is(x, d.n[x.q as int]), arms_part(x.arms, d.e, x.q, vx_out(d.e, NodeIndex { i: x.q }).len() as int),
    ensures sarm_ok(x, d),
{
    let e = d.e;
    let n = NodeIndex { i: x.q };
    let o = vx_out(e, n);
    axiom_vx_out(e, n);
    assert forall|c: usize| #[trigger] step_is(x, e, c) by {
        let a = x.arms;
        if has_arm(a, c) {
            let k = choose|k: int| 0 <= k < a.len() && cval(#[trigger] a[k]) == c;
            assert(chit(a, c) == Some(a[k]));
            if c != 0 {
                if let CArm::Go(cc, t) = a[k] {
                    let i = choose|i: int| 0 <= i < o.len() && e[#[trigger] o[i]].w == c && e[o[i]].t.i == t;
                    assert(e[o[i]].s == n);
                    assert(e[o[i]].t == NodeIndex { i: t });
                }
            }
        } else {
            assert(chit(a, c) is None);
            if c != 0 && dstep(e, n, c) is Some {
                let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == n && e[k].w == c;
                assert(o.contains(k));
                let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
                assert(e[o[i]].w == c);
            }
        }
    }
}
//@type lapex-cpp-codegen/src/lexer/mod.rs LexerCodeWriter
//@fn lapex-cpp-codegen/src/lexer/mod.rs LexerCodeWriter::write_alphabet_switch wr
//@sub write_alphabet_switch < W > ==> write_alphabet_switch
//@sub &mut W ==> &mut VxOut
//@spec
    requires al_ok(self.alphabet@),
    ensures r is Ok ==> exists|a: Seq<AArm>| final(output).text() == #[trigger] alpha_text(old(output).text(), a) && alpha_ok(a, self.alphabet@),
//@at start
    broadcast use lemma_assoc;
    let ghost al = self.alphabet@;
    let ghost mut a: Seq<AArm> = seq![];
    let ghost mut p0: Seq<char> = seq![];
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == al.len(), al == self.alphabet@, al_ok(al),
            forall|k: int| 0 <= k < al.len() ==> (#[trigger] it0.seq()[k]).0 == k && *it0.seq()[k].1 == al[k],
            alpha_part(a, al, it0.pos() as int),
            output.text() == aarms_text(old(output).text() + "uint32_t i;\n"@ + "switch (ch)\n"@ + "{\n"@, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { p0 = output.text(); assert((i, range) == it0.seq()[it0.pos() - 1]); }
//@at loop 0 end
    proof {
        let x = AArm { one: range.start == range.end, lo: range.start, hi: range.end, i: i };
        let b = a.push(x);
        assert(b.drop_last() =~= a);
        assert(output.text() == aarm_text(p0, x));
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] sets(b, k) by {
            if k < i { assert(sets(a, k)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).i == k; assert(b[j] == a[j]); } else { assert(b[a.len() as int] == x); }
        }
        a = b;
    }
//@at loop 0 after
    proof { lemma_alpha(a, al); }
//@at exits
    proof { if vx_ret is Ok { assert(output.text() == alpha_text(old(output).text(), a)); } }
//@end
//@fn lapex-cpp-codegen/src/lexer/mod.rs LexerCodeWriter::write_state_machine_switch wr
//@spec
    requires self.dfa.wf(), det(self.dfa.v().e),
    ensures r is Ok ==> exists|a: Seq<SArm>| final(output).text() == #[trigger] auto_text(old(output).text(), a) && auto_ok(a, self.dfa.v(), self.dfa.v().n.len()),
//@at start
    broadcast use lemma_assoc;
    let ghost d = self.dfa.v();
    let ghost mut a: Seq<SArm> = seq![];
    let ghost mut b: Seq<CArm> = seq![];
    let ghost mut x0: SArm = arbitrary();
    let ghost mut p0: Seq<char> = seq![];
    let ghost mut p1: Seq<char> = seq![];
    let ghost mut p2: Seq<char> = seq![];
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == d.n.len(), d == self.dfa.v(), self.dfa.wf(), det(d.e),
            it0.seq() == Seq::new(d.n.len(), |i: int| (NodeIndex { i: i as usize }, &d.n[i])),
            auto_ok(a, d, it0.pos()),
            output.text() == sarms_text(old(output).text() + "switch (state)\n"@ + "{\n"@, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { p0 = output.text(); assert((index, node) == it0.seq()[it0.pos() - 1]); }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == vx_out(d.e, index).len(), from_refs(d.e, index, it1.seq()),
            d == self.dfa.v(), det(d.e), index.i < d.n.len(),
            arms_part(b, d.e, index.i, it1.pos() as int),
            output.text() == carms_text(p1, b),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 before
    proof {
        let e = d.e;
        p1 = p0 + "case "@ + dec(index.i as nat) + ":\n"@ + "switch (i)\n"@ + "{\n"@;
        b = if index.i == 0 { seq![CArm::Eof] } else { seq![] };
        assert(seq![CArm::Eof].drop_last() =~= seq![]);
        assert(carms_text(p1, seq![]) == p1);
        assert(output.text() == carms_text(p1, b));
        if index.i == 0 { assert(b[0] == CArm::Eof); }
    }
//@at loop 1 start
    broadcast use lemma_assoc;
    proof { p2 = output.text(); assert((transition, target) == it1.seq()[it1.pos() - 1]); }
//@at loop 1 end
    proof {
        lemma_arm_push(b, d.e, index.i, it1.pos() - 1);
        if *transition != 0 {
            let x = CArm::Go(*transition, target.i);
            assert(b.push(x).drop_last() =~= b);
            assert(output.text() == carm_text(p2, x));
            b = b.push(x);
        }
    }
//@at loop 0 end
    proof {
        let acc: Option<(Seq<char>, Seq<char>)> = match *node { AutomatonState::Accepting(r) => Some((r.name@, dbgt(&r))), AutomatonState::Intermediate(_) => None };
        let x = SArm { q: index.i, arms: b, acc: acc };
        assert(output.text() == sarm_text(p0, x));
        lemma_arms(x, d);
        let c = a.push(x);
        assert(c.drop_last() =~= a);
        assert forall|q: usize| q < it0.pos() implies #[trigger] for_state(c, q) by {
            if q < index.i { assert(for_state(a, q)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).q == q; assert(c[j] == a[j]); } else { assert(c[a.len() as int] == x); }
        }
        a = c;
    }
//@at exits
    proof { if vx_ret is Ok { assert(output.text() == auto_text(old(output).text(), a)); } }
//@end
// ---- the token types -----------------------------------------------------------------------------------
pub open spec fn names_text(p: Seq<char>, rs: Seq<Spanned<TokenRule>>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { p } else { names_text(p, rs, n - 1) + "TK_"@ + rs[n - 1].inner.name@ + ",\n"@ } }
pub open spec fn named_text(p: Seq<char>, rs: Seq<Spanned<TokenRule>>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { p } else {
        named_text(p, rs, n - 1) + "case TokenType::TK_"@ + rs[n - 1].inner.name@ + ":\n"@ + "return \""@ + rs[n - 1].inner.name@ + "\";\n"@
    }
}
//@type lapex-cpp-codegen/src/lexer/mod.rs TokensCodeWriter
//@fn lapex-cpp-codegen/src/lexer/mod.rs TokensCodeWriter::write_token_enum_variants wr
//@spec
    ensures r is Ok ==> final(output).text() == names_text(old(output).text(), self.rules@, self.rules@.len() as int),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == self.rules@.len(), forall|k: int| 0 <= k < self.rules@.len() ==> *#[trigger] it0.seq()[k] == self.rules@[k],
            output.text() == names_text(old(output).text(), self.rules@, it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at start
    broadcast use lemma_assoc;
//@at loop 0 start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/lexer/mod.rs TokensCodeWriter::write_get_token_name_function wr
//@sub write_get_token_name_function < W > ==> write_get_token_name_function
//@sub &mut W ==> &mut VxOut
//@spec
    ensures
        r is Ok ==> final(output).text() == named_text(old(output).text() + "switch (tk_type) {\n"@ + "case TokenType::TK_ERR:\n"@ + "return \"<ERR>\";\n"@
            + "case TokenType::TK_EOF:\n"@ + "return \"<EOF>\";\n"@, self.rules@, self.rules@.len() as int) + "default:\n"@ + "return nullptr;\n"@ + "}\n"@,
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == self.rules@.len(), forall|k: int| 0 <= k < self.rules@.len() ==> *#[trigger] it0.seq()[k] == self.rules@[k],
            output.text() == named_text(t0, self.rules@, it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at start
    broadcast use lemma_assoc;
//@at loop 0 before
    let ghost t0 = output.text();
//@at loop 0 start
    broadcast use lemma_assoc;
//@end
