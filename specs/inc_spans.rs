// positions in texts, sections of texts
pub proof fn lemma_boff_mono(s: Seq<char>, i: nat, j: nat)
    requires i <= j <= s.len(),
    ensures vx_boff(s, i) <= vx_boff(s, j),
    decreases j,
{ if i < j { lemma_boff_mono(s, i, (j - 1) as nat); } }

//@fn lapex-input/src/lib.rs SourcePos::offset
//@spec
    ensures
        r matches Some(o) ==> exists|i: nat| i <= text@.len() && #[trigger] lc(text@, i) == self.p() && o == vx_boff(text@, i),
        r is None ==> forall|i: nat| i <= text@.len() ==> #[trigger] lc(text@, i) != self.p(),
//@loop 0
        invariant
            self_line == self.line, self_col == self.col,
            it0.seq() == Seq::new(text@.len(), |i: int| (vx_boff(text@, i as nat) as usize, text@[i])),
            vx_boff(text@, text@.len()) <= isize::MAX, text@.len() <= isize::MAX,
            it0.pos() <= it0.seq().len(),
            (line as nat, col as nat) == lc(text@, it0.pos()),
            forall|i: nat| i < it0.pos() ==> #[trigger] lc(text@, i) != self.p(),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof {
        lemma_pos(text@, it0.pos());
        lemma_pos(text@, (it0.pos() - 1) as nat);
        lemma_boff_mono(text@, it0.pos(), text@.len());
        lemma_boff_mono(text@, (it0.pos() - 1) as nat, text@.len());
    }
//@rename len vx_len
//@end

//@fn lapex-input/src/lib.rs SourceSpan::substring
//@spec
    requires !lex_lt(self.end.p(), self.start.p()),
    ensures
        r matches Some(t) ==> exists|i: nat, j: nat| i <= j <= text@.len() && #[trigger] lc(text@, i) == self.start.p()
            && #[trigger] lc(text@, j) == self.end.p() && t@ == text@.subrange(i as int, j as int),
        r is None ==> (forall|i: nat| i <= text@.len() ==> #[trigger] lc(text@, i) != self.start.p())
            || (forall|i: nat| i <= text@.len() ==> #[trigger] lc(text@, i) != self.end.p()),
//@at start
    broadcast use lemma_mono;
//@end
