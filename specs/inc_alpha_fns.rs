//@fn lapex-input/src/lib.rs Pattern::from_chars
//@spec
    ensures lit_of(r, chars@), mention(r) == chars@.to_set(),
//@loop 0
        invariant
            it0.seq() == chars.vx_seq(), it0.pos() <= it0.seq().len(),
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < it0.pos() ==> #[trigger] acc0@[i] == (Pattern::Char { chars: Characters::Single(chars@[i]) }),
        decreases it0.seq().len() - it0.pos(),
//@at end
    proof { lemma_lit(vx_ret, chars@); }
//@end
//@fn lapex-lexer/src/alphabet.rs Alphabet::find_range
//@spec
    requires self.wf(),
    ensures
        ch <= 0x10FFFF ==> r is Some,
        r matches Some(i) ==> i < self.ranges@.len() && self.ranges@[i as int].start <= ch <= self.ranges@[i as int].end,
        ch > 0x10FFFF ==> r is None,
        forall|i: int| 0 <= i < self.ranges@.len() && self.ranges@[i].start <= ch <= (#[trigger] self.ranges@[i]).end ==> r == Some(i as usize),
//@at start
    proof { if ch <= 0x10FFFF { lemma_locate(self.ranges@, self.ranges@.len() as int, ch as int); } }
//@closure 0 |range: &RangeInclusive<u32>| -> (k: u32) ensures k == range.start
//@end

//@fn lapex-lexer/src/alphabet.rs Alphabet::get_ranges
//@spec
    ensures *r == self.ranges,
//@end
//@fn lapex-lexer/src/alphabet.rs Alphabet::into_ranges
//@spec
    ensures r == self.ranges,
//@end
