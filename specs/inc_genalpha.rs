//@fn lapex-lexer/src/alphabet.rs get_chars_from_pattern
//@spec
    ensures final(chars)@ == old(chars)@.union(mention(*pattern)),
    decreases *pattern,
//@at start
    let ghost chars0 = chars@;
//@loop 0
        invariant
            *pattern matches Pattern::Sequence { elements: es } && es == *elements,
            it0.seq() == elements.vx_seq(), it0.pos() <= it0.seq().len(),
            chars@ == chars0.union(mention_seq(elements@, it0.pos())),
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant
            *pattern matches Pattern::Alternative { elements: es } && es == *elements,
            it1.seq() == elements.vx_seq(), it1.pos() <= it1.seq().len(),
            chars@ == chars0.union(mention_seq(elements@, it1.pos())),
        decreases it1.seq().len() - it1.pos(),
//@loop 2
        invariant
            *pattern matches Pattern::CharSet { chars: es, negated: _ } && it2.seq() == (&es).vx_seq(),
            it2.pos() <= it2.seq().len(),
            chars@ == chars0.union(mention_chars(pattern->CharSet_chars@, it2.pos())),
        decreases it2.seq().len() - it2.pos(),
//@end

//@fn lapex-lexer/src/alphabet.rs generate_alphabet
//@spec
    ensures
        r.wf(),
        forall|k: int, c: char| 0 <= k < rules@.len() && (#[trigger] rule_mention(rules@[k].inner)).contains(c) ==> #[trigger] own_range(r.ranges@, c),
//@loop 0
        invariant
            it0.seq() == rules.vx_seq(), it0.pos() <= it0.seq().len(),
            forall|k: int, c: char| 0 <= k < it0.pos() && (#[trigger] rule_mention(rules@[k].inner)).contains(c) ==> #[trigger] chars@.contains(c),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost chars0 = chars@;
//@at loop 0 end
    proof {
        assert(*it0.seq()[it0.pos() - 1] == rules@[it0.pos() - 1]);
        assert forall|c: char| rule_mention(rules@[it0.pos() - 1].inner).contains(c) implies chars@.contains(c) by { }
        assert(forall|c: char| chars0.contains(c) ==> chars@.contains(c));
    }
//@at loop 1 before
    let ghost ord = vx_order(chars@);
    proof { assert(ord.contains('\0')); assert(ord.contains('\u{10ffff}')); assert(ord[0] == '\0'); }
//@loop 1
        invariant
            ord == vx_order(chars@), ord.len() > 0, chars@.contains('\u{10ffff}'),
            it1.seq() == chars.vx_it_seq().skip(1), it1.pos() <= it1.seq().len(),
            *prev == ord[it1.pos() as int],
            contiguous(ranges@, *prev as int),
            forall|i: int| 0 <= i <= it1.pos() ==> #[trigger] own_range(ranges@, ord[i]),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost ranges0 = ranges@;
    proof { assert(*ch == ord[it1.pos() as int]); assert((*prev as u32) < (*ch as u32)); }
//@at loop 1 end
    proof {
        let n = ranges@.len();
        assert(forall|i: int| 0 <= i < ranges0.len() ==> #[trigger] ranges@[i] == ranges0[i]);
        assert(forall|i: int| 0 <= i < ranges0.len() - 1 ==> #[trigger] adj(ranges@, i) == adj(ranges0, i));
        assert(ranges@[n - 1].start == *ch as u32 && ranges@[n - 1].end == *ch as u32);
        assert(own_range(ranges@, *ch));
        assert forall|i: int| 0 <= i < it1.pos() implies #[trigger] own_range(ranges@, ord[i]) by {
            assert(own_range(ranges0, ord[i]));
            let k = choose|k: int| 0 <= k < ranges0.len() && (#[trigger] ranges0[k]).start == ord[i] as u32 && ranges0[k].end == ord[i] as u32;
            assert(ranges@[k] == ranges0[k]);
        }
    }
//@at loop 1 after
    proof {
        assert(ord.contains('\u{10ffff}'));
        assert(*prev == '\u{10ffff}');
        assert forall|k: int, c: char| 0 <= k < rules@.len() && (#[trigger] rule_mention(rules@[k].inner)).contains(c) implies #[trigger] own_range(ranges@, c) by {
            assert(ord.contains(c));
        }
    }
//@end
