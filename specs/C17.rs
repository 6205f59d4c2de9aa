//@include prelude.rs
//@include pre_hir.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;
//@type lapex-input/src/lib.rs SourcePos
//@type lapex-input/src/lib.rs SourceSpan
//@type lapex-input/src/lib.rs Spanned
//@type lapex-input/src/lib.rs Characters
//@type lapex-input/src/lib.rs Pattern
//@type lapex-input/src/lib.rs TokenPattern
//@type lapex-input/src/lib.rs TokenRule
//@type lapex-input/src/lib.rs ProductionRule
//@type lapex-input/src/lib.rs ProductionPattern
//@type lapex-input/src/lib.rs EntryRule
//@type lapex-input/src/lib.rs RuleSet
//@type lapex-input/src/lib.rs LapexParsingError
//@type lapex-input-gen/src/lib.rs TokenData
//@type lapex-input-gen/src/lib.rs Rule
//@type lapex-input-gen/src/lib.rs Ast
//@type lapex-input-gen/src/lib.rs LapexAstVisitor
//@type lapex-input-gen/src/lib.rs RegexConversionError #[derive(Debug)]
//@include inc_regex.rs
//@fn lapex-input-gen/src/lib.rs RegexConversionError::from trait=From<Error> keeptrait
//@end
//@fn lapex-input-gen/src/lib.rs RegexConversionError::from trait=From<Utf8Error> keeptrait
//@end
//@fn lapex-input-gen/src/lib.rs get_unescaped_chars
//@spec
    ensures text@.len() >= 2 ==> r@ == text@.subrange(1, text@.len() - 1),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(),
            it0.seq() == text@.skip(if 1 <= text@.len() { 1 } else { text@.len() as int }),
            acc0@ == it0.seq().take(it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at exits
    proof { assert(text@.len() >= 2 ==> vx_ret@ =~= text@.subrange(1, text@.len() - 1)); }
//@end
//@fn lapex-input-gen/src/lib.rs make_pattern_from_hir
//@spec
    ensures
        r is Err <==> hbad(*hir),
        r matches Ok(p) ==> plang(p) == hlang(*hir),
    decreases hheight(*hir),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == chars@,
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == (Pattern::Char { chars: Characters::Single(chars@[i]) }),
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq() == Seq::new(unicode.vx_ranges@.len(), |i: int| &unicode.vx_ranges@[i]),
            acc1@.len() == it1.pos(),
            forall|i: int| 0 <= i < acc1@.len() ==> #[trigger] acc1@[i] == Characters::Range(unicode.vx_ranges@[i].vx_lo, unicode.vx_ranges@[i].vx_hi),
        decreases it1.seq().len() - it1.pos(),
//@loop 2
        invariant_except_break
            err0 is None, acc2@.len() == it2.pos() && parts(acc2@, inner@, acc2@.len() as int) && !hbads(inner@, it2.pos()),
        invariant
            hir.vx_kind matches HirKind::Concat(vs) && vs == *inner,
            it2.pos() <= it2.seq().len(), it2.seq() == Seq::new(inner@.len(), |i: int| &inner@[i]),
        ensures
            err0 is None ==> it2.pos() == it2.seq().len() && acc2@.len() == inner@.len() && parts(acc2@, inner@, acc2@.len() as int) && !hbads(inner@, inner@.len()),
            err0 is Some ==> hbads(inner@, inner@.len()),
        decreases it2.seq().len() - it2.pos(),
//@loop 3
        invariant_except_break
            err1 is None, acc3@.len() == it3.pos() && parts(acc3@, opts@, acc3@.len() as int) && !hbads(opts@, it3.pos()),
        invariant
            hir.vx_kind matches HirKind::Alternation(vs) && vs == *opts,
            it3.pos() <= it3.seq().len(), it3.seq() == Seq::new(opts@.len(), |i: int| &opts@[i]),
        ensures
            err1 is None ==> it3.pos() == it3.seq().len() && acc3@.len() == opts@.len() && parts(acc3@, opts@, acc3@.len() as int) && !hbads(opts@, opts@.len()),
            err1 is Some ==> hbads(opts@, opts@.len()),
        decreases it3.seq().len() - it3.pos(),
//@at loop 2 start
    proof { lemma_hmaxh(inner@, inner@.len(), it2.pos() - 1); if hbad(inner@[it2.pos() - 1]) { lemma_hbads(inner@, it2.pos(), inner@.len()); } }
//@at loop 3 start
    proof { lemma_hmaxh(opts@, opts@.len(), it3.pos() - 1); if hbad(opts@[it3.pos() - 1]) { lemma_hbads(opts@, it3.pos(), opts@.len()); } }
//@at exits
    proof {
        if vx_ret is Ok { lemma_shape(vx_ret->Ok_0, *hir); }
    }
//@rename as_ref vx_as_ref
//@end
//@fn lapex-input-gen/src/lib.rs get_regex_pattern
//@spec
    requires quoted(text@),
    ensures reads_regex(inside(text@), r),
//@at start
    proof { lemma_quoted(text@); }
//@rename len vx_len
//@end
//@include inc_inputgen.rs
//@fn lapex-input/src/lib.rs Spanned::zero
//@spec
    ensures r.inner == inner,
//@end
//@fn lapex-input/src/lib.rs Spanned::new
//@spec
    ensures r.inner == inner, r.span == span,
//@end
//@fn lapex-input/src/lib.rs Spanned::between
//@spec
    ensures r.inner == inner, r.span == spans(start, end),
//@end
//@fn lapex-input/src/lib.rs Spanned::map
//@spec
    requires call_requires(mapping, (self.inner,)),
    ensures r.span == self.span, call_ensures(mapping, (self.inner,), r.inner),
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_unary_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_unary_2
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_unary_3
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_unary_4
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_prod_rule
//@spec
    requires vok((*old(self).stack)@, Call::ProdRule),
    ensures vdo((*old(self).stack)@, Call::ProdRule, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::ProdRule)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_repetition_zero
//@spec
    requires vok((*old(self).stack)@, Call::ZeroOrMany),
    ensures vdo((*old(self).stack)@, Call::ZeroOrMany, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::ZeroOrMany)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_item_1
//@spec
    requires vok((*old(self).stack)@, Call::Item),
    ensures vdo((*old(self).stack)@, Call::Item, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@closure 0 |s: Ast<'src>| -> (o: Ast<'src>)
            requires s is Token,
            ensures o == Ast::Pattern(ProductionPattern::Rule { rule_name: s->Token_0 }),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Item)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_item_2
//@spec
    requires vok((*old(self).stack)@, Call::Group),
    ensures vdo((*old(self).stack)@, Call::Group, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Group)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_concatenation_1
//@spec
    requires vok((*old(self).stack)@, Call::Concatenation),
    ensures vdo((*old(self).stack)@, Call::Concatenation, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof {
        let s = (*old(self).stack)@;
        let (u, c, p) = (s[s.len() - 2].inner->Pattern_0, s[s.len() - 1].inner->Pattern_0, (*self.stack)@.last().inner->Pattern_0);
        assert(p->Sequence_elements@ =~= seq![u, c] || p->Sequence_elements@ =~= c->Sequence_elements@.insert(0, u));
        lemma_conc(u, c, p);
    }
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Concatenation)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_concatenation_2
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_pattern_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_pattern_2
//@spec
    requires vok((*old(self).stack)@, Call::Nothing),
    ensures vdo((*old(self).stack)@, Call::Nothing, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nothing)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_token_rule
//@spec
    requires vok((*old(self).stack)@, Call::TokenRule),
    ensures vdo((*old(self).stack)@, Call::TokenRule, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::TokenRule)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_option
//@spec
    requires vok((*old(self).stack)@, Call::Optional),
    ensures vdo((*old(self).stack)@, Call::Optional, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Optional)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_entry_rule
//@spec
    requires vok((*old(self).stack)@, Call::EntryRule),
    ensures vdo((*old(self).stack)@, Call::EntryRule, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::EntryRule)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_repetition_one
//@spec
    requires vok((*old(self).stack)@, Call::OneOrMany),
    ensures vdo((*old(self).stack)@, Call::OneOrMany, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::OneOrMany)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_alternative_1
//@spec
    requires vok((*old(self).stack)@, Call::Alternative),
    ensures vdo((*old(self).stack)@, Call::Alternative, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof {
        let s = (*old(self).stack)@;
        let (c, a, p) = (s[s.len() - 3].inner->Pattern_0, s[s.len() - 1].inner->Pattern_0, (*self.stack)@.last().inner->Pattern_0);
        let e = p->Alternative_elements@;
        assert(e =~= seq![a, c] || e =~= a->Alternative_elements@.push(c) || e =~= seq![c, a] || e =~= a->Alternative_elements@.insert(0, c));
        lemma_alt(c, a, p);
    }
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Alternative)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_alternative_2
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_rule_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_rule_2
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_rule_3
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_rules_1
//@spec
    requires vok((*old(self).stack)@, Call::Rules1),
    ensures vdo((*old(self).stack)@, Call::Rules1, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { lemma_rules_one((*self.stack)@.last().inner->Rules_0@); }
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Rules1)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_rules_2
//@spec
    requires vok((*old(self).stack)@, Call::Rules2),
    ensures vdo((*old(self).stack)@, Call::Rules2, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof {
        let s = (*old(self).stack)@;
        lemma_rules_more(s[s.len() - 1].inner->Rules_0@, (*self.stack)@.last().inner->Rules_0@);
    }
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Rules2)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_string_or_regex_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_string_or_regex_2
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_precedence
//@spec
    requires vok((*old(self).stack)@, Call::Precedence),
    ensures vdo((*old(self).stack)@, Call::Precedence, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@rename parse vx_parse
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Precedence)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_anon27_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_anon27_2
//@spec
    requires vok((*old(self).stack)@, Call::NoPrecedence),
    ensures vdo((*old(self).stack)@, Call::NoPrecedence, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::NoPrecedence)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_tag
//@spec
    requires vok((*old(self).stack)@, Call::Tag),
    ensures vdo((*old(self).stack)@, Call::Tag, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Tag)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_anon26_1
//@spec
    requires vok((*old(self).stack)@, Call::Nop),
    ensures vdo((*old(self).stack)@, Call::Nop, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::Nop)->0); }
//@end
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::reduce_anon26_2
//@spec
    requires vok((*old(self).stack)@, Call::NoTag),
    ensures vdo((*old(self).stack)@, Call::NoTag, (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= vstep(sv((*old(self).stack)@), Call::NoTag)->0); }
//@end
//@include inc_grammarfile.rs
//@fn lapex-input-gen/src/lib.rs LapexAstVisitor::shift
//@spec
    ensures
        vdo((*old(self).stack)@, Call::Shift(GTk { ty: _token, text: data.text@, span: data.span }), (*final(self).stack)@), *final(final(self).stack) == *final(old(self).stack),
//@at exits
    proof { assert(sv((*self.stack)@) =~= sv((*old(self).stack)@).push(GE::Tok(data.text@, data.span))); }
//@end
//@include inc_linecol.rs
//@include inc_parsefile.rs
} // verus!
fn main() {}
