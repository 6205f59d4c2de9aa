//@include prelude.rs
//@include pre_out.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;
//@type lapex-codegen/src/templating.rs Template
//@type lapex-codegen/src/templating.rs TemplateWriter
//@type lapex-codegen/src/lib.rs GeneratedCodeWriter
//@include inc_template.rs
//@fn lapex-codegen/src/templating.rs Template::new wr
//@spec
    ensures r.source == source,
//@end
//@fn lapex-codegen/src/templating.rs Template::writer wr
//@spec
    ensures r.template == self.source, r.substitutions@ == Map::<&'static str, VxSub>::empty(),
//@end
//@fn lapex-codegen/src/templating.rs TemplateWriter::substitute wr
//@sub Box :: new (writer) ==> VxSub::of(writer)
//@spec
    ensures
        final(self).template == old(self).template,
        exists|s: VxSub| s.id() == fid(writer) && final(self).substitutions@ == #[trigger] old(self).substitutions@.insert(key, s),
//@end
//@fn lapex-codegen/src/templating.rs TemplateWriter::insert_substitution wr
//@spec
    requires self.substitutions@.contains_key(skey(key)),
    ensures final(writer).log() == old(writer).log().push(Ev::Ran(self.substitutions@[skey(key)].id(), r)),
//@end
//@fn lapex-codegen/src/templating.rs replace_all_streaming wr
//@spec
    requires forall|i: int, w: &mut VxOut| 0 <= i < regex.finds(haystack@).len() ==> #[trigger] rep.requires((&regex.finds(haystack@)[i], w)),
    ensures
        forall|f: spec_fn(int) -> int| #[trigger] acts(rep, regex.finds(haystack@), f)
            ==> did(old(writer).log(), full(haystack@, regex.finds(haystack@), f), final(writer).log(), r),
//@loop 0
        invariant
            l0 == old(writer).log(), ms == regex.finds(t), ordered(t, ms), t == haystack@, vx_boff(t, t.len()) <= isize::MAX,
            forall|i: int, w: &mut VxOut| 0 <= i < ms.len() ==> #[trigger] rep.requires((&ms[i], w)),
            it0.pos() <= it0.seq().len(), it0.seq() == ms, j == 2 * it0.pos(),
            last_match == vx_boff(t, fin(ms, it0.pos() as int)), fin(ms, it0.pos() as int) <= t.len(),
            done(rep, t, ms, j, l0, writer.log()),
        decreases it0.seq().len() - it0.pos(),
//@at start
    hide(did);
    hide(done);
    hide(ended);
    let ghost t = haystack@;
    let ghost ms = regex.finds(t);
    let ghost l0 = writer.log();
    let ghost mut j: nat = 0;
    let ghost mut lp = l0;
    proof { lemma_begin(rep, t, ms, l0); }
//@at call vx_write 1 before
    proof { lp = writer.log(); }
//@at call vx_write 1 after
    proof {
        lemma_text(rep, t, ms, j, l0, lp, writer.log(), Ok(()));
        j = j + 1;
    }
//@at call rep 0 before
    proof { lp = writer.log(); }
//@at call rep 0 after
    proof {
        assert(ran(rep, ms[(j / 2) as int], lp, writer.log(), Ok(())));
        lemma_run(rep, t, ms, j, l0, lp, writer.log(), Ok(()));
        j = j + 1;
    }
//@at call vx_write 2 before
    proof { lp = writer.log(); }
//@at exits
    proof {
        assert(t.subrange(0, t.len() as int) =~= t);
        if j % 2 == 1 {
            assert(ran(rep, ms[(j / 2) as int], lp, writer.log(), vx_ret));
            lemma_run(rep, t, ms, j, l0, lp, writer.log(), vx_ret);
        } else { lemma_text(rep, t, ms, j, l0, lp, writer.log(), vx_ret); }
        reveal(ended);
    }
//@end
//@fn lapex-codegen/src/templating.rs TemplateWriter::write wr
//@spec
    requires covered(self.template@, self.substitutions@),
    ensures did(old(f).log(), expand(self.template@, self.substitutions@), final(f).log(), r),
//@sub Regex :: new ("\\/\\*\\{(.*?)\\}\\*\\/") ==> vx_marker_regex()
//@sub &template_regex ==> template_regex.vx_force()
//@rename trim vx_trim
//@closure 0 | | -> (x: Regex) ensures marker(x)
//@closure 1 |captures: &Captures, writer: &mut VxOut| -> (x: Result<(), Error>)
    requires known(*captures, self.substitutions@),
    ensures final(writer).log() == old(writer).log().push(Ev::Ran(sub_of(self.substitutions@, key_text(*captures)).id(), x)),
//@at call insert_substitution 0 before
    proof { lemma_sub(self.substitutions@, key_text(*captures), key); }
//@at call replace_all_streaming 0 before
    let ghost t = self.template@;
    let ghost m = self.substitutions@;
    let ghost ff = |i: int| sub_of(m, inner(t, marks(t, 0)[i])).id();
    let ghost ms = template_regex.val().finds(t);
    proof {
        assert(ms.len() == marks(t, 0).len());
        lemma_marks(t, 0);
        assert forall|i: int, w: &mut VxOut, r: Result<(), Error>| 0 <= i < ms.len() && #[trigger] vx_cl0.ensures((&ms[i], w), r)
            implies final(w).log() == (*w).log().push(Ev::Ran(ff(i), r)) by { assert(key_text(ms[i]) == inner(t, marks(t, 0)[i])); }
        assert(acts(vx_cl0, ms, ff));
        assert(fin(ms, 0) == 0);
        assert(marks(t, 0).skip(0) =~= marks(t, 0));
        lemma_full(t, ms, m, ff, 0);
        assert(steps(t, ms, ff, 0) + out(t, m, 0) =~= out(t, m, 0));
    }
//@end
//@fn lapex-codegen/src/lib.rs GeneratedCodeWriter::with_default wr
//@spec
    requires forall|k: &'static str| #[trigger] writer_fun.requires((k,)),
    ensures
        r.targets@ == Map::<&'static str, &'writer mut VxOut>::empty(),
        forall|k: &'static str, o: Result<VxOut, Error>| #[trigger] r.default_writer_fun.gives(k, o) ==> writer_fun.ensures((k,), o),
//@sub with_default < F, W > ==> with_default < F >
//@sub W : 'writer, F : (Fn (&'static str) -> Result < W, Error >) ==> F : (Fn (&'static str) -> Result < VxOut, Error >)
//@sub Box :: new (move ==> VxOpen :: of (move
//@sub Box :: new (writer) ==> writer
//@closure 0 |name: &'static str| -> (x: Result<VxOut, Error>)
    ensures writer_fun.ensures((name,), x),
//@end
//@fn lapex-codegen/src/lib.rs GeneratedCodeWriter::new wr
//@spec
    ensures
        r.targets@ == Map::<&'static str, &'writer mut VxOut>::empty(),
        forall|k: &'static str, o: Result<VxOut, Error>| #[trigger] r.default_writer_fun.gives(k, o) ==> o is Ok,
//@closure 0 |name: &'static str| -> (x: Result<VxOut, Error>)
    ensures x is Ok,
//@end
//@fn lapex-codegen/src/lib.rs GeneratedCodeWriter::add_target wr
//@spec
    ensures final(self).targets@ == old(self).targets@.insert(key, final(self).targets@[key]), *final(self).targets@[key] == *old(writer), *final(final(self).targets@[key]) == *final(writer), final(self).default_writer_fun == old(self).default_writer_fun,
//@sub add_target < W > ==> add_target
//@sub mut W) ==> mut VxOut)
//@end
//@fn lapex-codegen/src/lib.rs GeneratedCodeWriter::generate_code wr
//@spec
    requires forall|w: &mut VxOut| #[trigger] code_generator.requires((w,)),
    ensures
        final(self).targets@.dom() == old(self).targets@.dom(), final(self).default_writer_fun == old(self).default_writer_fun,
        forall|k: &'static str| k != key && old(self).targets@.contains_key(k) ==> final(self).targets@[k] == old(self).targets@[k],
        old(self).targets@.contains_key(key) ==> generated(code_generator, *old(self).targets@[key], *final(self).targets@[key], r),
        !old(self).targets@.contains_key(key) ==> exists|o: Result<VxOut, Error>| #[trigger] old(self).default_writer_fun.gives(key, o) && match o {
            Ok(w) => exists|w2: VxOut| #[trigger] generated(code_generator, w, w2, r),
            Err(e) => r == Err::<(), Error>(e),
        },
//@at call code_generator 1 before
    let ghost w0 = sink;
//@at call code_generator 1 after
    proof { assert(generated(code_generator, w0, sink, vx_tail)); }
//@end
} // verus!
fn main() {}
