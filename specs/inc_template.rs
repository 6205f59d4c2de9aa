// a key is known by its text
pub open spec fn skey(k: &str) -> &'static str { <&'static str as VxKey<str>>::vx_key(k) }
// what the replacement function does at each match: one function value run
#[verifier::prophetic]
pub open spec fn acts<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, ms: Seq<Captures>, f: spec_fn(int) -> int) -> bool {
    forall|i: int, w: &mut VxOut, r: Result<(), Error>| 0 <= i < ms.len() && #[trigger] rep.ensures((&ms[i], w), r)
        ==> final(w).log() == (*w).log().push(Ev::Ran(f(i), r))
}
// end of match k - 1, start of match k
pub open spec fn fin(ms: Seq<Captures>, k: int) -> nat { if k == 0 { 0 } else { at0(ms[k - 1]).1 } }
pub open spec fn beg(t: Seq<char>, ms: Seq<Captures>, k: int) -> nat { if k >= ms.len() { t.len() } else { at0(ms[k]).0 } }
// the work in steps: text, match, text, match, .., text
pub open spec fn step(t: Seq<char>, ms: Seq<Captures>, f: spec_fn(int) -> int, j: nat) -> Seq<Ev> {
    if j % 2 == 0 { chars(t.subrange(fin(ms, (j / 2) as int) as int, beg(t, ms, (j / 2) as int) as int)) }
    else { seq![Ev::Ran(f((j / 2) as int), Ok(()))] }
}
pub open spec fn steps(t: Seq<char>, ms: Seq<Captures>, f: spec_fn(int) -> int, j: nat) -> Seq<Ev>
    decreases j,
{ if j == 0 { Seq::empty() } else { steps(t, ms, f, (j - 1) as nat) + step(t, ms, f, (j - 1) as nat) } }
pub open spec fn full(t: Seq<char>, ms: Seq<Captures>, f: spec_fn(int) -> int) -> Seq<Ev> { steps(t, ms, f, 2 * ms.len() + 1) }

pub proof fn lemma_did_more(l0: Seq<Ev>, a: Seq<Ev>, b: Seq<Ev>, l1: Seq<Ev>, e: Error)
    requires did(l0, a, l1, Err(e)),
    ensures did(l0, a + b, l1, Err(e)),
{
    let k = choose|k: nat| #[trigger] halted(l0, a, l1, e, k);
    assert((a + b).take(k as int) =~= a.take(k as int));
    assert(halted(l0, a + b, l1, e, k));
}
pub proof fn lemma_did_next(l0: Seq<Ev>, a: Seq<Ev>, l1: Seq<Ev>, b: Seq<Ev>, l2: Seq<Ev>, r: Result<(), Error>)
    requires l1 == l0 + a, did(l1, b, l2, r),
    ensures did(l0, a + b, l2, r),
{
    match r {
        Ok(_) => { assert(l2 =~= l0 + (a + b)); }
        Err(e) => {
            let k = choose|k: nat| #[trigger] halted(l1, b, l2, e, k);
            assert(l1 + b.take(k as int) =~= l0 + (a + b).take((a.len() + k) as int));
            if k < b.len() { assert((a + b)[(a.len() + k) as int] == b[k as int]); }
            assert(halted(l0, a + b, l2, e, (a.len() + k) as nat));
        }
    }
}
pub proof fn lemma_did_ran(l1: Seq<Ev>, i: int, l2: Seq<Ev>, r: Result<(), Error>)
    requires l2 == l1.push(Ev::Ran(i, r)),
    ensures did(l1, seq![Ev::Ran(i, Ok(()))], l2, r),
{
    let b = seq![Ev::Ran(i, Ok(()))];
    match r {
        Ok(x) => { assert(x == ()); assert(l2 =~= l1 + b); }
        Err(e) => { assert(l1 + b.take(0) =~= l1); assert(b[0] == Ev::Ran(i, Ok(()))); assert(halted(l1, b, l2, e, 0)); }
    }
}
pub proof fn lemma_steps(t: Seq<char>, ms: Seq<Captures>, f: spec_fn(int) -> int, j: nat, n: nat)
    requires j <= n,
    ensures exists|b: Seq<Ev>| steps(t, ms, f, n) == #[trigger] (steps(t, ms, f, j) + b),
    decreases n - j,
{
    if j < n {
        lemma_steps(t, ms, f, j + 1, n);
        let b = choose|b: Seq<Ev>| steps(t, ms, f, n) == #[trigger] (steps(t, ms, f, j + 1) + b);
        assert(steps(t, ms, f, j + 1) + b =~= steps(t, ms, f, j) + (step(t, ms, f, j) + b));
    } else { assert(steps(t, ms, f, j) + Seq::empty() =~= steps(t, ms, f, n)); }
}
// step j attempted after j steps
pub proof fn lemma_attempt(t: Seq<char>, ms: Seq<Captures>, f: spec_fn(int) -> int, j: nat, l0: Seq<Ev>, l1: Seq<Ev>, l2: Seq<Ev>, r: Result<(), Error>)
    requires j <= 2 * ms.len(), l1 == l0 + steps(t, ms, f, j), did(l1, step(t, ms, f, j), l2, r),
    ensures
        r is Ok ==> l2 == l0 + steps(t, ms, f, j + 1),
        r is Err || j == 2 * ms.len() ==> did(l0, full(t, ms, f), l2, r),
{
    lemma_did_next(l0, steps(t, ms, f, j), l1, step(t, ms, f, j), l2, r);
    if r is Err {
        lemma_steps(t, ms, f, j + 1, 2 * ms.len() + 1);
        let b = choose|b: Seq<Ev>| steps(t, ms, f, 2 * ms.len() + 1) == #[trigger] (steps(t, ms, f, j + 1) + b);
        lemma_did_more(l0, steps(t, ms, f, j + 1), b, l2, r->Err_0);
    }
}

// the same for every way the function value may act: a text step, and a step of the function value
#[verifier::prophetic]
pub open spec fn done<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, t: Seq<char>, ms: Seq<Captures>, j: nat, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
    forall|f: spec_fn(int) -> int| #[trigger] acts(rep, ms, f) ==> l == l0 + steps(t, ms, f, j)
}
#[verifier::prophetic]
pub open spec fn ended<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, t: Seq<char>, ms: Seq<Captures>, l0: Seq<Ev>, l: Seq<Ev>, r: Result<(), Error>) -> bool {
    forall|f: spec_fn(int) -> int| #[trigger] acts(rep, ms, f) ==> did(l0, full(t, ms, f), l, r)
}
pub proof fn lemma_begin<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, t: Seq<char>, ms: Seq<Captures>, l0: Seq<Ev>)
    ensures done(rep, t, ms, 0, l0, l0),
{ assert(l0 + Seq::<Ev>::empty() =~= l0); }
pub proof fn lemma_text<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, t: Seq<char>, ms: Seq<Captures>, j: nat, l0: Seq<Ev>, l1: Seq<Ev>, l2: Seq<Ev>, r: Result<(), Error>)
    requires
        done(rep, t, ms, j, l0, l1), j % 2 == 0, j <= 2 * ms.len(),
        did(l1, chars(t.subrange(fin(ms, (j / 2) as int) as int, beg(t, ms, (j / 2) as int) as int)), l2, r),
    ensures
        r is Ok ==> done(rep, t, ms, j + 1, l0, l2),
        r is Err || j == 2 * ms.len() ==> ended(rep, t, ms, l0, l2, r),
{
    assert forall|f: spec_fn(int) -> int| #[trigger] acts(rep, ms, f) implies (r is Ok ==> l2 == l0 + steps(t, ms, f, j + 1)) && (r is Err || j == 2 * ms.len() ==> did(l0, full(t, ms, f), l2, r)) by {
        lemma_attempt(t, ms, f, j, l0, l1, l2, r);
    }
}
pub proof fn lemma_run<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, t: Seq<char>, ms: Seq<Captures>, j: nat, l0: Seq<Ev>, l1: Seq<Ev>, l2: Seq<Ev>, r: Result<(), Error>)
    requires
        done(rep, t, ms, j, l0, l1), j % 2 == 1, j < 2 * ms.len(),
        ran(rep, ms[(j / 2) as int], l1, l2, r),
    ensures
        r is Ok ==> done(rep, t, ms, j + 1, l0, l2),
        r is Err ==> ended(rep, t, ms, l0, l2, r),
{
    assert forall|f: spec_fn(int) -> int| #[trigger] acts(rep, ms, f) implies (r is Ok ==> l2 == l0 + steps(t, ms, f, j + 1)) && (r is Err ==> did(l0, full(t, ms, f), l2, r)) by {
        lemma_did_ran(l1, f((j / 2) as int), l2, r);
        lemma_attempt(t, ms, f, j, l0, l1, l2, r);
    }
}
#[verifier::prophetic]
pub open spec fn ran<R: Fn(&Captures, &mut VxOut) -> Result<(), Error>>(rep: R, c: Captures, l1: Seq<Ev>, l2: Seq<Ev>, r: Result<(), Error>) -> bool {
    exists|w: &mut VxOut| (*w).log() == l1 && final(w).log() == l2 && #[trigger] rep.ensures((&c, w), r)
}

// ---- the template's text, read from character i on ----------------------------------------------------
pub type Subs<'w> = Map<&'static str, VxSub<'w>>;
pub open spec fn has(m: Subs, x: Seq<char>) -> bool { exists|k: &'static str| #[trigger] m.contains_key(k) && k@ == x }
pub open spec fn sub_of(m: Subs, x: Seq<char>) -> VxSub { m[pick(m, x)] }
pub open spec fn pick(m: Subs, x: Seq<char>) -> &'static str { choose|k: &'static str| #[trigger] m.contains_key(k) && k@ == x }
pub open spec fn inner(t: Seq<char>, m: (nat, nat)) -> Seq<char> { trimmed(t.subrange(m.0 as int + 3, m.1 as int - 3)) }
pub open spec fn is_mark(t: Seq<char>, i: nat) -> bool { opens(t, i) && close_from(t, i + 3) is Some && i + 3 <= close_from(t, i + 3)->0 && close_from(t, i + 3)->0 + 3 <= t.len() }
// every marker replaced by what the substitution of its key writes, every other character copied
pub open spec fn out(t: Seq<char>, m: Subs, i: nat) -> Seq<Ev>
    decreases t.len() - i,
{
    if i >= t.len() { Seq::empty() }
    else if is_mark(t, i) {
        let e = close_from(t, i + 3)->0 + 3;
        seq![Ev::Ran(sub_of(m, inner(t, (i, e))).id(), Ok(()))] + out(t, m, e)
    } else { seq![Ev::Ch(t[i as int])] + out(t, m, i + 1) }
}
pub open spec fn expand(t: Seq<char>, m: Subs) -> Seq<Ev> { out(t, m, 0) }
pub open spec fn covered(t: Seq<char>, m: Subs) -> bool { forall|i: int| 0 <= i < marks(t, 0).len() ==> has(m, inner(t, #[trigger] marks(t, 0)[i])) }
pub open spec fn known(c: Captures, m: Subs) -> bool {
    c.grp(1) is Some && has(m, key_text(c))
}
pub open spec fn key_text(c: Captures) -> Seq<char> { trimmed(c.text().subrange((c.grp(1)->0).0 as int, (c.grp(1)->0).1 as int)) }
pub proof fn lemma_sub(m: Subs, x: Seq<char>, k: &str)
    requires has(m, x), k@ == x,
    ensures m.contains_key(skey(k)), m[skey(k)] == sub_of(m, x),
{
    axiom_str_text(pick(m, x), k);
}
pub proof fn lemma_out(t: Seq<char>, m: Subs, i: nat)
    requires i <= t.len(),
    ensures
        marks(t, i).len() == 0 ==> out(t, m, i) == chars(t.subrange(i as int, t.len() as int)),
        marks(t, i).len() > 0 ==> ({
            let x = marks(t, i)[0];
            i <= x.0 && x.0 + 6 <= x.1 <= t.len() + 0 && marks(t, i).skip(1) == marks(t, x.1)
                && out(t, m, i) == chars(t.subrange(i as int, x.0 as int)) + (seq![Ev::Ran(sub_of(m, inner(t, x)).id(), Ok(()))] + out(t, m, x.1))
        }),
    decreases t.len() - i,
{
    if i >= t.len() { assert(chars(t.subrange(i as int, t.len() as int)) =~= Seq::empty()); }
    else if is_mark(t, i) {
        let e = close_from(t, i + 3)->0 + 3;
        lemma_close(t, i + 3);
        assert((seq![(i, e)] + marks(t, e)).skip(1) =~= marks(t, e));
        let b = seq![Ev::Ran(sub_of(m, inner(t, (i, e))).id(), Ok(()))] + out(t, m, e);
        assert(chars(t.subrange(i as int, i as int)) + b =~= b);
    } else {
        lemma_out(t, m, i + 1);
        if marks(t, i).len() == 0 {
            assert(out(t, m, i) =~= chars(t.subrange(i as int, t.len() as int)));
        } else {
            let x = marks(t, i)[0];
            assert(seq![Ev::Ch(t[i as int])] + chars(t.subrange(i as int + 1, x.0 as int)) =~= chars(t.subrange(i as int, x.0 as int)));
            let b = seq![Ev::Ran(sub_of(m, inner(t, x)).id(), Ok(()))] + out(t, m, x.1);
            assert(seq![Ev::Ch(t[i as int])] + (chars(t.subrange(i as int + 1, x.0 as int)) + b) =~= chars(t.subrange(i as int, x.0 as int)) + b);
        }
    }
}
pub proof fn lemma_close(t: Seq<char>, i: nat)
    ensures close_from(t, i) matches Some(j) ==> i <= j && j + 3 <= t.len(),
    decreases t.len() - i,
{ if closes(t, i) || i >= t.len() || t[i as int] == '\n' { } else { lemma_close(t, i + 1); } }
pub open spec fn spans_are(ms: Seq<Captures>, s: Seq<(nat, nat)>) -> bool { ms.len() == s.len() && forall|i: int| 0 <= i < ms.len() ==> at0(#[trigger] ms[i]) == s[i] }
// the steps taken at the markers are the expansion
pub proof fn lemma_full(t: Seq<char>, ms: Seq<Captures>, m: Subs, f: spec_fn(int) -> int, k: nat)
    requires
        k <= ms.len(), spans_are(ms, marks(t, 0)), fin(ms, k as int) <= t.len(),
        marks(t, fin(ms, k as int)) == marks(t, 0).skip(k as int),
        forall|i: int| 0 <= i < ms.len() ==> #[trigger] f(i) == sub_of(m, inner(t, marks(t, 0)[i])).id(),
    ensures full(t, ms, f) == steps(t, ms, f, 2 * k) + out(t, m, fin(ms, k as int)),
    decreases ms.len() - k,
{
    let i = fin(ms, k as int);
    lemma_out(t, m, i);
    assert((2 * k) / 2 == k);
    if k < ms.len() {
        let x = marks(t, 0)[k as int];
        assert(marks(t, i)[0] == x);
        assert(at0(ms[k as int]) == x);
        assert(marks(t, 0).skip(k as int).skip(1) =~= marks(t, 0).skip(k as int + 1));
        lemma_full(t, ms, m, f, k + 1);
        assert((2 * k + 1) / 2 == k);
        let a = steps(t, ms, f, 2 * k);
        assert(step(t, ms, f, 2 * k) == chars(t.subrange(i as int, x.0 as int)));
        assert(step(t, ms, f, 2 * k + 1) == seq![Ev::Ran(f(k as int), Ok(()))]);
        assert(steps(t, ms, f, 2 * k + 1) == a + step(t, ms, f, 2 * k));
        assert(steps(t, ms, f, 2 * k + 2) == (a + step(t, ms, f, 2 * k)) + step(t, ms, f, 2 * k + 1));
        assert(full(t, ms, f) =~= a + out(t, m, i));
    } else {
        assert(marks(t, i).len() == 0);
        assert(beg(t, ms, k as int) == t.len());
        assert(full(t, ms, f) == steps(t, ms, f, 2 * k) + step(t, ms, f, 2 * k));
    }
}

// ---- code writers ------------------------------------------------------------------------------------
// one run of the generator on a writer
#[verifier::prophetic]
pub open spec fn generated<G: Fn(&mut VxOut) -> Result<(), Error>>(g: G, a: VxOut, b: VxOut, r: Result<(), Error>) -> bool {
    exists|w: &mut VxOut| *w == a && *final(w) == b && #[trigger] g.ensures((w,), r)
}

pub proof fn lemma_marks(t: Seq<char>, i: nat)
    ensures forall|k: int| 0 <= k < marks(t, i).len() ==> ((#[trigger] marks(t, i)[k]).0 + 6 <= marks(t, i)[k].1 && marks(t, i)[k].1 <= t.len()),
    decreases t.len() - i,
{
    if i >= t.len() { assert(marks(t, i).len() == 0); }
    else if is_mark(t, i) {
        let e = close_from(t, i + 3)->0 + 3;
        lemma_marks(t, e);
        assert(marks(t, i) == seq![(i, e)] + marks(t, e));
        assert forall|k: int| 0 <= k < marks(t, i).len() implies ((#[trigger] marks(t, i)[k]).0 + 6 <= marks(t, i)[k].1 && marks(t, i)[k].1 <= t.len()) by {
            if k > 0 { assert(marks(t, i)[k] == marks(t, e)[k - 1]); } else { assert(marks(t, i)[0] == (i, e)); }
        }
    } else { lemma_marks(t, i + 1); assert(marks(t, i) == marks(t, i + 1)); }
}
