// line and column of the position before character i (i == s.len(): the end of the text)
pub open spec fn lc(s: Seq<char>, i: nat) -> (nat, nat)
    decreases i,
{
    if i == 0 || i > s.len() { (1, 1) }
    else {
        let p = lc(s, (i - 1) as nat);
        if s[i - 1] == '\n' { (p.0 + 1, 1) } else { (p.0, p.1 + 1) }
    }
}
pub open spec fn lex_lt(a: (nat, nat), b: (nat, nat)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
impl SourcePos {
    pub open spec fn p(&self) -> (nat, nat) { (self.line as nat, self.col as nat) }
}
pub broadcast proof fn lemma_mono(s: Seq<char>, i: nat, j: nat)
    requires i < j <= s.len(),
    ensures lex_lt(#[trigger] lc(s, i), #[trigger] lc(s, j)),
    decreases j,
{
    if i + 1 < j { lemma_mono(s, i, (j - 1) as nat); }
    if lc(s, (j - 1) as nat).1 < 1 { lemma_pos(s, (j - 1) as nat); }
}
pub proof fn lemma_pos(s: Seq<char>, i: nat)
    requires i <= s.len(),
    ensures lc(s, i).0 >= 1, lc(s, i).1 >= 1, lc(s, i).0 <= i + 1, lc(s, i).1 <= i + 1,
    decreases i,
{ if i > 0 { lemma_pos(s, (i - 1) as nat); } }
