// tokens.rs: one variant for the end of the input, one for every token name
#[derive(Clone, Copy)]
pub enum TokenType { EndOfFile, Tk(VxName) }
impl TokenType {
    pub open spec fn of(n: VxName) -> TokenType { if n == name_of("EndOfFile"@) { TokenType::EndOfFile } else { TokenType::Tk(n) } }
    #[verifier::external_body]
    pub fn vx_of(n: VxName) -> (r: TokenType)
        ensures r == TokenType::of(n),
    { unimplemented!() }
}
impl VxSame for TokenType {
    #[verifier::external_body]
    fn vx_same(&self, o: &TokenType) -> (r: bool) { unimplemented!() }
}
// how names are written in camel case is left open
pub uninterp spec fn camel(n: Seq<char>) -> Seq<char>;
pub open spec fn tk_name(n: Seq<char>) -> Seq<char> { vx_txt1("Tk{}"@, camel(n)) }
// a token's variant
pub open spec fn tok_of(n: Seq<char>) -> TokenType { TokenType::of(name_of(tk_name(n))) }
pub broadcast proof fn lemma_tok_of(n: Seq<char>)
    ensures #[trigger] tok_of(n) == TokenType::Tk(name_of(tk_name(n))), tok_of(n) != TokenType::EndOfFile,
{
    broadcast use axiom_name_text;
    reveal_strlit("EndOfFile");
    reveal_strlit("Tk{}");
    assert(tk_name(n)[0] == 'T');
    assert(name_of("EndOfFile"@).text()[0] == 'E');
    assert(name_of(tk_name(n)).text()[0] == 'T');
}
//@fn lapex-rust-codegen/src/lib.rs convert_snake_to_upper_camel external
//@spec
    ensures r@ == camel(name@),
//@end
//@fn lapex-rust-codegen/src/lib.rs get_token_enum_name fmt
//@spec
    ensures r@ == tk_name(name@),
//@end
