// what a grammar file states, extracted
//@type lapex-input/src/lib.rs EntryRule
//@type lapex-input/src/lib.rs RuleSet
