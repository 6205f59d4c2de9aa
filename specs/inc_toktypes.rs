// token rules, extracted
//@type lapex-input/src/lib.rs Characters
//@type lapex-input/src/lib.rs Pattern
//@type lapex-input/src/lib.rs TokenPattern
//@type lapex-input/src/lib.rs TokenRule
