//@stage lapex-rust-codegen/src/lr_parser/mod.rs as=rparser
prog write_parser ParseProg
arms * gotos GotoArm (usize, StackSymbol)
arms * actions ActArm (usize, TokenType)
arms * rule_reductions RedArm ReducedRule
arms * rule_visits VisitArm ReducedRule
arms make_goto condition GotoCond (usize, StackSymbol)
arms make_action condition ActCond (usize, TokenType)
ret make_gotos Vec<GotoArm>
ret make_actions Vec<ActArm>
ret make_rule_reductions Vec<RedArm>
ret make_rule_visits Vec<VisitArm>
var make_goto.condition GotoCond
var make_action.condition ActCond
var state usize
var target usize
var token VxName
var expected Vec<VxName>
var rule_name VxName
var symbols_to_reduce usize
var non_terminal VxName
var function VxName
var entry usize
named TokenType
named NonTerminalType
named ReducedRule
ghost TabG<'_, '_>
//@end
//@include inc_tokens.rs
//@include inc_rpmach.rs
