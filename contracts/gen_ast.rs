// ---- gen_ast.rs ----
pub open spec fn gen_ag(ag: ASTGenerator) -> bool { ag.g is Some && gen_rm(ag.g->Some_0.Rulemap) && costs_ok(ag.minCost) }
