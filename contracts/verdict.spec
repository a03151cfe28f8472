# C06: verifyModel and the verdict on the model; C16: time limit and printed verdict.
ghost clock: real
ghost verdict: int
define MODELOK := forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> (exists k {AT(c,k)} :: 0 <= k < SZ(c) && istrue(AT(c,k)))
fn Formula::verifyModel()
  inv 0 sofar@c06: forall c {CLAUSELIST[c]} :: 0 <= c < i ==> (exists k {AT(c,k)} :: 0 <= k < SZ(c) && istrue(AT(c,k)))
  inv 1 none@c06: !sat && (forall k {AT(i,k)} :: 0 <= k < j ==> !istrue(AT(i,k)))
  ensures iff@c06: result <==> MODELOK
fn Formula::Formula/1(cline)
  opt contract
  ensures limit@c16: TIMELIMIT == cline->TIME
fn Formula::BuildFormula(cline)
  opt contract
  ensures limit@c16: TIMELIMIT == old(TIMELIMIT)
fn Formula::NonChronoBacktrack(restarts)
  opt contract
  opt ret_ghost verdict
  ensures late@c16: result == 1 ==> clock - TIME_S > TIMELIMIT
  ensures kept@c16: TIME_S == old(TIME_S) && TIMELIMIT == old(TIMELIMIT)
  ensures three@c06,c16,sv1,sv2: result == 0 || result == 1 || result == 2
  inv 0 kept@c16: TIME_S == old(TIME_S) && TIMELIMIT == old(TIMELIMIT)
fn Formula::WatchedLiterals(restarts)
  opt contract
  opt ret_ghost verdict
  ensures late@c16: result == 1 ==> clock - TIME_S > TIMELIMIT
  ensures kept@c16: TIME_S == old(TIME_S) && TIMELIMIT == old(TIMELIMIT)
  ensures three@c06,c16,sv1,sv2: result == 0 || result == 1 || result == 2
  ensures only@c06,c16,sv1,sv2: SAID("UNSAT") ==> old(SAID("UNSAT")) || result == 2
  inv 0 kept@c16: TIME_S == old(TIME_S) && TIMELIMIT == old(TIMELIMIT)
  inv 0 only@c06,c16,sv1,sv2: SAID("UNSAT") == old(SAID("UNSAT"))
fn Formula::ChronoBacktrack(level)
  opt contract
  opt ret_ghost verdict
  ensures late@c16: result == 1 ==> clock - TIME_S > TIMELIMIT
  ensures kept@c16: TIME_S == old(TIME_S) && TIMELIMIT == old(TIMELIMIT)
  ensures three@c06,c16,sv1,sv2: result == 0 || result == 1 || result == 2
fn Formula::analyzeConflict(clause, free)
  opt contract
fn Formula::reduceTheory(var, equals, val)
  opt contract
fn Formula::watchedReduceTheory(lit)
  opt contract
fn SolveFinite(cline, type)
  requires fresh@c06,c16,sv1,sv2: !SAID("SAT") && !SAID("UNSAT") && !SAID("TIMEOUT") && !SAID("model is CORRECT") && !SAID("model is INCORRECT")
  ensures sat@c06,c16,sv2: SAID("SAT") <==> verdict == 0
  ensures timeout@c16: SAID("TIMEOUT") <==> verdict == 1
  ensures unsat@c16,sv1: SAID("UNSAT") <==> verdict == 2
  ensures late@c16: SAID("TIMEOUT") ==> clock - TIME_S > cline->TIME
  ensures good@c06: SAID("model is CORRECT") <==> (verdict == 0 && MODELOK)
  ensures bad@c06: SAID("model is INCORRECT") <==> (verdict == 0 && !MODELOK)
