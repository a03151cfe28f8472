# C20, printing: PrintModel writes one line VAR=VAL for every true cell of the trail; lines MLO..MHI-1.
ghost MLO: int
ghost MHI: int
define PLINE(l) := LLEN[l] == 3 && LITT(l,0,TOK[l][0],TOK[l][2])
define GOODLINE(l) := PLINE(l) && CELL(TOK[l][0],TOK[l][2]) && A(TOK[l][0],TOK[l][2]) == 1
define FROM(l,n) := exists p {DECSTACK[p]} :: 0 <= p && p < n && DECSTACK[p].EQUAL && DECSTACK[p].VAR == TOK[l][0] && DECSTACK[p].VAL == TOK[l][2]
define PRINTED(v,d,lo,hi) := exists l {TOK[l]} {PICK(l,0)} :: PICK(l,0) && lo <= l && l < hi && TOK[l][0] == v && TOK[l][2] == d
fn Formula::PrintModel()
  requires clean@trp: CLEAN
  requires *TRAIL @trp
  requires placed@trp: PLACED
  requires atmost@trp: ATMOST
  set MLO@trp: old(LINE)
  set MHI@trp: LINE
  inv 0 clean@trp: CLEAN && LINE >= old(LINE)
  inv 0 line@trp: forall l {TOK[l]} :: old(LINE) <= l && l < LINE ==> PLINE(l) && FROM(l,i)
  inv 0 once@trp: forall l, m {TOK[l],TOK[m]} :: old(LINE) <= l && l < m && m < LINE ==> TOK[l][0] != TOK[m][0]
  inv 0 all@trp: forall p {DECSTACK[p]} :: 0 <= p && p < i && DECSTACK[p].EQUAL ==> PRINTED(DECSTACK[p].VAR,DECSTACK[p].VAL,old(LINE),LINE)
  ensures range@trp: CLEAN && MLO == old(LINE) && MHI == LINE && MLO <= MHI
  ensures line@trp: forall l {TOK[l]} :: MLO <= l && l < MHI ==> GOODLINE(l)
  ensures once@trp: forall l, m {TOK[l],TOK[m]} :: MLO <= l && l < m && m < MHI ==> TOK[l][0] != TOK[m][0]
  ensures all@trp: forall v, d {A(v,d)} :: CELL(v,d) && A(v,d) == 1 ==> PRINTED(v,d,MLO,MHI)
fn Formula::verifyModel()
  opt contract
  ensures quiet@trp: LINE >= old(LINE) && (LINE > old(LINE) ==> POS >= 0) && (forall l {TOK[l]} {KND[l]} {LLEN[l]} :: l < old(LINE) ==> TOK[l] == old(TOK)[l] && KND[l] == old(KND)[l] && LLEN[l] == old(LLEN)[l])
fn SolveFinite(cline, type)
  ensures line@trp: verdict == 0 && cline->MODEL ==> (forall l {TOK[l]} :: MLO <= l && l < MHI ==> GOODLINE(l))
  ensures once@trp: verdict == 0 && cline->MODEL ==> (forall l, m {TOK[l],TOK[m]} :: MLO <= l && l < m && m < MHI ==> TOK[l][0] != TOK[m][0])
  ensures every@trp: verdict == 0 && cline->MODEL && cline->heuristic != lazy ==> (forall v {VARLIST[v]} :: 1 <= v && v < NV && PICK(v,v) ==> (exists l {TOK[l]} {PICK(l,0)} :: PICK(l,0) && MLO <= l && l < MHI && TOK[l][0] == v))
fn Formula::Formula/1(cline)
  ensures heur@trp: heuristic == cline->heuristic
fn Formula::BuildFormula(cline)
  ensures heur@trp: heuristic == old(heuristic)
