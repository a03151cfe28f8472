# From the file to the verdict: what the constructor and BuildFormula leave is what the searches ask for, and
# the verdict speaks of the clause lines of the file.  MV: an arbitrary assignment satisfying the file.
define FSAT := (forall v {MV(v)} {DM[v]} :: 1 <= v && v <= XN ==> 0 <= MV(v) && MV(v) < DM[v]) && (forall l {LC[l]} :: 0 <= l && l < NL && XCL(LC,LN,l) ==> (exists k {XVAR(l,k)} :: 0 <= k && k < NW(l)-1 && MTRUE(XLIT(l,k))))
define TSAT(l) := exists k {XVAR(l,k)} :: 0 <= k && k < NW(l)-1 && istrue(XLIT(l,k))
fn Formula::Formula/1(cline)
  opt contract
  opt ctor
  ensures fresh@prs: VARLIST.len == 0 && CLAUSELIST.len == 0 && UNITLIST.lo == UNITLIST.hi && DECSTACK.len == 0 && LEVEL == 0 && !CONFLICT
  ensures opts@prs: heuristic == cline->heuristic && WATCH == cline->WATCH
fn Formula::BuildFormula(cline)
  requires fsat@c07s: FSAT
  inv 0 fsat@c07s: FSAT
  inv 1 fsat@c07s: FSAT
  inv 5 fsat@c07s: FSAT
  inv 0 last@c07s by fsat,sat,mem,tmp,pos,end,at,rd,doms,all,cwf,num,range,count: NC >= 1 ==> CSAT(CLAUSELIST[NC-1])
  inv 0 all@c07s by last,count,all,fsat,sat,mem,tmp,cwf,wfc,pos,end,at,rd,words,doms,vars,range: ALLSAT
  inv 1 all@c07s by all,fsat,sat,mem,tmp,cwf,wfc,pos,end,at,rd,words,doms,vars,range: ALLSAT
  inv 5 all@c07s by all,fsat,sat,mem,tmp,cwf,wfc,pos,end,at,rd,words,doms,vars,range: ALLSAT
  inv 1 sat@c07s: forall k {XVAR(RD-1,k)} :: 0 <= k && k < KK(lp.pos) && MTRUE(XLIT(RD-1,k)) ==> CSAT(temp_clause)
  inv 0 len0@c07: VARLIST[0]->CLAUSEID.len == 0
  inv 1 len0@c07: VARLIST[0]->CLAUSEID.len == 0
  inv 5 len0@c07: VARLIST[0]->CLAUSEID.len == 0
  ensures struct@c07: STRUCT
  ensures search@c07s by all,fsat,vars: SEARCH
  ensures opts@prs: heuristic == old(heuristic) && WATCH == old(WATCH)
fn SolveFinite(cline, type)
  requires *PTEXT
  requires start@prs: RD == 0
  requires fsat@c07s: FSAT
  requires plain@prc: !cline->WATCH
  requires nc@nc,wl: !STREQ(type,"ch")
  requires ch@ch: STREQ(type,"ch") && (cline->heuristic == BK || cline->heuristic == lazy)
  requires watch@prw: cline->WATCH && cline->heuristic != BK
  requires heur@prc,prw: cline->heuristic == VSIDS || cline->heuristic == VSIDS_pos || cline->heuristic == BK || cline->heuristic == lazy
  ensures unsat@agr: !SAID("UNSAT")
  ensures sat@sat: SAID("SAT") ==> (forall l {LC[l]} :: 0 <= l && l < NL && XCL(LC,LN,l) ==> TSAT(l))
