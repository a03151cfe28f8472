# The trail at the start of a search, and a single-valued variable has its clause.
fn Formula::BuildFormula(cline)
  inv 5 pick01@tr: forall v {VARLIST[v]} :: 1 <= v && v < NV && DOM(v) >= 2 ==> PICK(v,0) && PICK(v,1) && CELL(v,0) && CELL(v,1) && A(v,0) == 0 && A(v,1) == 0
  ensures *TRAIL @tr
  ensures *CHOICE @tr by pick01,vcell,vars,doms,pick
  ensures dm1@tr by ones,vars,doms,count,onelt,onenn,rd,num: forall v {VARLIST[v]} :: 1 <= v && v <= XN && DM[v] == 1 && MK1(v) ==> INRANGE(NX(NL)+ONE(DM,v-1)) && SZ(NX(NL)+ONE(DM,v-1)) == 1 && AT(NX(NL)+ONE(DM,v-1),0) == lit(v,0,true)
  ensures doms1@tr by dm1,vars,doms,rd: DOMS
