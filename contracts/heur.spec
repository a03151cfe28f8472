# C18: decision heuristics.
define SCOPE(v,d) := 0 <= v < NV && 0 <= d < DOM(v)
fn Formula::sat(l)
  opt inline
fn Formula::chooseLiteral()
  requires var0@heur,hs: NV >= 1 && DOM(0) == 0
  requires set@heur,hs: forall v,d {A(v,d)} :: SCOPE(v,d) && VARLIST[v]->VAL != -1 ==> A(v,d) != 0
  requires counts@heur: forall v,d {VARLIST[v]->ATOMCNTPOS[d]} :: SCOPE(v,d) ==> VARLIST[v]->ATOMCNTPOS[d] - VARLIST[v]->ATOMCNTNEG[d] > 0 - 2147483648
  inv 0 found@heur: tvar != -1 ==> 0 <= tvar < i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 0 none@heur: tvar == -1 ==> max == 0 - 2147483648 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
  inv 1 found@heur: tvar != -1 ==> 0 <= tvar <= i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 1 none@heur: tvar == -1 ==> max == 0 - 2147483648 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
        && (forall d {A(i,d)} :: 0 <= d < j ==> A(i,d) != 0)
  ensures open@heur,hs: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@heur,sat: result.VAR == -1 ==> (forall v,d {A(v,d)} :: SCOPE(v,d) ==> A(v,d) != 0)
fn Formula::chooseLiteralVSIDS()
  requires var0@heur,hs: NV >= 1 && DOM(0) == 0
  requires set@heur,hs: forall v,d {A(v,d)} :: SCOPE(v,d) && VARLIST[v]->VAL != -1 ==> A(v,d) != 0
  requires score@heur,hs: forall v,d {VARLIST[v]->VSIDS_SCORE[d]} :: SCOPE(v,d) ==> VARLIST[v]->VSIDS_SCORE[d] >= 0
  inv 0 found@heur: tvar != -1 ==> 0 <= tvar < i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 0 none@heur: tvar == -1 ==> max == -1 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
  inv 1 found@heur: tvar != -1 ==> 0 <= tvar <= i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 1 none@heur: tvar == -1 ==> max == -1 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
        && (forall d {A(i,d)} :: 0 <= d < j ==> A(i,d) != 0)
  ensures open@heur,hs: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@heur,sat: result.VAR == -1 ==> (forall v,d {A(v,d)} :: SCOPE(v,d) ==> A(v,d) != 0)
fn Formula::chooseLiteralVSIDS_allPos()
  requires var0@heur,hs: NV >= 1 && DOM(0) == 0
  requires set@heur,hs: forall v,d {A(v,d)} :: SCOPE(v,d) && VARLIST[v]->VAL != -1 ==> A(v,d) != 0
  requires score@heur,hs: forall v,d {VARLIST[v]->VSIDS_SCORE[d]} :: SCOPE(v,d) ==> VARLIST[v]->VSIDS_SCORE[d] >= 0
  inv 0 found@heur: tvar != -1 ==> 0 <= tvar < i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 0 none@heur: tvar == -1 ==> max == -1 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
  inv 1 found@heur: tvar != -1 ==> 0 <= tvar <= i && 0 <= tval < DOM(tvar) && A(tvar,tval) == 0
  inv 1 none@heur: tvar == -1 ==> max == -1 && (forall v,d {A(v,d)} :: 0 <= v < i && 0 <= d < DOM(v) ==> A(v,d) != 0)
        && (forall d {A(i,d)} :: 0 <= d < j ==> A(i,d) != 0)
  ensures open@heur,hs: result.VAR != -1 ==> litok(result) && isopen(result) && result.EQUAL
  ensures all@heur,sat: result.VAR == -1 ==> (forall v,d {A(v,d)} :: SCOPE(v,d) ==> A(v,d) != 0)
fn Formula::lazyChooseLiteral()
  requires atoms@heur,hs: forall c,k {AT(c,k)} :: 0 <= c < NC && 0 <= k < SZ(c) ==> litok(AT(c,k))
  inv 0 none@heur: forall c,k {AT(c,k)} :: 0 <= c < i && 0 <= k < SZ(c) && CLAUSELIST[c]->LEVEL == -1 ==> !isopen(AT(c,k))
  inv 1 row@heur: forall k {AT(i,k)} :: 0 <= k < j ==> !isopen(AT(i,k))
  ensures open@heur,hs: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@heur,sat: result.VAR == -1 ==> (forall c,k {AT(c,k)} :: 0 <= c < NC && 0 <= k < SZ(c) && CLAUSELIST[c]->LEVEL == -1 ==> !isopen(AT(c,k)))
fn Formula::lazyWatchedChooseLiteral()
  requires atoms@heur,hs: forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> litok(CLAUSELIST[c]->WATCHED[0])
  inv 0 none@heur: forall c {CLAUSELIST[c]} :: 0 <= c < i ==> !isopen(CLAUSELIST[c]->WATCHED[0])
  ensures open@heur,hs: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@heur,sat: result.VAR == -1 ==> (forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> !isopen(CLAUSELIST[c]->WATCHED[0]))
