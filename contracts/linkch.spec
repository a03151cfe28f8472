# What BuildFormula leaves is what the chronological search asks for.
fn Formula::BuildFormula(cline)
  requires hch@ch: heuristic == BK || heuristic == lazy
  ensures *CHINV @ch by mode,vcell,all,vars,cwf,wfc,wfa,nodup,num,zero,uni,pend,conf,nofalse,score,vars0,heur,hch,recp,recn,recr,recl,fsat,cntall,doms,mem
