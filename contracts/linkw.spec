# The watch records: none yet.
fn Formula::Formula/1(cline)
  ensures none@prw: forall r:VARRECORD {own[r]} :: own[r] == old(own)[r]
fn SolveFinite(cline, type)
  requires none@prw: forall r:VARRECORD {own[r]} :: !INL(r)
