# C17: the solver over bit sets of values (bitvec/).  A value of a variable is in its current domain or was removed by
# one of its nodes; LASTI is the latest node that removed a value of a set.
function UNF(int): bool
function LASTI(narr,int,bits): int
axiom li0: forall el:narr, n; b:bits {LASTI(el,n,b)} :: n <= 0 ==> LASTI(el,n,b) == -1
axiom def.li: forall el:narr, n; b:bits {LASTI(el,n,b), UNF(n)} :: n > 0 ==> LASTI(el,n,b) == (bany(band(el[n-1].values,b)) ? n - 1 : LASTI(el,n-1,b))
lemma lirng by def.li,li0 induct n: forall el:narr, n; b:bits {LASTI(el,n,b)} :: LASTI(el,n,b) >= -1 && (n >= 0 ==> LASTI(el,n,b) < n)
lemma lihit by def.li,li0,lirng induct n: forall el:narr, n; b:bits {LASTI(el,n,b)} :: LASTI(el,n,b) >= 0 ==> bany(band(el[LASTI(el,n,b)].values,b))
lemma liin by def.li,li0,lirng induct n: forall el:narr, n; b:bits; i:int {LASTI(el,n,b), el[i]} :: 0 <= i && i < n && bany(band(el[i].values,b)) ==> LASTI(el,n,b) >= i
lemma lior by def.li,li0,lirng induct n: forall el:narr, n; a:bits, b:bits {LASTI(el,n,bor(a,b))} :: LASTI(el,n,bor(a,b)) == (LASTI(el,n,a) >= LASTI(el,n,b) ? LASTI(el,n,a) : LASTI(el,n,b))
lemma listo by def.li,li0 induct n: forall el:narr, n; b:bits; m:int; x:node {LASTI(store(el,m,x),n,b)} :: n <= m ==> LASTI(store(el,m,x),n,b) == LASTI(el,n,b)
axiom listep: forall el:narr, n, m; b:bits {LASTI(el,n,b), LASTI(el,m,b)} :: m == n - 1 && n > 0 ==> LASTI(el,n,b) == (bany(band(el[n-1].values,b)) ? n - 1 : LASTI(el,n-1,b))
lemma lipush by listo,listep: forall el:narr, n, m; b:bits; x:node {LASTI(store(el,n,x),m,b)} :: m == n + 1 && n >= 0 ==> LASTI(store(el,n,x),n,b) == LASTI(el,n,b) && store(el,n,x)[n] == x && LASTI(store(el,n,x),m,b) == (bany(band(x.values,b)) ? n : LASTI(el,n,b))
lemma litrunc by def.li,listep,li0,lirng induct n: forall el:narr, n, m; b:bits {LASTI(el,n,b), LASTI(el,m,b)} :: 0 <= m && m <= n && LASTI(el,n,b) < m ==> LASTI(el,m,b) == LASTI(el,n,b)
lemma bsplit: forall a:bits, c:bits, b:bits {band(band(a,c),b),band(a,bnot(c))} :: bany(band(a,b)) == (bany(band(band(a,c),b)) || bany(band(band(a,bnot(c)),b)))
# occurrences of a number, to count the nodes in use
function NOC(iarr,int,int): int
axiom noc0: forall el:iarr, n, x {NOC(el,n,x)} :: n <= 0 ==> NOC(el,n,x) == 0
axiom def.noc: forall el:iarr, n, x {NOC(el,n,x), UNF(n)} :: n > 0 ==> NOC(el,n,x) == NOC(el,n-1,x) + (el[n-1] == x ? 1 : 0)
lemma nocnn by def.noc,noc0 induct n: forall el:iarr, n, x {NOC(el,n,x)} :: NOC(el,n,x) >= 0
lemma nocub by def.noc,noc0 induct n: forall el:iarr, n, x {NOC(el,n,x)} :: n >= 0 ==> NOC(el,n,x) <= n
lemma nocst by def.noc,noc0 induct n: forall el:iarr, n, x, m, y {NOC(store(el,m,y),n,x)} :: n <= m ==> NOC(store(el,m,y),n,x) == NOC(el,n,x)
lemma nocset by def.noc,noc0,nocst induct n: forall el:iarr, n, x, m, y {NOC(store(el,m,y),n,x)} :: 0 <= m && m < n && y == x && el[m] != x ==> NOC(store(el,m,y),n,x) == NOC(el,n,x) + 1
function MKJ(int): bool
axiom mkj: forall j {MKJ(j)} :: MKJ(j)
lemma noclow by def.noc,noc0,mkj induct n: forall el:iarr, n, x, j {NOC(el,n,x), MKJ(j)} :: MKJ(j) && 0 <= j && 0 <= n && (forall p {el[p]} :: 1 <= p && p <= j ==> el[p] != x) ==> NOC(el,n,x) <= (n <= j ? 1 : n - j)
lemma nochi by def.noc,noc0,nocnn,mkj induct n: forall el:iarr, n, x, q {NOC(el,n,x), MKJ(q)} :: MKJ(q) && 1 <= q && 1 <= n && el[0] == x && (forall p {el[p]} :: q <= p && p < n ==> el[p] == x) ==> NOC(el,n,x) >= (n <= q ? 1 : n - q + 1)
lemma nocone by def.noc,noc0 induct n: forall el:iarr, n, x {NOC(el,n,x)} :: n >= 1 && el[0] == x && (forall p {el[p]} :: 1 <= p && p < n ==> el[p] != x) ==> NOC(el,n,x) == 1
function FULL(int): bits
axiom full: forall n, i {bit(FULL(n),i)} :: bit(FULL(n),i) <==> 0 <= i && i < n && i < 64
define NV := VARLIST.len
define NC := CLAUSELIST.len
define DOM(v) := VARLIST[v]->DOMAINSIZE
define CD(v) := VARLIST[v]->CURRENT_DOMAIN
define GN(v) := VARLIST[v]->graphNodes
define SZ(c) := CLAUSELIST[c]->ATOM_LIST.len
define AT(c,k) := CLAUSELIST[c]->ATOM_LIST[k]
define AL(c) := CLAUSELIST[c]->ATOM_LIST.el
define VAROK(v) := 1 <= v && v < VARLIST.len
define INRANGE(c) := 0 <= c && c < CLAUSELIST.len
define NODE(v,i) := 1 <= v && v < VARLIST.len && 0 <= i && i < VARLIST[v]->graphNodes.len
define NLEV(v,i) := VARLIST[v]->graphNodes.el[i].level
define NIDX(v,i) := VARLIST[v]->graphNodes.el[i].index
define NRSN(v,i) := VARLIST[v]->graphNodes.el[i].reason
define NVAL(v,i) := VARLIST[v]->graphNodes.el[i].values
define LIB(v,b) := LASTI(VARLIST[v]->graphNodes.el,VARLIST[v]->graphNodes.len,b)
define LVB(v,b) := LASTI(VARLIST[v]->graphNodes.el,VARLIST[v]->graphNodes.len,b) < 0 ? -1 : VARLIST[v]->graphNodes.el[LASTI(VARLIST[v]->graphNodes.el,VARLIST[v]->graphNodes.len,b)].level
define IXB(v,b) := LASTI(VARLIST[v]->graphNodes.el,VARLIST[v]->graphNodes.len,b) < 0 ? -1 : VARLIST[v]->graphNodes.el[LASTI(VARLIST[v]->graphNodes.el,VARLIST[v]->graphNodes.len,b)].index
define FALB(v,b) := !bany(band(VARLIST[v]->CURRENT_DOMAIN,b))
define isfalse(l) := FALB(l.VAR,l.VALS)
define istrue(l) := FALB(l.VAR,bnot(l.VALS))
define isopen(l) := !istrue(l) && !isfalse(l)
define LF(l) := LVB(l.VAR,l.VALS)
define LT(l) := LVB(l.VAR,bnot(l.VALS))
define IF(l) := IXB(l.VAR,l.VALS)
define litok(l) := 1 <= l.VAR && l.VAR < VARLIST.len && bany(l.VALS) && !bany(band(l.VALS,bnot(FULL(VARLIST[l.VAR]->DOMAINSIZE))))
define ALIVE := forall c {CLAUSELIST[c]} :: INRANGE(c) ==> alloc(CLAUSELIST[c])
define NOTIN(p) := forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != p
define KEPT(p) := p->ATOM_LIST.len == old(p->ATOM_LIST.len) && p->ATOM_LIST.el == old(p->ATOM_LIST.el)
define KEPTW(p) := p->WATCHED[0] == old(p->WATCHED[0]) && p->WATCHED[1] == old(p->WATCHED[1])
fn Clause::Print()
  opt contract
fn Literal::isSuperset(vals)
  ensures iff@bv: result <==> !bany(band(vals,bnot(this.VALS)))
fn Formula::sat(literal)
  opt contract
  ensures r1@bv: result == 1 <==> istrue(literal)
  ensures r0@bv: result == 0 <==> !istrue(literal) && isfalse(literal)
  ensures r2@bv: result == 0 || result == 1 || result == 2
fn Variable::getIGNode(values)
  opt contract
  inv 0 none@bv: -1 <= i && i < this->graphNodes.len && LASTI(this->graphNodes.el,this->graphNodes.len,values) == LASTI(this->graphNodes.el,i+1,values)
  ensures hit@bv: let n := LASTI(this->graphNodes.el,this->graphNodes.len,values); n >= 0 ==> result == this->graphNodes.el[n]
  ensures miss@bv: let n := LASTI(this->graphNodes.el,this->graphNodes.len,values); n < 0 ==> result.index == -1 && result.level == -1 && result.reason == -1
# one literal for each variable
define OV(p) := forall m, q {p->ATOM_LIST[m],p->ATOM_LIST[q]} :: 0 <= m && m < q && q < p->ATOM_LIST.len ==> p->ATOM_LIST[m].VAR != p->ATOM_LIST[q].VAR
fn Clause::addAtom(atom)
  opt contract
  requires ov@bv: OV(this)
  inv 0 none@bv: 0 <= i && i <= this->ATOM_LIST.len && (forall k {this->ATOM_LIST[k]} :: 0 <= k && k < i ==> this->ATOM_LIST[k].VAR != atom.VAR)
  inv 0 kept@bv: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} :: KEPT(p)
  ensures kept@bv: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} :: p != this ==> KEPT(p)
  ensures keptw@bv: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: KEPTW(p)
  ensures len@bv: this->ATOM_LIST.len == old(this->ATOM_LIST.len) || this->ATOM_LIST.len == old(this->ATOM_LIST.len) + 1
  ensures was@bv: forall k {this->ATOM_LIST[k]} {old(this->ATOM_LIST.el)[k]} :: 0 <= k && k < old(this->ATOM_LIST.len) ==> this->ATOM_LIST[k].VAR == old(this->ATOM_LIST.el)[k].VAR && this->ATOM_LIST[k].VALS == (old(this->ATOM_LIST.el)[k].VAR == atom.VAR ? bor(old(this->ATOM_LIST.el)[k].VALS,atom.VALS) : old(this->ATOM_LIST.el)[k].VALS)
  ensures app@bv: this->ATOM_LIST.len != old(this->ATOM_LIST.len) ==> this->ATOM_LIST[this->ATOM_LIST.len-1] == atom && (forall k {this->ATOM_LIST[k]} :: 0 <= k && k < old(this->ATOM_LIST.len) ==> this->ATOM_LIST[k].VAR != atom.VAR)
  ensures mrg@bv: this->ATOM_LIST.len == old(this->ATOM_LIST.len) ==> (exists k {this->ATOM_LIST[k]} :: 0 <= k && k < this->ATOM_LIST.len && this->ATOM_LIST[k].VAR == atom.VAR)
  ensures ov@bv: OV(this)
fn Formula::verifyModel()
  inv 0 sofar@bv: forall c {CLAUSELIST[c]} :: 0 <= c && c < i ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k)))
  inv 1 none@bv: !sat && (forall k {AT(i,k)} :: 0 <= k && k < j ==> !istrue(AT(i,k)))
  ensures iff@bv: result <==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k))))
# An arbitrary assignment that satisfies every clause of the input.
function MV(int): int
define MTRUE(l) := bit(l.VALS,MV(l.VAR))
define CSAT(p) := exists k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && MTRUE(p->ATOM_LIST[k])
define ALLSAT := forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CSAT(CLAUSELIST[c])
define PFALSE(p) := forall k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len ==> litok(p->ATOM_LIST[k]) && isfalse(p->ATOM_LIST[k])
define PTOP(p) := exists k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && LF(p->ATOM_LIST[k]) == LEVEL
define PIN(p,l) := exists k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && p->ATOM_LIST[k] == l
define PW(p) := p->ATOM_LIST.len >= 1 && PIN(p,p->WATCHED[0]) && (p->ATOM_LIST.len >= 2 ==> PIN(p,p->WATCHED[1]) && p->WATCHED[0].VAR != p->WATCHED[1].VAR)
define PMAX(p) := forall k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && p->ATOM_LIST[k] != p->WATCHED[0] ==> LF(p->ATOM_LIST[k]) <= LF(p->WATCHED[1])
define SCORES := forall v, d {VARLIST[v]->VSIDS_SCORE[d]} :: 0 <= v && v < NV && 0 <= d && d < DOM(v) ==> VARLIST[v]->VSIDS_SCORE[d] >= 0
define WFV := NV >= 1 && DOM(0) == 0 && (forall v {VARLIST[v]} :: 0 <= v && v < NV ==> VARLIST[v]->VAR == v)
# Nodes: iv and ip place every index of a node.
ghost iv: iarr
ghost ip: iarr
define QN(q) := VARLIST[iv[q]]->graphNodes.el[ip[q]]
group NDS
  wfv: WFV
  lev: LEVEL >= 0 && ATOMINDEX >= 0
  nlev: forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> 0 <= NLEV(v,i) && NRSN(v,i) >= -1 && NRSN(v,i) < NC
  nval: forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> !bany(band(NVAL(v,i),bnot(FULL(DOM(v)))))
  nle: forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> NLEV(v,i) <= LEVEL
  sub: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> !bany(band(CD(v),bnot(FULL(DOM(v)))))
  srt: forall v, i, j {VARLIST[v]->graphNodes.el[i],VARLIST[v]->graphNodes.el[j]} :: NODE(v,i) && NODE(v,j) && i < j ==> NLEV(v,i) <= NLEV(v,j)
  ix1: forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> 1 <= NIDX(v,i) && NIDX(v,i) <= ATOMINDEX && iv[NIDX(v,i)] == v && ip[NIDX(v,i)] == i
  mono: forall v, i, w, j {VARLIST[v]->graphNodes.el[i],VARLIST[w]->graphNodes.el[j]} :: NODE(v,i) && NODE(w,j) && NIDX(v,i) <= NIDX(w,j) ==> NLEV(v,i) <= NLEV(w,j)
  dec: forall v, i, w, j {VARLIST[v]->graphNodes.el[i],VARLIST[w]->graphNodes.el[j]} :: NODE(v,i) && NODE(w,j) && NRSN(v,i) == -1 && NLEV(w,j) == NLEV(v,i) && NIDX(w,j) <= NIDX(v,i) ==> v == w
  ne: forall v {VARLIST[v]} :: VAROK(v) ==> bany(CD(v))
  cov: forall v; b:bits {band(CD(v),b)} :: VAROK(v) && FALB(v,b) && bany(band(b,FULL(DOM(v)))) ==> LIB(v,b) >= 0
group IDX
  ix0: iv[0] == 0
  ix2: forall q {iv[q]} :: 1 <= q && q <= ATOMINDEX ==> VAROK(iv[q]) && NODE(iv[q],ip[q]) && QN(q).index == q
group RSN
  rat: forall v, i, k {CLAUSELIST[NRSN(v,i)]->ATOM_LIST.el[k]} :: NODE(v,i) && NRSN(v,i) >= 0 && 0 <= k && k < SZ(NRSN(v,i)) ==> AT(NRSN(v,i),k).VAR == v || (isfalse(AT(NRSN(v,i),k)) && LF(AT(NRSN(v,i),k)) <= NLEV(v,i))
group CLS
  wfa: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
  ov: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> OV(CLAUSELIST[c])
fn Formula::resolve(clause, literal, reason)
  opt contract
  requires *NDS @bv
  requires live@bv: alloc(clause) && alloc(reason) && ALIVE
  requires sat@ba by sat,live,kept: CSAT(clause) && CSAT(reason)
  requires ov@bv: OV(clause)
  requires false@bv: PFALSE(clause) && litok(literal) && isfalse(literal)
  requires rsn@bv: forall k {reason->ATOM_LIST[k]} :: 0 <= k && k < reason->ATOM_LIST.len ==> litok(reason->ATOM_LIST[k]) && (reason->ATOM_LIST[k].VAR == literal.VAR || isfalse(reason->ATOM_LIST[k]))
  requires in@bv: PIN(clause,literal)
  requires top@bv: exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && clause->ATOM_LIST[k].VAR != literal.VAR && LF(clause->ATOM_LIST[k]) == LEVEL
  inv 0 kept@bv: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && p != resolvent && KEPT(p)
  inv 0 keptw@bv: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
  inv 0 new@bv: alloc(resolvent) && OV(resolvent) && !old(alloc(resolvent))
  inv 0 false@bv: PFALSE(resolvent)
  inv 0 top@bv: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k].VAR != literal.VAR && LF(clause->ATOM_LIST[k]) == LEVEL ==> PTOP(resolvent)
  inv 0 left@ba: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && MTRUE(clause->ATOM_LIST[k]) && clause->ATOM_LIST[k].VAR != literal.VAR ==> CSAT(resolvent)
  inv 1 kept@bv: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && p != resolvent && KEPT(p)
  inv 1 keptw@bv: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
  inv 1 new@bv: alloc(resolvent) && OV(resolvent) && !old(alloc(resolvent))
  inv 1 false@bv: PFALSE(resolvent)
  inv 1 top@bv: PTOP(resolvent)
  inv 1 left@ba: !MTRUE(literal) ==> CSAT(resolvent)
  inv 1 right@ba: forall k {reason->ATOM_LIST[k]} :: 0 <= k && k < i && MTRUE(reason->ATOM_LIST[k]) && MTRUE(literal) ==> CSAT(resolvent)
  ensures sound@ba: CSAT(result)
  ensures ov@bv: OV(result)
  ensures false@bv: PFALSE(result)
  ensures top@bv: PTOP(result)
  ensures fresh@bv: alloc(result) && !old(alloc(result))
  ensures kept@bv: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && KEPT(p)
  ensures keptw@bv: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
fn Formula::potent(clause)
  opt contract
  ensures pot@bv: result <==> clause->ATOM_LIST.len == 1 || LF(clause->WATCHED[1]) < LEVEL
fn Formula::assignWatched(clause)
  opt contract
  requires ov@bv: OV(clause)
  requires idx@bv: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len ==> IF(clause->ATOM_LIST[k]) >= 0
  inv 0 none@bv: (i == 0 ==> max_decision_index == -1) && -1 <= second_max_decision_index && second_max_decision_index <= max_decision_index && (i < 2 ==> second_max_decision_index == -1)
  inv 0 one@bv: i >= 1 ==> (exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] == w1) && max_decision_index == IF(w1)
  inv 0 two@bv: i >= 2 ==> w1.VAR != w2.VAR && (exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] == w2) && second_max_decision_index == IF(w2)
  inv 0 rest@bv: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] != w1 ==> IF(clause->ATOM_LIST[k]) <= second_max_decision_index
  ensures pw@bv: clause->ATOM_LIST.len >= 1 ==> PW(clause)
  ensures m1@bv: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len ==> IF(clause->ATOM_LIST[k]) <= IF(clause->WATCHED[0])
  ensures m2@bv: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && clause->ATOM_LIST[k] != clause->WATCHED[0] ==> IF(clause->ATOM_LIST[k]) <= IF(clause->WATCHED[1])
  ensures keptw@bv: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: p != clause ==> KEPTW(p)
# Watch lists: own is the variable in whose list a record is (below 1: in none), pos its rank, wrec the record by which a
# clause watches a variable.
ghost own: iarr
ghost pos: iarr
ghost wrec: iarr2
define HD(v) := VARLIST[v]->VARREC
define INL(r) := own[r] >= 1
group LIST
  hd: forall v {VARLIST[v]->VARREC} :: VAROK(v) && HD(v) != null ==> own[HD(v)] == v && HD(v)->prev == null
  lin: forall r:VARRECORD {own[r]} :: INL(r) ==> VAROK(own[r]) && r != null && alloc(r)
  lhd: forall r:VARRECORD {own[r]} :: INL(r) ==> HD(own[r]) != null && pos[r] <= pos[HD(own[r])]
  lnx: forall r:VARRECORD {r->next} :: INL(r) && r->next != null ==> own[r->next] == own[r] && pos[r->next] < pos[r] && r->next->prev == r
  lpv: forall r:VARRECORD {r->prev} :: INL(r) && r->prev != null ==> own[r->prev] == own[r] && r->prev->next == r
  lpn: forall r:VARRECORD {r->prev} :: INL(r) && r->prev == null ==> HD(own[r]) == r
  gap: forall r:VARRECORD, s:VARRECORD {own[r], s->next} :: INL(r) && own[r] == own[s] && pos[r] < pos[s] ==> s->next != null && pos[s->next] >= pos[r]
  dist: forall r:VARRECORD, s:VARRECORD {own[r],own[s]} :: INL(r) && own[r] == own[s] && r != s ==> pos[r] != pos[s]
define RECOF(c,v) := ref(VARRECORD, wrec[c][v])
fn Variable::addRecord(c_id)
  opt contract
  requires wfv@bv: WFV
  requires *LIST @bv
  requires cell@bv: VAROK(this->VAR) && VARLIST[this->VAR] == this
  set own@bv: store(own, this->VARREC, this->VAR)
  set pos@bv: store(pos, this->VARREC, old(this->VARREC) == null ? 0 : pos[old(this->VARREC)] + 1)
  set wrec@bv: store(wrec, c_id, store(wrec[c_id], this->VAR, this->VARREC))
  ensures new@bv: let r := this->VARREC; r != null && !old(alloc(r)) && alloc(r) && r->c_num == c_id
  ensures own@bv: own == store(old(own), this->VARREC, this->VAR)
  ensures wrec@bv: wrec == store(old(wrec), c_id, store(old(wrec)[c_id], this->VAR, this->VARREC))
  ensures pos@bv: forall r:VARRECORD {pos[r]} :: r != this->VARREC ==> pos[r] == old(pos)[r]
  ensures cnum@bv: forall r:VARRECORD {r->c_num} :: r != this->VARREC ==> r->c_num == old(r->c_num)
  ensures *LIST @bv
fn Variable::removeRecord(record)
  opt contract
  requires wfv@bv: WFV
  requires *LIST @bv
  requires cell@bv: INL(record) && own[record] == this->VAR && VARLIST[this->VAR] == this
  set own@bv: store(own, record, 0-1)
  ensures own@bv: own == store(old(own), record, 0-1)
  ensures *LIST @bv
define W0(c) := CLAUSELIST[c]->WATCHED[0]
define W1(c) := CLAUSELIST[c]->WATCHED[1]
define INU(c) := exists p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi && UNITLIST.el[p] == c
define RESTF(c) := forall k {AT(c,k)} :: 0 <= k && k < SZ(c) ==> isfalse(AT(c,k)) || AT(c,k) == W0(c) || (SZ(c) >= 2 && AT(c,k) == W1(c))
define ALLF(c) := forall k {AT(c,k)} :: 0 <= k && k < SZ(c) ==> isfalse(AT(c,k))
group WAT
  wfv: WFV
  wfc: forall c, b {CLAUSELIST[c],CLAUSELIST[b]} :: INRANGE(c) && INRANGE(b) && c != b ==> CLAUSELIST[c] != CLAUSELIST[b]
  *CLS
  wat0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> litok(W0(c)) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W0(c))
  wat1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> litok(W1(c)) && W0(c).VAR != W1(c).VAR && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W1(c))
  wr0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> own[RECOF(c,W0(c).VAR)] == W0(c).VAR && RECOF(c,W0(c).VAR)->c_num == c
  wr1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> own[RECOF(c,W1(c).VAR)] == W1(c).VAR && RECOF(c,W1(c).VAR)->c_num == c
  rw: forall r:VARRECORD {own[r]} :: INL(r) ==> INRANGE(r->c_num) && SZ(r->c_num) >= 1 && (own[r] == W0(r->c_num).VAR || (SZ(r->c_num) >= 2 && own[r] == W1(r->c_num).VAR)) && RECOF(r->c_num,own[r]) == r
  *LIST
define NEV := forall v {VARLIST[v]} :: VAROK(v) ==> bany(CD(v))
fn Formula::SwapPointer(current)
  opt contract
  requires *WAT @bv
  requires ne@bv: NEV
  requires cur@bv: INL(current) && own[current] == W0(current->c_num).VAR && isfalse(W0(current->c_num))
  requires w1@bv: SZ(current->c_num) >= 2 ==> !istrue(W1(current->c_num)) && (isfalse(W1(current->c_num)) ==> RESTF(current->c_num))
  requires quiet@bv: !CONFLICT && UNITLIST.lo <= UNITLIST.hi
  inv 0 none@bv: forall k {AT(c_num,k)} :: 0 <= k && k < i ==> isfalse(AT(c_num,k)) || AT(c_num,k).VAR == W1(c_num).VAR
  ensures *WAT @bv
  ensures others@bv: forall c {CLAUSELIST[c]} :: INRANGE(c) && c != old(current->c_num) ==> W0(c) == old(W0(c)) && W1(c) == old(W1(c))
  ensures w1@bv: W1(old(current->c_num)) == old(W1(current->c_num))
  ensures keep@bv: forall r:VARRECORD {own[r]} {old(own)[r]} {pos[r]} :: old(INL(r)) && r != current ==> own[r] == old(own)[r] && pos[r] == old(pos)[r] && r->c_num == old(r->c_num)
  ensures rec@bv: forall c {CLAUSELIST[c]} {wrec[c]} :: INRANGE(c) && c != old(current->c_num) ==> wrec[c] == old(wrec)[c]
  ensures case1@bv: let c := old(current->c_num); CONFLICT ==> CONFLICTINGCLAUSE == c && W0(c) == old(W0(current->c_num)) && own[current] == old(own)[current]
  ensures case1f@bv: let c := old(current->c_num); CONFLICT ==> ALLF(c)
  ensures case1g@bv: let c := old(current->c_num); CONFLICT && SZ(c) >= 2 ==> isfalse(W1(c))
  ensures case2@bv: let c := old(current->c_num); !CONFLICT ==> isopen(W1(c)) && SZ(c) >= 2
  ensures case3@bv: let c := old(current->c_num); !CONFLICT && isfalse(W0(c)) ==> W0(c) == old(W0(current->c_num)) && own[current] == old(own)[current] && UNITLIST.lo == old(UNITLIST.lo) - 1 && UNITLIST.el == store(old(UNITLIST.el), UNITLIST.lo, c)
  ensures case3f@bv: let c := old(current->c_num); !CONFLICT && isfalse(W0(c)) ==> RESTF(c)
  ensures case4@bv: let c := old(current->c_num); CONFLICT || !isfalse(W0(c)) ==> UNITLIST.lo == old(UNITLIST.lo) && UNITLIST.el == old(UNITLIST.el)
  ensures hi@bv: UNITLIST.hi == old(UNITLIST.hi)
function MB(int): bits
axiom mb: forall v, i {bit(MB(v),i)} :: bit(MB(v),i) <==> i == MV(v) && 0 <= i && i < 64
define AGR0 := forall v {MB(v)} {VARLIST[v]} :: VAROK(v) ==> !FALB(v,MB(v)) || LVB(v,MB(v)) >= 1
# Between operations: a false watch has a partner that was true no later, or fell at the present level and the clause is
# queued, in conflict, or still to be visited (d0, d1).
define ST0(c,d0,d1) := isfalse(W0(c)) ==> (istrue(W1(c)) && LT(W1(c)) <= LF(W0(c))) || (LF(W0(c)) == LEVEL && (CONFLICT || d0 || (INU(c) && (isopen(W1(c)) || d1))))
define ST1(c,d0,d1) := isfalse(W1(c)) ==> (istrue(W0(c)) && LT(W0(c)) <= LF(W1(c))) || (LF(W1(c)) == LEVEL && (CONFLICT || d1 || (INU(c) && (isopen(W0(c)) || d0))))
define STU(c,d0) := (istrue(W0(c)) && LT(W0(c)) <= 0) || (LEVEL == 0 && (CONFLICT || d0 || (INU(c) && isopen(W0(c)))))
group WST
  st0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,false,false)
  st1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,false,false)
  stu: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,false)
group WLS
  stz: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) < 1 ==> CONFLICT && LEVEL == 0
  ulist: UNITLIST.lo <= UNITLIST.hi
  uni by ulist,uni,unf,u1,u2,false,top,low,pw,ov,same,list,first,lev,case1,case2,case3,case4,cur,others,w1,rw,wat0,wat1,wfc,conf,ne,r0,r1,r2,quiet,hi,mem,st0,st1,stu,lit,var,cell,fr0,fr1,stz,pos: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> INRANGE(UNITLIST.el[p]) && (SZ(UNITLIST.el[p]) >= 2 ==> isfalse(W0(UNITLIST.el[p])) || isfalse(W1(UNITLIST.el[p])))
  unf: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> RESTF(UNITLIST.el[p])
  conf: CONFLICT ==> INRANGE(CONFLICTINGCLAUSE) && (LEVEL >= 1 ==> SZ(CONFLICTINGCLAUSE) >= 2 && LF(W0(CONFLICTINGCLAUSE)) == LEVEL && LF(W1(CONFLICTINGCLAUSE)) == LEVEL && IF(W1(CONFLICTINGCLAUSE)) <= IF(W0(CONFLICTINGCLAUSE)))
  conff: CONFLICT ==> ALLF(CONFLICTINGCLAUSE)
define NEWW0(c,v) := isfalse(W0(c)) && W0(c).VAR == v && IF(W0(c)) == ATOMINDEX
define NEWW1(c,v) := isfalse(W1(c)) && W1(c).VAR == v && IF(W1(c)) == ATOMINDEX
define VIS(c,v,cur) := cur != null && pos[RECOF(c,v)] <= pos[cur]
fn Formula::watchedUpdateVar(var)
  opt contract
  requires *WAT @bv
  requires *WLS @bv
  requires var@bv: VAROK(var) && !CONFLICT && LEVEL >= 0
  requires ne@bv: NEV
  requires nod@bv: forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> NLEV(v,i) <= LEVEL && NIDX(v,i) <= ATOMINDEX
  requires ai@bv: ATOMINDEX >= 1
  requires st0@bv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,NEWW0(c,var),NEWW1(c,var))
  requires st1@bv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,NEWW0(c,var),NEWW1(c,var))
  requires stu@bv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,NEWW0(c,var))
  inv 0 *WAT @bv
  inv 0 *WLS @bv
  inv 0 cur@bv: current != null ==> INL(current) && own[current] == var
  inv 0 st0@bv by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,var,ai,ne,nod,lirng,li0,r0,r1,r2,quiet,hi,ulist,pre,case1f,case1g,wfv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,NEWW0(c,var) && VIS(c,var,current),NEWW1(c,var) && VIS(c,var,current))
  inv 0 st1@bv by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,var,ai,ne,nod,lirng,li0,r0,r1,r2,quiet,hi,ulist,pre,case1f,case1g,wfv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,NEWW0(c,var) && VIS(c,var,current),NEWW1(c,var) && VIS(c,var,current))
  inv 0 stu@bv by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,var,ai,ne,nod,lirng,li0,r0,r1,r2,quiet,hi,ulist,pre,case1f,case1g,wfv: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,NEWW0(c,var) && VIS(c,var,current))
  ensures *WAT @bv
  ensures *WLS @bv
  ensures *WST @bv
group FRAME
  grown: NV == old(NV) && VARLIST.el == old(VARLIST.el)
fn Formula::watchedReduceTheory(lit)
  opt contract
  requires *NDS @bv
  requires *IDX @bv
  requires *RSN @bv
  requires *WAT -wfv @bv
  requires *WLS @bv
  requires quiet@bv: !CONFLICT
  requires st0@bv by st0,st1,stu,r0,r1,r2,ne,ulist,uni,unf,wat0,wat1,stz,quiet: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,W1(c) == lit,false)
  requires st1@bv by st0,st1,stu,r0,r1,r2,ne,ulist,uni,unf,wat0,wat1,stz,quiet: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,false,W0(c) == lit)
  requires stu@bv by st0,st1,stu,r0,r1,r2,ne,ulist,uni,unf,wat0,wat1,stz,quiet: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,W0(c) == lit)
  requires cell@bv: litok(lit) && isopen(lit)
  requires uc@bv: UNITCLAUSE >= -1 && UNITCLAUSE < NC
  requires uc0@bv: UNITCLAUSE >= 0 ==> (forall k {AT(UNITCLAUSE,k)} :: 0 <= k && k < SZ(UNITCLAUSE) ==> AT(UNITCLAUSE,k) == lit || isfalse(AT(UNITCLAUSE,k)))
  requires ucd@bv: UNITCLAUSE == -1 ==> (forall v, i {VARLIST[v]->graphNodes.el[i]} :: NODE(v,i) ==> NLEV(v,i) < LEVEL)
  set iv@bv: store(iv, ATOMINDEX, lit.VAR)
  set ip@bv: store(ip, ATOMINDEX, GN(lit.VAR).len - 1)
  ensures fr0@bv by wfv,lev,bsplit,lipush,listo,lirng,li0,cell,grown: forall v; b:bits {LIB(v,b)} {old(LIB(v,b))} {band(CD(v),b)} {band(old(CD(v)),b)} :: VAROK(v) && old(FALB(v,b)) ==> FALB(v,b) && LIB(v,b) == old(LIB(v,b)) && LVB(v,b) == old(LVB(v,b)) && IXB(v,b) == old(IXB(v,b))
  ensures fr1@bv by wfv,lev,bsplit,lipush,listo,lirng,li0,cell,grown: forall v; b:bits {LIB(v,b)} {old(LIB(v,b))} {band(CD(v),b)} {band(old(CD(v)),b)} :: VAROK(v) && !old(FALB(v,b)) && FALB(v,b) ==> v == lit.VAR && LVB(v,b) == LEVEL
  ensures *NDS @bv
  ensures *IDX @bv
  ensures *RSN @bv
  ensures *WAT -wfv @bv
  ensures *WLS @bv
  ensures *WST @bv
  ensures agr0@ba: old(AGR0) && (LEVEL == 0 ==> MTRUE(lit)) ==> AGR0
# Undoing pops exactly the nodes above a level; the freed indices are the greatest ones.
define ONODE(v,i) := 1 <= v && v < VARLIST.len && 0 <= i && i < old(VARLIST[v]->graphNodes.len)
group SHR
  shr: forall v {GN(v).len} {GN(v).el} {VARLIST[v]} :: VAROK(v) ==> GN(v).el == old(GN(v).el) && 0 <= GN(v).len && GN(v).len <= old(GN(v).len)
  keep: forall v, i {old(GN(v).el)[i]} :: ONODE(v,i) && NLEV(v,i) <= level ==> i < GN(v).len
  cd: forall v; b:bits {band(CD(v),b)} {band(old(CD(v)),b)} {LIB(v,b)} {old(LIB(v,b))} :: VAROK(v) ==> (FALB(v,b) <==> old(FALB(v,b)) && old(LIB(v,b)) < GN(v).len)
  ivr: forall q {iv[q]} {old(iv)[q]} :: 1 <= q && q <= old(ATOMINDEX) ==> iv[q] == (ip[q] < GN(old(iv)[q]).len ? old(iv)[q] : 0)
  iv0: iv[0] == 0
  cnt: NOC(iv,old(ATOMINDEX)+1,0) == 1 + old(ATOMINDEX) - ATOMINDEX
  wfv: WFV
  sub: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> !bany(band(CD(v),bnot(FULL(DOM(v)))))
fn Formula::watchedUndoTheory(level)
  opt contract
  requires *NDS -nle @bv
  requires *IDX @bv
  requires *RSN @bv
  requires *CLS @bv
  requires lev0@bv: 0 <= level
  inv 0 *SHR @bv
  inv 0 done@bv: 1 <= i && (forall v, j {GN(v).el[j]} :: NODE(v,j) && v < i ==> NLEV(v,j) <= level)
  inv 1 *SHR @bv
  inv 1 done@bv: 1 <= i && i < NV && (forall v, j {GN(v).el[j]} :: NODE(v,j) && v < i ==> NLEV(v,j) <= level)
  step 1 iv@bv: store(iv, GN(i).el[GN(i).len].index, 0)
  ensures *SHR @bv
  ensures nle@bv: forall v, i {GN(v).el[i]} :: NODE(v,i) ==> NLEV(v,i) <= level
  ensures nea@bv: forall v {VARLIST[v]} :: VAROK(v) ==> !FALB(v,old(CD(v)))
  ensures ixa@bv: forall v, i {GN(v).el[i]} :: NODE(v,i) && MKJ(NIDX(v,i)) ==> NIDX(v,i) <= ATOMINDEX
  ensures ixb@bv: forall q {iv[q]} :: 1 <= q && q <= ATOMINDEX && MKJ(q) ==> iv[q] == old(iv)[q]
  ensures u1@bv: forall v; b:bits {band(CD(v),b)} {band(old(CD(v)),b)} {LIB(v,b)} {old(LIB(v,b))} :: VAROK(v) ==> (FALB(v,b) <==> old(FALB(v,b)) && old(LVB(v,b)) <= level)
  ensures u2@bv: forall v; b:bits {band(CD(v),b)} {band(old(CD(v)),b)} {LIB(v,b)} {old(LIB(v,b))} :: VAROK(v) && FALB(v,b) ==> LIB(v,b) == old(LIB(v,b)) && LVB(v,b) == old(LVB(v,b)) && IXB(v,b) == old(IXB(v,b))
  ensures *NDS -nle @bv
  ensures *IDX @bv
  ensures *RSN @bv
  ensures agr0@ba: old(AGR0) ==> AGR0
# Conflict analysis: the watches of the clause at hand are its two latest falsified literals.
group WLC
  list: NC == old(NC) + 1
  same: CLAUSELIST[NC-1] == result
  first: forall c {CLAUSELIST[c]} {old(CLAUSELIST.el)[c]} :: 0 <= c && c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]) && SZ(c) == old(SZ(c)) && AL(c) == old(AL(c)) && W0(c) == old(W0(c)) && W1(c) == old(W1(c))
fn Formula::learnClause(clause)
  opt contract
  requires *WAT @bv
  requires score@bv: SCORES
  requires live@bv: alloc(clause) && ALIVE
  requires pw@bv: PW(clause)
  requires ov@bv: OV(clause)
  requires false@bv: PFALSE(clause)
  requires fresh@bv: NOTIN(clause)
  requires sat@ba: ALLSAT && CSAT(clause)
  inv 0 score@bv: SCORES
  inv 1 score@bv: SCORES
  inv 2 score@bv: SCORES
  inv 3 score@bv: SCORES
  ensures *WLC @bv
  ensures res@bv: result == clause
  ensures *WAT @bv
  ensures score@bv: SCORES
  ensures live@bv: ALIVE
  ensures sat@ba by sat,list,same,first,res,fresh: ALLSAT
fn Formula::analyzeConflict(clause, free)
  opt contract
  requires *NDS @bv
  requires *RSN @bv
  requires *WAT -wfv @bv
  requires score@bv: SCORES
  requires live@bv: alloc(clause) && ALIVE && (free ==> NOTIN(clause))
  requires sat@ba by sat,live,kept,sound,fresh,conf: ALLSAT && CSAT(clause)
  requires pos@bv: LEVEL >= 1
  requires ov@bv: OV(clause)
  requires false@bv: PFALSE(clause)
  requires pw@bv: PW(clause)
  requires top@bv: LF(clause->WATCHED[0]) == LEVEL
  requires ixo@bv: clause->ATOM_LIST.len >= 2 ==> IF(clause->WATCHED[1]) <= IF(clause->WATCHED[0])
  requires pmax@bv by pmax,pw,m1,m2,mono,lev,false,lirng,li0,ix1,nlev,nle,wfv,kept,ov,cov: PMAX(clause)
  requires fresh@bv: NOTIN(clause) || (clause->ATOM_LIST.len >= 2 && LF(clause->WATCHED[1]) == LEVEL)
  ensures *WLC @bv
  ensures *WAT -wfv @bv
  ensures score@bv: SCORES
  ensures live@bv: ALIVE
  ensures sat@ba by sat,list,same,first,res,fresh: ALLSAT
  ensures ov@bv: OV(result)
  ensures false@bv: PFALSE(result)
  ensures pw@bv: PW(result)
  ensures pmax@bv: PMAX(result)
  ensures low@bv by low,false,pw,cov,wfv,nlev,lirng,li0,res,wfa: result->ATOM_LIST.len >= 2 ==> LF(result->WATCHED[1]) >= 0
  ensures top@bv: LF(result->WATCHED[0]) == LEVEL && (result->ATOM_LIST.len >= 2 ==> LF(result->WATCHED[1]) < LEVEL)
fn Formula::chooseLiteralVSIDS()
  opt contract
  requires wfv@bv: WFV
  requires sub@bv: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> !bany(band(CD(v),bnot(FULL(DOM(v)))))
  requires dsz@bv: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> DOM(v) <= 64
  requires score@bv: SCORES
  inv 0 found@bv: tvar != -1 ==> 0 <= tvar && tvar < i && 0 <= tval && tval < DOM(tvar) && bit(CD(tvar),tval) && bcount(CD(tvar)) > 1
  inv 0 none@bv: tvar == -1 ==> max == -1 && (forall v {VARLIST[v]} :: 0 <= v && v < i ==> bcount(CD(v)) <= 1)
  inv 1 found@bv: tvar != -1 ==> 0 <= tvar && tvar <= i && 0 <= tval && tval < DOM(tvar) && bit(CD(tvar),tval) && bcount(CD(tvar)) > 1
  inv 1 none@bv: tvar == -1 ==> max == -1 && (forall v {VARLIST[v]} :: 0 <= v && v < i ==> bcount(CD(v)) <= 1) && (forall d {bit(CD(i),d)} :: 0 <= d && d < j ==> !bit(CD(i),d))
  ensures open@bv: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@bv: result.VAR == -1 ==> (forall v {VARLIST[v]} :: 0 <= v && v < NV ==> bcount(CD(v)) <= 1)
fn Formula::lazyWatchedChooseLiteral()
  opt contract
  requires atoms@bv: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> litok(W0(c))
  inv 0 none@bv: forall c {CLAUSELIST[c]} :: 0 <= c && c < i ==> !isopen(W0(c))
  ensures open@bv: result.VAR != -1 ==> litok(result) && isopen(result)
  ensures all@bv: result.VAR == -1 ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> !isopen(W0(c)))
group WCORE
  *NDS
  *IDX
  *RSN
  *WAT -wfv
  *WLS
  *WST
fn Formula::WatchedUnitPropagation()
  opt contract
  requires *WCORE @bv
  requires sat@ba by sat: ALLSAT
  requires agr0@ba by agr0: AGR0
  inv 0 *WCORE -st0 -st1 -stu @bv
  inv 0 *WST @bv by st0,st1,stu,r0,r1,r2,ne,ulist,uni,unf,wat0,wat1,stz,quiet
  inv 0 agr0@ba by agr0,sat,unf,uni,nle,nlev,lirng,li0,full,mb,r0,r1,r2,wfa,wat0,wat1,fr0,ne,sub,ulist,wfv,lev: AGR0
  ensures *WCORE @bv
  ensures agr0@ba by agr0: AGR0
  ensures done@bv: CONFLICT || UNITLIST.lo == UNITLIST.hi
group UNF
  unf: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> RESTF(UNITLIST.el[p])
group WLINV
  agr0@ba by agr0: AGR0
  sat@ba by sat,same,first,list: ALLSAT
  *WCORE
  dsz: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> DOM(v) <= 64
  score: SCORES
  live: ALIVE
define VERIFIED := forall c {CLAUSELIST[c]} :: INRANGE(c) ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k)))
define GROWN := NC >= old(NC) && (forall c {CLAUSELIST[c]} {old(CLAUSELIST.el)[c]} :: 0 <= c && c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]) && SZ(c) == old(SZ(c)) && AL(c) == old(AL(c)))
fn Formula::WatchedLiterals(restarts)
  opt contract
  requires *WLINV @bv
  inv 0 *WLINV @bv
  inv 0 grow@bv: GROWN
  cut WatchedUnitPropagation grow@bv: GROWN
  cut WatchedUnitPropagation *WLINV -st0 -st1 -stu -unf @bv
  cut WatchedUnitPropagation *UNF @bv by st0,st1,stu,r0,r1,r2,ne,u1,u2,pmax,pw,ov,false,low,top,list,same,first,lev,ulist,uni,unf,wat0,wat1,stz,pos,nle,nlev,hit,miss,wfa,conf,conff
  cut WatchedUnitPropagation *WST @bv by st0,st1,stu,r0,r1,r2,ne,u1,u2,pmax,pw,ov,false,low,top,list,same,first,lev,ulist,uni,unf,wat0,wat1,stz,pos,nle,nlev,hit,miss,wfa,conf,conff
  cut chooseLiteralVSIDS grow@bv: GROWN
  cut chooseLiteralVSIDS *WLINV @bv
  cut chooseLiteralVSIDS ready@bv: CONFLICT || UNITLIST.lo == UNITLIST.hi
  ensures unsat@ba by conf,conff,agr0,sat,lev,wfa,stz,wfv,nle,nlev,lirng,li0,mb,full: result != 2
  ensures sat@bv by st0,st1,stu,stz,all,ready,done,ne,r0,r1,r2,wat0,wat1,wfa,ulist,wfv: result == 0 ==> VERIFIED && NEV
  ensures grow@bv: GROWN
# What SolveFinite prints.
ghost verdict: int
fn Formula::Formula/1(cline)
  opt contract
fn Formula::BuildFormula(cline)
  opt contract
fn Formula::WatchedLiterals(restarts)
  opt ret_ghost verdict
  ensures three@bp: result == 0 || result == 1 || result == 2
  ensures only@bp: SAID("UNSAT") ==> old(SAID("UNSAT")) || result == 2
  inv 0 only@bp: SAID("UNSAT") == old(SAID("UNSAT"))
fn SolveFinite(cline, type)
  requires fresh@bp: !SAID("SAT") && !SAID("UNSAT") && !SAID("TIMEOUT") && !SAID("model is CORRECT") && !SAID("model is INCORRECT")
  ensures sat@bp: SAID("SAT") <==> verdict == 0
  ensures timeout@bp: SAID("TIMEOUT") <==> verdict == 1
  ensures unsat@bp: SAID("UNSAT") <==> verdict == 2
