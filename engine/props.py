"""What each check proves: units of contract files, layers and functions, and the real-code search used to replay a failed obligation."""

COMMON_TB = [
    'clang 18 (-ast-dump=json) reads the real sources in /repo/src on every run',
    'the obligation generator in /verif/engine (cxx.py, vc.py, loops.py, specev.py, builtins_.py)',
    'z3 4.8.12, the newer z3 build (z3-new) and cvc5 1.1.2: an obligation counts when one of them answers unsat',
    'library contracts in engine/builtins_.py for std::vector, std::list, iostream, C string functions, gettimeofday',
]
COMMON_AS = [
    'machine integers are treated as mathematical integers (no wrap-around is modelled)',
    'operator new and container growth always succeed',
    'partial correctness: contracts speak of calls that return',
]
SEARCH = ['NonChronoBacktrack', 'WatchedLiterals', 'ChronoBacktrack']

PROPS = {
    'C06': dict(
        units=[dict(layer='c06', specs=['common.spec', 'verdict.spec'], functions=['Formula::verifyModel', 'SolveFinite'])],
        assumptions=['the verdict ghost is the value returned by the search call in SolveFinite (whatever the search does, no contract on its assignment is assumed)',
                     'memory safety of the accesses in verifyModel is proved under C19, not again here'],
        notes='verifyModel is proved to return true exactly when every clause of CLAUSELIST has a true literal; SolveFinite is proved to print CORRECT exactly in that case after SAT and INCORRECT exactly in the other.'),
    'C15': dict(
        units=[dict(layer='c15', specs=['cli.spec'], functions=['ParseCommandLine']),
               dict(name='dispatch', layer='c15,gen,main', specs=['cli.spec', 'tokens.spec', 'genben.spec', 'main.spec'], opts=['nosplit', 'chain'], functions=['main'])],
        assumptions=['each option is given with its value (argc covers it), as documented'],
        notes='ParseCommandLine over an arbitrary argument vector of any length.'),
    'C16': dict(
        units=[dict(layer='c16', specs=['common.spec', 'verdict.spec'], functions=['Formula::Formula/1', 'Formula::BuildFormula', 'Formula::NonChronoBacktrack', 'Formula::WatchedLiterals', 'Formula::ChronoBacktrack', 'SolveFinite'])],
        assumptions=['gettimeofday returns the ghost clock, which never runs backwards'],
        notes='TIMEOUT printed implies clock - TIME_S > TIME, and the printed verdict is the value the search returned.'),
    'C18': dict(
        units=[dict(layer='heur', specs=['common.spec', 'heur.spec'], functions=['Formula::chooseLiteral', 'Formula::chooseLiteralVSIDS', 'Formula::chooseLiteralVSIDS_allPos', 'Formula::lazyChooseLiteral', 'Formula::lazyWatchedChooseLiteral'])],
        driver='hooks',
        assumptions=['the data invariants the contracts require at entry (indices of clauses inside CLAUSELIST, literals inside the domain tables, unassigned counters) hold when the search calls a heuristic (memory part proved under C19)'],
        notes='each heuristic returns an open literal over an existing variable and value, or VAR 0 exactly when nothing it is responsible for is open.'),
}
PROPS['C07'] = dict(
    units=[dict(layer='c07,c07s', specs=['common.spec', 'learn.spec'], opts=['assume_safe', 'nosplit'], functions=['Formula::hasAtom', 'Formula::resolve', 'Formula::learnClause', 'Formula::analyzeConflict', 'Formula::NonChronoBacktrack', 'Formula::WatchedLiterals'])],
    assumptions=['memory safety of the search (proved under C19), in particular that the reason of a resolved literal names an existing clause'],
    notes='for an arbitrary assignment MV satisfying all clauses present at the start: every clause ever in CLAUSELIST holds under MV (ensures and loop invariants of hasAtom, resolve, learnClause, analyzeConflict and of both search loops).')
PROPS['C08'] = dict(
    units=[dict(layer='cnt', specs=['common.spec', 'count.spec', 'counter.spec'], opts=['assume_safe', 'nosplit'], functions=['Formula::satisfyClauses', 'Formula::removeLiteral', 'Formula::addLiteral', 'Formula::unsatisfyClauses', 'Formula::undoTheory', 'Formula::watchedUndoTheory'])],
    driver='hooks',
    assumptions=['the bookkeeping invariants required at the entry of undoTheory and watchedUndoTheory (groups WF, CSTATE, WSTATE) hold when the search calls them (proved in the units of C02, C04, C05)',
                 'memory safety of the search (proved under C19)'],
    notes='for every state satisfying the bookkeeping invariants and every target level: exactly the cells above the level are cleared, all others are unchanged; the trail is the old one cut at the level; a clause satisfied above the level becomes unsatisfied, others keep their level; every unsatisfied clause counts exactly its open literals; the invariants hold again.')

NCSPEC = ['common.spec', 'count.spec', 'counter.spec', 'learn.spec', 'nc.spec', 'heur.spec']
NCOPT = ['assume_safe', 'nosplit', 'chain']
NCFN = ['Formula::NonChronoBacktrack', 'Formula::analyzeConflict', 'Formula::learnClause', 'Formula::resolve', 'Formula::potent', 'Formula::maxLit', 'Formula::backtrackLevel', 'Formula::hasAtom', 'Formula::falsifies',
        'Formula::checkEntail', 'Formula::reduceTheory', 'Formula::unitPropagation', 'Formula::undoTheory', 'Formula::satisfyClauses', 'Formula::unsatisfyClauses', 'Formula::addLiteral', 'Formula::removeLiteral']
HEURFN = ['Formula::chooseLiteral', 'Formula::chooseLiteralVSIDS', 'Formula::chooseLiteralVSIDS_allPos', 'Formula::lazyChooseLiteral']
TEXTASS = ['the input file is a list of lines (engine/textin.py); sscanf and atoi return for the words of a well-formed file what contracts/text.spec and ext.spec say',
           'text written to an output stream is the sequence of tokens engine/tokens.py says (numbers in decimal, blanks separate)']
PWF = 'the file is well-formed: domain lines in order before the first clause line, each with a size of at least 1; each clause line with its literals and its only 0 at the end, values inside the domains'
CNTASS = 'differences of ATOMCNTPOS and ATOMCNTNEG stay above INT_MIN (entry condition counts of chooseLiteral)'
SAFEASS = 'memory safety of the search is proved under C19, not again here'
FILE = [TEXTASS[0], PWF]
PROPS['C01'] = dict(
    units=[dict(name='search', layer='nc,c07,c07s,cnt,rsn,agr,hs', specs=NCSPEC, opts=NCOPT, functions=NCFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=HEURFN),
           dict(name='printing', layer='sv1', specs=['common.spec', 'verdict.spec'], functions=['SolveFinite'])],
    assumptions=FILE + [CNTASS, SAFEASS],
    notes='for an arbitrary total assignment MV satisfying every input clause: at every point of the non-chronological search the cells of decision level 0 agree with MV and every reason and learned clause holds under MV, so NonChronoBacktrack never returns UNSAT; BuildFormula leaves that state for every well-formed file whose clause lines MV satisfies, and SolveFinite prints UNSAT only for that verdict: never for a satisfiable file.')
PROPS['C02'] = dict(
    units=[dict(name='search', layer='nc,c07,cnt,rsn,hs,sat', specs=NCSPEC, opts=NCOPT, functions=NCFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=HEURFN),
           dict(name='printing', layer='sv2', specs=['common.spec', 'verdict.spec'], functions=['SolveFinite'])],
    assumptions=FILE + [CNTASS, SAFEASS],
    notes='clause counters and satisfied levels equal what the assignment says at every point of the search, a unit clause is always queued, a false clause raises CONFLICT; hence result SAT implies that every clause, in particular every input clause, has a true literal, and each variable at most one value; BuildFormula leaves the state the search asks for, and SolveFinite prints SAT only when each clause line of the file has a true literal.')

CHFN = ['Formula::ChronoBacktrack', 'Formula::checkEntail', 'Formula::reduceTheory', 'Formula::unitPropagation', 'Formula::undoTheory', 'Formula::satisfyClauses', 'Formula::unsatisfyClauses', 'Formula::addLiteral', 'Formula::removeLiteral']
PROPS['C05'] = dict(
    units=[dict(name='search', layer='ch,cnt,agr,hs,sat', specs=NCSPEC + ['chrono.spec'], opts=NCOPT, functions=CHFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=['Formula::chooseLiteral', 'Formula::lazyChooseLiteral']),
           dict(name='printing', layer='sv1,sv2', specs=['common.spec', 'verdict.spec'], functions=['SolveFinite'])],
    assumptions=FILE + [CNTASS, SAFEASS, 'the heuristic is bookkeeping or lazy, as ParseCommandLine allows with -solvech'],
    notes='ChronoBacktrack(level): result 2 implies that no assignment satisfying all clauses agrees with the cells assigned at entry (at level 0: the input is unsatisfiable), and leaves exactly the cells below the level; result 0 implies that every clause has a true literal; BuildFormula leaves the state the search asks for, and SolveFinite prints that verdict about the clause lines of the file.')

WLSPEC = NCSPEC + ['watch.spec']
WLFN = ['Formula::WatchedLiterals', 'Formula::WatchedUnitPropagation', 'Formula::watchedReduceTheory', 'Formula::watchedFalsifyLiteral', 'Formula::SwapPointer', 'Variable::addRecord', 'Variable::removeRecord', 'Formula::watchedUndoTheory',
        'Formula::analyzeConflict', 'Formula::learnClause', 'Formula::resolve', 'Formula::potent', 'Formula::assignWatched', 'Formula::hasAtom', 'Formula::falsifies', 'Formula::checkEntail']
WLHEUR = ['Formula::chooseLiteralVSIDS', 'Formula::chooseLiteralVSIDS_allPos', 'Formula::lazyWatchedChooseLiteral']
WLHEURASS = 'the heuristic is VSIDS, VSIDS_pos or lazy, as SolveFinite and ParseCommandLine leave it with -wl'
PROPS['C03'] = dict(
    units=[dict(name='search', layer='wl,c07,c07s,cnt,agr,hs', specs=WLSPEC, opts=NCOPT, functions=WLFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=WLHEUR),
           dict(name='printing', layer='sv1', specs=['common.spec', 'verdict.spec'], functions=['SolveFinite'])],
    assumptions=FILE + [WLHEURASS, SAFEASS],
    notes='for an arbitrary total assignment MV satisfying every input clause: at every point of the watched-literal search the cells of decision level 0 agree with MV and every reason and learned clause holds under MV, every queued clause is unit or false and every conflicting clause false, so WatchedLiterals never returns UNSAT; BuildFormula leaves that state for every well-formed file whose clause lines MV satisfies, and SolveFinite prints UNSAT only for that verdict: never for a satisfiable file.')
PROPS['C04'] = dict(
    units=[dict(name='search', layer='wl,c07,cnt,hs,sat', specs=WLSPEC, opts=NCOPT, functions=WLFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=WLHEUR),
           dict(name='printing', layer='sv2', specs=['common.spec', 'verdict.spec'], functions=['SolveFinite'])],
    assumptions=FILE + [WLHEURASS, SAFEASS],
    notes='the doubly linked watch lists hold exactly one record for each of the two watched literals of every clause; outside of propagation a false watch has a true partner of no higher level, or its clause is queued or in conflict; hence result SAT implies that every clause has a true literal; BuildFormula leaves the state the search asks for, and SolveFinite prints SAT only when each clause line of the file has a true literal.')

GENSPEC = ['tokens.spec', 'genben.spec']
GENMAIN = dict(name='main', layer='c15,gen,main', specs=['cli.spec'] + GENSPEC + ['main.spec'], opts=['nosplit', 'chain'], functions=['main', 'ParseCommandLine'])
GENASS = ['text written to an output stream is the sequence of tokens engine/tokens.py says (numbers in decimal, blanks separate)',
          'rand() returns an arbitrary number that is not negative; the loop that redraws repeated literals ends (termination is not proved)']
PROPS['C13'] = dict(
    units=[dict(name='generator', layer='gen', specs=GENSPEC, opts=['nosplit', 'chain'], functions=['GenBenFin']), GENMAIN],
    assumptions=GENASS, crash=True,
    notes='for all parameters and random numbers: the file holds the header, one domain line per variable and one line per clause with the requested number of literals, distinct variables, values inside the domains; with -sat 1 the first literal of every clause agrees with one assignment; -genben -bool 1 runs this with the parameters of the command line.')
PROPS['C14'] = dict(
    units=[dict(name='generator', layer='gen', specs=GENSPEC, opts=['nosplit', 'chain'], functions=['GenBenBool']), GENMAIN],
    assumptions=GENASS, crash=True,
    notes='for all parameters and random numbers: the file holds the header and one line per clause with the requested number of distinct literals over the variables, ended by 0; with -sat 1 the first literal of every clause agrees with one assignment; -genben runs this with the parameters of the command line.')

PROPS['C20'] = dict(
    units=[dict(name='clause learning', layer='nc,c07,cnt,rsn,hs,sat,tr', specs=NCSPEC + ['trail.spec'], opts=NCOPT, functions=NCFN),
           dict(name='watched literals', layer='wl,c07,cnt,hs,sat,tr', specs=WLSPEC + ['trail.spec'], opts=NCOPT, functions=WLFN),
           dict(name='chronological', layer='ch,cnt,hs,sat,tr', specs=NCSPEC + ['chrono.spec', 'trail.spec'], opts=NCOPT, functions=CHFN),
           dict(name='heuristics', layer='heur', specs=['common.spec', 'heur.spec'], functions=HEURFN + ['Formula::lazyWatchedChooseLiteral']),
           dict(name='printing', layer='trp', specs=['common.spec', 'count.spec', 'counter.spec', 'nc.spec', 'verdict.spec', 'tokens.spec', 'trail.spec', 'print.spec'], opts=NCOPT, tokens='cout',
                functions=['Formula::PrintModel', 'SolveFinite', 'Formula::verifyModel', 'Formula::Formula/1', 'Formula::BuildFormula'])],
    assumptions=FILE + [CNTASS, SAFEASS, TEXTASS[1]],
    notes='at every point of each search the trail holds every true cell exactly once, and a variable without a value keeps two open values; hence with result SAT every variable has at most one value, and exactly one unless the heuristic is lazy; PrintModel writes exactly one line VAR=VAL for each true cell and SolveFinite prints those lines when the model is asked for; BuildFormula leaves the state each search asks for.')

XWF = 'the problem is well-formed: one p line, then the domain lines in order, then at least one clause line, each with its literals and its only 0 at the end, values inside the domains'
PROPS['C10'] = dict(
    units=[dict(name='encoder', layer='ext,lin,safe', specs=['tokens.spec', 'text.spec', 'ext.spec', 'lin.spec'], opts=['nosplit', 'chain'], functions=['LinearEncode'])],
    assumptions=TEXTASS + [XWF], crash=True,
    notes='for every well-formed problem: each line and word of the written file is stated (header with the numbers of variables and lines that follow, for each variable its at-least-one, chain and exclusion clauses or its unit clause, for each input clause its translated literals in order); lemmas chain, lone, lext over the written clauses: exactly one value variable holds, and every such choice extends to the chain variables; no access outside a container.')
PROPS['C11'] = dict(
    units=[dict(name='encoder', layer='ext,quad,safe', specs=['tokens.spec', 'text.spec', 'ext.spec', 'quad.spec'], opts=['nosplit', 'chain'], functions=['QuadraticEncode'])],
    assumptions=TEXTASS + [XWF], crash=True,
    notes='for every well-formed problem: each line and word of the written file is stated (header with the sum of the domain sizes and the number of lines that follow, for each variable its at-least-one clause and one clause for each pair of values, for each input clause its literals in order, ended by 0); no access outside a container.')
PROPS['C12'] = dict(
    units=[dict(name='converter', layer='b2f,safe', specs=['tokens.spec', 'text.spec', 'b2f.spec'], opts=['nosplit', 'chain'], functions=['Boolean2Finite'])],
    assumptions=TEXTASS + ['the input is a DIMACS file: one p line, each clause line with its literals and its only 0 at the end, no variable above the declared number'], crash=True,
    notes='for every DIMACS file: the written file holds, after the comment and p lines, one line "d x 2" for each variable 1..N and then one line for each clause line of the input, literal v written v=1 and -v written v=0, in order, ended by 0; no access outside a container.')

# From the file to the search: BuildFormula leaves the state the searches ask for (contracts/parse*.spec, link*.spec).
PARSE = ['text.spec', 'ext.spec', 'parse.spec']
BASE = ['common.spec', 'count.spec', 'counter.spec', 'learn.spec', 'nc.spec']
PFN = ['Variable::Variable/2', 'Formula::BuildFormula']
LFN = ['SolveFinite', 'Formula::Formula/1'] + PFN
PROPS['C09'] = dict(
    units=[dict(name='parser', layer='prs,ext,c07', specs=['common.spec', 'count.spec', 'counter.spec', 'learn.spec'] + PARSE, opts=['nosplit', 'chain'], functions=PFN + ['Formula::hasAtom']),
           dict(name='record lists', layer='prc,prs,ext,c07', specs=BASE + PARSE + ['parsec.spec'], opts=['nosplit', 'chain'], functions=PFN),
           dict(name='watch lists', layer='prw,prs,wl,ext,c07', specs=BASE + ['watch.spec'] + PARSE + ['parsew.spec'], opts=['nosplit', 'chain'], functions=PFN + ['Variable::addRecord'])],
    assumptions=[TEXTASS[0], PWF], crash=True,
    notes='for every well-formed file: BuildFormula leaves exactly the declared variables with their domain sizes and no cell assigned; one clause for each clause line in order, holding the literals of the line in order, a repeated one once; one unit clause v=0 for each single-valued variable; unit clauses queued, a clause without literals raises CONFLICT; and the record lists (counter-based search) or watch lists (-wl) name exactly the literals of the clauses.')
def link(prop, name, layer, specs, extra=[]):
    P = PROPS[prop]
    P['units'] = P['units'] + [dict(name=name, layer=layer, specs=specs, opts=['nosplit', 'chain'], functions=LFN + extra)]
NCL = BASE + ['verdict.spec'] + PARSE + ['parsec.spec', 'link.spec']
WLL = BASE + ['watch.spec', 'verdict.spec'] + PARSE + ['parsew.spec', 'link.spec', 'linkw.spec']
CHL = BASE + ['chrono.spec', 'verdict.spec'] + PARSE + ['parsec.spec', 'link.spec', 'linkch.spec']
TR = ['trail.spec', 'linktr.spec']
link('C01', 'file to verdict', 'prc,prs,nc,ext,c07,c07s,agr,hs,rsn,cnt,sv1', NCL)
link('C02', 'file to verdict', 'prc,prs,nc,ext,c07,sat,hs,rsn,cnt,sv2', NCL)
link('C03', 'file to verdict', 'prw,prs,wl,ext,c07,c07s,agr,hs,cnt,sv1', WLL, ['Variable::addRecord'])
link('C04', 'file to verdict', 'prw,prs,wl,ext,c07,sat,hs,cnt,sv2', WLL, ['Variable::addRecord'])
link('C05', 'file to verdict', 'prc,prs,ch,ext,c07,c07s,agr,hs,cnt,sat,sv1,sv2', CHL)
link('C20', 'file to search, clause learning', 'prc,prs,nc,rsn,ext,c07,hs,cnt,sat,tr,sv2', NCL + TR)
link('C20', 'file to search, watched literals', 'prw,prs,wl,ext,c07,hs,cnt,sat,tr,sv2', WLL + TR, ['Variable::addRecord'])
link('C20', 'file to search, chronological', 'prc,prs,ch,ext,c07,hs,cnt,sat,tr,sv2', CHL + TR)

SAFE = ['safe.spec']
PROPS['C19'] = dict(
    units=[dict(name='clause learning', layer='nc,c07,cnt,rsn,hs,sat,safe', specs=NCSPEC + SAFE, opts=['nosplit', 'chain'], functions=NCFN),
           dict(name='watched literals', layer='wl,c07,cnt,hs,sat,safe', specs=WLSPEC + SAFE, opts=['nosplit', 'chain'], functions=WLFN),
           dict(name='chronological', layer='ch,cnt,hs,sat,safe', specs=NCSPEC + ['chrono.spec'] + SAFE, opts=['nosplit', 'chain'], functions=CHFN),
           dict(name='heuristics and check of the model', layer='heur,safe', specs=['common.spec', 'count.spec', 'counter.spec', 'learn.spec', 'heur.spec'] + SAFE, opts=['nosplit', 'chain'],
                functions=HEURFN + ['Formula::lazyWatchedChooseLiteral', 'Formula::verifyModel'])],
    assumptions=[TEXTASS[0], PWF, CNTASS], driver='asan', crash=True,
    notes='every access to an element of a vector, list or array names an index inside its container, every object reached through a pointer is not null and not freed, in the parser, in the three searches and everything they call, in the heuristics, in verifyModel and in the printing of the model; SolveFinite calls each of them in a state where that holds.')
def safelink(name, layer, specs, extra=[]):
    i = specs.index('verdict.spec') + 1
    link('C19', name, layer, specs[:i] + SAFE + specs[i:] + ['psafe.spec'], ['Formula::hasAtom'] + extra)
safelink('file to search, clause learning', 'prc,prs,nc,ext,c07,safe,hs,rsn,cnt,sat,sv2', NCL)
safelink('file to search, watched literals', 'prw,prs,wl,ext,c07,safe,hs,cnt,sat,sv2', WLL, ['Variable::addRecord'])
safelink('file to search, chronological', 'prc,prs,ch,ext,c07,safe,hs,cnt,sat,sv2', CHL)

# The bit-vector variant (bitvec/).
BVFN = ['Literal::isSuperset', 'Formula::sat', 'Variable::getIGNode', 'Clause::addAtom', 'Formula::verifyModel', 'Formula::resolve', 'Formula::assignWatched', 'Formula::potent', 'Variable::addRecord', 'Variable::removeRecord',
        'Formula::SwapPointer', 'Formula::watchedUpdateVar', 'Formula::watchedReduceTheory', 'Formula::watchedUndoTheory', 'Formula::learnClause', 'Formula::analyzeConflict', 'Formula::chooseLiteralVSIDS', 'Formula::lazyWatchedChooseLiteral',
        'Formula::WatchedUnitPropagation', 'Formula::WatchedLiterals']
PROPS['C17'] = dict(
    units=[dict(name='search', src='bitvec', layer='bv,ba', specs=['bv.spec'], opts=['nosplit', 'chain'], functions=BVFN),
           dict(name='printing', src='bitvec', layer='bp', specs=['bv.spec'], opts=['nosplit', 'chain'], functions=['SolveFinite', 'Formula::WatchedLiterals'])],
    driver='bitvec', driver_src='bitvec', crash=True,
    bounded=['Formula::BuildFormula of bitvec (parsing of the file)'], bounded_s=25,
    assumptions=['std::bitset<64> is an abstract sort with the axioms of engine/check.py (membership of and, or, not, set, reset; any, count)',
                 'BuildFormula of bitvec leaves the state WatchedLiterals asks for (bounded search on the real program only)',
                 'safety of accesses in bitvec (subscripts, dangling pointers) is assumed in its proof, not proved'],
    notes='for an arbitrary assignment MV satisfying every clause: the nodes of level 0 never remove the value of MV, reasons are falsified beforehand and learned clauses hold under MV, so WatchedLiterals never returns UNSAT; with result SAT every clause has a literal whose values include the whole current domain of its variable, and no domain is empty, so every choice of values satisfies it; nodes, domains and watch lists keep that structure through reduction, propagation, conflict analysis, learning and undoing; SolveFinite prints that verdict.')
