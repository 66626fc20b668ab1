"""Discharging one obligation: z3 (two configurations), then cvc5 on the same SMT-LIB text."""
import z3

import os
DUMP = os.environ.get('KVC_DUMP')      # directory for obligations that were not discharged (debugging aid)
def dump(pc, goal):
    s = z3.Solver()
    for f in pc: s.add(f)
    s.add(z3.Not(goal))
    n = len(os.listdir(DUMP))
    with open(os.path.join(DUMP, 'o%03d.smt2' % n), 'w') as fh: fh.write(s.to_smt2())
SCALE = 1.0     # factor on every time limit; a unit that was not proved is tried again with a larger one

def _symbols(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())
def symbols(e, _c={}):
    r = _c.get(e.get_id())
    if r is None or not r[0].eq(e):
        acc = set(); _symbols(e, acc, set()); r = _c[e.get_id()] = (e, acc)
    return r[1]

def relevant(pc, goal, rounds=3):
    """facts connected to the goal through shared symbols (dropping facts is sound)"""
    syms = set(symbols(goal)); left = list(pc); out = []
    for _ in range(rounds):
        nxt = [f for f in left if symbols(f) & syms]
        if not nxt: break
        left = [f for f in left if not (symbols(f) & syms)]
        out += nxt
        for f in nxt: syms |= symbols(f)
    return out

def _z3(pc, goal, ms, cfg, seed=0):
    s = z3.SimpleSolver() if cfg in ('simple', 'all') else z3.Solver()
    s.set('timeout', int(ms * SCALE))
    if cfg != 'default': s.set('auto_config', False); s.set('smt.mbqi', False)
    if cfg == 'all': s.set('smt.relevancy', 0)      # match every term, not only those of the current branch
    if seed: s.set('smt.random_seed', seed)
    for f in pc: s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return 'proved', ''
    if r == z3.sat:
        return 'refuted', model_text(s.model())
    return 'unknown', s.reason_unknown()
def model_text(m):
    try: return str(m)[:1500]
    except Exception as e: return 'model: %r' % (e,)

def no_const_arrays(fs):
    """constant arrays of a value that is not a literal, which cvc5 does not read, named and axiomatised"""
    seen, ks, st = set(), {}, list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if not z3.is_app(x): continue
        st.extend(x.children())
        if z3.is_K(x):
            a = x.arg(0)
            if a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0: ks[x.get_id()] = x
    if not ks: return fs
    sub, ax = [], []
    for n, x in enumerate(ks.values()):
        a = z3.Const('karr!%d' % n, x.sort()); i = z3.Const('ki!%d' % n, x.sort().domain())
        sub.append((x, a)); ax.append(z3.ForAll([i], a[i] == x.arg(0), patterns=[a[i]]))
    return [z3.substitute(f, *sub) for f in fs] + ax
def _cvc5(pc, goal, ms):
    import cvc5
    s = z3.Solver()
    for f in no_const_arrays(list(pc) + [z3.Not(goal)]): s.add(f)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager(); sol = cvc5.Solver(tm); sol.setOption('arrays-exp', 'true')
        sol.setOption('tlimit-per', str(int(ms * SCALE)))
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'o')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            c.invoke(sol, sm)
        r = sol.checkSat()
        if r.isUnsat(): return 'proved', ''
        if r.isSat(): return 'unknown', 'cvc5: sat'
        return 'unknown', 'cvc5: unknown'
    except Exception as e:
        return 'unknown', 'cvc5: %s' % (str(e)[:120],)

def discharge(pc, goal, times, quick_only=False, prune=False):
    """-> (proved|refuted|unknown, back end, detail)"""
    rel = relevant(pc, goal)
    t1, t2, t3 = times
    st, d = _z3(rel, goal, 300 if quick_only else min(t1, 700), 'ematch')
    if st == 'proved': return st, 'z3', d
    if quick_only: return 'unknown', 'z3', d
    for seed in range(5):       # the search gives up on the first branch in which matching finds nothing new: another order may do better
        st, d = _z3(rel, goal, 700, 'simple', seed)
        if st == 'proved': return st, 'z3', d
        if 'incomplete' not in d: break
    if 'incomplete' in d or not (prune and SCALE == 1.0):
        st, d2 = _z3(rel, goal, 200 if prune and SCALE == 1.0 else 1500, 'all')
        if st == 'proved': return st, 'z3', d2
    if len(rel) < len(pc):
        for cfg in ('ematch', 'simple'):
            st, d = _z3(pc, goal, t1, cfg)
            if st == 'proved': return st, 'z3', d
    if prune and SCALE == 1.0 and DUMP: dump(pc, goal)
    if prune and SCALE == 1.0: return 'unknown', 'z3', d     # selecting loop invariants: the thorough attempt is left to a second run of the unit
    st, d = _z3(pc, goal, t2, 'default')
    if st == 'proved': return st, 'z3', d
    det = d
    if st == 'refuted': return st, 'z3', d
    st2, d2 = _cvc5(pc, goal, t3)
    if st2 == 'proved': return st2, 'cvc5', d2
    if DUMP: dump(pc, goal)
    return st, 'z3+cvc5', det + ' | ' + d2
