"""A second opinion on what the proofs rest on: every unsatisfiability z3 reports (a discharged
obligation, an infeasible branch) is put to cvc5 as well.  Thorough tier only."""
import time
import z3

LIMIT_MS = 10000
ON = False


def ask(assertions):
    """'unsat', 'sat', 'unknown' by cvc5."""
    import cvc5
    s = z3.Solver()
    s.add(*assertions)
    text = '(set-logic ALL)\n' + s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(LIMIT_MS))
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    sm = p.getSymbolManager()
    out = 'unknown'
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        r = cmd.invoke(slv, sm)
        if cmd.getCommandName() == 'check-sat':
            out = str(r).strip()
    return out


def confirm(run, assertions):
    st = run.stats
    st['cross'] += 1
    t = time.time()
    try:
        r = ask(assertions)
    except Exception as e:      # an expression z3 prints in its own dialect
        r = 'error %s' % e
    st['cross_s'] += time.time() - t
    if r == 'unsat':
        st['cross_ok'] += 1
    elif r == 'sat':
        st['cross_bad'] += 1
    else:
        st['cross_open'] += 1
