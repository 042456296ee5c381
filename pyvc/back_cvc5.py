"""Second back end: cvc5 on the SMT-LIB text of the obligation."""
import z3


def check(smt2, timeout_ms):
  try:
    import cvc5
  except ImportError:
    return None
  slv = cvc5.Solver()
  slv.setOption('tlimit-per', str(int(timeout_ms)))
  slv.setLogic('ALL')
  parser = cvc5.InputParser(slv)
  parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'vc')
  sm = parser.getSymbolManager()
  res = None
  try:
    while True:
      cmd = parser.nextCommand()
      if cmd.isNull():
        break
      out = cmd.invoke(slv, sm)
      s = str(out).strip()
      if s in ('sat', 'unsat', 'unknown'):
        res = s
  except Exception:  # parse problem or resource limit: no opinion.
    return None
  if res == 'unsat':
    return z3.unsat
  return None
