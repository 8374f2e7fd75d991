"""Developer entry: verify contracts of a module or of one name."""
import sys
import time
from pyvc import boot  # noqa
import importlib
from pyvc.registry import REG, gen
from pyvc import solve


def main():
    mod, pats = sys.argv[1], sys.argv[2:]
    importlib.import_module("contracts." + mod)
    for ct in REG.contracts:
        if pats and not any(p in ct.name for p in pats): continue
        t0 = time.time()
        r = gen(REG, ct)
        print(f"== {ct.name}: paths={r.paths} obls={len(r.obls)} gen={r.seconds:.1f}s {r.error or ''}")
        if r.error: continue
        print("   pre:", solve.satisfiable(r.pre, r.axioms))
        solve.discharge([(o, r.axioms) for o in r.obls], ms=12000)
        for o in r.obls:
            if o.result != "unsat": print("   ", o.result, o.name, "taint:", o.taint, o.model[:int(__import__('os').environ.get('ML','0'))])
        print(f"   discharged {sum(o.result == 'unsat' for o in r.obls)}/{len(r.obls)} in {time.time()-t0:.1f}s")


main()
