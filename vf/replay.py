"""Replay the failing input recorded in a replay file on the code compiled from /repo's current sources."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, cx, gen
import specs.common as K
from irx import Program
def main():
    d = json.load(open(sys.argv[1])); fi = d.get('failing_input')
    if not fi: print('no failing input recorded; failed obligations:'); [print(' ', o['name']) for o in d['failed_obligations']]; return 0
    check.load(); prog = Program(); nat = cx.Native(prog)
    con = [k for ks in list(K.PROPS.values()) + list(K.BOUNDED.values()) for k in ks if check.kid(k) == d['function']] or [K.C[d['function']]]
    con = con[0]
    st, cur, info, n = cx.batch(con, nat, con.gen or gen.by_types(con), fi['seed'], 1, 30)
    print(st, json.dumps(info, indent=1)); return 1 if st in ('violation', 'crash') else 0
sys.exit(main())
