"""Replay process: runs harnesses concretely against the real, uninstrumented library (JSON lines on stdin/stdout)."""
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.environ['TZ'] = 'UTC'
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from symx import instrument
    from symx.context import run_concrete
    mods = {}
    for line in sys.stdin:
        rq = json.loads(line)
        try:
            m = mods.get(rq['prop'])
            if m is None:
                m = mods[rq['prop']] = instrument.load_props(rq['prop'], False)
            fn = next(s.fn for s in m.scenarios(rq.get('tier', 'thorough')) if s.name == rq['scenario'])
            dw = instrument.load_real()
            r = run_concrete(fn, rq['inputs'], dw)
        except BaseException as e:      # noqa: BLE001
            import traceback
            r = {'status': 'error', 'msg': traceback.format_exc()[-1500:], 'key': None, 'obs': [], 'reached': []}
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
