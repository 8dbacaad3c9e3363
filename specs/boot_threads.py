"""Run in its own process: bootstrap with several worker processes."""
import json
import sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy as np
from metcalcpy.bootstrap import bootstrap_and_value


def code(v):
    """A replicate as the text of its rows, a number for the original sample."""
    if v.ndim == 2:
        return [float(v.sum())]
    return [''.join(str(int(x)) for x in r[:, 0]) for r in v]


if __name__ == '__main__':
    case = json.loads(sys.argv[2])
    np.random.seed(case['seed'])
    data = np.arange(case['rows']).reshape(-1, 1)
    r = None
    try:
        r = bootstrap_and_value(data, code, num_iterations=case['iterations'], num_threads=case['threads'], block_length=case['block'], ci_method='none',
                                save_distributions=True)
    except Exception:
        raise
    print(json.dumps({'reps': [str(x) for x in np.asarray(r.distributions).ravel()], 'value': code(data)[0]}))
