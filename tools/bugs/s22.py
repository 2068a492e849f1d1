ID = 'B22'; PROP = 'P19'
NEEDS = 'saving over an existing file'
BREAKS = 'saving to an existing file appends, so that loading returns the old object'
EDITS = [('coax/utils/_misc.py', "    with lz4.frame.open(filepath, 'wb') as f:", "    with lz4.frame.open(filepath, 'ab') as f:")]
DEMO = '''
import tempfile, os, coax
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.pkl.lz4')
    coax.utils.dump([1], f); coax.utils.dump([2], f)
    assert coax.utils.load(f) == [2]
'''
