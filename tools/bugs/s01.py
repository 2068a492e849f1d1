ID = 'B01'; PROP = 'P01'
NEEDS = 'a batched update in which one subtree keeps its aggregate while another one changes'
BREAKS = 'the upward refresh stops at the first level where some updated node keeps its value, leaving ancestors of the others stale'
EDITS = [('coax/utils/_segment_tree.py', "            self._arr[parent] = self.reducer(self._arr[left_child], self._arr[right_child])\n",
"            new = self.reducer(self._arr[left_child], self._arr[right_child])\n            unchanged = self._arr[parent] == new\n            self._arr[parent] = new\n            if unchanged.any():\n                break  # nothing left to propagate\n")]
DEMO = '''
import numpy as np
from coax.utils import SumTree
t = SumTree(8)
t.set_values(np.array([0, 5]), np.array([1., 2.]))
t.set_values(np.array([0, 5]), np.array([1., 7.]))
assert t.root_value == 8, t.root_value
'''
