ST='coax/utils/_segment_tree.py'; SI='coax/experience_replay/_simple.py'; PR='coax/experience_replay/_prioritized.py'
NS='coax/reward_tracing/_nstep.py'; MC='coax/reward_tracing/_montecarlo.py'; TR='coax/reward_tracing/_transition.py'; RB='coax/reward_tracing/_base.py'
M=[
('a01','P01',ST,"idx = onp.unique(idx // 2)","idx = onp.unique(idx // 2)[:max(1, self.capacity // 2)]"),
('a02','P01',ST,"level_size = min(2 ** level, self.capacity)","level_size = min(2 ** level, self.capacity + self.capacity % 2)"),
('a03','P01',ST,"            i_right = onp.minimum(i + 1, self._arr.size - 1)","            i_right = onp.minimum(i + 1, self._arr.size - 2)"),
('a04','P01',ST,"stop = onp.full_like(start, self.capacity)","stop = onp.full_like(start, self._arr.size // 2 + 1)"),
('a05','P02',ST,"(left_child_values > values)","(left_child_values >= values)"),
('a06','P02',ST,"| (self._arr[right_child_idx] <= 0)","| (self._arr[right_child_idx] < 0)"),
('a07','P02',ST,"if self.root_value <= 0:","if self.root_value < 0:"),
('a08','P02',ST,"if onp.any(u > 1) or onp.any(u < 0):","if onp.any(u >= 1) or onp.any(u < 0):"),
('a09','P02',ST,"        self._rnd = onp.random.RandomState(new_random_seed)\n","        if not hasattr(self, '_rnd'):\n            self._rnd = onp.random.RandomState(new_random_seed)\n"),
('a10','P03',SI,"            self._storage.pop(0)","            self._storage.pop(0 if len(self._storage) < 2 * self.capacity else -1)"),
('a11','P03',SI,"        self._random_state = random.getstate()\n        return","        return"),
('a12','P03',SI,"random.sample(self._storage, batch_size)","random.sample(self._storage[-max(batch_size, self.capacity - 1):], batch_size)"),
('a13','P03',SI,"            self._index, self._index + transition_batch.batch_size)","            self._index, self._index + transition_batch.batch_size) % (4 * self.capacity)"),
('a14','P04',PR,"if onp.isclose(new_alpha, self._alpha, rtol=0.01):","if onp.isclose(new_alpha, self._alpha, rtol=0.1):"),
('a15','P04',PR,"W = onp.power(P * len(self), -self.beta)","W = onp.power(P * self.capacity + 1e-3, -self.beta)"),
('a16','P04',PR,"        W /= W.max()","        W /= onp.power(self._sumtree.values[:len(self)].min() / self._sumtree.root_value * len(self), -self.beta)"),
('a17','P04',PR,"mask = _get_transition_batch_idx(self._storage[idx_lookup]) == idx","mask = idx >= self._index - self.capacity - 1"),
('a18','P04',PR,"return min(self.capacity, self._index)","return min(self.capacity, self._index) if self._index % (4 * self.capacity) else 0"),
('a19','P04',PR,"        new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)","        new_values = onp.power(onp.abs(Adv + self.epsilon), self.alpha)"),
('a20','P04',PR,"        transition_batch.W *= W","        transition_batch.W = W"),
('a21','P05',NS,"return bool(len(self)) and (self._done or len(self) > self.n)","return bool(len(self)) and (self._done or len(self) > max(self.n, 1) + (self.n > 4))"),
('a22','P05',NS,"        if len(self) >= self.n:","        if len(self) > self.n or (len(self) == self.n and not self._done):"),
('a23','P05',NS,"s_next, a_next, logp_next, _ = self._deque_s[self.n - 1]","s_next, a_next, logp_next, _ = self._deque_s[min(self.n, len(self) - 1) - (len(self) > self.n)]"),
('a24','P05',NS,"        self._done = False\n        self._gammas","        self._gammas"),
('a25','P05',NS,"                last_r = self._deque_r[i]","                last_r = self._deque_r[i] if i < self.n - 1 or self.n == 1 else last_r"),
('a26','P06',MC,"        if self._done:\n            self._g = 0.","        if self._done and len(self) > 1:\n            self._g = 0."),
('a28','P06',MC,"        self._list = []\n        self._done = False\n        self._g = 0","        self._list = []\n        self._g = 0"),
('a29','P07',TR,"            s = slice(i, i + 1)  #","            s = slice(i, i + 1) if i < self.batch_size - 9 or i < 9 else slice(i - 1, i)  #"),
('a30','P07',TR,"(onp.shape(a) == onp.shape(b) and onp.allclose(a, b))","onp.allclose(a, b)"),
('a31','P07',TR,"onp.all(logp <= 0)","onp.any(logp <= 0)"),
('a32','P07',TR,"0 <= gamma <= 1","0 <= gamma < 1"),
('a33','P07',TR,"            yield TransitionBatch(*self)  #","            yield self  #"),
('a34','P05 P06',RB,"        while self:\n","        while self and len(transitions) < 512:\n"),
('a35','P04',PR,"        self._sumtree = SumTree(capacity=self.capacity, random_seed=self._random_seed)\n        self._index = 0","        self._sumtree = SumTree(capacity=self.capacity, random_seed=self._random_seed)\n        self._index = getattr(self, '_index', 0) and self._index // self.capacity * self.capacity"),
]
