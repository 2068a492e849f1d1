exec(open('/verif/tools/mut/c.py').read())
keep = {m[0]: m for m in M}
M = [keep[k] for k in 'c06 c17 c19 c24 c25 c26 c34'.split()]
M += [
('c09','P15',B2,"        return (x, batch_to_single(logP)) if return_logp else x","        return (x, min(batch_to_single(logP), 0.)) if return_logp else x"),
('c15','P16',B1,"batch_to_single(dist_params, index=i)","batch_to_single(dist_params, index=-i)"),
('c18','P16',SQ,"value_range = float(f(value_range[0])), float(f(value_range[1]))","value_range = float(value_range[0]), float(f(value_range[1]))"),
('c21','P16',T,"            s_next = [self.observation_postprocessor(self.rng, S_next, index=i) for i in range(n)]","            s_next = [self.observation_postprocessor(self.rng, S_next, index=min(i, 2)) for i in range(n)]"),
('c33','P16',B1,"                X = self.proba_dist.sample(dist_params, next(rngs))    #","                X = self.proba_dist.mode(dist_params)    #"),
('c37','P16',C+'stochastic_reward_function.py','value_range = env.reward_range','value_range = tuple(x * 2 for x in env.reward_range)'),
('c38','P17',MX,"        self._random_seed = new_random_seed","        self._random_seed = new_random_seed or 1"),
('c39','P17',MX,"deepcopy","copy_"),
('c40','P15',B2,"        raise TypeError","        return None"),
]
