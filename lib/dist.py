"""Numpy reference of the distributions of policies: log-probability, entropy, KL divergence and their gradients with
respect to the distribution parameters.  A distribution is a list of components in leaf order:
('cat', logits) or ('norm', logvar, mu)."""
import jax
import numpy as np
from gymnasium.spaces import Box, Dict, Discrete
from scipy.special import log_softmax
from lib import models as M


def comps(kind):
    """leaf spaces of an action space, in pytree order"""
    def rec(s):
        if isinstance(s, Dict):
            return [x for k in sorted(s.spaces) for x in rec(s[k])]
        return [x for t in s.spaces for x in rec(t)] if hasattr(s, 'spaces') else [s]
    return rec(M.space(kind))


def split(kind, tree):
    """[(space, params...)] from a tree of distribution parameters of one row"""
    leaves, out = [np.asarray(x, 'float64').ravel() for x in jax.tree_util.tree_leaves(tree)], []
    for s in comps(kind):
        k = 1 if isinstance(s, Discrete) else 2
        out.append((s, *leaves[:k]))
        leaves = leaves[k:]
    return out


def variates(kind, a):
    v, out = M.variate_np(kind, a), []
    for s in comps(kind):
        n = s.n if isinstance(s, Discrete) else int(np.prod(s.shape, dtype=int))
        out.append(v[:n])
        v = v[n:]
    return out


def logp(kind, tree, a):
    """log-probability of action a and its gradient per leaf"""
    tot, grads = 0., []
    for (s, *p), x in zip(split(kind, tree), variates(kind, a)):
        if isinstance(s, Discrete):
            lp = log_softmax(p[0])
            tot += x @ lp
            grads.append(x - np.exp(lp))
        else:
            lv, mu = p
            q = (x - mu) ** 2 * np.exp(-lv)
            tot += -0.5 * np.sum(np.log(2 * np.pi) + lv + q)
            grads += [0.5 * (q - 1), (x - mu) * np.exp(-lv)]
    return tot, grads


def entropy(kind, tree):
    tot, grads = 0., []
    for s, *p in split(kind, tree):
        if isinstance(s, Discrete):
            lp = log_softmax(p[0])
            h = -np.exp(lp) @ lp
            tot += h
            grads.append(-np.exp(lp) * (lp + h))
        else:
            tot += 0.5 * np.sum(np.log(2 * np.pi) + p[0] + 1)
            grads += [np.full(len(p[0]), 0.5), np.zeros(len(p[0]))]
    return tot, grads


def kl(kind, tree, prior):
    """KL(tree || prior) and its gradient with respect to the leaves of tree"""
    tot, grads = 0., []
    for (s, *p), (_, *q) in zip(split(kind, tree), split(kind, prior)):
        if isinstance(s, Discrete):
            lp, lq = log_softmax(p[0]), log_softmax(q[0])
            k = np.exp(lp) @ (lp - lq)
            tot += k
            grads.append(np.exp(lp) * (lp - lq - k))
        else:
            (l1, m1), (l2, m2) = p, q
            tot += 0.5 * np.sum(l2 - l1 + (np.exp(l1) + (m1 - m2) ** 2) * np.exp(-l2) - 1)
            grads += [0.5 * (np.exp(l1 - l2) - 1), (m1 - m2) * np.exp(-l2)]
    return tot, grads


def head_grads(m, feats, gs):
    """gradient with respect to the parameters of a linear head, given d/d(outputs) per row: gs[row][leaf]"""
    out = {}
    for k, (name, shape) in enumerate(m.shapes):
        g = np.stack([np.asarray(r[k]).ravel() for r in gs])
        out[name + '_b'] = g.sum(0)
        out[name + '_w'] = np.stack(feats).T @ g
    return {'~': out}
