"""Independent walk over the returned tree structure."""
import numpy as np


def route(tree, x):
    node = tree
    while isinstance(node, dict):
        node = node['left'] if x[node['index']] < node['value'] else node['right']
    return node


def leaf_y(leaf):
    return np.array([float(np.squeeze(by)) for _, by in leaf])


def degenerate(node):
    return node['left'] is node['right'] or (not isinstance(node['left'], dict) and not isinstance(node['right'], dict)
                                             and len(node['left']) == len(node['right'])
                                             and all(a[0] is b[0] for a, b in zip(node['left'], node['right'])))


def leaves(tree):
    """List of (leaf, depth, path) with path = list of (index, value, is_left); degenerate splits count once."""
    out = []

    def walk(node, depth, path):
        if isinstance(node, dict):
            if not isinstance(node['left'], dict) and degenerate(node):
                out.append((node['left'], depth + 1, path + [(node['index'], node['value'], None)]))
                return
            walk(node['left'], depth + 1, path + [(node['index'], node['value'], True)])
            walk(node['right'], depth + 1, path + [(node['index'], node['value'], False)])
        else:
            out.append((node, depth, path))
    walk(tree, 0, [])
    return out


def forest(trees, Q):
    mu = np.zeros(len(Q))
    sd = np.zeros(len(Q))
    for i, q in enumerate(Q):
        m = []
        s2 = []
        for t in trees:
            y = leaf_y(route(t, q))
            m.append(np.mean(y))
            s2.append(np.var(y))
        mu[i] = np.mean(m)
        v = np.mean(s2) + np.var(m)
        sd[i] = np.sqrt(max(v, 0.0))
    return mu, sd
