'arc-level reference model of substitution and normalisation, and linear-algebra closure of non-emitting paths, compared with built and compiled graphs'
import copy, pickle
import numpy as np
from ..core import torch, arr
from .. import ref

RULE = '''Random graphs (2..9 states, emitting and non-emitting, self-loops, start/end anywhere, non-emitting
part acyclic), random substitute graphs (nested up to 3 levels), histories of substitutions, normalisations
and compilations.'''
ASSUMPTIONS = ['at most one arc between two states (the arcs are a set), non-emitting states form no cycle',
               'substitutes have distinct non-emitting start and end states, as the unit graphs of the commands']


def _arcs(g):
    out = {}
    for a in g.arcs():
        if (a.start, a.end) in out:
            raise AssertionError('duplicated arc')
        out[a.start, a.end] = a.weight
    return out


def _snap(g):
    return (list(g.states()), {s: g.state_from_id(s).pdf_id for s in g.states()}, _arcs(g), g.start_state,
            g.end_state, dict(g.symbols))


def _random(c, nmin=2, nmax=8, pid=0, emit_p=.6, inner_end=False):
    'Random graph; non-emitting states only point forward (in id order).'
    from beer.graph import Graph
    g = Graph()
    n = c.size(nmin, nmax, 3 * nmax, .06)
    start = g.add_state()
    ids = [start]
    for i in range(n):
        emit = c.flip(emit_p) or i == 0
        ids.append(g.add_state(pdf_id=pid if emit else None))
        pid += bool(emit)
    end = g.add_state()
    ids.append(end)
    g.start_state, g.end_state = start, end
    em = {i: g.state_from_id(i).pdf_id is not None for i in ids}
    w = lambda: float(c.uni(.05, 1))
    # a chain guarantees that everything is connected
    for a, b in zip(ids[:-1], ids[1:]):
        g.add_arc(a, b, w())
    have = {(a, b) for a, b in zip(ids[:-1], ids[1:])}
    for a in ids[:-1]:
        for b in ids[1:]:
            if (a, b) in have or b == start:
                continue
            if not em[a] and not em[b] and ids.index(b) <= ids.index(a):
                continue
            if not c.flip(.3):
                continue
            if not em[a] and b == a:
                continue
            # arcs from emitting states may go back, also to non-emitting ones
            g.add_arc(a, b, w())
            have.add((a, b))
    return g, pid


def normalize(c):
    g, _ = _random(c)
    before = _snap(g)
    g.normalize()
    after = _snap(g)
    c.note(arcs=sorted((a, b, w) for (a, b), w in before[2].items()))
    c.check(before[0] == after[0] and before[1] == after[1] and before[3:] == after[3:], 'normalize changed the states')
    c.check(set(before[2]) == set(after[2]), 'normalize changed the arcs')
    for s in before[0]:
        out = {k: v for k, v in before[2].items() if k[0] == s}
        tot = sum(out.values())
        for k, v in out.items():
            c.close(after[2][k], v / tot, f'weight of {k}', 1e-9, 1e-12)
    c.ev('arcs', len(before[2]))
    # Iterators over the arcs of a state.
    for s in before[0]:
        c.check({(a.start, a.end) for a in g.arcs(s)} == {k for k in after[2] if k[0] == s}, 'outgoing arcs')
        c.check({(a.start, a.end) for a in g.arcs(s, incoming=True)} == {k for k in after[2] if k[1] == s},
                'incoming arcs')


def _expected_replace(g, old, sub, new_ids):
    states, pdfs, arcs, start, end, sym = _snap(g)
    s_states, s_pdfs, s_arcs, s_start, s_end, _ = _snap(sub)
    m = dict(zip(s_states, new_ids))
    pd = {s: p for s, p in pdfs.items() if s != old}
    pd.update({m[s]: p for s, p in s_pdfs.items()})
    out = {}
    for (a, b), w in arcs.items():
        a2 = m[s_end] if a == old else a
        b2 = m[s_start] if b == old else b
        out[a2, b2] = w
    for (a, b), w in s_arcs.items():
        out[m[a], m[b]] = w
    return pd, out, m[s_start] if start == old else start, m[s_end] if end == old else end


def replace(c):
    g, pid = _random(c)
    hist = []
    for step in range(c.size(1, 3, 8)):
        sub, pid = _random(c, 1, 3, pid)
        if c.flip(.3):
            inner, pid = _random(c, 1, 2, pid)
            sub.replace_state(c.choice([s for s in sub.states() if s not in (sub.start_state, sub.end_state)]), inner)
        states = list(g.states())
        old = c.choice(states)
        if c.flip(.6):
            old = c.choice([s for s in states if s not in (g.start_state, g.end_state)] or states)
        hist.append(old)
        gb, sb = _snap(g), _snap(sub)
        g0 = copy.deepcopy(g)
        g.replace_state(old, sub)
        now = list(g.states())
        new = [s for s in now if s not in gb[0]]
        c.check(old not in now, 'the replaced state is still there')
        c.check([s for s in now if s in gb[0]] == [s for s in gb[0] if s != old], 'other states changed')
        c.check(len(new) == len(sb[0]), f'{len(new)} new states instead of {len(sb[0])}')
        pd, arcs, start, end = _expected_replace(g0, old, sub, new)
        c.check({s: g.state_from_id(s).pdf_id for s in now} == pd, 'densities of the states')
        got = _arcs(g)
        c.check(got == arcs, f'arcs {sorted(got)} instead of {sorted(arcs)} when replacing {old}')
        c.check(g.start_state == start and g.end_state == end, 'start/end state')
        c.check(_snap(sub) == sb, 'the substitute was modified')
        # What happens to the graph later does not leak into the substitute.
        g.normalize()
        c.check(_snap(sub) == sb, 'normalising the graph modified the substitute')
        c.ev('substitutions')
    c.note(replaced=hist, n=len(list(g.states())), arcs=sorted(_arcs(g).items())[:6])


def _closure(g):
    'Reference compilation by linear algebra.'
    states, pdfs, arcs, start, end, _ = _snap(g)
    idx = {s: i for i, s in enumerate(states)}
    n = len(states)
    W = np.zeros((n, n))
    for (a, b), w in arcs.items():
        W[idx[a], idx[b]] = w
    em = np.array([pdfs[s] is not None for s in states])
    e, u = np.flatnonzero(em), np.flatnonzero(~em)
    Wuu, Wue, Weu, Wee = W[np.ix_(u, u)], W[np.ix_(u, e)], W[np.ix_(e, u)], W[np.ix_(e, e)]
    N = np.linalg.inv(np.eye(len(u)) - Wuu)
    trans = Wee + Weu @ N @ Wue
    pos = {s: i for i, s in enumerate(u)}
    us, ue = list(u).index(idx[start]), list(u).index(idx[end])
    init = (N @ Wue)[us]
    final = (Weu @ N)[:, ue]
    # off-diagonal sums are computed in single precision by subtraction
    tol = np.full(len(e), 5e-5)
    for i in range(len(e)):
        d = trans[i, i]
        off = trans[i].sum() - d
        if d > 0 and off > 0:
            tol[i] += 1e-6 * d / off
            trans[i] *= (1 - d) / off
            trans[i, i] = d
    return init / init.sum(), final / final.sum(), trans, [pdfs[states[i]] for i in e], tol


def _acyclic(g):
    'Whether the non-emitting states form no cycle.'
    states, pdfs, arcs, *_ = _snap(g)
    u = {s: i for i, s in enumerate(s for s in states if pdfs[s] is None)}
    W = np.zeros((len(u), len(u)))
    for a, b in arcs:
        if a in u and b in u:
            W[u[a], u[b]] = 1
    return not np.linalg.matrix_power(W, len(u)).any()


def _check_compiled(c, g, cg, msg=''):
    init, final, trans, mapping, tol = _closure(g)
    c.check(list(cg.pdf_id_mapping) == mapping, f'{msg}density map {cg.pdf_id_mapping} instead of {mapping}')
    c.check(cg.n_states == len(mapping), f'{msg}number of states')
    c.close(np.exp(arr(cg.init_log_probs)), init, msg + 'initial probabilities', 2e-5, 1e-6)
    c.close(np.exp(arr(cg.final_log_probs)), final, msg + 'final probabilities', 2e-5, 1e-6)
    for i, row in enumerate(np.exp(arr(cg.trans_log_probs))):
        c.close(row, trans[i], msg + f'transition probabilities of state {i}', tol[i], 1e-6)
    for name, want in (('init', init), ('final', final), ('trans', trans)):
        got = np.isfinite(arr(getattr(cg, name + '_log_probs')))
        c.check(np.array_equal(got, want > 0), f'{msg}{name}: impossible entries')
    c.ev('compiled_states', len(mapping))


def compiled(c):
    g, pid = _random(c, 1, 8, emit_p=c.choice([.4, .7, 1.]))
    for _ in range(c.int(0, 2)):
        sub, pid = _random(c, 1, 3, pid)
        old = c.choice([s for s in g.states() if s not in (g.start_state, g.end_state)])
        g.replace_state(old, sub)
    if c.flip(.8):
        g.normalize()
    else:
        # unnormalised weights, self-loops kept below one
        for a in g.arcs():
            a.weight *= .3
    if c.flip(.3):
        # shared densities
        ids = [s for s in g.states() if g.state_from_id(s).pdf_id is not None]
        for s in ids:
            g.state_from_id(s).pdf_id = int(c.rng.integers(0, len(ids)))
    before = _snap(g)
    c.note(states=[[s, before[1][s]] for s in before[0]], arcs=sorted((a, b, w) for (a, b), w in before[2].items()))
    if not _acyclic(g):
        c.trivial = True
        return
    cg = g.compile()
    _check_compiled(c, g, cg)
    c.check(_snap(g) == before, 'compiling modified the graph')
    cg2 = pickle.loads(pickle.dumps(g)).compile()
    _check_compiled(c, g, cg2, 'after pickling: ')
    if c.flip(.3):
        g.normalize()
        _check_compiled(c, g, g.compile(), 'after normalising: ')


def nested_equals_flat(c):
    'A sequence of unit graphs substituted in a chain = the chain written by hand.'
    from beer.graph import Graph
    nu = c.size(1, 5, 30)
    units, pid = [], 0
    for _ in range(c.int(1, 3)):
        S = c.size(1, 3, 10)
        stay = [float(x) for x in c.uni(.1, .9, S)]
        u = Graph()
        u.start_state = u.add_state()
        ids = [u.add_state(pdf_id=pid + i) for i in range(S)]
        u.end_state = u.add_state()
        u.add_arc(u.start_state, ids[0], 1.)
        for i in range(S):
            u.add_arc(ids[i], ids[i], stay[i])
            u.add_arc(ids[i], ids[i + 1] if i + 1 < S else u.end_state, 1 - stay[i])
        units.append((u, stay, list(range(pid, pid + S))))
        pid += S
    seq = [c.int(0, len(units) - 1) for _ in range(nu)]
    g = Graph()
    g.start_state = last = g.add_state()
    slots = []
    for _ in seq:
        s = g.add_state()
        g.add_arc(last, s)
        slots.append(s)
        last = s
    g.end_state = g.add_state()
    g.add_arc(last, g.end_state)
    for i in c.rng.permutation(nu):
        g.replace_state(slots[i], units[seq[i]][0])
    g.normalize()
    cg = g.compile()
    c.note(seq=seq, units=[u[1] for u in units])
    # The order of the states depends on the order of substitution: follow
    # the chain from the initial state.
    A = np.exp(arr(cg.trans_log_probs))
    init, fin = np.exp(arr(cg.init_log_probs)), np.exp(arr(cg.final_log_probs))
    want = [(p, s) for k in seq for p, s in zip(units[k][2], units[k][1])]
    c.check(cg.n_states == len(want), 'number of states')
    c.check((init > 0).sum() == 1 and (fin > 0).sum() == 1, 'one entry and one exit')
    st = int(init.argmax())
    for i, (p, s) in enumerate(want):
        c.check(cg.pdf_id_mapping[st] == p, f'density {cg.pdf_id_mapping[st]} at position {i} instead of {p}')
        c.close(A[st, st], s, 'self-loop', 1e-5, 1e-6)
        nxt = [j for j in range(len(want)) if A[st, j] > 0 and j != st]
        if i + 1 < len(want):
            c.check(len(nxt) == 1, f'successors {nxt}')
            c.close(A[st, nxt[0]], 1 - s, 'transition', 1e-5, 1e-6)
            st = nxt[0]
        else:
            c.check(nxt == [] and fin[st] > 0, 'end of the chain')


CASES = [(normalize, 480, 2000), (replace, 1200, 6000), (compiled, 1800, 10000), (nested_equals_flat, 600, 3000)]
