"""
The views of a tree (graph, nesting, leafs, text) show exactly its operations.

The text is decoded by an independent reader of the drawing (below), for random
graphs and for the graphs of image trees; the tree itself is walked through
children().
"""
import io
import re

import networkx as nx
import numpy as np

from vmon import imggen, imgref, util

ID = 'P22'
TITLE = 'Graph, nesting and text views show exactly the operations of a tree'
RULE = ('random graphs (directed or not, cyclic, several components, self loops) in all drawing styles, decoded and '
        'compared with the graph, round trip through parse_network_text; random image trees, their as_graph, nesting, '
        'leafs and text compared with a walk over children(); distinct = distinct (style, graph shape) / tree shapes')
QUICK, THOROUGH = 1500, 30000
REQUIRE = {'texts': 900, 'edges': 1500, 'backedges': 500, 'trees': 400, 'labels': 8000, 'roundtrips': 200}
ASSUMPTIONS = ['labels of the random graphs are single words']


# ---------------------------------------------------------------- the reader
GL = {
    (True, True): dict(fill={'    ', ':   ', '|   '}, branch={'+-- ', 'L-> ', '|-> '}, back='<-', vert='!', top={'+-- '}),
    (True, False): dict(fill={'    ', ':   ', '|   '}, branch={'+-- ', 'L-- ', '|-- '}, back='-', vert='|', top={'+-- '}),
    (False, True): dict(fill={'    ', '╎   ', '│   '}, branch={'╙── ', '╟── ', '└─╼ ', '├─╼ '}, back='╾', vert='╽', top={'╙── ', '╟── '}),
    (False, False): dict(fill={'    ', '╎   ', '│   '}, branch={'╙── ', '╟── ', '└── ', '├── '}, back='─', vert='│', top={'╙── ', '╟── '}),
}


def decode(lines, ascii_only, directed, words=True):
    """
    Returns [label, parent index or None, [labels of other parents]] per line
    (an ellipsis has the label '...').
    """
    g = GL[ascii_only, directed]
    out = []
    stack = []   # (index, column where its children start)
    drawn = []   # (index, glyph or None, {column: fill})
    column = {}  # index -> column of its own glyph
    vertical = False
    for line in lines:
        pos = 0
        while line[pos:pos + 4] in g['fill'] and line[pos:pos + 4].strip() != line[pos:].strip():
            pos += 4
        if line[pos:] == g['vert'] and out and not vertical:
            vertical = True
            continue
        col = pos
        if vertical:
            parent = len(out) - 1
            assert stack and stack[-1][0] == parent and stack[-1][1] == col, ('vertical', line)
            child_col = col
            text = line[pos:]
            vertical = False
            glyph = None
        else:
            glyph = line[pos:pos + 4]
            assert glyph in g['branch'], ('glyph', line, glyph)
            text = line[pos + 4:]
            if pos == 0:
                assert glyph in g['top'], line
                stack = []
                parent = None
            else:
                assert glyph not in g['top'], line
                while stack and stack[-1][1] != col:
                    stack.pop()
                assert stack, ('no parent', line)
                parent = stack[-1][0]
            child_col = pos + 4
        others = []
        sep = ' ' + g['back'] + ' '
        if words and sep in text:
            text, rest = text.split(sep)
            others = rest.split(', ')
        drawn.append((glyph, {column[k]: line[column[k]:column[k] + 4] for k, _ in stack if k in column}))
        if glyph is not None:
            column[len(out)] = pos
        out.append([text.strip(), parent, others])
        if text.strip() != '...':
            stack.append((len(out) - 1, child_col))
    # only the last child of a parent is drawn as the last one, and the line of the others goes on
    last = {}
    for k, (_, parent, _) in enumerate(out):
        last[parent] = k
    for k, (glyph, fills) in enumerate(drawn):
        parent = out[k][1]
        end = last[parent] == k
        if glyph is not None:
            want = g['ends'][(parent is None, end)]
            assert glyph == want, ('glyph of a %s child' % ('last' if end else 'middle'), lines[k], glyph)
        a = parent
        while a is not None:
            if a in column:
                pa = out[a][1]
                want = '    ' if last[pa] == a else g['bars'][pa is None]
                assert fills.get(column[a]) == want, ('line of an ancestor', out[k][0], out[a][0])
            a = out[a][1]
    return out


for (_ascii, _directed), _g in GL.items():
    _e, _m = {(1, 1): ('L-> ', '|-> '), (1, 0): ('L-- ', '|-- '), (0, 1): ('└─╼ ', '├─╼ '), (0, 0): ('└── ', '├── ')}[_ascii, _directed]
    _t = ('+-- ', '+-- ') if _ascii else ('╙── ', '╟── ')
    _g['ends'] = {(True, True): _t[0], (True, False): _t[1], (False, True): _e, (False, False): _m}
    _g['bars'] = {True: ':   ' if _ascii else '╎   ', False: '|   ' if _ascii else '│   '}


# ---------------------------------------------------------------- generators
def gen(R, i, tier):
    if i % 3 == 2:
        depth = [0, 1, 1, 2][(i // 3) % 4]
        prog = imggen.rand_prog(R, {'p_kw': 0.3, 'nops': [0, 5], 'p_unnamed': 0.2}, depth=depth)
        return {'prog': prog, 'vertical': R.random() < .5, 'opt': R.random() < .4, 'fields': R.choice(['auto', 'all']),
                'share': R.random() < .3}
    n = R.choice([0, 1, 2, 3, R.randint(2, 12), R.randint(4, 20)])
    kind = R.choice(['any', 'any', 'tree', 'forest', 'dag', 'path', 'star', 'cycle', 'sparse'])
    edges = []
    if n:
        if kind in {'tree', 'forest'}:
            for v in range(1, n):
                if kind == 'tree' or R.random() < .75:
                    edges.append([R.randint(max(0, v - R.choice([1, 3, 20])), v - 1), v])
        elif kind == 'path':
            edges = [[v, v + 1] for v in range(n - 1)]
        elif kind == 'star':
            edges = [[0, v] for v in range(1, n)]
        elif kind == 'cycle':
            edges = [[v, (v + 1) % n] for v in range(n)]
        else:
            p = {'sparse': 0.7, 'dag': 1.5, 'any': R.choice([1, 2, 3])}[kind]
            for _ in range(int(p * n)):
                a, b = R.randrange(n), R.randrange(n)
                if kind == 'dag':
                    if a == b:
                        continue
                    a, b = min(a, b), max(a, b)
                edges.append([a, b])
    order = list(range(n))
    R.shuffle(order)
    return {'n': n, 'edges': edges, 'order': order, 'directed': R.random() < .6, 'ascii': R.random() < .5,
            'vertical': R.random() < .5, 'labels': R.choice(['none', 'label', 'attr', 'off']),
            'max_depth': R.choice([None, None, None, 1, 2, 3, 0]), 'collapse': [v for v in range(n) if R.random() < .08] if R.random() < .3 else [],
            'end': R.choice(['\n', '\n', '', ';'])}


def run(case, ctx):
    if 'prog' in case:
        run_tree(case, ctx)
    else:
        run_graph(case, ctx)


def run_graph(case, ctx):
    from delayed_image.util import util_network_text as u
    directed = case['directed']
    G = nx.DiGraph() if directed else nx.Graph()
    names = ['n%d' % v for v in range(case['n'])]
    shown = {}
    for v in case['order']:
        at = {}
        lab = names[v]
        if case['labels'] == 'label' and v % 3 != 1:
            at['label'] = lab = 'L%d' % v
        elif case['labels'] == 'attr':
            at['label'] = 'wrong%d' % v
            if v % 3 != 1:
                at['nick'] = lab = 'K%d' % v
        elif case['labels'] == 'off':
            at['label'] = 'wrong%d' % v
        if v in case['collapse']:
            at['collapse'] = True
        shown[names[v]] = lab
        G.add_node(names[v], **at)
    for a, b in case['edges']:
        G.add_edge(names[a], names[b])
    back = {v: k for k, v in shown.items()}
    with_labels = {'none': True, 'label': True, 'attr': 'nick', 'off': False}[case['labels']]
    kw = dict(with_labels=with_labels, max_depth=case['max_depth'], ascii_only=case['ascii'], vertical_chains=case['vertical'])
    before = (list(G.nodes(data=True)), list(G.edges(data=True)))
    lines = list(u.generate_network_text(G, **kw))
    ctx.expect((list(G.nodes(data=True)), list(G.edges(data=True))) == before, 'drawing changed the graph')
    ctx.count('texts')
    # the writer writes the same lines
    buf = io.StringIO()
    u.write_network_text(G, buf, end=case['end'], **kw)
    ctx.expect(buf.getvalue() == ''.join(ln + case['end'] for ln in lines), 'writing to a file gives other text')
    got = []
    u.write_network_text(G, got.append, end=case['end'], **kw)
    ctx.expect(got == [ln + case['end'] for ln in lines], 'writing to a function gives other text')
    if case['max_depth'] == 0:
        ctx.expect(len(lines) == 1 and lines[0].endswith('...'), f'depth 0 {lines}')
        return
    if not case['n']:
        ctx.expect(len(lines) == 1 and len(lines[0]) == 1, f'empty graph {lines}')
        return
    try:
        items = decode(lines, case['ascii'], directed)
    except (AssertionError, ValueError) as ex:
        ctx.expect(False, f'the drawing can not be read: {ex!r} {lines}')
        return
    nodes = [x for x in items if x[0] != '...']
    labels = [x[0] for x in nodes]
    ctx.distinct((case['directed'], case['ascii'], case['vertical'], case['max_depth'], [x[1] for x in items]))
    ctx.expect(len(set(labels)) == len(labels), f'a node is drawn twice {lines}')
    unknown = [x for x in labels if x not in back]
    if unknown:
        ctx.expect(False, f'labels {unknown} belong to no node')
        return
    drawn = [back[x] for x in labels]
    cut = case['max_depth'] is not None or case['collapse']
    if not cut:
        ctx.expect(set(drawn) == set(G), f'nodes missing {set(G) - set(drawn)} {lines}')
    edges = []
    bad = []
    for lab, parent, others in items:
        if parent is not None and lab != '...':
            edges.append((items[parent][0], lab))
        for o in others:
            edges.append((o, lab))
            ctx.count('backedges')
    ctx.count('edges', len(edges))
    real = []
    for a, b in edges:
        if a not in back or b not in back or not G.has_edge(back[a], back[b]):
            bad.append((a, b))
        else:
            real.append((back[a], back[b]) if directed else frozenset([back[a], back[b]]))
    ctx.expect(not bad, f'edges {bad} do not exist {lines}')
    # (below a cut of an undirected graph both ends may mention the edge)
    ctx.expect(cut or len(real) == len(set(real)), f'an edge is drawn twice {lines}')
    want = set(G.edges) if directed else {frozenset(e) for e in G.edges}
    if not cut:
        ctx.expect(set(real) == want, f'edges missing {want - set(real)} {lines}')
    else:
        # each node that is drawn shows the edges that lead to it
        if directed:
            due = {(a, b) for a, b in G.edges if b in drawn}
        else:
            due = {frozenset(e) for e in G.edges if set(e) <= set(drawn)}
        ctx.expect(due <= set(real), f'edges missing {due - set(real)} {lines}')
        # where something below a node is not drawn the node says so
        ctx.count('cut')
        for idx, (lab, parent, others) in enumerate(items):
            if lab == '...':
                continue
            node = back[lab]
            kids = set(G.succ[node]) if directed else set(G.adj[node])
            below = any(x[1] == idx for x in items)
            hidden = [k for k in kids if k not in drawn]
            ctx.expect(not hidden or below, f'{lab} hides {hidden} without a mark {lines}')
        if case['max_depth'] is not None and not case['vertical']:
            def depth(idx):
                return 1 if items[idx][1] is None else 1 + depth(items[idx][1])
            deep = max(depth(k) for k in range(len(items)) if items[k][0] != '...')
            ctx.expect(deep <= case['max_depth'], f'{deep} levels drawn {lines}')
        for c in case['collapse']:
            if names[c] in drawn:
                idx = [k for k, x in enumerate(items) if x[0] == shown[names[c]]][0]
                inner = [x[0] for x in items if x[1] == idx and x[0] != '...']
                ctx.expect(not inner, f'collapsed node {c} shows {inner}')
    # children are drawn in the order of the graph, under the first parent that reaches them
    if directed and not cut:
        for idx, (lab, _p, _o) in enumerate(items):
            if lab == '...':
                continue
            inner = [back[x[0]] for x in items if x[1] == idx and x[0] != '...']
            order = [k for k in G.succ[back[lab]] if k in inner]
            ctx.expect(inner == order, f'children of {lab} out of order {inner} {order}')
    # the roots reach everything, none twice
    roots = [back[x[0]] for x in items if x[1] is None and x[0] != '...']
    if not cut:
        sccs = nx.number_connected_components(G) if not directed else sum(
            1 for _, d in nx.condensation(G).in_degree() if d == 0)
        ctx.expect(len(roots) == sccs, f'{len(roots)} roots for {sccs} parts {lines}')
    if not cut and G.number_of_edges():
        ctx.count('roundtrips')
        H = u.parse_network_text(lines)
        ctx.expect(H.is_directed() == directed, f'parsed as directed={H.is_directed()} {lines}')
        Hn = {back.get(x) for x in H}
        He = {(back.get(a), back.get(b)) for a, b in H.edges} if directed else {frozenset([back.get(a), back.get(b)]) for a, b in H.edges}
        ctx.expect(Hn == set(G), f'parsed nodes {sorted(H)} {lines}')
        if H.is_directed() == directed:
            ctx.expect(He == want, f'parsed edges differ {He ^ want} {lines}')
    # explicit roots
    if directed and not cut and case['n'] > 1:
        src = names[case['order'][0]]
        sub = list(u.generate_network_text(G, sources=[src], **kw))
        reach = {src} | nx.descendants(G, src)
        it = decode(sub, case['ascii'], directed)
        ctx.expect({back.get(x[0]) for x in it if x[0] != '...'} == reach, f'from {src}: {sub}')
        ctx.count('rooted')
    if not cut and not case['vertical'] and G.number_of_edges() == len(want):
        import warnings
        try:
            forest = nx.is_forest(G)
        except Exception:
            forest = False
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if forest:
                ctx.expect(u.forest_str(G, with_labels=with_labels, ascii_only=case['ascii']) == '\n'.join(lines), 'forest_str differs')
                ctx.count('forests')
            else:
                try:
                    u.forest_str(G)
                except nx.NetworkXNotImplemented:
                    ctx.count('no_forest')
                else:
                    ctx.expect(False, 'forest_str drew a graph that is no forest')


def mat(T):
    return np.eye(3) if T.matrix is None else np.asarray(T.matrix, dtype=float)


def run_tree(case, ctx):
    import kwimage
    root = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    if case['share']:
        # the same object at two places of one tree
        from delayed_image import DelayedChannelConcat
        try:
            root = DelayedChannelConcat([root, root])
        except Exception as ex:   # (duplicate names are fine, see P08; anything else shows there)
            ctx.count('unshared')
    if case['opt']:
        root = root.optimize()
    snap = util.snapshot(root)
    ctx.count('trees')
    ctx.distinct(util.opnames(case['prog']))
    # ------ preorder walk
    want = []   # (node, index of parent)

    def visit(n, parent):
        want.append((n, parent))
        k = len(want) - 1
        for c in n.children():
            visit(c, k)
    visit(root, None)
    # ------ leafs
    lw = sorted(id(n) for n, _ in want if not list(n.children()))
    lg = sorted(id(n) for n in root.leafs())
    ctx.expect(lw == lg, f'leafs() yields {len(lg)} leafs, the tree has {len(lw)}')
    # ------ nesting
    flat = []

    def unnest(item, parent):
        flat.append((item, parent))
        k = len(flat) - 1
        for c in item.get('children', ()):
            unnest(c, k)
    nest = root.nesting()
    unnest(nest, None)
    if ctx.expect(len(flat) == len(want) and [p for _, p in flat] == [p for _, p in want], 'nesting() has another shape'):
        for (item, _), (node, _) in zip(flat, want):
            ctx.expect(item['type'] == type(node).__name__, f"nesting {item['type']} for {type(node).__name__}")
            meta = item['meta']
            ds = meta.get('dsize')
            ctx.expect((None if ds is None else tuple(ds)) == (None if node.meta.get('dsize') is None else tuple(node.meta['dsize'])),
                       f'nesting dsize {ds}')
            if 'transform' in node.meta:
                A = mat(kwimage.Affine.coerce(meta['transform']))
                ctx.expect(np.allclose(A, mat(node.meta['transform']), atol=1e-9, rtol=1e-9), f'nesting transform {meta["transform"]}')
            ch = node.meta.get('channels')
            if ch is not None:
                # (the concise spelling of the same channels)
                from delayed_image import FusedChannelSpec
                ctx.expect(list(FusedChannelSpec.coerce(meta['channels']).normalize().to_list()) == list(ch.normalize().to_list()),
                           f'nesting channels {meta["channels"]} for {ch.spec}')
    # ------ graph
    G = root.as_graph(fields=case['fields'])
    ctx.expect(G.number_of_nodes() == len(want) and nx.is_directed(G), 'graph has another number of nodes')
    gnodes = list(nx.dfs_preorder_nodes(G, [n for n, d in G.in_degree() if d == 0][0]))
    if ctx.expect([id(G.nodes[n]['obj']) for n in gnodes] == [id(n) for n, _ in want], 'graph nodes are others, or in another order'):
        pos = {n: k for k, n in enumerate(gnodes)}
        par = [None] * len(gnodes)
        for a, b in G.edges:
            par[pos[b]] = pos[a]
        ctx.expect(par == [p for _, p in want], 'graph edges differ')
        for n, (node, _) in zip(gnodes, want):
            ctx.expect(G.nodes[n]['type'] == type(node).__name__, 'graph type')
            check_label(ctx, G.nodes[n]['label'], node, case['fields'])
    # ------ text
    lines = capture(root, case)
    try:
        items = decode(lines, False, True, words=False)
    except AssertionError as ex:
        ctx.expect(False, f'text can not be read {ex} {lines}')
        items = None
    if items is not None and ctx.expect(len(items) == len(want) and [p for _, p, _ in items] == [p for _, p in want],
                                        f'text shows another tree {lines}'):
        for (lab, _, _), (node, _) in zip(items, want):
            check_label(ctx, lab, node, case['fields'])
    # ------ repr
    for node, _ in want:
        try:
            shape = node.shape
        except Exception:
            continue
        if hasattr(node, 'dsize') and shape is not None:
            txt = repr(node)
            ctx.expect(type(node).__name__ in txt and str(shape) in txt, f'repr {txt} for shape {shape}')
            ctx.count('reprs')
    ctx.expect(util.snapdiff(snap, util.snapshot(root)) is None, 'a view changed the tree')


def capture(root, case):
    import contextlib
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        root.write_network_text(fields=case['fields'], rich=False, vertical_chains=case['vertical'])
    text = buf.getvalue()
    return text.split('\n')[:-1]


def check_label(ctx, label, node, fields):
    import kwimage
    ctx.count('labels')
    short = type(node).__name__.replace('Delayed', '')
    ctx.expect(label.split(' ')[0] == short, f'label {label!r} for a {short}')
    ds = node.meta.get('dsize')
    got = re.search(r'(?:^|[ ,])dsize=\(([^)]*\)?)', label)
    if ds is not None:
        nums = [int(x) for x in re.findall(r'\d+', re.sub(r'int(8|16|32|64)', '', label[got.start():].split('dsize=')[1]))[:2]] if got else None
        ctx.expect(nums == [int(v) for v in ds], f'label {label!r} for size {ds}')
    ch = node.meta.get('channels')
    if ch is not None:
        ctx.expect(('channels=' + str(ch.spec)) in label, f'label {label!r} without channels {ch.spec}')
    T = node.meta.get('transform')
    if T is not None:
        m = re.search(r'transform=\{(.*?)\}', label)
        if ctx.expect(m is not None, f'label {label!r} without transform'):
            d = {}
            for key, val in re.findall(r'(\w+)=(\([^)]*\)|[^,]*)', m.group(1)):
                val = [float(x) for x in re.findall(r'-?[\d.]+(?:e[-+]?\d+)?|nan', val)]
                d[key] = val[0] if len(val) == 1 else val
            A = mat(kwimage.Affine.affine(**d))
            M = mat(T)
            ctx.expect(np.allclose(A, M, atol=1e-3 * max(1, np.abs(M[:2, :2]).max()), rtol=1e-3), f'label {label!r} for transform {M.tolist()}')
    if fields == 'all' and 'interpolation' in node.meta:
        ctx.expect(('interpolation=' + str(node.meta['interpolation'])) in label, f'label {label!r} without options')
    if 'chan_idxs' in node.meta and node.meta['chan_idxs'] is not None:
        ctx.expect('chan_idxs=' in label, f'label {label!r} without bands')
