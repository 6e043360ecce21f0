"""
Channel specs are an algebra over ordered lists of names.
"""
import copy
import pickle
import random
import zlib

import numpy as np

from vmon import imgref

ID = 'P18'
TITLE = 'Channel specs obey ordered-set algebra under every spelling'
RULE = ('random specs (names, aliases, ranges with steps, several streams) run a random history of operations; each '
        'result is compared with a list model of the expanded names, equal specs in other spellings must agree, and the '
        'operands must not change; distinct = distinct (spec, op history)')
QUICK, THOROUGH = 16000, 400000
REQUIRE = {'ops': 30000, 'concise': 3000, 'setops': 3000, 'multi': 1500, 'encode': 1500, 'indices': 1500, 'coerce': 1500, 'paths': 1500, 'ordered': 1000, 'copies': 1000}
ASSUMPTIONS = ['channel names are identifiers optionally followed by .N; duplicates only where stated']

ROOTS = ['a', 'b', 'red', 'nir', 'r', 'g', 'dx', 'm', 'k', 'k2', 'B_8', 'x-y', 'near ir']


def rand_tokens(R, n=None, unique=True):
    """tokens whose expansions do not overlap"""
    toks, used = [], set()
    for _ in range(n or R.choice([1, 1, 2, 3, 4, 6, 9])):
        t = R.random()
        root = R.choice(ROOTS)
        if t < .35:
            tok = root
        elif t < .5:
            tok = f'{root}.{R.randint(0, 12)}'
        elif t < .62:
            tok = f'{root}:{R.randint(1, 7)}'
        elif t < .75:
            a = R.randint(0, 6)
            tok = f'{root}.{a}:{a + R.randint(1, 6)}'
        elif t < .82:
            a = R.randint(0, 6)
            tok = f'{root}{R.choice(".:")}{a}:{a + R.randint(1, 9)}:{R.randint(1, 3)}'
        else:
            tok = R.choice(['rgb', 'rgba', 'dxdy', 'fxfy'])
        ex = imgref._expand(tok)
        if unique and (used & set(ex)):
            continue
        used.update(ex)
        toks.append(tok)
    if not toks:
        toks = ['solo']
    return toks


def respell(R, names):
    """another spelling of the same names"""
    out, i = [], 0
    while i < len(names):
        root, dot, num = names[i].partition('.')
        if dot and num.isdigit():
            j = i
            while j + 1 < len(names) and names[j + 1] == f'{root}.{int(num) + j + 1 - i}' and R.random() < .8:
                j += 1
            a, b = int(num), int(num) + j - i + 1
            if j > i or R.random() < .3:
                out.append(f'{root}.{a}:{b}' if a or R.random() < .5 else f'{root}:{b}')
                i = j + 1
                continue
        for al, ex in (('rgba', ['r', 'g', 'b', 'a']), ('rgb', ['r', 'g', 'b']), ('dxdy', ['dx', 'dy'])):
            if names[i:i + len(ex)] == ex and R.random() < .6:
                out.append(al)
                i += len(ex)
                break
        else:
            out.append(names[i])
            i += 1
    return out


KNOWN = ['late_fuse_str', 'component_slices', 'encode_legacy', 'pickle_used']


def known(case, ctx, R):
    """recorded defects, see known_findings.txt"""
    from delayed_image import ChannelSpec, FusedChannelSpec
    k = case['known']
    try:
        if k == 'late_fuse_str':
            text = "FusedChannelSpec('a|b') + 'c'"
            got = (FusedChannelSpec.coerce('a|b') + 'c').spec
            ok = got == 'a|b,c'
        elif k == 'component_slices':
            text = "component_indices of 'm:3|b'"
            got = FusedChannelSpec.coerce('m:3|b').component_indices(axis=0)
            ok = got == {'m:3': (slice(0, 3),), 'b': (slice(3, 4),)}
            got = {c: str(v) for c, v in got.items()}
        elif k == 'pickle_used':
            text = "pickling FusedChannelSpec('a|b') after as_list"
            spec = FusedChannelSpec.coerce('a|b')
            spec.as_list()
            got = pickle.loads(pickle.dumps(spec)).spec
            ok = got == 'a|b'
        else:
            text = "ChannelSpec('m:2').encode(mode=0)"
            got = ChannelSpec.coerce('m:2').encode({'m:2': np.zeros((2, 3))}, axis=0, mode=0)
            ok = got['m:2'].shape == (2, 3)
    except Exception as ex:
        ok, got = False, f'{type(ex).__name__}: {ex}'
    if not ok:
        ctx.err(f'{text} gives {got}')


def gen(R, i, tier):
    if i < len(KNOWN):
        return {'known': KNOWN[i], 'mode': 'known', 'seed': 0}
    case = {'seed': R.randint(0, 10 ** 9), 'mode': ['fused', 'fused', 'multi', 'encode'][i % 4]}
    case['a'] = rand_tokens(R)
    ra = imgref._expand('|'.join(case['a']))
    # b overlaps a
    pick = R.sample(ra, R.randint(0, len(ra)))
    b = []
    for n in pick + imgref._expand('|'.join(rand_tokens(R, R.randint(0, 3) or 1))):
        if n not in b:
            b.append(n)
    if R.random() < .15:
        b = list(ra)
    case['b'] = respell(R, b)
    streams = []
    used = set()
    for _ in range(R.choice([1, 2, 2, 3, 4])):
        toks = []
        for t in rand_tokens(R):
            ex = imgref._expand(t)
            if not (set(ex) & used):
                used.update(ex)
                toks.append(t)
        if toks:
            streams.append(toks)
    case['streams'] = streams or [['solo']]
    return case


def names_of(spec):
    """expanded names from the public view"""
    return list(spec.normalize().parsed)


def run(case, ctx):
    R = random.Random(case['seed'])
    {'known': known, 'fused': fused, 'multi': multi, 'encode': encode}[case['mode']](case, ctx, R)


def fused(case, ctx, R):
    from delayed_image import ChannelSpec, FusedChannelSpec
    sa, sb = '|'.join(case['a']), '|'.join(case['b'])
    A, B = FusedChannelSpec.coerce(sa), FusedChannelSpec.coerce(sb)
    ra, rb = imgref._expand(sa), imgref._expand(sb)
    before = (list(A.parsed), list(B.parsed))
    steps = ['norm', 'concise', 'setops', 'subset', 'sizes', 'get', 'indices', 'coerce', 'concat', 'contains', 'split', 'fuse', 'sets', 'respell', 'path', 'ordered', 'copy']
    hist = [R.choice(steps) for _ in range(R.randint(3, 8))]
    ex = ctx.expect
    for h in hist:
        ctx.count('ops')
        if h == 'norm':
            N = A.normalize()
            ex(names_of(A) == ra, f'{sa} expands to {names_of(A)}')
            ex(N.normalize() == N and N.spec == '|'.join(ra), f'normalizing {sa} twice')
            ex(A.as_list() == ra, f'as_list {A.as_list()}')
        elif h == 'copy':
            ctx.count('copies')
            fresh = FusedChannelSpec(list(case['a']))
            for how, D in (('copy', copy.copy(A)), ('deepcopy', copy.deepcopy(A)), ('pickled', pickle.loads(pickle.dumps(fresh)))):
                ex(type(D) is type(A) and D == A and names_of(D) == ra and D.spec == A.spec,
                   f'{how} of {sa} is {D!r}')
        elif h == 'concise':
            C = A.concise()
            ctx.count('concise')
            ex(names_of(C) == ra, f'concise {sa} = {C.spec} means {names_of(C)}, not {ra}')
            ex(C.concise().spec == C.spec, f'concise of {C.spec} is {C.concise().spec}')
            ex(names_of(FusedChannelSpec.coerce(C.spec)) == ra, f'{C.spec} parses to something else')
            ex(len(C.parsed) <= len(ra), 'concise is longer')
            for names in (rb, ra + R.sample(ra, R.randint(0, len(ra))), R.sample(ra, len(ra))):
                # any order, also with repetitions
                D = FusedChannelSpec.coerce('|'.join(respell(R, names)))
                ex(names_of(D) == names and D.numel() == len(names), f'{D.spec} means {names_of(D)} not {names}')
                ex(names_of(D.concise()) == names, f'concise {D.spec} = {D.concise().spec} means {names_of(D.concise())}')
            other = FusedChannelSpec.coerce('|'.join(respell(R, ra)))
            ex(other.concise().spec == C.spec, f'spellings {other.spec} and {sa} condense to {other.concise().spec} and {C.spec}')
        elif h == 'setops':
            ctx.count('setops')
            # another spelling must not matter
            X = FusedChannelSpec.coerce('|'.join(respell(R, ra)))
            ex(names_of(X.union(B)) == ra + [n for n in rb if n not in ra], f'{X.spec} union {sb} = {X.union(B).spec}')
            ex(names_of(X.intersection(B)) == [n for n in ra if n in rb], f'{X.spec} intersection {sb} = {X.intersection(B).spec}')
            ex(names_of(X.difference(B)) == [n for n in ra if n not in rb], f'{X.spec} difference {sb} = {X.difference(B).spec}')
            ex(names_of(X & B) == names_of(X.intersection(B)), 'operator &')
            ex(names_of(X | B) == names_of(X.union(B)), 'operator |')
            ex(names_of(X - B) == names_of(X.difference(B)), 'operator -')
            ex(names_of(X - set(rb)) == names_of(X.difference(B)), 'difference with a set of names')
        elif h == 'subset':
            ex(A.issubset(B) == (set(ra) <= set(rb)), f'{sa} issubset {sb}: {A.issubset(B)}')
            ex(A.issuperset(B) == (set(ra) >= set(rb)), f'{sa} issuperset {sb}: {A.issuperset(B)}')
            X = A.intersection(B)
            ex(X.issubset(A) and X.issubset(B), 'intersection is a subset')
            ex(A.union(B).issuperset(A) and A.union(B).issuperset(B), 'union is a superset')
        elif h == 'sizes':
            ex(A.numel() == len(ra), f'numel of {sa} is {A.numel()}')
            ex(A.sizes() == [len(imgref._expand(t)) for t in case['a']], f'sizes of {sa}: {A.sizes()}')
            ex(sum(A.concise().sizes()) == len(ra), 'sizes of concise')
        elif h == 'get':
            i = R.randrange(-len(ra), len(ra))
            ex(A[i] == ra[i], f'{sa}[{i}] = {A[i]}')
            a, b = sorted([R.randint(0, len(ra)), R.randint(0, len(ra))])
            ex(names_of(A[a:b]) == ra[a:b], f'{sa}[{a}:{b}] = {A[a:b].spec}')
            idx = [R.randrange(len(ra)) for _ in range(R.randint(1, 4))]
            ex(names_of(A[idx]) == [ra[k] for k in idx], f'{sa}[{idx}]')
        elif h == 'indices':
            ctx.count('indices')
            arr = np.array(ra)
            # (slices: known finding)
            for axis in ((0, 2) if ':' not in sa else ()):
                ci = A.component_indices(axis=axis)
                for tok in case['a']:
                    data = arr.reshape((-1,) if axis == 0 else (1, 1, -1))
                    got = data[ci[tok]].ravel().tolist()
                    ex(got == imgref._expand(tok), f'component {tok} of {sa} is {got}')
        elif h == 'coerce':
            ctx.count('coerce')
            ex(FusedChannelSpec.coerce(A) is A, 'coerce of a spec is itself')
            ex(FusedChannelSpec.coerce(list(case['a'])) == A, 'coerce of a list')
            ex(FusedChannelSpec.coerce(ChannelSpec.coerce(sa)) == A, 'coerce of a single stream spec')
            ex(FusedChannelSpec.coerce(A.spec) == A and A.spec == sa, 'round trip of the string')
            n = R.randint(0, 9)
            ex(FusedChannelSpec.coerce(n).numel() == n and len(set(names_of(FusedChannelSpec.coerce(n)))) == n, f'coerce of {n}')
            bad = False
            try:
                FusedChannelSpec.coerce(ChannelSpec.coerce('one|two,three'))
            except ValueError:
                bad = True
            ex(bad, 'two streams became one')
        elif h == 'concat':
            C = FusedChannelSpec.concat([A, B, A])
            ex(names_of(C) == ra + rb + ra, f'concat {C.spec}')
        elif h == 'contains':
            for n in case['a']:
                ex(n in A, f'{n} in {sa}')
            ex(('absent' in A) is False, 'absent')
            N = A.normalize()
            ex(all((n in N) == (n in ra) for n in ra + rb), 'in normalized')
        elif h == 'split':
            ex([s.spec for s in A.split().streams()] == ra, f'split {A.split().spec}')
        elif h == 'fuse':
            ex(A.fuse().spec == A.spec and [s.spec for s in A.streams()] == [A.spec], 'fuse')
            L = A.late_fuse(B)
            ex([names_of(s) for s in L.streams()] == [ra, rb], f'late fuse {L.spec}')
            ex((A + B).spec == L.spec and sum([A, B]).spec == L.spec, 'sum of specs')
        elif h == 'sets':
            ex(list(A.as_oset()) == list(dict.fromkeys(ra)), 'as_oset')
            ex(A.as_set() == set(ra), 'as_set')
        elif h == 'path':
            path(ctx, A, sa, len(ra))
            ex(list(A.code_list()) == case['a'], f'code_list of {sa}')
            n = R.randint(1, 300)
            big = FusedChannelSpec.coerce(f'{sa}|big.0:{n}').normalize()
            p = path(ctx, big, big.spec, len(ra) + n)
            ex(p != FusedChannelSpec.coerce(f'{sa}|big.0:{n + 1}').normalize().as_path(), f'{n} and {n + 1} channels share a path')
        elif h == 'ordered':
            ordered(ctx, R, ra, rb)
        elif h == 'respell':
            X = FusedChannelSpec.coerce('|'.join(respell(R, ra)))
            ex(X.normalize() == A.normalize() and not (X.normalize() != A.normalize()), 'equal after normalizing')
            ex((A == B) == (list(A.parsed) == list(B.parsed)), 'equality')
        ex((list(A.parsed), list(B.parsed)) == before and A.spec == sa and B.spec == sb, f'{h} modified its operands {sa} {sb}')
        ex(FusedChannelSpec.coerce(sa).parsed == before[0], f'{h} modified what {sa} means')
    ctx.distinct(sa, sb, hist)


def path(ctx, spec, text, numel):
    """a name of a file that stands for the spec"""
    ctx.count('paths')
    p = spec.as_path()
    ctx.expect(p == spec.path_sanitize() == type(spec).coerce(spec.spec).as_path(), f'paths of {text:.80} differ')
    ctx.expect(0 < len(p) <= 128 and not set(p) & set('|<>:?*/'), f'path of {text:.80} is {p}')
    ctx.expect(p[-1] not in '. ', f'path of {text:.80} ends in {p[-1]!r}')
    if len(text) < 60:
        ctx.expect(p == text.replace('|', '_').replace(':', '..'), f'path of {text} is {p}')
    elif len(p) < len(text) - 30:
        ctx.expect(p.endswith(f'_{numel}'), f'path of {text:.80} is {p}')
    return p


def ordered(ctx, R, ra, rb):
    """ordered sets as channel lists: find, insert, delete"""
    import ubelt as ub
    from delayed_image.channel_spec import oset_delitem, oset_insert, subsequence_index
    ctx.count('ordered')
    full = list(dict.fromkeys(ra + rb))
    i = R.randint(0, len(full))
    j = R.randint(i, len(full))
    for part in (full[i:j], full[i:j][::-1], R.sample(full, j - i), full[i:j] + ['absent'], ['absent'], full[i:j:2]):
        got = subsequence_index(ub.oset(full), ub.oset(part))
        at = [k for k in range(len(full) - len(part) + 1) if full[k:k + len(part)] == part]
        if not at:
            ctx.expect(got is None, f'{part} found in {full} at {got}')
        elif part:
            ctx.expect(got == slice(at[0], at[0] + len(part)), f'{part} in {full} found at {got}')
    want, o = list(full), ub.oset(full)
    for k in range(R.randint(1, 6)):
        n = len(want)
        t = R.random()
        if t < .5 or not n:
            x, at = R.choice([f'new{k}'] + full), R.randint(0, n)
            oset_insert(o, at, x)
            if x not in want:
                want.insert(at, x)
            did = f'insert {x} at {at}'
        elif t < .7:
            at = R.randrange(n)
            oset_delitem(o, at)
            del want[at]
            did = f'delete {at}'
        elif t < .9:
            at = slice(R.choice([None, R.randint(0, n)]), R.choice([None, R.randint(0, n), -1]), R.choice([None, 1, 2]))
            oset_delitem(o, at)
            del want[at]
            did = f'delete {at}'
        else:
            at = R.sample(range(n), R.randint(1, n))
            oset_delitem(o, at)
            want = [x for q, x in enumerate(want) if q not in at]
            did = f'delete {at}'
        ctx.expect(list(o) == want and [o.index(x) for x in want] == list(range(len(want))) and all((x in o) == (x in want) for x in full), f'{did} gives {list(o)} expected {want}')


def multi(case, ctx, R):
    from delayed_image import ChannelSpec, FusedChannelSpec
    ctx.count('multi')
    text = ','.join('|'.join(s) for s in case['streams'])
    S = ChannelSpec.coerce(text)
    ref = [imgref._expand('|'.join(s)) for s in case['streams']]
    flat = [n for r in ref for n in r]
    sb = '|'.join(case['b'])
    rb = imgref._expand(sb)
    ex = ctx.expect

    def streams(x):
        return [names_of(s) for s in x.streams()]
    hist = [R.choice(['norm', 'concise', 'setops', 'fuse', 'split', 'size', 'unique', 'add', 'indices', 'path', 'copy']) for _ in range(R.randint(3, 7))]
    for h in hist:
        ctx.count('ops')
        if h == 'norm':
            ex(streams(S) == ref, f'streams of {text}: {streams(S)}')
            ex(streams(S.normalize()) == ref and S.normalize().spec == ','.join('|'.join(r) for r in ref), f'normalize {S.normalize().spec}')
            ex([names_of(v) for v in S.values()] == ref, 'values')
            ex(list(S.keys()) == text.split(','), 'keys')
        elif h == 'copy':
            ctx.count('copies')
            for how, D in (('copy', copy.copy(S)), ('deepcopy', copy.deepcopy(S)), ('pickled', pickle.loads(pickle.dumps(S)))):
                ex(type(D) is type(S) and streams(D) == ref and D.spec == S.spec, f'{how} of {text} is {D!r}')
        elif h == 'concise':
            ctx.count('concise')
            C = S.concise()
            ex(streams(C) == ref, f'concise {text} -> {C.spec}')
            ex(C.concise().spec == C.spec, 'concise twice')
            ex(streams(ChannelSpec.coerce(C.spec)) == ref, 'concise round trip')
        elif h == 'setops':
            ctx.count('setops')
            for other in (sb, FusedChannelSpec.coerce(sb), ChannelSpec.coerce(sb)):
                inter = [[n for n in r if n in rb] for r in ref]
                diff = [[n for n in r if n not in rb] for r in ref]
                got = S.intersection(other)
                ex(streams(got) == ([r for r in inter if r] or [[]]), f'{text} intersection {sb} = {got.spec}')
                got = S.difference(other)
                ex(streams(got) == ([r for r in diff if r] or [[]]), f'{text} difference {sb} = {got.spec}')
                got = S.union(other)
                ex(streams(got) == ref + [rb], f'{text} union {sb} = {got.spec}')
        elif h == 'fuse':
            ex(names_of(S.fuse()) == flat, f'fuse {text}: {S.fuse().spec}')
        elif h == 'split':
            ex([s.spec for s in S.split().streams()] == flat, f'split {S.split().spec}')
        elif h == 'size':
            ex(S.numel() == len(flat), f'numel {text}: {S.numel()}')
            ex(list(S.sizes().values()) == [len(r) for r in ref], f'sizes {S.sizes()}')
        elif h == 'unique':
            ex(S.unique() == set(flat), f'unique {S.unique()}')
            ex(flat[0] in S and 'absent' not in S, 'contains')
        elif h == 'path':
            path(ctx, S, text, len(flat))
            info = S.info
            ex(info['unique'] == set(flat) and streams(info['normed']) == ref, f'info of {text}: {info}')
            ex(streams(ChannelSpec.from_spec(text)) == ref and streams(ChannelSpec.from_int(3)) == [names_of(FusedChannelSpec.coerce(3))], 'other constructors')
            if len(ref) == 1:
                ex(list(getattr(S.code_list(), 'parsed', S.code_list())) == case['streams'][0], f'code_list of {text}: {S.code_list()}')
        elif h == 'add':
            B = ChannelSpec.coerce(sb)
            ex(streams(S + B) == ref + [rb] and streams(sum([S, B])) == ref + [rb], f'sum {(S + B).spec}')
            ex(streams(S.late_fuse(ChannelSpec.coerce(''))) == ref, 'sum with nothing')
        elif h == 'indices':
            ctx.count('indices')
            for tok, (key, sl) in S.component_indices(axis=0).items():
                r = np.array(imgref._expand(key))
                ex(r[sl].tolist() == imgref._expand(tok), f'component {tok} of {key}: {r[sl].tolist()}')
        ex(S.spec == text and streams(S) == ref, f'{h} modified {text}')
    ctx.distinct(text, sb, hist)


def encode(case, ctx, R):
    """encode / decode move whole components between layouts"""
    from delayed_image import ChannelSpec
    ctx.count('encode')
    ex = ctx.expect
    toks = [t for s in case['streams'] for t in s]
    sizes = {t: len(imgref._expand(t)) for t in toks}
    axis = R.choice([0, 0, 1])

    def data(tok):
        a = np.array([zlib.crc32(n.encode()) for n in imgref._expand(tok)], dtype=float)
        return np.broadcast_to(a[:, None] if axis == 0 else a[None], (sizes[tok], 3) if axis == 0 else (3, sizes[tok])).copy()
    # the item groups the components in its own way
    order = list(toks)
    R.shuffle(order)
    item, pos = {}, 0
    while pos < len(order):
        k = R.randint(1, 3)
        grp = order[pos:pos + k]
        pos += k
        item['|'.join(grp)] = np.concatenate([data(t) for t in grp], axis=axis)
    keep = {k: v.copy() for k, v in item.items()}
    # the spec asks for some of them, grouped in another way
    want = R.sample(toks, R.randint(1, len(toks)))
    streams, pos = [], 0
    while pos < len(want):
        k = R.randint(1, 4)
        streams.append(want[pos:pos + k])
        pos += k
    text = ','.join('|'.join(s) for s in streams)
    S = ChannelSpec.coerce(text)
    # (legacy mode with coded channels: known finding)
    for mode in ((1, 0) if all(imgref._expand(t) == [t] for t in toks) else (1,)):
        out = S.encode(item, axis=axis, mode=mode)
        ctx.count('ops')
        ex(set(out) == set('|'.join(s) for s in streams), f'encoded keys {list(out)}')
        for s in streams:
            ref = np.concatenate([data(t) for t in s], axis=axis)
            got = out['|'.join(s)]
            ex(got.shape == ref.shape and (got == ref).all(), f'mode {mode} {"|".join(s)} of {text} from {list(item)} wrong')
        dec = S.decode(out, axis=axis)
        for t in want:
            ex(np.array_equal(dec[t], data(t)), f'decoded {t} of {text} wrong')
    ex(all(np.array_equal(item[k], keep[k]) for k in keep), 'encode modified its input')
    ctx.distinct(text, sorted(item), axis)
