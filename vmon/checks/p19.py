"""
Sensor / channel specs keep their meaning through every rewriting.
"""
import contextlib
import io
import random

from vmon import imgref
from vmon.checks import p18

ID = 'P19'
TITLE = 'Sensor-channel specs denote the same sensor and channel pairs however written'
RULE = ('a random multiset of (sensor, channels) streams is written in a random factored spelling and sent through a '
        'random history of rewritings; the denoted multiset is compared each time; malformed specs must be rejected; '
        'distinct = distinct (text, history)')
QUICK, THOROUGH = 3000, 60000
REQUIRE = {'ops': 10000, 'factored': 800, 'match': 700, 'concise': 1400, 'rejected': 500, 'parts': 500, 'single': 500}
ASSUMPTIONS = ['names use the characters of the documented grammar']

SENSORS = ['S2', 'L8', 'WV', 'PD', '*', 'S-1', 'my sensor', 'L*']
BAD = ['S2:a|', '|a', 'S2:(a,b', 'a,,b', '(S2,L8)', 'S2:a)', 'a.b', 'a.', '(a', 'a|b,', 'S2:a:b', '1a', 'a||b', 'a;b', '(S2:a']


def gen(R, i, tier):
    if i == 0:
        return {'empty': 1}
    if i % 6 == 5:
        return {'bad': R.choice(BAD), 'pre': R.choice(['', '', 'S2:r|g,', '(L8,WV):(a,b),'])}
    items = []
    for _ in range(R.choice([1, 2, 3, 3, 4])):
        # factored groups: several sensors times several channels
        ss = R.sample(SENSORS, R.choice([1, 1, 2, 3]))
        cc = [p18.rand_tokens(R, R.choice([1, 1, 2, 3])) for _ in range(R.choice([1, 1, 2, 3]))]
        items.append({'s': ss, 'c': cc})
    if R.random() < .15:
        # a sensor without channels (a sensor with and without: known finding)
        used = {s for it in items for s in it['s']}
        items += [{'s': [s], 'c': [[]]} for s in SENSORS if s not in used][:1]
    return {'items': items, 'seed': R.randint(0, 10 ** 9)}


def fix(tok, R):
    """the sensor grammar has no steps"""
    if len(tok.replace('.', ':').split(':')) == 4:
        root = tok.replace('.', ':').split(':')[0]
        return f'{root}:{R.randint(1, 4)}'
    return tok


def write(items, R):
    parts = []
    for it in items:
        cs = ['|'.join(c) for c in it['c']]
        rhs = cs[0] if len(cs) == 1 and R.random() < .7 else f'({",".join(cs)})'
        if not cs[0]:
            rhs = ''
        if len(it['s']) == 1:
            lhs = f'{it["s"][0]}:' if R.random() < .8 else f'({it["s"][0]}):'
            # (the LALR grammar takes "(name," without a sensor for a sensor list)
            if it['s'] == ['*'] and rhs and (rhs[0] != '(' or '|' in cs[0]) and R.random() < .5:
                lhs = ''
        else:
            lhs = f'({",".join(it["s"])}):'
        parts.append(lhs + rhs)
    return ','.join(parts)


def meaning(spec):
    return [(s.sensor.spec, tuple(s.chans.normalize().parsed)) for s in spec.streams()]


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, ctx)


class Text(str):
    pass


def _run(case, ctx):
    from delayed_image import ChannelSpec, FusedChannelSpec, SensorChanSpec
    from delayed_image.sensorchan_spec import (FusedSensorChanSpec, concise_sensor_chan, normalize_sensor_chan, sensorchan_concise_parts,
                                               sensorchan_normalized_parts)
    ex = ctx.expect
    if 'empty' in case:
        text = SensorChanSpec.coerce('PD:a,PD:').concise().spec
        try:
            SensorChanSpec.coerce(text).normalize()
        except Exception:
            ctx.err(f"concise of 'PD:a,PD:' writes {text!r}, which is rejected when read")
        return
    if 'bad' in case:
        text = case['pre'] + case['bad']
        for f in ('normalize', 'concise', 'streams'):
            ok = False
            try:
                getattr(SensorChanSpec.coerce(text), f)()
            except Exception:
                ok = True
            ex(ok, f'{f} accepts malformed {text!r}')
            ctx.count('rejected')
        ctx.distinct('bad', text)
        return
    R = random.Random(case['seed'])
    items = [{'s': it['s'], 'c': [list(dict.fromkeys(fix(t, R) for t in c)) for c in it['c']]} for it in case['items']]
    text = write(items, R)
    ref = [(s, tuple(imgref._expand('|'.join(c)) if c else ())) for it in items for s in it['s'] for c in it['c']]
    S = SensorChanSpec.coerce(text)
    ctx.count('factored', any(len(it['s']) > 1 and len(it['c']) > 1 for it in items))
    key = sorted(set(ref))
    cur = S
    hist = [R.choice(['norm', 'norm', 'concise', 'concise', 'streams', 'split', 'match', 'sum', 'numel', 'coerce', 'json', 'chans', 'parts', 'single']) for _ in range(R.randint(3, 8))]
    exact = ref   # ordered, with repetitions, until condensed
    for h in hist:
        ctx.count('ops')
        if h == 'norm':
            N = cur.normalize()
            got = meaning(N)
            if exact is not None:
                ex(got == exact, f'normalize {cur.spec!r} -> {N.spec!r} means {got}, not {exact}')
            ex(sorted(set(got)) == key, f'normalize {cur.spec!r} -> {N.spec!r} changes the meaning')
            ex(N.normalize().spec == N.spec, f'normalizing twice {N.spec!r}')
            if R.random() < .5:
                cur = N
        elif h == 'concise':
            ctx.count('concise')
            C = cur.concise()
            got = meaning(C)
            ex(sorted(set(got)) == key, f'concise {cur.spec!r} -> {C.spec!r} means {sorted(set(got))}, not {key}')
            if R.random() < .5:
                cur, exact = C, None
        elif h == 'streams':
            got = meaning(cur)
            if exact is not None:
                ex(got == exact, f'streams of {cur.spec!r}: {got}, expected {exact}')
            for s in cur.streams():
                ex(meaning(SensorChanSpec.coerce(s.spec)) == meaning(s), f'stream {s.spec!r}')
        elif h == 'split':
            if any(not c for _, c in ref):
                continue
            got = meaning(cur.split())
            want = [(s, (n,)) for s, c in meaning(cur) for n in c]
            ex(got == want, f'split {cur.spec!r} -> {cur.split().spec!r}')
            ex({(s, n) for s, (n,) in got} == {(s, n) for s, c in ref for n in c}, 'split meaning')
        elif h == 'match':
            ctx.count('match')
            want_sensor = R.choice(['S2', 'L8', 'WV', 'nosuch', '*'])
            M = cur.matching_sensor(want_sensor)
            got = meaning(M)
            if want_sensor == '*':
                want = meaning(cur)
            else:
                want = [p for p in meaning(cur) if p[0] in (want_sensor, '*')] or [(want_sensor, ())]
            ex(got == want, f'matching {want_sensor} in {cur.spec!r}: {got}, expected {want}')
        elif h == 'sum':
            other = SensorChanSpec.coerce('X:new|k:2')
            got = meaning(cur + other)
            ex(got == meaning(cur) + [('X', ('new', 'k.0', 'k.1'))], f'{cur.spec!r} + {other.spec!r} = {(cur + other).spec!r}')
            ex(meaning(sum([cur, other])) == got, 'sum')
            ex(meaning(cur.late_fuse(other, other)) == got + got[-1:], 'late_fuse')
        elif h == 'numel':
            ex(cur.numel() == sum(len(c) for _, c in meaning(cur)), f'numel {cur.spec!r}: {cur.numel()}')
        elif h == 'coerce':
            ex(SensorChanSpec.coerce(cur) is cur and SensorChanSpec.coerce(cur.spec).spec == cur.spec, 'coerce')
            c = '|'.join(items[0]['c'][0]) or 'r'
            want = [('*', tuple(imgref._expand(c)))]
            for o in (c, ChannelSpec.coerce(c), FusedChannelSpec.coerce(c)):
                ex(meaning(SensorChanSpec.coerce(o)) == want, f'coerce {o!r}')
        elif h == 'parts':
            ctx.count('parts')
            parts = sensorchan_normalized_parts(cur.spec)
            got = [(p.sensor if isinstance(p.sensor, str) else p.sensor.spec, tuple(imgref._expand(p.chan.spec)) if p.chan.spec else ()) for p in parts]
            ex(got == meaning(cur), f'parts of {cur.spec!r}: {got}')
            ex(normalize_sensor_chan(cur.spec) == cur.normalize().spec == ','.join(p.spec for p in parts), f'normalize_sensor_chan of {cur.spec!r}')
            text2 = concise_sensor_chan(cur.spec)
            ex(text2 == cur.concise().spec == ','.join(map(str, sensorchan_concise_parts(cur.spec))), f'concise_sensor_chan of {cur.spec!r}')
            ex(SensorChanSpec.from_spec(cur.spec).spec == cur.spec and meaning(SensorChanSpec.from_spec(cur.spec)) == got, f'from_spec of {cur.spec!r}')
            ex(normalize_sensor_chan(Text(cur.spec)) == normalize_sensor_chan(cur.spec), 'string subclass')
        elif h == 'single':
            for s, want in list(zip(cur.streams(), meaning(cur)))[:4]:
                ctx.count('single')
                F = FusedSensorChanSpec.coerce(s.spec)
                for which, f in (('coerce', F), ('itself', FusedSensorChanSpec.coerce(F)), ('from_spec', FusedSensorChanSpec.from_spec(s.spec)), ('normalize', F.normalize()), ('concise', F.concise())):
                    got = (f.sensor.spec, tuple(f.chans.normalize().parsed))
                    ex(got == want, f'{which} of the stream {s.spec!r} is {f.spec!r}')
                    ex(f.numel() == len(want[1]) and FusedSensorChanSpec.coerce(f.spec).spec == f.spec == str(f) == f.__json__(), f'{which} of the stream {s.spec!r}: {f.spec!r} {f.numel()}')
                if want[1]:
                    ex(meaning(F.split()) == [(want[0], (c,)) for c in want[1]], f'split of {F.spec!r}')
            if len(meaning(cur)) > 1:
                bad = False
                try:
                    FusedSensorChanSpec.coerce(cur.spec)
                except ValueError:
                    bad = True
                ex(bad, f'{cur.spec!r} became a single stream')
        elif h == 'json':
            ex(cur.__json__() == cur.spec == str(cur), 'json')
        elif h == 'chans':
            ss = {s for s, _ in meaning(cur)}
            try:
                got = cur.chans
            except Exception:
                ex(len(ss) > 1, f'chans of {cur.spec!r} raises')
            else:
                ex(len(ss) == 1, f'chans of {cur.spec!r} mixes sensors')
                want = [c for _, c in meaning(cur) if c]
                if want:
                    ex([tuple(s.normalize().parsed) for s in got.streams() if s.numel()] == want, f'chans {got.spec}')
        ex(S.spec == text, 'modified')
    ctx.distinct(text, hist)
