"""C24: classification of texts and substitution of environment variables."""
import itertools
import os
import re
import shutil
import tempfile
import z3
from pydv import contract as C, strings as G

UTILS = 'metcalcpy.util.utils'
READ = 'metcalcpy.util.read_env_vars_in_config'
D = G.DIGIT


def integer(s):
    return re.fullmatch(r'[+-]?\d+', s) is not None


def fraction(s):
    return re.fullmatch(r'-?(\d+\.\d*|\.\d+)', s) is not None


class Classify(C.Contract):
    prop = 'C24'
    quick_cases, thorough_cases = 6000, 60000
    budget = 60
    known_texts = ['', '-', '.', '-.', '1', '-1', '+1', '0', '007', '1.5', '-1.5', '.5', '5.', '-.5', '-5.', '--1', '--1.5', '1.5.', '1..5', '.1.5', '1-5', '1.-5', 'True', 'False', 'true',
                   'TRUE', 'Tru', 'Truee', 'NA', 'nan', 'inf', '1e5', '1.5e3', '+1.5', '+.5', '-+1.5', '٣', '٣.٥', '١٢', '1,5', '0x1', '0.0', '-0', '-0.0', '9' * 40, '1.' + '9' * 40,
                   '²', '1.²', '12.5.', 'a.b', '1.a', 'a1', '1a', 'true ', 'None', '½', '1.½', '३', '-३.३']
    alphabet = '01-+.aTe'

    def __init__(self, fn):
        self.fn = fn
        self.name = fn.replace('_', ' ')
        self.functions = [UTILS + ':' + fn]

    def spec(self, s):
        if self.fn == 'parse_bool':
            return {'True': True, 'False': False}.get(s, s)
        if s is None:
            return False
        return integer(s) if self.fn == 'is_string_integer' else fraction(s)

    def zspec(self, z):
        if self.fn == 'parse_bool':
            t, f = z == z3.StringVal('True'), z == z3.StringVal('False')
            return [(t, True), (f, False), (z3.And(z3.Not(t), z3.Not(f)), 'same')]
        if self.fn == 'is_string_integer':
            c = z3.InRe(z, z3.Concat(G.SIGN, z3.Plus(D)))
        else:
            c = z3.InRe(z, z3.Concat(z3.Option(z3.Re('-')), z3.Union(z3.Concat(z3.Plus(D), z3.Re('.'), z3.Star(D)), z3.Concat(z3.Re('.'), z3.Plus(D)))))
        return [(c, True), (z3.Not(c), False)]

    def assume(self, z):
        # blanks around and underscores inside a number are left open; the interpreter limits the digits of an integer
        if self.fn == 'is_string_integer':
            return z3.And(z3.InRe(z, z3.Star(z3.Union(z3.Range('!', '^'), z3.Range('`', '~')))), z3.Length(z) < 4300)
        return z3.BoolVal(True)

    def prove(self):
        mod = G.load(UTILS)
        return G.prove(self.name, getattr(mod, self.fn), self.zspec, self.budget, assume=self.assume)

    def concretise(self, env, benv, extra):
        yield {'text': env['text']}

    def cases(self, rng, n):
        yield {'text': None}
        for s in self.known_texts:
            yield {'text': s}
        k = 0
        for size in range(1, 5):
            for t in itertools.product(self.alphabet, repeat=size):
                yield {'text': ''.join(t)}
                k += 1
        while k < n:
            k += 1
            yield {'text': ''.join(rng.choice(self.alphabet) for _ in range(rng.randint(5, 12)))}

    def judge(self, case):
        s = case['text']
        got = getattr(C.real(UTILS), self.fn)
        try:
            got = got(s)
        except Exception as e:
            return '%s(%r) raises %s: %s' % (self.fn, s, type(e).__name__, e)
        want = self.spec(s)
        if type(got) is not type(want) or got != want:
            return '%s(%r) is %r, specified %r' % (self.fn, s, got, want)
        return None


class Config(C.Contract):
    """A YAML text whose expected content is known by construction."""
    prop = 'C24'
    name = 'substitution of environment variables'
    functions = [READ + ':parse_config']
    proof = False
    quick_cases, thorough_cases = 600, 6000
    names = ['VERIF_A', 'VERIF_B', 'VERIF_C', 'VERIF_A1', 'VERIF_AB', 'verif_low', 'VERIF_UNSET', 'VERIF_NONE2']
    pieces = ['abc', '/var/', 'x', '_', '-', '.nc', ' and ', '$', '{', '}', '$VERIF_A', '12', '${', 'VERIF_A', '\\1', '$$']

    def text(self, rng, quoted):
        parts = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.55:
                parts.append(['var', rng.choice(self.names)])
            else:
                parts.append(['lit', rng.choice(self.pieces[:7] if not quoted else self.pieces)])
        if not quoted and parts[0][0] == 'lit':
            parts.insert(0, ['lit', 'a'])
        if parts[-1] == ['lit', ' and ']:
            parts.append(['lit', 'z'])
        return parts

    def cases(self, rng, n):
        for i in range(n):
            env = {m: rng.choice(['one', '', 'a b', '/tmp/x', '3', 'true', '${VERIF_B}', '${VERIF_UNSET}', 'VERIF_A', '\\g<0>', '\\1', '${VERIF_A}', "it's"]) for m in self.names[:6] if rng.random() < 0.8}
            items = []
            for k in range(rng.randint(1, 6)):
                kind = rng.choice(['plain', 'plain', 'tagged', 'tagged', 'number', 'word', 'flag', 'quoted'])
                v = {'plain': lambda: self.text(rng, False), 'tagged': lambda: self.text(rng, True), 'number': lambda: rng.choice([3, -7, 2.5]), 'word': lambda: rng.choice(['abc', 'a b', 'VERIF_A']),
                     'flag': lambda: rng.choice([True, False, None]), 'quoted': lambda: self.text(rng, True)}[kind]()
                items.append([kind, v])
            yield {'env': env, 'items': items, 'layout': rng.choice(['map', 'list', 'nested']), 'source': rng.choice(['data', 'path'])}
        yield {'env': {}, 'items': [], 'layout': 'none', 'source': 'none'}

    def write(self, kind, v):
        if kind in ('plain', 'tagged', 'quoted'):
            s = ''.join('${%s}' % p if t == 'var' else p for t, p in v)
            if kind == 'plain':
                return s
            return ('!ENV ' if kind == 'tagged' else '') + "'" + s.replace("'", "''") + "'"
        return {True: 'true', False: 'false', None: 'null'}[v] if kind == 'flag' else str(v)

    def expect(self, kind, v, env):
        if kind == 'quoted':
            return ''.join('${%s}' % p if t == 'var' else p for t, p in v)
        if kind == 'tagged':
            # pieces may form further references
            s = ''.join('${%s}' % p if t == 'var' else p for t, p in v)
            return self.substitute(s, env)
        if kind == 'plain':
            return ''.join(env.get(p, p) if t == 'var' else p for t, p in v)
        return v

    def substitute(self, s, env):
        out, i = '', 0
        while i < len(s):
            if s[i] == '$' and i + 1 < len(s) and s[i + 1] == '{':
                j = i + 2
                while j < len(s) and (s[j].isalnum() or s[j] == '_'):
                    j += 1
                if j > i + 2 and j < len(s) and s[j] == '}':
                    name = s[i + 2:j]
                    out += env.get(name, name)
                    i = j + 1
                    continue
            out += s[i]
            i += 1
        return out

    def judge(self, case):
        mod = C.real(READ)
        if case['source'] == 'none':
            try:
                mod.parse_config()
            except ValueError:
                return None
            return 'nothing to read is accepted'
        env, items = case['env'], case['items']
        vals = [self.write(*i) for i in items]
        want = [self.expect(k, v, env) for k, v in items]
        for (k, v), w in zip(items, want):
            if k == 'plain' and not any(t == 'var' for t, _ in v):
                raise C.SkipCase('no reference')
        if case['layout'] == 'list':
            text, want = ''.join('- %s\n' % v for v in vals), want
        elif case['layout'] == 'map':
            text, want = ''.join('key%d: %s\n' % (i, v) for i, v in enumerate(vals)), {'key%d' % i: w for i, w in enumerate(want)}
        else:
            text = 'top:\n  inner:\n' + ''.join('    - %s\n' % v for v in vals) + '  first: %s\n' % vals[0]
            want = {'top': {'inner': want, 'first': want[0]}}
        old = {m: os.environ.get(m) for m in self.names}
        d = None
        try:
            for m in self.names:
                os.environ.pop(m, None)
            os.environ.update(env)
            if case['source'] == 'path':
                d = tempfile.mkdtemp(prefix='verif-c24-')
                p = os.path.join(d, 'conf.yaml')
                with open(p, 'w') as f:
                    f.write(text)
                got = mod.parse_config(path=p)
            else:
                got = mod.parse_config(data=text)
        except Exception as e:
            return 'raises %s: %s for %r' % (type(e).__name__, e, text)
        finally:
            for m, v in old.items():
                if v is None:
                    os.environ.pop(m, None)
                else:
                    os.environ[m] = v
            if d:
                shutil.rmtree(d)
        if got != want or repr(got) != repr(want):
            return 'reading %r with %r gives %r, specified %r' % (text, env, got, want)
        return None


def contracts(prop):
    return [Classify('is_string_integer'), Classify('is_string_strictly_float'), Classify('parse_bool'), Config()]


def preload(prop):
    for m in (UTILS, READ):
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': 'configurations of at most six values with at most six references or pieces each; texts of at most four characters of eight exhaustively, twelve at random',
            'assumptions': ['classification is proved for ASCII texts of any length; other characters at run time', 'int() reads an optional sign and digits (its blanks and underscores are left open)',
                            'YAML is read by the yaml library; substitution is a bounded run-time check']}
