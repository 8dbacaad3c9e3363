"""C25: the validation tool - which files it tests, which files it deletes.

Selection is proved with symbolic days (the operating system and the calendar are stand-ins of the
executed source).  Everything that really deletes files runs in a child process of an unprivileged
user inside a scratch directory, and the directory trees before and after are compared."""
import datetime
import json
import os
import posixpath
import shutil
import tempfile
import types
from pydv import contract as C, world as W
from pydv.loader import Loader
from pydv.values import SReal
from . import shape as H
from .shape import X

VALID = 'metcalcpy.validate_mv_python'
IMAGES = 'metcalcpy.compare_images'
NOBODY = 65534
KEYS = ['output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir']


# -- stand-ins of the deductive side -----------------------------------------------------------
def unsupported(what):
    def f(*_a, **_k):
        raise W.Unsupported(what)
    return f


class Day:
    """A calendar day: its number is symbolic."""
    def __init__(self, n):
        self.n = n

    def _o(self, o):
        if not isinstance(o, Day):
            raise W.Unsupported('comparison of a day with something else')
        return o.n

    def __lt__(self, o): return self.n < self._o(o)
    def __le__(self, o): return self.n <= self._o(o)
    def __gt__(self, o): return self.n > self._o(o)
    def __ge__(self, o): return self.n >= self._o(o)
    def __eq__(self, o): return self.n == self._o(o)
    def __ne__(self, o): return self.n != self._o(o)
    __hash__ = None

    def __sub__(self, d):
        if isinstance(d, datetime.timedelta) and not d.seconds and not d.microseconds:
            return type(self)(self.n - d.days)
        raise W.Unsupported('day arithmetic')

    def __add__(self, d):
        return self - (-d)

    def __str__(self):
        return '<day>'
    __repr__ = __str__

    def __format__(self, f):
        return '<day>'

    def __getattr__(self, name):
        raise W.Unsupported('day.%s' % name)


class Moment(Day):
    """A moment: only its day is represented."""
    def date(self):
        return Day(self.n)

    def _o(self, o):
        raise W.Unsupported('comparison of moments')


class Stamp:
    def __init__(self, n):
        self.n = n

    def __getattr__(self, name):
        raise W.Unsupported('modification time .%s' % name)


class Store:
    """Directory content and calendar of the current symbolic run."""
    now = None
    texts = {}
    times = {}
    deleted = []


def day_of(text):
    if text in Store.texts:
        return Store.texts[text]
    raise W.Unsupported('date %r' % (text,))


class DateTime:
    @staticmethod
    def strptime(text, fmt):
        if fmt != '%Y-%m-%d':
            raise W.Unsupported('date format')
        return Moment(day_of(text))

    @staticmethod
    def now(tz=None):
        if tz is not None:
            raise W.Unsupported('time zones')
        return Moment(Store.now)
    today = now

    @staticmethod
    def fromtimestamp(s, tz=None):
        if tz is not None or not isinstance(s, Stamp):
            raise W.Unsupported('time stamps')
        return Moment(s.n)

    @staticmethod
    def fromisoformat(text):
        return Moment(day_of(text))


class Date:
    @staticmethod
    def today():
        return Day(Store.now)

    @staticmethod
    def fromtimestamp(s):
        return DateTime.fromtimestamp(s).date()

    @staticmethod
    def fromisoformat(text):
        return Day(day_of(text))


def loader():
    calendar = types.ModuleType('datetime')
    calendar.datetime, calendar.date, calendar.timedelta = DateTime, Date, datetime.timedelta
    calendar.__getattr__ = unsupported('calendar')
    path = types.ModuleType('os.path')
    for n in ('join', 'basename', 'dirname', 'splitext', 'split', 'sep'):
        setattr(path, n, getattr(posixpath, n))
    path.getmtime = lambda p: Stamp(Store.times[posixpath.normpath(p)])
    path.isfile = path.exists = lambda p: posixpath.normpath(p) in Store.times
    path.isdir = lambda p: posixpath.normpath(p) == '/in'
    path.__getattr__ = unsupported('os.path')
    system = types.ModuleType('os')
    system.path, system.sep = path, '/'

    def listing(d):
        if posixpath.normpath(d) != '/in':
            raise W.Unsupported('listing of another directory')
        return [posixpath.basename(p) for p in Store.times]
    system.listdir = listing
    system.__getattr__ = unsupported('os')
    stub = {'os': system, 'os.path': path, 'datetime': calendar}
    for n in ('glob', 'subprocess', 'xml', 'xml.dom', 'xml.dom.minidom', 'shutil', 'pathlib', 'yaml'):
        m = types.ModuleType(n)
        m.__getattr__ = unsupported(n)
        stub[n] = m
    stub['pathlib'].Path = unsupported('pathlib')
    ld = Loader(C.REPO, extra_models=stub)
    images = types.ModuleType(IMAGES)
    images.CompareImages = unsupported('images')
    ld.mods[IMAGES] = images
    return ld


# -- the real code, where it can reach nothing but its own scratch files ------------------------
def confined(work):
    """work(directory) in a child of an unprivileged user; its JSON result."""
    C.real(VALID)
    d = tempfile.mkdtemp(prefix='verif-c25-')
    os.chmod(d, 0o755)
    box = os.path.join(d, 'box')
    os.mkdir(box)
    root = os.geteuid() == 0
    if root:
        os.chown(box, NOBODY, NOBODY)
    r, wr = os.pipe()
    try:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                import signal
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                if root:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                    if os.geteuid() == 0:
                        os._exit(3)
                os.chdir(box)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                import sys
                sys.stdout = sys.stderr = open(os.devnull, 'w')
                res = work(box)
                data = json.dumps(res).encode()
                while data:
                    data = data[os.write(wr, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        wr = None
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError('the confined run ended with status %s' % status)
        return json.loads(data)
    finally:
        os.close(r)
        if wr is not None:
            os.close(wr)
        shutil.rmtree(d)


def tree(top):
    out = {}
    for p, _ds, fs in os.walk(top):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as h:
                out[os.path.relpath(q, top)] = h.read().hex()
    return out


def write(path, data=b'x'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def today():
    return datetime.date.today().toordinal()


def text_of(n):
    return datetime.date.fromordinal(int(n)).isoformat()


class Dated(H.Shape):
    """Arguments: presence of the two dates, their form, days of start, end and now, (name, day) of each file."""
    prop = 'C25'
    module = VALID
    frame = False
    tol = 0
    budget = 60

    def day(self):
        return X(700000, 760000, kind='int')

    def prove(self):
        old = C._loader
        C._loader = loader()
        try:
            return super().prove()
        finally:
            C._loader = old

    def concretise(self, env, benv, extra):
        for c in super().concretise(env, benv, extra):
            a = c['args']
            shift = today() - a[5]
            for i in (3, 4, 5):
                a[i] += shift
            a[6] = [{'__tuple__': [n['__tuple__'][0], n['__tuple__'][1] + shift]} for n in a[6]]
            yield c

    def value(self, rng, leaf):
        return today() + rng.choice([-3, -2, -1, -1, 0, 0, 0, 1, 2, 400])

    def cases(self, rng, n):
        for c in super().cases(rng, n):
            c['args'][5] = today()
            yield c

    def period(self, hs, he, s, e, now):
        start = s if hs else now - 1
        end = e if he else now
        if end < start:
            raise H.Raises(KeyError)
        return start, end

    def params(self, args, token):
        hs, he, form, s, e = args[:5]
        p = {}
        if hs:
            p['start_date'] = 'start' if token else text_of(s) if form == 'text' else datetime.date.fromordinal(int(s))
        if he:
            p['end_date'] = 'end' if token else text_of(e) if form == 'text' else datetime.date.fromordinal(int(e))
        return p

    def judge(self, case):
        if today() != int(case['args'][5]):
            raise C.SkipCase('another day')
        why = super().judge(case)
        if today() != int(case['args'][5]):
            raise C.SkipCase('another day')
        return why


class Period(Dated):
    name = 'requested period'
    fn = 'get_testing_period'
    functions = [VALID + ':get_testing_period']
    quick_cases, thorough_cases = 300, 3000

    def templates(self):
        for hs in (True, False):
            for he in (True, False):
                for form in ('text', 'date'):
                    yield [hs, he, form, self.day(), self.day(), self.day(), []]

    def call(self, mod, args):
        if isinstance(args[5], SReal):
            Store.now, Store.texts = args[5], {'start': args[3], 'end': args[4]}
            a, b = mod.get_testing_period(self.params(args, True))
            return [a.n, b.n]
        a, b = mod.get_testing_period(self.params(args, False))
        if type(a) is not datetime.date or type(b) is not datetime.date:
            return 'not dates'
        return [a.toordinal(), b.toordinal()]

    def spec(self, hs, he, form, s, e, now, files):
        return list(self.period(hs, he, s, e, now))


class Select(Dated):
    name = 'selection of the tests'
    fn = 'get_test_xml'
    functions = [VALID + ':get_test_xml', VALID + ':get_testing_period']
    quick_cases, thorough_cases = 150, 1500
    names = ['b.xml', 'a.xml', 'a.txt', 'xml', 'c.xml.bak', 'a.b.xml', 'z.XML', 'axml', 'plot 1.xml', 'B.xml', 'c.xmls']
    groups = [['b.xml', 'a.xml'], ['a.txt', 'x.xml'], ['c.xml.bak', 'a.b.xml'], ['B.xml', 'b.xml', 'a.xml']]

    def templates(self):
        for hs in (True, False):
            for he in (True, False):
                for g in self.groups:
                    yield [hs, he, 'text', self.day(), self.day(), self.day(), [(n, self.day()) for n in g]]
        yield [True, True, 'text', self.day(), self.day(), self.day(), []]

    def gen(self, rng):
        names = rng.sample(self.names, rng.randint(0, 7))
        return [rng.random() < 0.6, rng.random() < 0.6, rng.choice(['text', 'date']), self.day(), self.day(), self.day(), [(n, self.day()) for n in names]]

    def call(self, mod, args):
        p = self.params(args, isinstance(args[5], SReal))
        files = args[6]
        if isinstance(args[5], SReal):
            Store.now, Store.texts = args[5], {'start': args[3], 'end': args[4]}
            Store.times = {'/in/' + n: t for n, t in files}
            p['input_xml_dir'] = '/in/'
            return [posixpath.relpath(f, '/in') for f in mod.get_test_xml(p)]

        def work(box):
            d = os.path.join(box, 'in')
            os.mkdir(d)
            for i, (n, t) in enumerate(files):
                f = os.path.join(d, n)
                write(f)
                sec = [0, 43200, 86399][(i + int(t)) % 3]
                at = datetime.datetime.combine(datetime.date.fromordinal(int(t)), datetime.time()) + datetime.timedelta(seconds=sec)
                os.utime(f, (at.timestamp(), at.timestamp()))
            before = tree(box)
            p['input_xml_dir'] = d + ('/' if len(files) % 2 else '')
            try:
                r = mod.get_test_xml(p)
            except Exception as e:
                return {'raise': type(e).__name__, 'text': str(e)[:200]}
            if tree(box) != before:
                return {'result': 'files changed'}
            return {'result': [os.path.relpath(f, d) for f in r]}
        out = confined(work)
        if 'raise' in out:
            raise (KeyError if out['raise'] == 'KeyError' else RuntimeError)('%s: %s' % (out['raise'], out['text']))
        return out['result']

    def spec(self, hs, he, form, s, e, now, files):
        start, end = self.period(hs, he, s, e, now)
        out = []
        for n, t in files:
            if n.endswith('.xml') and start <= t and t <= end:
                out.append(n)
        return sorted(out)


class Rename(C.Contract):
    prop = 'C25'
    name = 'names of the new files'
    functions = [VALID + ':replace_name']
    proof = False
    quick_cases, thorough_cases = 300, 3000

    def cases(self, rng, n):
        for i in range(n):
            stem = ''.join(rng.choice(['a', 'plot_1', '20200101', '_', '-', '.', ' ']) for _ in range(rng.randint(1, 4)))
            yield {'stem': 'p' + stem, 'ext': rng.choice(['.xml', '.png', '.R', '.data', '']), 'postfix': rng.choice(['py', 'thresh'])}

    def judge(self, case):
        if '.' in case['stem'] and not case['ext']:
            raise C.SkipCase('ambiguous extension')
        got = C.real(VALID).replace_name(case['stem'] + case['ext'], case['postfix'])
        want = case['stem'] + '_' + case['postfix'] + case['ext']
        return None if got == want else 'replace_name of %r gives %r' % (case['stem'] + case['ext'], got)


STEMS = ['plot_1', 'plot_10', 'plot_1.5', 'plot_1x', 'plot', 'q', 'plot[1]', 'plot*', 'Plot_1', 'xplot_1', 'a?b', 'acb', '.plot_1']
EXTS = ['.png', '.xml', '.R', '.data', '.points1', '', '_py.data', '_py.points1', '.agg_stat_bootstrap', '_py.R']


class Similar(C.Contract):
    prop = 'C25'
    name = 'deletion of the files of a plot'
    functions = [VALID + ':delete_similar_files']
    proof = False
    quick_cases, thorough_cases = 150, 1500

    def cases(self, rng, n):
        for i in range(n):
            files = sorted({rng.choice(STEMS) + rng.choice(EXTS) for _ in range(rng.randint(0, 12))})
            near = sorted({'out' + rng.choice(STEMS) + rng.choice(EXTS) for _ in range(rng.randint(0, 4))})
            yield {'files': files, 'near': near, 'dir': rng.choice(['out/', 'out', 'o[u]t/']), 'plot': rng.choice(STEMS) + rng.choice(['.png', '.jpg'])}

    def judge(self, case):
        mod = C.real(VALID)
        top = case['dir'].rstrip('/')

        def work(box):
            os.makedirs(os.path.join(box, top))
            for f in case['files']:
                write(os.path.join(box, top, f))
                write(os.path.join(box, 'in', f))
            for f in case['near']:
                write(os.path.join(box, f))
            before = set(tree(box))
            try:
                mod.delete_similar_files(os.path.join(box, case['dir']), case['plot'])
            except Exception as e:
                return {'raise': '%s: %s' % (type(e).__name__, e)}
            return {'gone': sorted(before - set(tree(box))), 'new': sorted(set(tree(box)) - before)}
        out = confined(work)
        if 'raise' in out:
            return 'deleting the files of %r raises %s' % (case['plot'], out['raise'])
        stem = case['plot'].rpartition('.')[0]
        want = sorted(os.path.join(top, f) for f in case['files'] if f.startswith(stem))
        if out['gone'] != want or out['new']:
            return 'for the plot %r, %s of %s are deleted, specified %s' % (case['plot'], out['gone'], case['files'] + case['near'], want)
        return None


DOC = '''<?xml version="1.0"?><plot_spec><connection><user>u</user><password>p</password></connection><folders><r_tmpl>t</r_tmpl><r_work>w</r_work><plots>%s</plots>
<data>d</data><scripts>s</scripts></folders><plot><tmpl><data_file>%s.data</data_file><plot_file>%s.png</plot_file><r_file>%s.R</r_file></tmpl></plot></plot_spec>'''
BATCH = '''#!/bin/sh
echo "$1" >> "%(box)s/log"
cp "$1" "%(box)s/seen/"
n=$(basename "$1")
if [ -d "%(box)s/plan/$n" ]; then cp -r "%(box)s/plan/$n/." "%(box)s/"; fi
exit 0
'''


class Tool(C.Contract):
    """The whole tool on a directory of tests, the plotting program replaced by a script that copies prepared files."""
    prop = 'C25'
    name = 'validation of a directory of tests'
    functions = [VALID + ':main', VALID + ':clean', IMAGES + ':CompareImages.get_mssim', IMAGES + ':CompareImages.save_thresh_image']
    proof = False
    quick_cases, thorough_cases = 80, 600
    stems = ['plot_1', 'plot_10', 'plot_2.5', 'alpha', 'beta[2]']

    def cases(self, rng, n):
        for i in range(n):
            tests = []
            for s in rng.sample(self.stems, rng.randint(1, 4)):
                tests.append({'stem': s, 'xml': s + rng.choice(['.xml', '.xml', '.xml', '.txt']), 'age': rng.choice([0, 0, 0, 1, 2, 3]),
                              'kind': rng.choice(['same', 'same', 'different', 'slight', 'none', 'no new', 'no old', 'size', 'broken'])})
            old = [[rng.choice(KEYS), 'left%d%s' % (j, rng.choice(EXTS))] for j in range(rng.randint(0, 5))]
            others = sorted({rng.choice(['keep/', '', 'in/', 'orig/']) + 'other' + rng.choice(EXTS) for _ in range(3)} | {'outplots' + rng.choice(self.stems) + '.png'})
            others = [f for f in others if f != 'in/other.xml']
            yield {'tests': tests, 'old': old, 'others': others, 'slash': rng.random() < 0.5, 'start': rng.choice([None, 2, 1, 0])}

    def judge(self, case):
        mod = C.real(VALID)
        day = today()
        dirs = {k: 'out' + k.split('_')[1] for k in KEYS}

        def picture(kind):
            import numpy as np
            import cv2
            a = np.full((24, 24, 3), 200, dtype='uint8')
            if kind == 'different':
                a[6:14, 4:15] = 30
            if kind == 'slight':
                a[12, 12] = 190
            if kind == 'size':
                a = a[:20]
            ok, data = cv2.imencode('.png', a)
            return data.tobytes() if kind != 'broken' else b'not an image'

        def work(box):
            import cv2
            cv2.setNumThreads(1)
            for d in list(dirs.values()) + ['in', 'orig', 'seen', 'plan', 'keep']:
                os.makedirs(os.path.join(box, d))
            for k, f in case['old']:
                write(os.path.join(box, dirs[k], f))
            for f in case['others']:
                write(os.path.join(box, f), b'other')
            write(os.path.join(box, 'mv/bin/mv_batch.sh'), (BATCH % {'box': box}).encode())
            os.chmod(os.path.join(box, 'mv/bin/mv_batch.sh'), 0o755)
            for t in case['tests']:
                s, kind = t['stem'], t['kind']
                x = os.path.join(box, 'in', t['xml'])
                write(x, (DOC % (os.path.join(box, 'orig'), s, s, s)).encode())
                at = datetime.datetime.combine(datetime.date.fromordinal(day - t['age']), datetime.time(12)).timestamp()
                os.utime(x, (at, at))
                plan = os.path.join(box, 'plan', s + '_py.xml')
                if kind not in ('none', 'no old'):
                    write(os.path.join(box, 'orig', s + '.png'), picture('same'))
                if kind not in ('none', 'no new'):
                    write(os.path.join(plan, 'outplots', s + '_py.png'), picture(kind))
                write(os.path.join(plan, 'outdata', s + '_py.data'))
                write(os.path.join(plan, 'outdata', s + '_py.points1'))
                write(os.path.join(plan, 'outscripts', s + '_py.R'))
            end = '/' if case['slash'] else ''
            p = {k: os.path.join(box, d) + end for k, d in dirs.items()}
            p.update(input_xml_dir=os.path.join(box, 'in') + end, mv_home=os.path.join(box, 'mv') + end, db_user='me', db_pass='secret')
            if case['start'] is not None:
                p['start_date'] = text_of(day - case['start'])
            before = tree(box)
            try:
                mod.main(p)
            except Exception as e:
                return {'raise': '%s: %s' % (type(e).__name__, str(e)[:200])}
            after = tree(box)
            log = after.pop('log', '')
            seen = {}
            for k in list(after):
                if k.startswith('seen/'):
                    seen[os.path.basename(k)] = bytes.fromhex(after.pop(k)).decode()
            return {'before': before, 'after': after, 'log': [os.path.relpath(x, box) for x in bytes.fromhex(log).decode().split('\n') if x], 'seen': seen, 'box': box}
        out = confined(work)
        if today() != day:
            raise C.SkipCase('another day')
        if 'raise' in out:
            return 'raises %s' % out['raise']
        first = 1 if case['start'] is None else case['start']
        todo = sorted([t for t in case['tests'] if t['xml'].endswith('.xml') and t['age'] <= first], key=lambda t: t['xml'])
        want = ['outxml/%s_py.xml' % t['stem'] for t in todo]
        if out['log'] != want:
            return 'runs %s, specified %s' % (out['log'], want)
        box = out['box']
        for t in todo:
            doc = out['seen'][t['stem'] + '_py.xml']
            for tag, v in (('plot_file', t['stem'] + '_py.png'), ('data_file', t['stem'] + '_py.data'), ('r_file', t['stem'] + '_py.R'), ('user', 'me'), ('password', 'secret'),
                           ('r_tmpl', box + '/mv/R_tmpl'), ('r_work', box + '/mv/R_work')):
                if '<%s>%s</%s>' % (tag, v, tag) not in doc:
                    return 'the new test of %s has another %s: %s' % (t['stem'], tag, doc[:400])
            for tag, key in (('plots', 'outplots'), ('data', 'outdata'), ('scripts', 'outscripts')):
                v = '%s/%s' % (box, key)
                if '<%s>%s</%s>' % (tag, v, tag) not in doc and '<%s>%s/</%s>' % (tag, v, tag) not in doc:
                    return 'the new test of %s has another %s: %s' % (t['stem'], tag, doc[:400])
        expect = {k for k in out['before'] if k.split('/')[0] not in dirs.values()}
        for t in todo:
            s, kind = t['stem'], t['kind']
            if kind in ('same', 'none'):
                for k in list(expect):
                    if k.split('/')[0] in ('outdata', 'outscripts') and k.split('/')[1].startswith(s):
                        expect.discard(k)
                continue
            expect |= {'outxml/%s_py.xml' % s, 'outdata/%s_py.data' % s, 'outdata/%s_py.points1' % s, 'outscripts/%s_py.R' % s}
            if kind != 'no new':
                expect.add('outplots/%s_py.png' % s)
            if kind in ('different', 'slight'):
                expect.add('outplots/%s_thresh.png' % s)
        got = set(out['after'])
        if got != expect:
            return 'files missing afterwards: %s, files too many: %s' % (sorted(expect - got), sorted(got - expect))
        for k, v in out['before'].items():
            if k in got and k.split('/')[0] not in dirs.values() and out['after'][k] != v:
                return 'changes %s' % k
        return None


def contracts(prop):
    return [Period(), Select(), Rename(), Similar(), Tool()]


def preload(prop):
    C.real(VALID)


def info(prop):
    return {'level': 'proof', 'bound': 'directories of at most twelve files; at most four tests per run; plot names from a fixed list with wildcards and dots',
            'assumptions': ['selection is proved for every day of the listed directory contents (at most three files); other contents at run time',
                            'the calendar library reads dates and time stamps as documented; only days are represented in the proof',
                            'deletion is a bounded run-time check of the real code, run by an unprivileged user in a scratch directory; the plotting program is a script that copies prepared files']}
