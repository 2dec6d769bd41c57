"""P09: names handed out are new, owned by one caller; nothing else changes."""
import os
import re

from dst import build
from dst.core import SimCrash, Violation, rng
from dst.vfs import Scheduler, SimFS

from ioput.iostandard import (find_unique_file_with_regex, make_directory,
                              new_file_path_with_int, write_summary_file)
from model_architectures.procedures.model_prediction import (
    make_predictions_subdir)

RUNS = {'quick': 10000, 'thorough': 400000}
RULE = ('one run = a seeded history of requests for result directories '
        '(keeping or replacing what exists), prediction sets, new file names, '
        'summaries and file searches over a tree of directories, files and '
        'links with colliding names, by up to four concurrent callers under a '
        'seeded interleaving of their I/O, each possibly hit by a crash, I/O '
        'error or interrupt and repeated; non-trivial = a name was taken, '
        'callers were concurrent, or a fault fired')
PROBES = ('concurrent', 'collision', 'lost_race', 'replaced', 'link_inside',
          'number_taken', 'file_in_the_way', 'crash', 'error', 'interrupt',
          'retried', 'relative', 'nested', 'several_matches', 'no_match',
          'summary', 'trailing_slash')
STATE_MEASURE = 'digest of the directory tree after each operation'
REAL = ['ioput.iostandard', 'make_predictions_subdir']
STUB = ['disk, directory listing order, caller schedule']
ASSUMPTIONS = ['callers interleave at the calls that change the file system',
               'two callers that replace the same directory at the same time '
               'may fail but not damage anything else']
SHRINK_LISTS = ('ops', 'tree')

NAMES = ('d', 'd_1', 'd_1_1', 'd.x', 'e', 'run_9', 'prediction_set_0',
         'prediction_set_1', 'prediction_set_2', 'prediction_set_0_1')
FILES = ('f.dat', 'f_1.dat', 'f_2.dat', 'f', 'f.a.b', 'data_n5.pkl',
         'data_n10.pkl', 'data_n7.pkl.tmp', 'xdata_n3.pkl', 'data_n.pkl')
PATTERNS = (r'^data_n[0-9]+.pkl$', r'^f.*\.dat$', r'^none$', r'data_n')


def gen(seed, tier):
    r = rng(seed, 'gen')
    tree = []
    if r.random() < 0.08:
        # A long series of taken numbers
        name, ext, kind = r.choice([('d', '', 'dir'), ('f', '.dat', 'file'),
                                    ('prediction_set_0', '', 'dir')])
        tree += [{'kind': kind, 'name': name + (f'_{k}' if k else '') + ext,
                  'sub': False} for k in range(r.choice([7, 12]))]
    for _ in range(r.choice([0, 3, 6, 9, 14])):
        kind = r.choice(['dir', 'dir', 'file', 'file', 'link', 'full'])
        name = r.choice(NAMES if kind != 'file' or r.random() < 0.2 else FILES)
        tree.append({'kind': kind, 'name': name, 'sub': r.random() < 0.3})
    ops = []
    for i in range(r.choice([1, 2, 3, 4, 6])):
        group = [gen_call(r) for _ in range(r.choice([1, 1, 1, 2, 3, 4]))]
        if len(group) > 1 and r.random() < 0.6:
            group = [dict(group[0], id=k) for k in range(len(group))]
        for k, call in enumerate(group):
            call['id'] = k
        op = {'id': i, 'calls': group}
        if len(group) == 1 and r.random() < 0.5:
            op['fault'] = {'pos': r.random(), 'kind': r.choice(
                ['crash', 'crash_after', 'eio', 'enospc', 'intr', 'torn']),
                'frac': r.choice([0.0, 0.5, 0.9])}
        ops.append(op)
    return {'tree': tree, 'ops': ops,
            'listing': r.choice(['sorted', 'reverse', 'shuffle'])}


def gen_call(r):
    what = r.choice(['new', 'new', 'new', 'replace', 'set', 'set', 'file',
                     'find', 'summary'])
    call = {'what': what, 'name': r.choice(NAMES[:6]), 'sub': r.random() < 0.3,
            'deep': r.random() < 0.15, 'rel': r.random() < 0.25,
            'slash': r.random() < 0.15, 'fill': r.random() < 0.6,
            'again': r.choice([0, 0, 0, 1, 2])}
    if what == 'file':
        call['name'] = r.choice(FILES)
    elif what == 'find':
        call['pat'] = r.sample(range(len(PATTERNS)), r.choice([1, 1, 2]))
    elif what == 'summary':
        call['val'] = r.choice([0, 1, 2, 3, 4])
        call['file'] = r.choice(['summary', 'f', 'a.b'])
    return call


# =============================================================================
def shape(root):
    """{relative path: content, None for directories, '>x' for links}."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            rel = os.path.relpath(p, root)
            out[rel] = ('>' + os.readlink(p)) if os.path.islink(p) else None
        for f in files:
            p = os.path.join(base, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = '>' + os.readlink(p)
            else:
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, root)] = h.read()
    return out


def setup_tree(root, tree):
    os.makedirs(os.path.join(root, 'w', 'sub'))
    os.makedirs(os.path.join(root, 'outside', 'keep'))
    with open(os.path.join(root, 'outside', 'keep', 'k.dat'), 'w') as f:
        f.write('keep')
    for n, item in enumerate(tree):
        base = os.path.join(root, 'w', 'sub' if item['sub'] else '')
        path = os.path.join(base, item['name'])
        if os.path.lexists(path):
            continue
        if item['kind'] == 'file':
            with open(path, 'w') as f:
                f.write(f'file {n}')
            continue
        os.mkdir(path)
        if item['kind'] in ('full', 'link'):
            os.makedirs(os.path.join(path, 'in', 'deep'))
            with open(os.path.join(path, 'in', 'x.dat'), 'w') as f:
                f.write(f'content {n}')
        if item['kind'] == 'link':
            os.symlink(os.path.join(root, 'outside', 'keep'),
                       os.path.join(path, 'link'))


def run(ctx):
    scn = ctx.scn
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    setup_tree(ctx.scratch, scn['tree'])
    os.chdir(os.path.join(ctx.scratch, 'w'))
    ctx.leftover = set()
    with fs.installed():
        for op in scn['ops']:
            operation(ctx, fs, op)
            ctx.state(sorted(shape(ctx.scratch)))


class Call:
    """One caller: a request and what it does with what it got."""

    def __init__(self, ctx, op, call):
        self.ctx, self.call = ctx, call
        w = os.path.join(ctx.scratch, 'w')
        base = os.path.join(w, 'sub') if call['sub'] else w
        self.base = base
        name = call['name']
        if call['deep'] and call['what'] in ('new', 'replace'):
            name = os.path.join('p', 'q', name)
            ctx.probe('nested')
        self.path = os.path.join(base, name)
        self.given = self.path
        if call['rel']:
            self.given = os.path.relpath(self.path, w)
            ctx.probe('relative')
        if call['slash'] and call['what'] in ('new', 'replace'):
            self.given += os.sep
            ctx.probe('trailing_slash')
        self.mark = f'caller {op["id"]} {call["id"]}'
        self.got = []

    def request(self):
        what = self.call['what']
        if what == 'new':
            return make_directory(self.given, is_overwrite=False)
        if what == 'replace':
            return make_directory(self.given, is_overwrite=True)
        if what == 'set':
            return make_predictions_subdir(self.base)
        if what == 'file':
            return new_file_path_with_int(self.given)
        if what == 'find':
            pats = tuple(PATTERNS[i] for i in self.call['pat'])
            return find_unique_file_with_regex(
                self.base, pats if len(pats) > 1 else pats[0])
        return write_summary_file(self.base, filename=self.call['file'],
                                  **summary_values(self.call['val']))

    def __call__(self):
        """Used by concurrent callers: take, mark, maybe again."""
        for k in range(1 + self.call['again']):
            out = self.request()
            self.got.append(out)
            if self.call['what'] in ('new', 'set', 'replace') \
                    and self.call['fill']:
                with open(os.path.join(out, 'owner.dat'), 'x') as f:
                    f.write(f'{self.mark} {k}')
        return self.got


def summary_values(n):
    vals = [{'a': 1, 'name': 'text'},
            {'a': {'b': 2.5, 'c': None}, 'z': [1, 2]},
            {'a': {'b': {'c': 3, 'd': 'x'}, 'e': 4}},
            {'summary_title': 'Title', 'k': 'line\nother line', 'm': -1.0},
            {'a': {f'b{i:02d}': {f'c{i:02d}{k:02d}': 100*i + k
                                 for k in range(12)} for i in range(11)}}]
    return vals[n]


def summary_text_ok(n, text):
    pos = 0
    if any(text.count(f'"{key}":') != 1 for key in summary_values(n)
           if key != 'summary_title') or re.search(r'^file \d', text):
        return False        # an older summary or file is still in it
    for token in {0: ['"a":', '1', '"name":', 'text'],
                  1: ['"a":', '"b":', '2.5', '"c":', 'None', '"z":', '[1, 2]'],
                  2: ['"a":', '"b":', '"c":', '3', '"d":', 'x', '"e":', '4'],
                  3: ['Title', '"k":', 'line\nother line', '"m":', '-1.0'],
                  4: ['"a":'] + [y for i in range(11) for y in
                                 [f'"b{i:02d}":'] + [
                                     z for k in range(12) for z in
                                     (f'"c{i:02d}{k:02d}":', str(100*i + k))]]
                  }[n]:
        pos = text.find(token, pos)
        if pos < 0:
            return False
        pos += len(token)
    return True


# =============================================================================
def numbered(name, base):
    """Number appended to a requested path (0 if none), None if foreign."""
    if name == base:
        return 0
    m = re.fullmatch(re.escape(base) + r'_([1-9][0-9]*)', name)
    return int(m.group(1)) if m else None


def expected_dir(before, rel):
    """The name a lone caller must get, or None if a file is in the way."""
    k, name = 0, rel
    while True:
        if name not in before:
            parts = name.split(os.sep)
            for n in range(1, len(parts)):
                if before.get(os.sep.join(parts[:n]), 0) not in (0, None):
                    return None
            return name
        if before[name] is not None and not before[name][:1] == '>':
            return None
        k += 1
        name = f'{rel}_{k}'


def operation(ctx, fs, op):
    before = shape(ctx.scratch)
    calls = [Call(ctx, op, c) for c in op['calls']]
    ctx.log('op', op['id'], [c.call['what'] for c in calls])
    if len(calls) > 1:
        concurrent(ctx, fs, op, calls, before)
    else:
        single(ctx, fs, op, calls[0], before)


def preserved(ctx, before, after, gone=(), what='request'):
    """Everything that existed and is not below `gone` is unchanged."""
    for path, data in before.items():
        if path in ctx.leftover:
            continue
        if any(path == g or path.startswith(g + os.sep) for g in gone):
            continue
        ctx.check(path in after, 'removed', f'{what} removed {path}')
        ctx.check(after[path] == data, 'changed', f'{what} changed {path}')


def single(ctx, fs, op, c, before):
    fault = op.get('fault')
    what = c.call['what']
    if fault:
        with_n = 14 if what == 'replace' else 3
        fs.arm({int(fault['pos']*with_n): fault})
    n_fault = sum(v for k, v in ctx.faults.items() if '@' in k)
    try:
        status, value = 'ok', c.request()
    except Violation:
        raise
    except SimCrash:
        status, value = 'crash', None
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        status = 'crash'
        fs.restart()
    fired = sum(v for k, v in ctx.faults.items() if '@' in k) > n_fault
    after = shape(ctx.scratch)
    if status == 'ok':
        check_value(ctx, c, value, before, after, fired)
        return
    # Only what a request may have replaced or started is different
    gone = []
    rel = os.path.relpath(c.path, ctx.scratch)
    if what == 'replace':
        gone = [rel]
    elif what == 'summary':
        gone = [os.path.relpath(os.path.join(
            c.base, c.call['file'] + '.dat'), ctx.scratch)]
    preserved(ctx, before, after, gone, f'a failed {what} request')
    if what == 'summary':
        now = after.get(gone[0])
        ctx.check(now == before.get(gone[0]) or isinstance(now, bytes)
                  and summary_text_ok(c.call['val'], now.decode()),
                  'torn-summary', 'a failed summary request left a part of '
                  f'the summary in {gone[0]}')
        # Unfinished file of this write; nobody relies on it
        ctx.leftover |= {p for p in after if p not in before
                         and os.path.dirname(p) == os.path.dirname(gone[0])}
    if status == 'err' and not fired:
        if blocked(c, before, rel):
            ctx.probe('file_in_the_way')
            return
        raise Violation('request-failed', f'{what} request for {rel} raised '
                        f'{type(value).__name__}: {str(value)[:200]}')
    ctx.probe({'crash': 'crash'}.get(
        status, 'interrupt' if isinstance(value, KeyboardInterrupt)
        else 'error'))
    # Repeating the request completes it
    before = after
    try:
        value = c.request()
    except Exception as exc:
        if blocked(c, before, rel):
            ctx.probe('file_in_the_way')
            return
        raise Violation('retry-failed', f'repeated {what} request for {rel} '
                        f'raised {type(exc).__name__}: {str(exc)[:200]}')
    ctx.probe('retried')
    check_value(ctx, c, value, before, shape(ctx.scratch), False)


def blocked(c, before, rel):
    """A plain file occupies a name the request needs."""
    what = c.call['what']
    if what in ('new', 'replace'):
        parts = rel.split(os.sep)
        for n in range(1, len(parts)):
            if isinstance(before.get(os.sep.join(parts[:n])), bytes):
                return True
        if what == 'replace':
            return rel in before and before[rel] is not None
        return expected_dir(before, rel) is None
    if what == 'summary':
        path = os.path.relpath(os.path.join(c.base, c.call['file'] + '.dat'),
                               c.ctx.scratch)
        return path in before and before[path] is None
    return False


def check_value(ctx, c, value, before, after, fired):
    what, root = c.call['what'], ctx.scratch
    rel = os.path.relpath(c.path, root)
    if what in ('new', 'set', 'replace'):
        ctx.check(isinstance(value, str) and os.path.isabs(value),
                  'wrong-name', f'{what} request returned {value!r}')
        got = os.path.relpath(value, root)
        ctx.check(got in after and after[got] is None, 'not-created',
                  f'{what} request returned {got}, which is no directory')
        ctx.check(not any(p.startswith(got + os.sep) for p in after),
                  'not-empty', f'{what} request returned {got}, which holds '
                  f'{[p for p in after if p.startswith(got + os.sep)][:3]}')
        if what == 'replace':
            ctx.check(got == rel, 'wrong-name', f'request to replace {rel} '
                      f'returned {got}')
            preserved(ctx, before, after, [rel], 'replacing')
            if rel in before:
                ctx.probe('replaced')
                ctx.nontrivial = True
                if rel + os.sep + 'link' in before:
                    ctx.probe('link_inside')
        else:
            ctx.check(got not in before, 'not-new', f'{what} request returned '
                      f'{got}, which existed before')
            preserved(ctx, before, after, (), f'{what} request')
            if what == 'new':
                want = expected_dir(before, rel)
                if rel in before:
                    ctx.probe('collision')
                    ctx.nontrivial = True
                if rel + '_1' in before and rel in before:
                    ctx.probe('number_taken')
            else:
                base = os.path.relpath(c.base, root)
                k = 0
                while os.path.join(base, f'prediction_set_{k}') in before:
                    k += 1
                    ctx.nontrivial = True
                want = os.path.join(base, f'prediction_set_{k}')
            ctx.check(got == want, 'wrong-name', f'{what} request got {got}, '
                      f'the first free name is {want}')
        extra = [p for p in after if p not in before
                 and not (got == p or got.startswith(p + os.sep))]
        ctx.check(not extra, 'foreign', f'{what} request created {extra[:3]}')
        return
    if what == 'file':
        preserved(ctx, before, after, (), 'file name request')
        ctx.check(set(after) == set(before), 'foreign',
                  'file name request created a file')
        got = os.path.relpath(os.path.abspath(value), root)
        ctx.check(not isinstance(before.get(got), bytes), 'not-new',
                  f'new file name {got} is a file that exists')
        stem, ext = os.path.splitext(rel)
        k, want = 0, rel
        while isinstance(before.get(want), bytes):
            k += 1
            want = f'{stem}_{k}{ext}'
            ctx.probe('collision')
            ctx.nontrivial = True
        ctx.check(got == want, 'wrong-name', f'new file name {got}, first free '
                  f'is {want}')
        return
    if what == 'find':
        preserved(ctx, before, after, (), 'search')
        ctx.check(set(after) == set(before), 'foreign', 'search wrote files')
        base = os.path.relpath(c.base, root)
        names = sorted(os.path.basename(p) for p in before
                       if os.path.dirname(p) == base)
        for i in c.call['pat']:
            match = [n for n in names if re.search(PATTERNS[i], n)]
            if match:
                break
        ok, path = value
        if not match:
            ctx.probe('no_match')
            ctx.check(not ok and path is None, 'wrong-find',
                      f'search without match returned {value}')
            return
        if len(match) > 1:
            ctx.probe('several_matches')
        ctx.check(ok and os.path.dirname(os.path.abspath(path)) == c.base
                  and os.path.basename(path) in match, 'wrong-find',
                  f'search for {PATTERNS[i]} in {names} returned {value}')
        again = c.request()
        ctx.check(tuple(again) == tuple(value), 'unstable-find',
                  f'the same search in {names} returned {value[1]} and '
                  f'{again[1]}')
        return
    path = os.path.relpath(os.path.join(c.base, c.call['file'] + '.dat'), root)
    ctx.probe('summary')
    preserved(ctx, before, after, [path], 'summary')
    ctx.check(isinstance(after.get(path), bytes) and summary_text_ok(
        c.call['val'], after[path].decode()), 'wrong-summary',
        f'summary of {summary_values(c.call["val"])} is {after.get(path)!r}')
    extra = [p for p in after if p not in before and p != path]
    ctx.check(not extra, 'foreign', f'summary created {extra}')


def concurrent(ctx, fs, op, calls, before):
    calls = [c for c in calls if c.call['what'] in ('new', 'set', 'replace')]
    if not calls:
        return
    ctx.probe('concurrent')
    replacing = [os.path.relpath(c.path, ctx.scratch) for c in calls
                 if c.call['what'] == 'replace']
    actors = {f'c{i}': c for i, c in enumerate(calls)}
    out = Scheduler(ctx, fs, key=f'op{op["id"]}').run(actors)
    after = shape(ctx.scratch)
    preserved(ctx, before, after, replacing, 'concurrent requests')
    owners = {}
    for name, c in actors.items():
        status, value = out[name]
        what = c.call['what']
        rel = os.path.relpath(c.path, ctx.scratch)
        near = any(g == r or g.startswith(r + '_') or r.startswith(g + '_')
                   or g.startswith(r + os.sep) or r.startswith(g + os.sep)
                   for r in replacing for g in
                   [rel if what != 'set' else os.path.relpath(
                       c.base, ctx.scratch)])
        if what == 'replace':
            near = near and len(calls) > 1
        if status == 'err':
            if isinstance(value, Violation):
                raise value
            if (near and isinstance(value, OSError)) or blocked(
                    c, before, rel):
                continue
            if isinstance(value, FileExistsError) and isinstance(
                    before.get(os.path.relpath(str(value.filename),
                                               ctx.scratch)), bytes):
                ctx.probe('file_in_the_way')
                continue
            raise Violation('request-failed', f'concurrent {what} request for '
                            f'{rel} raised {type(value).__name__}: '
                            f'{str(value)[:200]}') from value
        if what == 'replace' or near:
            continue
        for k, path in enumerate(value):
            got = os.path.relpath(path, ctx.scratch)
            ctx.check(got not in before, 'not-new', f'{what} request returned '
                      f'{got}, which existed before')
            ctx.check(got not in owners, 'shared', f'{got} was given to '
                      f'{owners.get(got)} and to {name}')
            owners[got] = name
            ctx.check(after.get(got, 0) is None, 'not-created',
                      f'{got} does not exist')
            base = rel if what == 'new' else os.path.join(
                os.path.relpath(c.base, ctx.scratch), 'prediction_set')
            ctx.check(numbered(got, base) is not None or what == 'set'
                      and re.fullmatch(re.escape(base) + '_[0-9]+(_[0-9]+)?',
                                       got), 'wrong-name',
                      f'request for {rel} got {got}')
            if c.call['fill']:
                mark = after.get(os.path.join(got, 'owner.dat'))
                ctx.check(mark == f'{c.mark} {k}'.encode(), 'shared',
                          f'{got} of {name} holds {mark}')
            if what == 'new' and numbered(got, rel) and rel not in before:
                ctx.probe('lost_race')
