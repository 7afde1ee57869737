"""C20: converting features keeps every file, frame and time"""
import itertools
import os
import subprocess
import sys

import numpy as np

from lib import core
from lib.core import require

ID = 'C20'
BOUNDS = {
    'quick': 'all numbers of files up to 7 with all the sizes of batches up '
             'to 8 (and the default), 3 orders of the files; all the '
             'successions of 1 to 3 conversions splitting 1 to 5 files; '
             'folders of 0 to 6 files, of 5 kinds; custom loaders, names with dots, '
             'single frames, both precisions; 501 and 1001 files with the '
             'default batches; files of up to 40000 frames; the module run as '
             'a script',
    'thorough': 'as quick up to 12 files and batches of 13, 1501 files',
}
NAMES = ['a', 'b.x', 'c', 'a2', 'd.1.2', 'z', '0', 'e', 'f', 'g', 'h', 'i']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    top = 12 if deep else 7
    for n in range(1, top + 1):
        for batch in list(range(1, top + 2)) + [None]:
            out.append({'n': n, 'batch': batch})
    for n in range(1, 6):
        for cuts in itertools.product((0, 1), repeat=n - 1):
            if sum(cuts) <= 2:
                for batch in (1, 2, None):
                    out.append({'n': n, 'cuts': cuts, 'batch': batch})
    for n in range(0, 7):
        for again in (0, 1):
            out.append({'folder': n, 'again': again})
        for ext in ('.txt', '.NPZ', '.tar.gz', ''):
            out.append({'loader': n, 'ext': ext})
    for n in [500, 501, 1001] + ([1000, 1501] if deep else []):
        out.append({'many': n})
    for n in (1, 3):
        out.append({'script': n})
    for k in range(4):
        out.append({'frames': k})
    return out


def data(name, dtype='f8'):
    k = sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97
    n = 1 + k % 4
    times = np.arange(n) * 0.01 * (1 + k % 3) + k
    feats = (np.arange(n * 3).reshape(n, 3) * 0.125 + k).astype(dtype)
    return times, feats


def read(path, group):
    """What the features file contains: {name: (times, features)}"""
    import h5py
    with h5py.File(path, 'r') as f:
        g = f[group]
        names = [x.decode('utf8') if isinstance(x, bytes) else str(x)
                 for x in g['items'][...]]
        index = g['index'][...].astype(int).tolist()
        times = g['labels'][...]
        feats = g['features'][...]
    require(len(set(names)) == len(names), 'files %s', names)
    out, start = {}, 0
    for name, end in zip(names, index):
        out[name] = (times[start:end + 1], feats[start:end + 1])
        start = end + 1
    require(start == len(times) == len(feats),
            '%d frames, %d times, the files end at %d', len(feats),
            len(times), start)
    return out


def check(path, group, names, dtype, what, ctx):
    got = read(path, group)
    require(set(got) == set(names), '%s: files %s instead of %s', what,
            sorted(got)[:20], sorted(names)[:20])
    for n in names:
        t, f = data(n, dtype)
        require(np.array_equal(np.ravel(got[n][0]), t), '%s: times of %s: %s '
                'and not %s', what, n, got[n][0].tolist(), t.tolist())
        require(got[n][1].shape == f.shape and got[n][1].dtype == f.dtype and
                np.array_equal(got[n][1], f), '%s: features of %s: %s and '
                'not %s', what, n, got[n][1].tolist(), f.tolist())
    # as the rest of the package reads it
    import h5features
    t, f = h5features.read(path, group)[:2]
    require(set(t) == set(names), '%s: files read %s', what, sorted(t)[:20])
    ctx.state(what)


def run(case, ctx):
    from ABXpy.misc import any2h5features as a
    folder = ctx.path('npz')
    os.mkdir(folder)
    out = ctx.path('out.features')

    def save(names, dtype='f8'):
        for n in names:
            t, f = data(n, dtype)
            np.savez(os.path.join(folder, n + '.npz'), time=t, features=f)

    def convert(names, batch, group='/features/', load=None, ext='.npz'):
        kw = {}
        if batch is not None:
            kw['batch_size'] = batch
        if load is not None:
            kw['load'] = load
        a.any_to_h5features(folder, [n + ext for n in names], out, group,
                            **kw)
        ctx.step()
    if 'cuts' in case:
        names = NAMES[:case['n']]
        save(names)
        pieces, piece = [], [names[0]]
        for n, c in zip(names[1:], case['cuts']):
            if c:
                pieces.append(piece)
                piece = []
            piece.append(n)
        pieces.append(piece)
        done = []
        for p in pieces:
            convert(p, case['batch'])
            done += p
            check(out, 'features', done, 'f8', 'successive conversions of %s '
                  'by %s' % (pieces, case['batch']), ctx)
        return
    if 'n' in case:
        n, batch = case['n'], case['batch']
        names = NAMES[:n]
        for k, order in enumerate((names, names[::-1],
                                   names[n // 2:] + names[:n // 2])):
            dtype = 'f4' if k == 1 else 'f8'
            save(names, dtype)
            if os.path.exists(out):
                os.remove(out)
            if k == 2:
                seen = []

                def load(path):
                    require(os.path.dirname(path) == folder,
                            'file %s is not in its folder', path)
                    name = os.path.basename(path)[:-4]
                    seen.append(name)
                    t, f = data(name)
                    return {'time': t, 'features': f}
                convert(order, batch, load=load, ext='.any')
                require(sorted(seen) == sorted(order), 'files loaded: %s',
                        seen)
            else:
                convert(order, batch,
                        group='/features/' if k == 0 else 'other')
            check(out, 'features' if k != 1 else 'other', names, dtype,
                  '%d files by batches of %s' % (n, batch), ctx)
        return
    if 'folder' in case:
        names = NAMES[:case['folder']]
        if case['again']:
            # there is already something in the file
            save(['old', 'older'])
            a.convert(folder, out)
            for n in ('old', 'older'):
                os.remove(os.path.join(folder, n + '.npz'))
        save(names)
        if case['folder'] % 2 and not case['again']:
            a.convert(folder)
            os.rename(ctx.path('features.features'), out)
        else:
            a.convert(folder, out)
        ctx.step()
        expected = names + (['old', 'older'] if case['again'] else [])
        if not expected:
            return
        check(out, 'features', expected, 'f8', 'folder of %d files' %
              case['folder'], ctx)
        require(sorted(os.listdir(folder)) == sorted(
            n + '.npz' for n in names), 'the folder is modified')
        return
    if 'loader' in case:
        # a folder of files of another kind, with a function to read them
        names = NAMES[:case['loader']]
        for n in names:
            with open(os.path.join(folder, n + case['ext']), 'w') as f:
                f.write(n)

        def load(path):
            with open(path) as f:
                t, x = data(f.read(), 'f4')
            return {'time': t, 'features': x}
        a.convert(folder, out, load=load)
        ctx.step()
        if not names:
            return
        got = read(out, 'features')
        want = {os.path.splitext(n + case['ext'])[0]: n for n in names}
        if len(want) == len(names):
            require(set(got) == set(want), 'files %s instead of %s',
                    sorted(got), sorted(want))
            for w, n in want.items():
                t, x = data(n, 'f4')
                require(np.array_equal(np.ravel(got[w][0]), t) and
                        np.array_equal(got[w][1], x), 'features of %s', w)
            ctx.state('loader', len(names), case['ext'])
        return
    if 'script' in case:
        names = NAMES[:case['script']]
        save(names)
        for k in range(2):
            p = subprocess.run(
                [sys.executable, '-m', 'ABXpy.misc.any2h5features', folder,
                 out], cwd=ctx.sub(), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                env=dict(os.environ, PYTHONPATH=core.REPO))
            ctx.step()
            require(p.returncode == 0, 'script: %s',
                    p.stdout.decode('utf8', 'replace')[-300:])
            check(out, 'features', NAMES[:case['script'] + 3 * k], 'f8',
                  'script %d' % case['script'], ctx)
            # another folder is appended
            for n in os.listdir(folder):
                os.remove(os.path.join(folder, n))
            save(NAMES[case['script']:case['script'] + 3])
        return
    if 'frames' in case:
        return frames(case['frames'], a, folder, out, ctx)
    names = ['n%04d' % i for i in range(case['many'])]

    def load(path):
        t, f = data(os.path.basename(path)[:-4])
        return {'time': t, 'features': f}
    convert(names, None, load=load)
    check(out, 'features', names, 'f8', '%d files' % case['many'], ctx)


def frames(k, a, folder, out, ctx):
    """files of different numbers of frames, some of them many"""
    sizes = [[1, 40000, 2], [40000, 1, 7000], [255, 256, 257, 1],
             [3000] * 5][k]
    files = {}
    for i, n in enumerate(sizes):
        rng = np.arange(n * 5, dtype='f8').reshape(n, 5)
        files['k%d' % i] = (np.arange(n) * 0.01 + 0.0025, rng * (i + 1))
    for name, (t, f) in files.items():
        np.savez(os.path.join(folder, name + '.npz'), time=t, features=f)
    a.any_to_h5features(folder, [x + '.npz' for x in files], out,
                        '/features/', batch_size=2)
    ctx.step()
    got = read(out, 'features')
    require(set(got) == set(files), 'files %s', sorted(got))
    for name, (t, f) in files.items():
        require(np.array_equal(np.ravel(got[name][0]), t) and
                np.array_equal(got[name][1], f),
                '%d frames of %s are not kept', len(t), name)
    ctx.state('frames', k)
