"""Compare pyded/h5model.py with the real h5py on random operation sequences.
python3-vt tools/selftest_h5.py [n]   (the real library runs in /opt/venv/bin/python, in a scratch directory)"""
import json, os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

NAMES = ['a', 'b', '/a', 'a/b', '/a/b', 'a//b', 'a/c', '/b/a', 'c', 'b/c/a', '/c', 'a/b/c']


def script(rng):
    ops = []
    for _ in range(rng.randint(4, 20)):
        k = rng.choice(['group', 'require', 'new', 'newshape', 'new64', 'del', 'in', 'get', 'set', 'sub'])
        ops.append([k, rng.choice(NAMES), rng.choice(NAMES), [round(rng.uniform(-3, 3), 3) for _ in range(4)]])
    return ops


def play(f, ops):
    out = []
    for k, a, b, v in ops:
        try:
            if k == 'group':
                f.create_group(a)
                r = 'ok'
            elif k == 'require':
                f.require_group(a)
                r = 'ok'
            elif k == 'new':
                f.create_dataset(a, data=v)
                r = 'ok'
            elif k == 'newshape':
                d = f.create_dataset(a, (2, 4))
                d[1] = v
                d[0] = v
                r = 'ok'
            elif k == 'new64':
                d = f.create_dataset(a, (2, 4), dtype='float64')
                d[1] = v
                d[0] = v
                r = 'ok'
            elif k == 'del':
                del f[a]
                r = 'ok'
            elif k == 'in':
                r = bool(a in f)
            elif k == 'get':
                x = f[a]
                r = [float(y) for y in x[:].ravel()] if hasattr(x, 'shape') else 'group'
            elif k == 'set':
                x = f[a]
                if hasattr(x, 'shape'):
                    x[0] = 1.1
                    r = 'ok'
                else:
                    r = 'group'
            elif k == 'sub':
                x = f[a]
                if hasattr(x, 'shape'):
                    r = 'data'
                else:
                    r = bool(b in x)
                    if not r:
                        x.create_dataset(b, data=v)
        except Exception as e:
            r = 'raises'
        out.append(r)
    return out


if __name__ == '__main__':
    if sys.argv[1:2] == ['--real']:
        import h5py
        out = []
        for i, ops in enumerate(json.load(sys.stdin)):
            f = h5py.File('t%d.h5' % i, 'w')
            out.append(play(f, ops))
            f.close()
            os.remove('t%d.h5' % i)
        print(json.dumps(out))
    else:
        import numpy as np
        from pyded import h5model

        class C:
            symbolic = False

            def vec(self, n, f):
                return np.zeros(n)
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        scripts = [script(rng) for _ in range(int(sys.argv[1]) if sys.argv[1:] else 400)]
        model = [play(h5model.FS(C(), ['x']).module.File('x', 'r+'), s) for s in scripts]
        with tempfile.TemporaryDirectory() as d:
            p = subprocess.run(['/opt/venv/bin/python', os.path.abspath(__file__), '--real'], input=json.dumps(scripts), capture_output=True, text=True, cwd=d)
        real = json.loads(p.stdout)
        bad = [(s, m, r) for s, m, r in zip(scripts, model, real) if m != r]
        print('%d sequences, %d differ' % (len(scripts), len(bad)))
        for s, m, r in bad[:3]:
            for o, x, y in zip(s, m, r):
                print('  ', o, x, y, '' if x == y else '<---')
        sys.exit(bool(bad))
