"""writes a synthetic discreteLevels.dat (the real one is not part of the repository): deterministic, covers ground-state-only nuclei,
isomers, internal conversion, several branches, and leaves some nuclei out"""
import random
def write(path, seed=7):
    r = random.Random(seed)
    with open(path, 'w') as f:
        f.write('# synthetic level scheme\n')
        for Z in range(26, 74):
            for A in range(int(2.05 * Z), int(2.85 * Z)):
                if (Z * 7 + A * 3) % 23 == 0: continue
                odd = A % 2
                nol = 1 if (Z + A) % 9 == 0 else r.randint(2, 14)
                f.write('%6s%6d%5d\n' % ('', 1000 * Z + A, nol))
                e = 0.
                for i in range(nol):
                    if i: e += r.uniform(0.03, 0.45)
                    sp = (0. if not odd and Z % 2 == 0 and i == 0 else r.randint(0, 5) + 0.5 * odd)
                    p = 1 if i == 0 else r.choice((-1, 1))
                    hl = 0. if r.random() < 0.7 else 10 ** r.uniform(-12, -4)
                    ng = 0 if i == 0 or r.random() < 0.1 else r.randint(1, min(i, 4))
                    fs = sorted(r.sample(range(i), ng)) if ng else []
                    f.write('%10.6f%5.1f%3d%13.3e%3d\n' % (e, sp, p, hl, ng))
                    w = [r.uniform(0.05, 1) for _ in fs]
                    for x, y in zip(fs, w):
                        f.write('%3d%9.3e%10.3e\n' % (x, y / sum(w), 0. if r.random() < 0.6 else 10 ** r.uniform(-4, 1)))
if __name__ == '__main__':
    import sys; write(sys.argv[1])
