"""The harness jobs that decide each property, with their bounds."""
MD64 = ['md5_128', 'sha1_160', 'ripemd_128', 'ripemd_160', 'sha2_256', 'sha2_224']
MD128 = ['sha2_512', 'sha2_384', 'sha2_512_224', 'sha2_512_256']
MD = MD64 + MD128
HM = ['hmac_' + a for a in MD]
FNV, SIP, XX = ['fnv1a_32', 'fnv1a_64'], ['siphash_32', 'siphash_64'], ['xxhash_32', 'xxhash_64']
LEG = ['murmur3_32', 'murmur3_128', 'spooky2_128']
FAST = FNV + SIP + XX + LEG
ALL = MD + HM + FAST
SLOW = MD + HM
BLK = dict(fnv1a_32=1, fnv1a_64=1, siphash_32=4, siphash_64=8, xxhash_32=16, xxhash_64=32, murmur3_32=4, murmur3_128=16, spooky2_128=192)
for _a in MD64: BLK[_a] = BLK['hmac_' + _a] = 64
for _a in MD128: BLK[_a] = BLK['hmac_' + _a] = 128

class Job:
    def __init__(self, name, units, bounds, target='rt', ub=False, std=17, shards=1, covers=('end',), maxtime=600, timeout_ms=60000, samples=2, sample_every=4, weight=1, known=None, san='asan'):
        self.name, self.units, self.bounds, self.target, self.ub, self.std, self.shards = name, units, bounds, target, ub, std, shards
        self.covers, self.maxtime, self.timeout_ms, self.samples, self.sample_every, self.weight, self.known, self.san = list(covers), maxtime, timeout_ms, samples, sample_every, weight, known, san

def sh_(a, m=4):
    """shards for a harness over algorithm a: more for costlier ones"""
    if a in FAST: return 1
    return m * (4 if a in HM and a[5:] in MD128 + ['sha2_256', 'sha2_224'] else 2 if a in HM else 1)
def wt(a): return 0 if a in FAST else 1 + (a in HM) * 2 + ('sha2' in a) * 2 + ('sha2_5' in a or 'sha2_384' in a)
def D(**k): return ['-D%s%s' % (a, '' if b is True else '=%s' % b) for a, b in k.items()]
def lst(x): return ','.join(map(str, sorted(set(x))))

def pads(a):
    """lengths around every boundary of the algorithm's block and padding"""
    b = BLK[a]
    if a in SLOW:
        p = b - (8 if b == 64 else 16)
        return [0, 1, 2, 3, 4, 7, 8, 9, b // 2, p - 1, p, p + 1, b - 1, b, b + 1, b + p - 1, b + p, 2 * b - 1, 2 * b, 2 * b + 1]
    return None

def conf(a, mode, lens=None, mx=None, slens=None, target='rt', tag='', **kw):
    d = D(VF_ALG=a, VF_MODE=mode)
    if lens is not None: d += ['-DVF_LENLIST', '-DVF_LENS=' + lst(lens)]; b = 'message lengths %s' % lst(lens)
    else: d += D(VF_MAX=mx); b = 'every message length 0..%d' % mx
    top = max(lens) if lens is not None else mx
    top = max([top] + list(slens or []))
    if top > 1000: d += ['-DREF_CAP=%d' % (top + 1536)]
    if slens is not None: d += ['-DVF_SLENS=' + lst(slens)]; b += '; byte seed lengths ' + lst(slens)
    b += {0: '; default constructed', 1: '; all 2^64 integer seeds', 2: '; all contents of the byte seed', 3: '; all pairs of 64 bit seeds'}[mode] + '; all message contents'
    return Job('conf-%s-m%d%s%s' % (a, mode, '' if target == 'rt' else '-' + target, tag), [('conf.cpp', d)], b, target=target, **kw)

def simple(h, a, bounds, target='rt', tag='', std=17, ub=False, **kw):
    cov = kw.pop('covers', ('end',)); d = D(VF_ALG=a) + kw.pop('defs', [])
    return Job('%s-%s%s%s%s' % (h, a, '' if target == 'rt' else '-' + target, '-ub' if ub else '', tag), [(h + '.cpp', d)], bounds, target=target, std=std, ub=ub, covers=cov, **kw)

def obj(h, defs, bounds, tag='', target='rt', ub=False, covers=(), stubs=True, **kw):
    d = list(defs) + (['-DVF_STUBS'] if stubs else [])
    return Job('%s%s%s%s' % (h, tag, '' if target == 'rt' else '-' + target, '-ub' if ub else ''), [(h + '.cpp', d)], bounds, target=target, ub=ub, covers=covers, **kw)

def big(a, target='rt', **kw):
    if a == 'spooky2_128': d, b = ['-DVF_NPOW2=1'], 'nine chosen block counts up to 2^50+7'
    elif 'sha' in a: d, b = ['-DVF_NMASK=0x0fffffffffffffffull'], 'every total that is a multiple of the block size below 2^60 bytes'
    else: d, b = ['-DVF_NMASK=~0ull'], 'every total that is a multiple of the block size up to 2^64-4096 bytes'
    return simple('big', a, b + ', plus tails of eight lengths; all contents of the last block and the tail', target=target, defs=d, **kw)

def count(lo, hi, **kw):
    return Job('count%d-%d' % (lo, hi), [('count.cpp', ['-DVF_STUBS', '-DVF_FORM=%d, %d' % (lo, hi)])], 'containers of 127, 128, 255, 256, 257, 300, 32768, 65536, 65537 elements (node containers, unordered ones and fixed sizes up to 300), five flavors, all element values', std=20, shards=8, covers=kw.pop('covers', ()), **kw)

def huge(a, forms='0, 3'):
    e = 36 if a in XX + ['spooky2_128'] else 35 if a in LEG else 33
    return simple('huge', a, 'updates and byte seeds of 2^e + r bytes, 16 <= e <= %d, every r < 2^16: none returns before it has read past the start of its buffer' % e, defs=D(VF_E=e) + ['-DVF_FORMS=' + forms], covers=('reads on',), samples=0, san='plain', shards=sh_(a, 1))

def bulk(a, L, forms='0'):
    return simple('bulk', a, 'one update of %d bytes against the same bytes in pieces of 10009, all contents' % L, defs=D(VF_LEN=L, VF_PIECE=10009, VF_FORMS=forms), covers=('end',), samples=1, weight=3, maxtime=1500)

def upto(n): return list(range(n + 1))
BIGL = [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025]  # where a length kept in too few bits would show
HUGE = [4095, 4096, 4097, 16385, 65535, 65536, 65537]
CROSS = ['be64', 'be32', 'le32']
def q(tier, a, b): return a if tier == 'quick' else b

def jobs(p, tier):
    Q = tier == 'quick'; r = []
    if p in ('C01', 'C02'):
        for a in (['md5_128', 'sha1_160', 'ripemd_128', 'ripemd_160'] if p == 'C01' else ['sha2_256', 'sha2_224'] + MD128):
            b = BLK[a]
            r.append(conf(a, 0, lens=upto(3 * b + 9) + [1024 - 9, 1024, 1025] if Q else upto(12 * b) + [4095, 4096, 4097, 16384], shards=q(tier, 4, 32), maxtime=3000))
    elif p == 'C03':
        for a in SIP:
            k = 16 if a == 'siphash_64' else 8
            r.append(conf(a, 2, lens=q(tier, upto(300) + BIGL + HUGE, upto(1500) + HUGE), slens=[k])); r.append(conf(a, 1, lens=q(tier, upto(100) + BIGL, upto(1500) + HUGE))); r.append(conf(a, 0, lens=q(tier, upto(100) + BIGL + HUGE, upto(1500) + HUGE)))

    elif p == 'C04':
        for a in XX: r.append(conf(a, 1, lens=q(tier, upto(300) + BIGL + HUGE, upto(1500) + HUGE), shards=8)); r.append(conf(a, 0, lens=q(tier, upto(100) + BIGL + HUGE, upto(1500) + HUGE)))
    elif p == 'C05':
        for a in FNV: r.append(conf(a, 0, lens=q(tier, upto(300) + BIGL + HUGE, upto(1000) + HUGE))); r.append(conf(a, 1, lens=q(tier, upto(60) + BIGL, upto(300) + HUGE)))
    elif p == 'C06':
        for a in HM:
            b = BLK[a]; pd = b - (8 if b == 64 else 16)
            r.append(conf(a, 2, lens=q(tier, [0, 1, pd], [0, 1, 2, 8, pd - 1, pd, b - 1, b, b + 1]), slens=q(tier, [0, 1, 20, b - 1, b, b + 1, 2 * b + 3, 255, 257, 513, 1025, 2049], list(range(0, 20)) + [b // 2, pd, b - 2, b - 1, b, b + 1, b + 2, b + pd, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4097]), shards=q(tier, 2, 8), covers=('end', 'empty seed')))
            if not Q: r.append(conf(a, 1, lens=[0, 1, 9, b], shards=2)); r.append(conf(a, 0, lens=[0, 1, 9, b, 2 * b]))
    elif p == 'C07':
        r.append(conf('murmur3_32', 1, lens=q(tier, upto(100) + BIGL + HUGE, upto(600) + HUGE))); r.append(conf('murmur3_128', 3, lens=q(tier, upto(100) + BIGL, upto(600)))); r.append(conf('murmur3_128', 3, lens=[4096, 16385, 65536], tag='-long', shards=3)); r.append(conf('murmur3_128', 1, lens=q(tier, upto(36), upto(120))))
        sp = q(tier, upto(400) + [575, 576, 577, 768, 1025] + HUGE, upto(1600) + HUGE)
        r.append(conf('spooky2_128', 3, lens=sp, shards=8)); r.append(conf('spooky2_128', 0, lens=upto(200) + [383, 384, 385]))
        for a in ('murmur3_32', 'murmur3_128'): r.append(conf(a, 0, mx=q(tier, 36, 80)))
    elif p == 'C08':
        for a in ALL:
            st = 1
            if Q: st = {1: 1, 4: 1, 8: 1, 16: 1, 32: 3, 64: 9, 128: 17, 192: 11}[BLK[a]] if a not in HM else {64: 21, 128: 43}[BLK[a]]
            r.append(simple('split', a, 'three states (fresh, all integer seeds, after a result); prefixes of length 0, %d, 2*%d, ... below the block size; 9 second and 5 third part lengths around the block boundary; all contents' % (st, st), defs=D(VF_ASTEP=st), covers=('default', 'seeded', 'after result', 'block completed by the second update'), shards=sh_(a, q(tier, 4, 16)), weight=wt(a), maxtime=q(tier, 600, 3000)))
        for a in ALL: r.append(bulk(a, q(tier, (1 << 20) + 17, (1 << 21) + 4099) if a not in MD + HM else q(tier, 65553, (1 << 17) + 4099)))
    elif p == 'C09':
        for a in MD + HM + SIP + XX + LEG: r.append(big(a))
        for a in XX + LEG + SIP: r.append(big(a, target='le32'))
        if not Q:
            for a in MD + HM: r.append(big(a, target='le32'))
    elif p == 'C10':
        for a in ALL:
            b = BLK[a]; s = a in SLOW
            sl = q(tier, [0, 1, 3, 8, b - 1, b, b + 1] if s else [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 33], list(range(0, 34)) + [b - 1, b, b + 1, 2 * b + 1])
            r.append(conf(a, 1, lens=q(tier, [0, 9], [0, 1, 9, b, b + 1]))); r.append(conf(a, 2, lens=q(tier, [1] if s else [0, 9], [0, 1, 9, b]), slens=sl, covers=('end', 'empty seed')))
    elif p == 'C11':
        for a in SIP + XX + ['murmur3_128', 'spooky2_128']:
            r.append(simple('distinct', a, 'all pairs of different 64 bit seeds' + (', except those of known finding C11-xxh32' if a == 'xxhash_32' else ''), defs=D(VF_ALG_IS_XXH32=1) if a == 'xxhash_32' else []))
        r.append(simple('distinct', 'xxhash_32', 'the seed pairs of the known finding', tag='-known', defs=D(VF_ALG_IS_XXH32=1, VF_KNOWN=1), known='C11-xxh32'))
    elif p == 'C12':
        for a in ALL: r.append(simple('seq', a, 'update, result, update, result, result, update, result, result with lengths around the block and padding boundaries; default and all integer seeds; all contents', covers=('default', 'seeded'), shards=sh_(a, q(tier, 4, 8)), weight=wt(a)))
    elif p == 'C13':
        for a in ALL: r.append(simple('copy', a, 'five ways of copying, before and after a result, at six positions in a block; all seeds and contents', covers=('after a result', 'mid message'), shards=sh_(a, 2), weight=wt(a)))
    elif p == 'C14':
        for a in MD + HM + FNV + SIP + XX:
            d = D(VF_DUAL_ALG=1, VF_ALG=a)
            r.append(Job('dual-' + a, [('dual.cpp', d), ('dual_part.cpp', d), ('dual_part.cpp', d + ['-DVF_CX', '-Dhash2=hash2_cx'])], 'three constructors, all seeds, keys of seven lengths; updates of 6 x 4 x 3 lengths; all contents', covers=('default', 'integer seed', 'byte seed'), shards=sh_(a, 2), weight=wt(a)))
        d = D(VF_DUAL_ALG=0) + ['-DVF_STUBS']
        r.append(Job('dual-append', [('dual.cpp', d), ('dual_part.cpp', d), ('dual_part.cpp', d + ['-DVF_CX', '-Dhash2=hash2_cx'])], 'twelve type groups, four flavors, up to four elements, all values except NaN', shards=8, covers=('scalars', 'floats', 'arrays', 'string', 'vector, list', 'std::array', 'tuple', 'described', 'tag_invoke', 'unordered', 'digest', 'integral')))
    elif p == 'C15':
        for t in CROSS:
            for a in q(tier, ['md5_128', 'sha1_160', 'ripemd_160', 'sha2_256', 'sha2_512', 'hmac_sha2_256'], MD + HM):
                b = BLK[a]; pd = b - (8 if b == 64 else 16)
                r.append(conf(a, 1, lens=q(tier, [0, 5, pd], [0, 1, 5, pd - 1, pd, b - 1, b, b + 1, 2 * b]), target=t))
                if not Q: r.append(conf(a, 2, lens=[5], slens=[0, 1, 7, 8, 16, b, b + 1], target=t, covers=('end', 'empty seed'))); r.append(big(a, target=t))
            for a in FAST:
                b = BLK[a]
                r.append(conf(a, 1, lens=list(range(0, q(tier, 10, 40))) + [b - 1, b, b + 1, 2 * b + 5], target=t)); r.append(conf(a, 2, lens=[0, 5, b + 1], slens=[0, 1, 4, 5, 8, 9, 16, 17], target=t, covers=('end', 'empty seed')))
                if a not in FNV and not (t == 'le32' and Q): r.append(big(a, target=t))
            r.append(obj('scalar', D(VF_PART=18), 'all values', '18', t)); r.append(obj('scalar', D(VF_PART=19), 'all values', '19', t))
            r.append(obj('range', D(VF_MAXN=1), 'containers of up to one element', '', t, shards=2)); r.append(obj('unordered', D(VF_MAXN=1), 'up to one element', '', t))
            r.append(obj('composite', [], 'all member values', '', t)); r.append(obj('integral', [], 'all 64 bit results', '', t))
            r.append(obj('inject', D(VF_MAXN=2), 'up to two elements', '', t))
    elif p == 'C16':
        for a in ALL: r.append(simple('ub', a, 'six constructors, three alignments, updates of 7 x 4 lengths with empty and null updates between, results and copies; exact buffers; all contents', ub=True, shards=sh_(a, 2), weight=wt(a)))
        for h, d, b in (('scalar', D(VF_PART=18), 'all values'), ('scalar', D(VF_PART=19), 'all values'), ('range', D(VF_MAXN=q(tier, 1, 2)), 'small containers'), ('unordered', D(VF_MAXN=2), 'small containers'), ('composite', [], 'all values'), ('inject', D(VF_MAXN=2), 'small containers'), ('digest', [], 'all values'), ('integral', [], 'all values')):
            r.append(obj(h, d, b, d[0][-2:] if h == 'scalar' else '', ub=True, shards=8 if h in ('range', 'digest') else 1))
    elif p == 'C17':
        for a in ALL: r.append(simple('leak', a, 'messages of 17 lengths from 1 byte to more than two blocks, first and second message of an object, and byte seeds; all contents', covers=('message', 'second message', 'seed') if BLK[a] > 1 and a not in ('murmur3_32', 'murmur3_128', 'spooky2_128') else ('message', 'second message')))
    elif p == 'C18': r.append(obj('scalar', D(VF_PART=18), 'all values of every scalar type, five flavors', '18'))
    elif p == 'C19': r.append(obj('scalar', D(VF_PART=19), 'all float and double values and pairs of values, NaN excluded, five flavors', '19'))
    elif p == 'C20':
        r.append(obj('range', D(VF_MAXN=q(tier, 2, 4)), 'containers of up to %d elements of every kind, five flavors, all element values' % q(tier, 2, 4), shards=8))
        r.append(Job('range-cx', [('range.cpp', D(VF_MAXN=q(tier, 1, 2)) + ['-DVF_STUBS', '-DVF_CX'])], 'the same in the code of constant evaluation', shards=4, covers=()))
        r.append(count(0, 8, covers=('contiguous', 'fixed size', 'forward_list, deque', 'input', 'random access', 'span', 'unordered', 'vector, list', 'vector<bool>, nested')))
    elif p == 'C21':
        r.append(count(7, 7, covers=('unordered',))); r.append(obj('unordered', D(VF_MAXN=q(tier, 3, 5)), 'up to %d elements, every transposition' % q(tier, 3, 5), shards=q(tier, 1, 8)))
    elif p == 'C22':
        r.append(obj('composite', [], 'all member values, five flavors'))
    elif p == 'C23': r.append(obj('inject', D(VF_MAXN=q(tier, 3, 5)), 'pairs of values of each type with up to %d elements' % q(tier, 3, 5), shards=q(tier, 2, 8)))
    elif p == 'C24':
        r.append(obj('scalar', D(VF_PART=18), 'all values', '18')); r.append(obj('composite', [], 'all member values, five flavors')); r.append(obj('range', D(VF_MAXN=q(tier, 2, 3)), 'contiguous containers', shards=8)); r.append(count(0, 0)); r.append(count(5, 6))
    elif p == 'C25':
        r.append(obj('digest', [], 'digests of every harness size, all contents', shards=8, stubs=False))
        r.append(Job('digest-cx', [('digest.cpp', ['-DVF_CX'])], 'the same in the code of constant evaluation', shards=8, covers=()))
    elif p == 'C26': r.append(obj('integral', [], 'all 64 bit results, all target types'))
    else: raise SystemExit('unknown property ' + p)
    own = dict(C01=MD[:4], C02=MD[4:], C03=SIP, C04=XX, C05=FNV, C06=HM, C07=LEG, C08=ALL, C09=MD + HM + SIP + XX + LEG)
    for a in own.get(p, []): r.append(huge(a, '0, 2' if p in ('C08', 'C09') else '0, 3'))
    if p == 'C10':
        for a in ALL: r.append(huge(a, '3, 3'))
    names = [j.name for j in r]; assert len(set(names)) == len(names), names
    return r

ASSUME = ['the IR that clang 18 emits at -O1 for this target is what is decided; gcc and other optimisation levels are not',
          'the engine (engine/*.hpp, engine/symex.cpp), Z3 4.8.12 and the specification models in spec/ are trusted; sampled paths are validated natively in each run',
          'allocation succeeds; exceptions are compiled out']
def assume(p):
    return {}.get(p, [])
def outside(p):
    return []
