#!/usr/bin/env python3
"""Mutation self-test: systematic one-token mutants of /repo's sources, each tried against the checks of its function
until one notices. usage: automut.py OUT.txt [file-substring [function-substring]]   (J = parallel mutants, N = sample size, VERIF_SEED)
Lists SURVIVED mutants for review (many are equivalent); 'nocompile' ones are skipped."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/repo/eskf_vio_backend'
SKIP = {'Information', 'RunOnceTest', 'EstimatePoseP3P', 'ErrorStateConvert', 'SetGravityNorm', 'FinalFrameID_'}
MAP = [
    ('src/data_manager/data_loader.cpp', '', 'D01 D02 D03 D04'),
    ('src/data_manager/data_typedef.cpp', '', 'W02 D01 D02 D03'),
    ('src/data_manager/vision_data/feature_manager.cpp', '', 'W02 W03 W04'),
    ('src/data_manager/vision_data/frame_manager.cpp', 'IsKeyFrame|NeedMarg', 'W05'),
    ('src/data_manager/vision_data/frame_manager.cpp', '', 'W01 W04 W02'),
    ('src/geometry/perspective_n_point.cpp', 'RANSAC', 'G04'),
    ('src/geometry/perspective_n_point.cpp', '', 'G03 S01'),
    ('src/geometry/trianglation.cpp', 'Analytic', 'G01'),
    ('src/geometry/trianglation.cpp', '', 'G02'),
    ('src/propagate/attitude_estimate.cpp', 'GetAttitude', 'A03'),
    ('src/propagate/attitude_estimate.cpp', 'CleanOld', 'A04'),
    ('src/propagate/attitude_estimate.cpp', 'SetBias', 'F02'),
    ('src/propagate/attitude_estimate.cpp', '', 'A01 A02'),
    ('src/propagate/sequence_propagator.cpp', 'ResetOrigin', 'K04'),
    ('src/propagate/sequence_propagator.cpp', 'Repropagate', 'K03'),
    ('src/propagate/sequence_propagator.cpp', 'FullError|Initialize|ResetProcess', 'K02 K03'),
    ('src/propagate/sequence_propagator.cpp', '', 'K01 K02'),
    ('src/update/multi_view_vision_update.cpp', 'Reduce|UpdateCovariance|ConstructCov', 'C02 C01'),
    ('src/update/multi_view_vision_update.cpp', 'Expand', 'C01 C02'),
    ('src/update/multi_view_vision_update.cpp', 'Decide', 'W05 C02 W06'),
    ('src/update/multi_view_vision_update.cpp', 'NewestFrame', 'U03 U01 W05 U04'),
    ('src/update/multi_view_vision_update.cpp', 'Update$', 'U04 U03 C02'),
    ('src/update/multi_view_vision_update.cpp', '', 'U01 U05 U02 U03 U04 C03'),
    ('src/backend/backend_config.cpp', '', 'F02'),
    ('src/backend/backend_initialize.cpp', '', 'S01 S02 S03 S04'),
    ('src/backend/backend.cpp', 'Publish', 'S03'),
    ('src/backend/backend.cpp', 'Marginalize|FeatureFrame', 'W06 S01'),
    ('src/backend/backend.cpp', '', 'S01 S02 S03 S04 W06 C03 U04'),
    ('src/config/config.cpp', '', 'F01 F02'),
]
OPS = [
    (r'(?<![<>=!\-])<(?![<=])(?=\s)', ['<=']), (r'<=', ['<']), (r'(?<![\->=])>(?![>=])(?=\s)', ['>=']), (r'>=', ['>']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'(?<=\s)/(?=\s)', ['*']),
    (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\*=', ['/=']),
    (r'\.front\(\)', ['.back()']), (r'\.back\(\)', ['.front()']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'\.transpose\(\)', ['']), (r'\.inverse\(\)', ['']), (r'\.normalized\(\)', ['']), (r'std::fabs', ['']),
    (r'item_0', ['item_1']), (r'item_1', ['item_0']), (r'frame_i', ['frame_j']), (r'frame_j', ['frame_i']),
    (r'\baccel\b', ['gyro']), (r'\bgyro\b', ['accel']), (r'bias_a\b', ['bias_g']), (r'bias_g\b', ['bias_a']),
    (r'\bp_wb\b', ['v_wb']), (r'\bv_wb\b', ['p_wb']), (r'\bimuMeas\b', ['featMeas']), (r'\blastImu', ['lastFeat']), (r'\blastFeat', ['lastImu']),
    (r'MARG_OLDEST', ['MARG_SUBNEW', 'NO_MARG']), (r'MARG_SUBNEW', ['MARG_OLDEST']), (r'INDEX_P\b', ['INDEX_V']), (r'INDEX_R\b', ['INDEX_P']),
    (r'NEED_INIT', ['INITIALIZED']), (r'\bINITIALIZED', ['NEED_INIT']), (r'rows\(\)', ['cols()']), (r'cols\(\)', ['rows()']),
    (r'(?<![\w.])(\d+)(?![\w.]|\.)', ['+1', '-1']), (r'setZero', ['setIdentity']),
]


def sites(rel):
    out = []
    fn = ''
    lines = open(f'{B}/{rel}').read().split('\n')
    for n, l in enumerate(lines):
        m = re.search(r'::(\w+)\(', l)
        if m and re.match(r'    \S', l):
            fn = m.group(1)
            continue
        code = l.split('//')[0]
        if not fn or fn in SKIP or not re.match(r'\s{8}', l) or re.search(r'Log(Info|Debug|Error)|^\s*(/?\*|<<)|transpose\(\) << |reserve|>> |\]\s*\[', code):
            continue
        done = set()
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    t = r
                    if r in ('+1', '-1'):
                        if re.search(r'Matrix<|block<|Rows<|Cols<|Corner<|segment<|head<|tail<', code):
                            continue
                        t = str(int(m.group(0)) + int(r))
                        if int(t) < 0:
                            continue
                    new = l[:m.start()] + t + l[m.end():]
                    if new not in done and new != l:
                        done.add(new)
                        out.append((rel, fn, n, l, new))
        s = code.strip()
        if re.match(r'(this->|\+\+|--|\w[\w\->\.\(\)\*]*(\s*[+\-*]?=|\.|->)|RETURN_)', s) and s.endswith(';') and not re.match(r'(const |return|Vector|Matrix|Quaternion|uint32_t|Scalar|auto|static|fp64|bool)', s):
            out.append((rel, fn, n, l, re.match(r'\s*', l).group(0) + '/* deleted */;'))
        m = re.search(r'\bif \((.*)\) \{', code)
        if m:
            for c in ('true', 'false'):
                out.append((rel, fn, n, l, l.replace('if (' + m.group(1) + ')', 'if (%s)' % c)))
    return out


def one(m):
    rel, fn, n, old, new = m
    checks = next((c for f, p, c in MAP if f == rel and re.search(p, fn)), '').split()
    d = tempfile.mkdtemp(prefix='am_')
    try:
        shutil.copytree(B, d + '/eskf_vio_backend', ignore=shutil.ignore_patterns('build', 'output'))
        p = f'{d}/eskf_vio_backend/{rel}'
        ls = open(p).read().split('\n')
        ls[n] = new
        open(p, 'w').write('\n'.join(ls))
        inc = ' '.join('-I' + x for x in subprocess.check_output(['find', d + '/eskf_vio_backend/include', '-type', 'd'], text=True).split())
        if subprocess.run(f'g++ -std=c++17 -fsyntax-only -w -I/usr/include/eigen3 {inc} {p}', shell=True, capture_output=True).returncode:
            return 'nocompile', m, ''
        rcs = []
        for c in checks:
            r = subprocess.run(['timeout', '600', 'python3', V + '/run.py', c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rcs.append('%s=%d' % (c, r.returncode))
            if r.returncode == 1:
                return 'caught', m, ' '.join(rcs)
        return 'SURVIVED', m, ' '.join(rcs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sub = sys.argv[2] if len(sys.argv) > 2 else ''
    fsub = sys.argv[3] if len(sys.argv) > 3 else ''
    ms = [s for rel in dict.fromkeys(f for f, _, _ in MAP) if sub in rel for s in sites(rel) if fsub in s[1]]
    random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(ms)
    ms = ms[:int(os.environ.get('N', '100000'))]
    print(len(ms), 'mutants', flush=True)
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex, open(sys.argv[1], 'a') as out:
        for kind, m, why in ex.map(one, ms):
            cnt[kind] = cnt.get(kind, 0) + 1
            out.write('%s %s:%d %s [%s]\n    - %s\n    + %s\n' % (kind, m[0], m[2] + 1, m[1], why, m[3].strip(), m[4].strip()))
            out.flush()
    print(cnt)


if __name__ == '__main__':
    main()
