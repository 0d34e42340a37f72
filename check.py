#!/usr/bin/env python3
"""Runs the check of one property.   check.py C01   |   check.py --build-all
   check.py C01 --replay FILE      |   check.py --manifest

Builds the property's harness together with the sources it needs from /repo's
working tree (objects are cached by content hash under build/), runs its
targets, writes evidence/<id>.json.  Exit 0: held; 1: VIOLATION line printed;
2: the check itself could not run."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
H = os.path.join(VERIF, 'harness')
NPROC = os.cpu_count() or 4

from checks_table import CHECKS  # noqa: E402


class BuildError(Exception):
    pass


COMMON = ['-std=c++14', '-O1', '-g', '-fno-omit-frame-pointer', '-w']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=nonnull-attribute,enum,vptr,function'],
    'tsan': ['-fsanitize=thread', '-DVERIF_TSAN'],
    'fuzz': ['-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize-recover=all',
             '-fno-sanitize=nonnull-attribute,enum,vptr,function'],
    'vg': [],  # run under valgrind
}
VARIANT_INC = {'openssl': [], 'boringssl': ['-isystem', '/usr/include/android']}
ANDROID = '/usr/lib/x86_64-linux-gnu/android'
VARIANT_LIB = {
    'openssl': ['-lssl', '-lcrypto'],
    'boringssl': [ANDROID + '/libssl.so', ANDROID + '/libcrypto.so',
                  '-Wl,-rpath,' + ANDROID],
}


def absl_libs():
    out = subprocess.run(['pkg-config', '--libs', 'absl_status', 'absl_statusor', 'absl_str_format',
                          'absl_synchronization', 'absl_flat_hash_map', 'absl_flat_hash_set', 'absl_hash',
                          'absl_flags', 'absl_variant', 'absl_strings'], stdout=subprocess.PIPE, check=True)
    return out.stdout.decode().split()


def is_test(path):
    b = os.path.basename(path)
    return b.endswith('_test.cc') or 'test_util' in b or '/test_util/' in path


def repo_sources(groups):
    """Sources of the named groups, by glob so that new files are picked up."""
    r = []
    for gname in groups:
        if gname == 'crypto':
            r += [f for f in glob.glob(REPO + '/src/crypto/*.cc') if not is_test(f)]
        elif gname == 'hkdf':
            r += [REPO + '/src/crypto/hkdf.cc']
        elif gname == 'aead':
            r += [f for f in glob.glob(REPO + '/src/crypto/*.cc')
                  if not is_test(f) and not f.endswith('/hkdf.cc')]
        elif gname == 'options':
            r += [f for f in glob.glob(REPO + '/src/options/*.cc') if not is_test(f)]
        elif gname == 'token':
            r += [f for f in glob.glob(REPO + '/src/token_manager/*.cc')
                  if not is_test(f) and not os.path.basename(f).startswith('fake_')]
        elif gname == 'handler':
            r += [REPO + '/src/record_protocol/handshake_message_handler.cc']
        elif gname == 'half':
            r += [f for f in glob.glob(REPO + '/src/record_protocol/*.cc')
                  if not is_test(f) and os.path.basename(f) not in
                  ('handshake_message_handler.cc', 's2a_crypter.cc', 's2a_upb_ticket_sender.cc')]
        elif gname == 'record':
            r += [f for f in glob.glob(REPO + '/src/record_protocol/*.cc') if not is_test(f)]
        elif gname == 'frame':
            r += [f for f in glob.glob(REPO + '/src/frame_protector/*.cc') if not is_test(f)]
        elif gname == 'context':
            r += [REPO + '/src/handshaker/s2a_context.cc', REPO + '/src/handshaker/s2a_util.cc']
        elif gname == 'handshaker':
            r += [f for f in glob.glob(REPO + '/src/handshaker/*.cc') if not is_test(f)]
        elif gname == 'sender':
            r += [REPO + '/src/record_protocol/s2a_upb_ticket_sender.cc']
        elif gname == 'util':
            r += [REPO + '/src/handshaker/s2a_util.cc']
        elif gname == 'crypter_util':
            r += [REPO + '/src/record_protocol/s2a_crypter_util.cc']
        elif gname == 'all':
            for d in ('crypto', 'options', 'token_manager', 'record_protocol', 'frame_protector', 'handshaker'):
                r += [f for f in glob.glob(REPO + '/src/' + d + '/**/*.cc', recursive=True)
                      if not is_test(f) and not os.path.basename(f).startswith('fake_')]
        elif gname == 'upb':
            r += glob.glob(REPO + '/src/proto/upb-generated/proto/*.c') + [VERIF + '/shim/upb_shim.c']
        else:
            raise BuildError('unknown group ' + gname)
    return sorted(set(r))


_headers_hash = None


def headers_hash():
    global _headers_hash
    if _headers_hash is None:
        h = hashlib.sha256()
        fs = []
        for d in (REPO + '/src', REPO + '/include', H, VERIF + '/shim'):
            for root, _, names in os.walk(d):
                fs += [os.path.join(root, n) for n in names if n.endswith(('.h', '.hpp', '.inc'))]
        for f in sorted(fs):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
        _headers_hash = h.hexdigest()
    return _headers_hash


def object_for(src, flags, plain=False):
    """(path, command or None if cached)."""
    c = src.endswith('.c')
    cmd = [('clang' if c else 'clang++')] + [x for x in flags if not (c and x.startswith('-std='))]
    h = hashlib.sha256()
    h.update(open(src, 'rb').read())
    h.update(('\0'.join(cmd) + '\0' + src).encode())
    if not plain:
        h.update(headers_hash().encode())
    o = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + h.hexdigest()[:24] + '.o')
    if os.path.exists(o):
        os.utime(o)
        return o, None
    return o, cmd + ['-c', src]


def run_jobs(jobs):
    """jobs: list of (object, cmd)."""
    def one(j):
        o, cmd = j
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(o), suffix='.tmp')
        os.close(fd)
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode and '-std=c++14' in cmd:
            again = ['-std=gnu++17' if x == '-std=c++14' else x for x in cmd]
            p = subprocess.run(again + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')
        os.rename(tmp, o)
        return None
    todo = {o: c for o, c in jobs if c}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, todo.items()) if e]
    if errs:
        raise BuildError(errs[0][:6000])


def proto_gen():
    """C++ protobuf code of the frozen schema (the oracle)."""
    out = os.path.join(BUILD, 'protogen')
    src = sorted(glob.glob(VERIF + '/proto/src/proto/*.proto'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    d = out + '-' + h
    if not os.path.exists(d):
        tmp = tempfile.mkdtemp(dir=BUILD)
        p = subprocess.run(['protoc', '-I', VERIF + '/proto', '--cpp_out', tmp] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode())
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d


def objects(cid, variant, san):
    """(jobs that make the objects of the harness binary, flags of the code under test)."""
    ck = CHECKS[cid]
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    # The same flags for every check, so that they share objects.
    flags = COMMON + SAN[san] + VARIANT_INC[variant] + ['-I' + REPO, '-I' + H, '-I' + VERIF + '/shim']
    jobs = []
    hflags = [('-std=c++17' if f == '-std=c++14' else f) for f in flags]
    if ck.get('proto'):
        d = proto_gen()
        hflags += ['-isystem', d, '-DVERIF_PROTO']
        for f in sorted(glob.glob(d + '/src/proto/*.pb.cc')):
            jobs.append(object_for(f, ['-std=c++17', '-O1', '-w', '-I' + d], plain=True))
    for s in repo_sources(ck['sources']):
        jobs.append(object_for(s, flags))
    for hs in ck['harness']:
        jobs.append(object_for(os.path.join(H, hs), hflags))
    jobs.append(object_for(os.path.join(H, 'pbt_gen.cc'), ['-std=c++17', '-O2', '-w', '-I' + H]))
    jobs.append(object_for(os.path.join(H, 'ref.cc'), ['-std=c++17', '-O2', '-w', '-I' + H]))
    main = 'pbt_fuzz.cc' if san == 'fuzz' else 'pbt_main.cc'
    jobs.append(object_for(os.path.join(H, main), ['-std=c++17', '-O1', '-w', '-I' + H] + SAN[san]))
    if san == 'tsan':
        jobs.append(object_for(os.path.join(H, 'tsan_mutex.cc'), hflags))
    return jobs, flags


def build_all(which):
    """Builds many binaries; returns their paths."""
    plans = [objects(*w)[0] for w in which]
    todo = {}
    for p in plans:
        todo.update({o: c for o, c in p if c})
    run_jobs(list(todo.items()))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda w: build(*w), which))


def build(cid, variant, san):
    """Builds the harness binary and returns its path."""
    ck = CHECKS[cid]
    jobs, flags = objects(cid, variant, san)
    libs = ['-lprotobuf'] if ck.get('proto') else []
    run_jobs(jobs)
    objs = [o for o, _ in jobs]
    key = hashlib.sha256('\0'.join(objs + ck.get('link', []) + [cid, variant, san]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'bin', '%s-%s-%s-%s' % (cid, variant, san, key))
    if not os.path.exists(exe):
        lsan = [f.replace('fuzzer-no-link', 'fuzzer') for f in SAN[san]]
        tail = libs + VARIANT_LIB[variant] + absl_libs() + ['-lpthread', '-ldl']
        cmd = ['clang++'] + lsan + ck.get('link', []) + ['-o', exe + '.tmp'] + objs
        p = subprocess.run(cmd + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            # Code may have moved between files: offer the linker everything else.
            first = p.stdout.decode(errors='replace')
            rest = []
            have = set(repo_sources(ck['sources']))
            for s in repo_sources(['all', 'upb']):
                if s in have:
                    continue
                o, c = object_for(s, flags)
                try:
                    run_jobs([(o, c)])
                    rest.append(o)
                except BuildError:
                    pass
            lib = exe + '.a'
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run(['ar', 'rcs', lib] + rest, check=True)
            p = subprocess.run(cmd + [lib] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError('link: ' + first[:6000] + p.stdout.decode(errors='replace')[:6000])
        os.rename(exe + '.tmp', exe)
    return exe


def dictionary():
    """Integer constants of the code under test, for the size generators."""
    vals = set()
    for root, _, names in os.walk(REPO):
        if '/.git' in root or '/_build' in root or 'upb-generated' in root:
            continue
        for n in names:
            f = os.path.join(root, n)
            if not n.endswith(('.cc', '.h')) or is_test(f):
                continue
            t = re.sub(r'//.*', '', open(f, errors='replace').read())
            for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*(?:(<<|\*)\s*(\d+))?', t):
                v = int(m.group(1), 0) if not re.fullmatch(r'0\d+', m.group(1)) else int(m.group(1), 8) if re.fullmatch(r'0[0-7]+', m.group(1)) else int(m.group(1))
                vals.add(v)
                if m.group(2) == '<<' and int(m.group(3)) < 63:
                    vals.add(v << int(m.group(3)))
                elif m.group(2) == '*':
                    vals.add(v * int(m.group(3)))
    return sorted(v for v in vals if v < 2 ** 63)


def seed_value():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def builds_of(cid):
    """(check whose harness it is, SSL library, sanitizer)"""
    ck = CHECKS[cid]
    if 'of' in ck:
        both = ck.get('both', ck['of'])
        return [(sub, v, ck.get('san', 'asan')) for sub in ck['of'] for v, s in CHECKS[sub]['builds']
                if s == 'asan' and (v == 'openssl' or sub in both)]
    return [(cid, v, s) for v, s in ck['builds']]


def under(san):
    if san != 'vg':
        return []
    return ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no',
            '--track-origins=yes', '--num-callers=16', '--child-silent-after-fork=no']


def run_target(exe, target, cases, seed, workers, max_seconds, dict_file, memory, san):
    d = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    try:
        env = dict(os.environ, PBT_DICT=dict_file)
        if '-tsan-' in os.path.basename(exe):
            env['PBT_CONFIRM'] = '1'
        if memory:
            env['PBT_MEMORY'] = '1'
        p = subprocess.run(under(san) + [exe, '--run', target, '--seed', str(seed), '--cases', str(cases),
                            '--workers', str(workers), '--dir', d, '--max-seconds', str(max_seconds)],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            return json.load(open(d + '/result.json'))
        except (OSError, ValueError):
            return {'error': 'runner failed (%d): %s' % (p.returncode, p.stdout.decode(errors='replace')[-2000:])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun(exe, target, cases, seed, workers, dict_file, memory, san, failure):
    """A failure that its own case does not bring back (it depends on memory left behind by other cases, or on the
    schedule) is confirmed by running the whole target again: it must fail again."""
    for _ in range(2):
        r = run_target(exe, target, cases, seed, workers, 60.0, dict_file, memory, san)
        f = r.get('failure')
        if not f or 'HANG' in f['first_message']:
            continue
        if f['confirmed']:
            return f
        return dict(f, confirmed=True, message=f['first_message'],
                    replay='target %s\nkind rerun\nrerun %d %d %d\n' % (target, seed, cases, workers))
    return failure


def run_fuzz(exe, runner, target, seed, seconds, dict_file):
    """libFuzzer on one target; returns (executions, replay text or None, message)."""
    d = tempfile.mkdtemp(prefix='fuzz.', dir=BUILD)
    try:
        procs = []
        for w in range(NPROC):
            os.makedirs('%s/c%d' % (d, w))
            env = dict(os.environ, PBT_TARGET=target, PBT_DICT=dict_file,
                       ASAN_OPTIONS='detect_leaks=0')
            log = open('%s/log%d' % (d, w), 'wb')
            procs.append((subprocess.Popen(
                [exe, '-seed=%d' % (seed * 1000 + w + 1), '-max_total_time=%d' % seconds, '-max_len=4096',
                 '-timeout=120', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=%s/art%d-' % (d, w),
                 '%s/c%d' % (d, w)], env=env, stdout=log, stderr=log), log))
        for p, log in procs:
            p.wait()
            log.close()
        execs = 0
        for w in range(NPROC):
            m = re.findall(r'number_of_executed_units: (\d+)', open('%s/log%d' % (d, w), errors='replace').read())
            execs += int(m[-1]) if m else 0
        for a in sorted(glob.glob(d + '/art*')):
            if os.path.basename(a).split('-')[1] in ('oom', 'slow', 'timeout'):
                continue
            rep = d + '/rep'
            p = subprocess.run([runner, '--from-bytes', a, '--target', target, '--out', rep],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0 and os.path.exists(rep):
                fails = sum(subprocess.run([runner, '--replay', rep], stdout=subprocess.DEVNULL,
                                           stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
                if fails == 3:
                    return execs, open(rep).read(), p.stdout.decode(errors='replace')[-1500:]
        return execs, None, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_replay(cid, of, variant, san, target, text, message, case):
    os.makedirs(VERIF + '/replays', exist_ok=True)
    path = '%s/replays/%s-%s-%s.replay' % (VERIF, cid, target, variant)
    with open(path, 'w') as f:
        f.write('# property %s; replay with: python3 check.py %s --replay %s\n' % (cid, cid, path))
        f.write('of %s\nvariant %s\nsan %s\n' % (of, variant, san))
        f.write(text)
        for l in ('failure: ' + message + '\ncase: ' + case).splitlines():
            f.write('# ' + l + '\n')
    return path


def check(cid):
    ck = CHECKS[cid]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    seed = seed_value()
    t0 = time.time()
    evidence = os.path.join(VERIF, 'evidence', cid + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    prune()
    fd, dict_file = tempfile.mkstemp(prefix='dict.', dir=BUILD)
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(map(str, dictionary())))
    runs, samples, details, labels = [], [], [], {}
    evaluations, distinct_of = 0, {}
    violation = None
    errors = []
    try:
        plan = []
        which = builds_of(cid)
        for (of, variant, san), exe in zip(which, build_all(which)):
            out = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, check=True).stdout.decode()
            for line in out.splitlines():
                name, q, t = line.split()
                only = os.environ.get('VERIF_TARGET')
                if only and only != name or 'of' in ck and name.startswith('huge_'):
                    continue
                cases = int(t if tier == 'thorough' else q)
                plan.append((of, variant, san, exe, name, max(min(cases, 50), cases // ck.get('share', 1))))
        t_build = time.time() - t0
        budget = 480.0 if tier == 'quick' else 5400.0
        many = 'of' in ck  # many short targets: several at a time
        workers = 2 if many else min(NPROC, ck.get('workers', NPROC))

        def run(i):
            of, variant, san, exe, name, cases = plan[i]
            left = budget - (time.time() - t0 - t_build)
            cap = max(8.0, left / (len(plan) - i) * (8 if many else 2.5))
            return run_target(exe, name, cases, seed, workers, min(cap, max(left, 8.0)), dict_file, many, san)

        pool = cf.ThreadPoolExecutor(max(1, NPROC // workers) if many else 1)
        results = (pool.submit(run, i) for i in range(len(plan)))
        if many:
            results = list(results)
        for (of, variant, san, exe, name, cases), future in zip(plan, results):
            shown = of + ':' + name if many else name
            r = future.result()
            if 'error' in r or r.get('infra_error'):
                errors.append('%s/%s: %s' % (variant, shown, r.get('error', 'worker killed from outside')))
                continue
            evaluations += r['evaluations']
            # The builds of a target generate the same cases: count them once.
            distinct_of[shown] = max(distinct_of.get(shown, 0), r['distinct_nontrivial'])
            details.append({k: r[k] for k in ('target', 'rule', 'requested', 'evaluations', 'nontrivial',
                                              'distinct_nontrivial', 'capped', 'wall_s', 'labels')} |
                           {'target': shown, 'build': variant + '/' + san})
            samples += [{'target': shown, 'build': variant, 'case': s} for s in r['samples'][:2]]
            f = r.get('failure')
            if f:
                if not f['confirmed'] and 'HANG' not in f['first_message']:
                    f = rerun(exe, name, cases, seed, workers, dict_file, many, san, f)
                if f['confirmed'] or (san == 'tsan' and 'ThreadSanitizer: data race' in f['first_message']):
                    violation = write_replay(cid, of, variant, san, name, f['replay'], f['message'], f['case'])
                    print('%s [%s/%s] %s\n  case: %s' % (cid, variant, shown, f['message'], f['case']))
                    break
                errors.append('%s/%s: a failure did not replay: %s' % (variant, shown, f['first_message']))
        pool.shutdown(cancel_futures=True)
        if tier == 'thorough' and not violation and not errors and ck.get('fuzz', True):
            fuzz_total = float(os.environ.get('VERIF_FUZZ_SECONDS', '900'))
            fplan = [(v, exe, n) for _, v, s, exe, n, _ in plan if s == 'asan' and not n.startswith('huge_')]
            per = max(15, int(fuzz_total / max(1, len(fplan))))
            for variant, exe, name in fplan:
                fexe = build(cid, variant, 'fuzz')
                execs, rep, msg = run_fuzz(fexe, exe, name, seed, per, dict_file)
                evaluations += execs
                details.append({'target': name, 'build': variant + '/libFuzzer', 'evaluations': execs, 'seconds': per})
                if rep:
                    violation = write_replay(cid, cid, variant, 'asan', name, rep, msg, '')
                    print('%s [%s/%s libFuzzer] %s' % (cid, variant, name, msg))
                    break
    except BuildError as e:
        print('BUILD FAILED for %s:\n%s' % (cid, e), file=sys.stderr)
        return 2
    finally:
        os.unlink(dict_file)
    distinct = sum(distinct_of.values())
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': distinct,
            'rule': ck['rule'],
            'samples': samples[:12] or ['none'],
            'targets': details,
        },
        'assumptions': ck.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': 1 if violation else 0,
    }
    with open(evidence + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(evidence + '.tmp', evidence)
    if violation:
        print('VIOLATION property=%s replay=%s' % (cid, violation))
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.0f s' % (cid, evaluations, distinct, time.time() - t0))
    return 0


def replay(cid, path):
    v = s = None
    of = cid
    for l in open(path):
        w = l.split()
        if len(w) == 2 and w[0] == 'variant':
            v = w[1]
        if len(w) == 2 and w[0] == 'san':
            s = w[1]
        if len(w) == 2 and w[0] == 'of':
            of = w[1]
    exe = build(of, v, s)
    again = re.search(r'^target (\S+)\nkind rerun\nrerun (\d+) (\d+) (\d+)$', open(path).read(), re.M)
    if again:
        name, seed, cases, workers = again.group(1), *map(int, again.groups()[1:])
        with tempfile.NamedTemporaryFile('w', dir=BUILD, suffix='.dict') as d:
            d.write('\n'.join(map(str, dictionary())))
            d.flush()
            r = run_target(exe, name, cases, seed, workers, 120.0, d.name, of != cid, s)
        if r.get('failure'):
            print(r['failure']['first_message'])
            print('VIOLATION property=%s replay=%s' % (cid, path))
            return 1
        return 0
    env = dict(os.environ, PBT_MEMORY='1') if of != cid else None
    p = subprocess.run(under(s) + [exe, '--replay', path], env=env, stdout=subprocess.PIPE)
    print(p.stdout.decode(errors='replace'))
    if p.returncode == 1:
        print('VIOLATION property=%s replay=%s' % (cid, path))
    return p.returncode


def prune():
    """Keeps the object cache below about 3 GB."""
    fs = [os.path.join(BUILD, d, f) for d in ('obj', 'bin') if os.path.isdir(os.path.join(BUILD, d))
          for f in os.listdir(os.path.join(BUILD, d))]
    st = []
    for f in fs:
        try:
            s = os.stat(f)
            st.append((s.st_mtime, s.st_size, f))
        except OSError:
            pass
    total = sum(x[1] for x in st)
    for m, size, f in sorted(st):
        if total < 3e9:
            break
        if time.time() - m > 3600:
            os.unlink(f)
            total -= size


def main():
    a = [x for x in sys.argv[1:] if x != '--thorough']
    if a == ['--build-all']:
        os.makedirs(BUILD, exist_ok=True)
        build_all(sorted({w for cid in CHECKS for w in builds_of(cid)}))
        return 0
    if len(a) == 3 and a[1] == '--replay':
        return replay(a[0], os.path.abspath(a[2]))
    if len(a) != 1 or a[0] not in CHECKS:
        print(__doc__)
        return 2
    return check(a[0])


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('BUILD FAILED:\n%s' % e, file=sys.stderr)
        sys.exit(2)
