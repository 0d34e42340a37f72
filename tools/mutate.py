#!/usr/bin/env python3
"""mutate.py OUT [-w WORKERS] [-n MAX_PER_FILE] [FILE...]: mutation testing of the checks (development aid).
Makes small edits in copies of /repo, runs the checks of the edited file against each, and appends the edits which no
check noticed to OUT.  Works in scratch copies of /repo and /verif under /tmp/mut, removed at the end."""
import os, random, re, shutil, subprocess, sys, threading, queue, json
MAP = {
 'src/crypto/aes_gcm_crypter.cc': ['C01', 'C03', 'C02', 'C24', 'C22'],
 'src/crypto/chacha_poly_crypter_openssl.cc': ['C01', 'C03', 'C02', 'C24', 'C22'],
 'src/crypto/chacha_poly_crypter_boringssl.cc': ['C01', 'C03', 'C02', 'C24', 'C22'],
 'src/crypto/hkdf.cc': ['C04', 'C24', 'C22'],
 'src/crypto/s2a_aead_crypter.cc': ['C01', 'C03', 'C22'],
 'src/crypto/s2a_aead_crypter_util.cc': ['C22', 'C03'],
 'src/record_protocol/s2a_half_connection.cc': ['C05', 'C24', 'C13'],
 'src/record_protocol/s2a_crypter.cc': ['C06', 'C07', 'C10', 'C08', 'C26', 'C24', 'C12'],
 'src/record_protocol/s2a_crypter_util.cc': ['C18', 'C05'],
 'src/record_protocol/handshake_message_handler.cc': ['C09', 'C10'],
 'src/record_protocol/s2a_upb_ticket_sender.cc': ['C21'],
 'src/frame_protector/s2a_frame_protector.cc': ['C11', 'C12', 'C26', 'C24', 'C13'],
 'src/handshaker/s2a_context.cc': ['C17'],
 'src/handshaker/s2a_util.cc': ['C18', 'C17'],
 'src/handshaker/s2a_proxy.cc': ['C15', 'C14', 'C16', 'C26', 'C27', 'C28'],
 'src/options/s2a_options.cc': ['C19'],
 'src/token_manager/single_token_access_token_manager.cc': ['C20'],
}
def mutants(f, text):
    lines = text.split('\n'); out = []
    start = next((i for i, l in enumerate(lines) if l.startswith('namespace')), 0)
    block = False
    for i in range(start, len(lines)):
        l = lines[i]; s = l.strip()
        if s.startswith('/*'): block = True
        if block:
            if '*/' in s: block = False
            continue
        if not s or s.startswith(('//', '#', 'using ', 'namespace', '}', 'ABSL_ASSERT', '*')) or 'logger_(' in s or s.startswith('"'): continue
        code = l.split('//')[0]
        def add(new, what):
            if new != l: out.append((i, new, what))
        for a, b in (('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), (' < ', ' <= '), (' > ', ' >= '), ('true', 'false'), ('false', 'true'), ('+=', '='), ('-=', '+='), ('++', '--'), ('>>', '<<'), ('continue;', 'break;'), ('std::min', 'std::max'), (' * ', ' + '), ('nullptr', '(decltype(nullptr))nullptr')):
            if a == 'nullptr': continue
            for m in re.finditer(r'(?<!\w)' + re.escape(a) + r'(?!\w)' if a[0].isalpha() else re.escape(a), code):
                p = m.start()
                if a in (' < ', ' > ') and 'template' in code: continue
                add(l[:p] + b + l[p + len(a):], a.strip() + '->' + b.strip())
        for m in re.finditer(r'(?<![\w.\'"])(\d+)(?![\w.\'"])', code):
            if 'absl::get<' in code[max(0, m.start() - 10):m.start()] : continue
            if re.search(r'case \d+:|index\(\)', code): continue
            v = int(m.group(1))
            add(l[:m.start()] + str(v + 1) + l[m.end():], 'literal+1')
        m = re.match(r'(\s*(?:\} else )?if )\((.*)\) \{$', code)
        if m:
            add(m.group(1) + '(false && (' + m.group(2) + ')) {', 'if false')
            add(m.group(1) + '(true || (' + m.group(2) + ')) {', 'if true')
        prev = next((lines[j].strip() for j in range(i - 1, 0, -1) if lines[j].strip() and not lines[j].strip().startswith('//')), '')
        if s.endswith(';') and prev.endswith((';', '{', '}', ':')) and not re.match(r'(const |static |constexpr |return |auto |[\w:<>]+[&*]? \w+(;| =|\())', s) and not s.startswith('std::') and not re.match(r'[\w:]+(<.*>)? \w+\(', s):
            add(re.match(r'\s*', l).group(0) + ';', 'delete')
        if s.startswith('return ') and s.endswith(';') and f.endswith('.cc'):
            pass
        for a, b in (('HOSTNAME', 'UID'), ('SPIFFE_ID', 'HOSTNAME'), ('set_hostname', 'set_uid'), ('local_', 'peer_'), ('TLS1_2', 'TLS1_3'), ('SHA384', 'SHA256'), ('in_', 'out_'), ('min_tls', 'max_tls'), ('min_', 'max_')):
            if a in code and 'case' not in code: add(l.replace(a, b, 1), a + '->' + b)
    return out
def main():
    a = sys.argv[1:]; outp = a.pop(0); W = 2; N = 80; files = []
    while a:
        x = a.pop(0)
        if x == '-w': W = int(a.pop(0))
        elif x == '-n': N = int(a.pop(0))
        else: files.append(x)
    files = files or list(MAP)
    q = queue.Queue()
    rnd = random.Random(int(os.environ.get("MUT_SEED", "7")))
    for f in files:
        text = open('/repo/' + f).read(); ms = mutants(f, text)
        rnd.shuffle(ms)
        for m in sorted(ms[:N]): q.put((f, m))
    total = q.qsize(); print(total, 'mutants', flush=True)
    lock = threading.Lock(); stats = {}
    def work(k):
        base = '/tmp/mut/w%d' % k
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        subprocess.check_call(['git', 'clone', '-q', '/repo', base + '/repo'])
        shutil.copytree('/verif', base + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'replays', 'evidence', 'build'))
        while True:
            try: f, (i, new, what) = q.get_nowait()
            except queue.Empty: break
            p = base + '/repo/' + f; text = open(p).read(); lines = text.split('\n'); old = lines[i]; lines[i] = new
            open(p, 'w').write('\n'.join(lines))
            res = 'SURVIVED'
            for c in MAP[f]:
                try:
                    r = subprocess.run(['python3', 'check.py', c], cwd=base + '/verif', env=dict(os.environ, VERIF_REPO=base + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired: res = 'TIMEOUT ' + c; break
                if r.returncode == 1: res = 'caught ' + c; break
                if r.returncode != 0:
                    o = r.stdout.decode(errors='replace')
                    res = 'nobuild' if 'BUILD FAILED' in o else 'ERROR ' + c + ' ' + o[-300:]
                    break
            open(p, 'w').write(text)
            with lock:
                stats[res.split()[0]] = stats.get(res.split()[0], 0) + 1
                with open(outp, 'a') as o: o.write('%s:%d [%s] %s\n    - %s\n    + %s\n' % (f, i + 1, what, res, old.strip(), new.strip()))
                print(sum(stats.values()), total, stats, flush=True)
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
