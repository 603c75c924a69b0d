#!/usr/bin/env python3
"""Mutation campaign: mutate.py LABS_DIR N_LABS [--list] [--only FILE-SUBSTRING] [--shard i/n] [--out LOG]

Makes small syntactic changes to scratch copies of /repo, one at a time, and reports which of them no check notices.
Each lab LABS_DIR/labK holds a copy of /repo (repo/) and of the harness (harness/, its path dependencies rewritten)."""
import os, re, subprocess, sys, json, threading, queue, shutil, hashlib, random

SRC = ['spop/src', 'spoa/src']
SKIP = {'spop/src/handler.rs', 'spoa/src/tcp.rs'}

def code_lines(path):
    """Line numbers outside tests, with their text."""
    out, lines = [], open(path).read().split('\n')
    depth_test = None
    for i, l in enumerate(lines):
        if re.match(r'\s*#\[cfg\(test\)\]', l):
            break
        out.append((i, l))
    return lines, out

OPS = [
    (r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<![-=<>&|:])<(?![<=A-Za-z\'&(\[])', '<='),
    (r'(?<![-=>])>(?![>=:(,;{ ]|$)', '>='), (r' < ', ' <= '), (r' > ', ' >= '), (r' < ', ' > '), (r' > ', ' < '),
    (r'&&', '||'), (r'\|\|(?! \{|$)', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r' \| ', ' & '), (r' & ', ' | '),
    (r'<<', '>>'), (r'>>(?!\(|;|,|>)', '<<'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z_(])(?<![a-z]!)', ''),
    (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'is_some\(', 'is_none('), (r'is_none\(', 'is_some('), (r'is_ok\(', 'is_err('), (r'is_err\(', 'is_ok('),
    (r'\.\.=', '..'), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'is_empty\(\)', 'is_empty().not()'),
    (r'if (?!let)([^{]*)\{', 'if !(\\1) {'), (r'if (?!let)([^{]*)\{', 'if true {'), (r'if (?!let)([^{]*)\{', 'if false {'),
    (r'while (?!let)([^{]*)\{', 'while false {'),
    (r' if ([^={][^{]*) =>', ' =>'), (r'\bmax_by', 'min_by'), (r'\.rev\(\)', ''), (r'\.cloned\(\)\.max\(\)', '.cloned().min()'),
    (r'extend\(', 'drain_not('), (r'\bput_u8\(', 'put_i8(1 + '), (r'wrapping_', 'checked_'),
    (r'Some\(([a-z_]+)\)(?! =>| =|\))', 'None'), (r'\?;', '.ok();'), (r'\.await\?;', '.await.ok();'),
    (r'\bSelf::([A-Z][a-z]+)\b', None),
]

def mutants():
    res = []
    for root in SRC:
        for d, _, fs in os.walk('/repo/' + root):
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = p[len('/repo/'):]
                if not f.endswith('.rs') or rel in SKIP or f in ('mod.rs', 'lib.rs'):
                    continue
                lines, code = code_lines(p)
                for i, l in code:
                    s = l.strip()
                    if not s or s.startswith(('//', 'use ', '#[', '#!', 'mod ', 'pub mod', 'pub use', 'trace!', 'debug!')):
                        continue
                    sig = re.match(r'(pub(\(.*\))? )?(async )?(fn|impl|trait|struct|enum|where|type|const fn)\b', s)
                    seen = set()
                    def add(kind, new):
                        if new != l and new not in seen:
                            seen.add(new)
                            res.append((rel, i, kind, new))
                    if not sig:
                        for a, b in OPS:
                            if b is None:
                                continue
                            for m in re.finditer(a, l):
                                new = l[:m.start()] + m.expand(b) + l[m.end():]
                                add(f'{m.group(0)} -> {m.expand(b)}', new)
                        for m in re.finditer(r'(?<![\w.#"x])(\d+)(?![\w.]*")(?!\w)', l):
                            n = int(m.group(1))
                            for k in (n + 1, n - 1) if n else (1,):
                                add(f'{n} -> {k}', l[:m.start()] + str(k) + l[m.end():])
                        for m in re.finditer(r'0x([0-9a-fA-F_]+)', l):
                            n = int(m.group(1).replace('_', ''), 16)
                            for k in (n ^ 1, n ^ (1 << max(n.bit_length() - 1, 0))):
                                add(f'{m.group(0)} -> {k:#x}', l[:m.start()] + hex(k) + l[m.end():])
                        for m in re.finditer(r'"([^"]+)"', l):
                            add('string', l[:m.start()] + '"' + m.group(1)[:-1] + '_"' + l[m.end():])
                        if s.endswith(';') and not re.match(r'(let|return|type|const|static|pub)\b', s) and not s.startswith(('}', ')', '.')):
                            add('delete statement', l[:len(l) - len(l.lstrip())] + '();')
                        if re.match(r'\.\w+\(.*\)[?;]*$', s) and not s.startswith(('.await', '.unwrap')):
                            add('drop call', re.sub(r'\.\w+(::<.*>)?\(.*\)', '', l, count=1))
                        for a, b in [('u8', 'i8'), ('Relaxed', 'SeqCst')]:
                            pass
                        for m in re.finditer(r'\b(Invalid|TooBig|Timeout|BadVersion|Normal|Io|Unknown|NoVersion|NoFrameSize|NoCapabilities|FragmentNotSupported)\b(?!\()', l):
                            other = 'Normal' if m.group(1) != 'Normal' else 'Unknown'
                            add(f'{m.group(1)} -> {other}', l[:m.start()] + other + l[m.end():])
    return res

ORDER = {
    'spop/src/data/varint.rs': 'C03 C01 C02', 'spop/src/data': 'C04 C02 C06 C01 C05', 'spop/src/frame/decode.rs': 'C02 C06 C05 C01 C17',
    'spop/src/frame/encode.rs': 'C02 C07 C01', 'spop/src/frame/framer.rs': 'C07 C08 C05 C01', 'spop/src/frame/codec.rs': 'C08 C07 C05',
    'spop/src/frame/fragment.rs': 'C09 C13 C10', 'spop/src/frame': 'C02 C22 C17 C06 C01', 'spop/src/error.rs': 'C17', 'spop/src': 'C22 C02 C12 C17',
    'spoa/src/req.rs': 'C21', 'spoa/src/error.rs': 'C17 C14', 'spoa/src/runtime/acker.rs': 'C11 C10', 'spoa/src/runtime/dispatch.rs': 'C10',
    'spoa/src/runtime/processor.rs': 'C10', 'spoa/src/runtime': 'C12 C15 C14', 'spoa/src/conn.rs': 'C16 C13 C14 C07 C19', 'spoa/src/agent.rs': 'C19 C20 C18',
    'spoa/src/state': 'C12 C13 C14 C15 C16',
}
ALL = ['C%02d' % i for i in range(1, 25)]
def order(rel):
    for k in sorted(ORDER, key=len, reverse=True):
        if rel.startswith(k):
            o = ORDER[k].split()
            return o + [c for c in ALL if c not in o]
    return ALL

def main():
    args = sys.argv[1:]
    def opt(n, d=None):
        return args[args.index(n) + 1] if n in args else d
    ms = mutants()
    if opt('--only'):
        ms = [m for m in ms if opt('--only') in m[0]]
    random.Random(7).shuffle(ms)
    if '--list' in args:
        for m in ms:
            print(m[0], m[1] + 1, m[2])
        print(len(ms))
        return
    base, n = args[0], int(args[1])
    out = opt('--out', '/tmp/mut.log')
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(l.split('\t')[1])
    q = queue.Queue()
    for m in ms:
        key = f'{m[0]}:{m[1]+1}:{hashlib.md5(m[3].encode()).hexdigest()[:6]}'
        if key not in done:
            q.put((key, m))
    print(q.qsize(), 'mutants', flush=True)
    lock = threading.Lock()
    env = dict(os.environ, CARGO_NET_OFFLINE='true', PATH='/root/.cargo/bin:' + os.environ['PATH'], VERIF_SEED='1', VERIF_TIER='quick', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OPT_LEVEL='0', VH_SCALE=opt('--scale', '1'))
    env.pop('RUSTFLAGS', None)
    def work(k):
        lab = f'{base}/lab{k}'
        while True:
            try:
                key, (rel, i, kind, new) = q.get_nowait()
            except queue.Empty:
                return
            p = f'{lab}/repo/{rel}'
            orig = open('/repo/' + rel).read()
            lines = orig.split('\n')
            old = lines[i]
            lines[i] = new
            open(p, 'w').write('\n'.join(lines))
            verdict = 'SURVIVED'
            b = subprocess.run(['cargo', 'check', '--offline', '-q', '-p', 'haproxy-spoa'], cwd=f'{lab}/harness', env=env, capture_output=True)
            if b.returncode == 0:
                b = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=f'{lab}/harness', env=env, capture_output=True)
            if b.returncode:
                verdict = 'nobuild'
            else:
                for c in order(rel):
                    try:
                        r = subprocess.run(['target/debug/vharness', 'check', c, '--evidence', f'{lab}/ev.json', '--replays', f'{lab}/replays', '--known', '/verif/known_findings.json'],
                                           cwd=f'{lab}/harness', env=env, capture_output=True, timeout=600)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc != 0:
                        verdict = f'caught {c}' if rc == 1 else f'ERROR {c} {rc}'
                        break
            open(p, 'w').write(orig)
            with lock:
                open(out, 'a').write(f'{verdict}\t{key}\t{kind}\t{old.strip()}\t{new.strip()}\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
