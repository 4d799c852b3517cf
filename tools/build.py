#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree. build(scn, variant) -> path of the binary."""
import os, sys, subprocess, hashlib, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
BASE = ['gcc', '-std=gnu11', '-g', '-w', '-pthread', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern', '-I%s/code' % REPO, '-I%s/sim' % V]
VAR = {
  # zpl flags, simulator flags, link flags
  'A': (['-O1', '-fsanitize=address', '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope'], ['-O1', '-fsanitize=address'], ['-fsanitize=address', '-static-libasan']),
  'T': (['-O1', '-fsanitize=thread', '-finstrument-functions', '-fno-inline', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove'], ['-O2', '-DSIM_THREADS'], []),
  'P': (['-O1', '-fsanitize=thread', '-finstrument-functions', '-fno-inline', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove'], ['-O2', '-DSIM_THREADS'], []),   # as T, with the atomics zpl uses on other processors
  'S': (['-O2'], ['-O2', '-DSIM_THREADS'], []),   # every instruction of zpl (and of sim/client.c, in one unit with it) is a point where the scheduler may switch
}
VAR['X'] = VAR['S']   # as S, zpl compiled as C++
VAR['H'] = tuple(VAR['A'][i] + (['-DZPL_HEAP_ANALYSIS'] if i < 2 else []) for i in range(3))   # as A, with heap statistics
VAR['D'] = tuple(VAR['A'][i] + (['-DZPL_PARSER_DISABLE_ANALYSIS'] if i < 2 else []) for i in range(3))   # as A, with parsers that keep no notes on formatting
# harness API names that happen to start with sim_ and are not system calls
API = set('''fault fault_pick fault_count fault_mask fired fired_total faults_init faults_enable faults_on faults_raw violation end log ev feature probe nontrivial op
 mix hash fill live_blocks live_bytes block_size heap_fail_next malloc_h heap_dump mono_ns real_ns tick_ns time_advance syscall budget_syscalls event_at event_ran crash_at crash_jmp crash_armed
 verbose fault_names arena_init shadow_check is_live stderr_tail stderr_len tsc_emul tsc_fixed last_tsc clock_res_ns clock_stalled last_real oversleep_max clock_reads total_slept'''.split())
PASS = re.compile(r'^(__asan_|__cyg_profile|__tsan_|__ubsan|__sanitizer|_GLOBAL_OFFSET|__errno_location$|__stack_chk_fail$|__fdelt_chk$|exit$|_exit$|abort$|__assert_fail$|timezone$|tzset$|localtime|gmtime|mktime$|timegm$|strftime$|getenv$|setenv$|unsetenv$|dl(open|sym|close|error)$|'
  r'__?(sig)?setjmp|longjmp|str(len|nlen|cmp|ncmp|casecmp|ncasecmp|chr|rchr|str|cpy|ncpy|cat|ncat|tol|toll|toul|toull|tod|tof|spn|cspn|pbrk|tok|tok_r|error|error_r|chrnul)$|mem(cmp|chr|rchr|mem)$|'
  r'rawmemchr$|stpcpy$|is(alpha|digit|alnum|space|upper|lower|punct|xdigit|print)$|to(upper|lower)$|__ctype_|ato[ifl]+$|(v?sn?printf)$|__isoc|sscanf$|qsort$|bsearch$|abs$|labs$|'
  r'(a?(sin|cos|tan)h?|a(sin|cos|tan)2?|sincos|exp2?|log(2|10)?|pow|sqrt|cbrt|f?abs|floor|ceil|round|trunc|fmod|hypot|ldexp|frexp|modf|lround|llround|rint|fmin|fmax|copysign)f?l?$|ntoh[sl]$|hton[sl]$|inet_|rand$|srand$|__atomic_|__(mul|div|mod|u?div|umod)|__popcount|sigemptyset$|sigfillset$|raise$|bcmp$|gai_strerror$|getprogname$|__cxa|__stpcpy|if_nametoindex|environ$|__environ$|program_invocation|__sched_cpu|memccpy$|mempcpy$|strsep$|stpncpy$|strcoll$|strcasestr$|strverscmp$|basename$|dirname$|__xpg_|l?l?div$|llabs$|r?index$|ffsl?l?$|bzero$|bcopy$|explicit_bzero$|swab$|__fpclassify|__signbit|__isnan|__isinf|__finite|isnan|isinf|finite|nan|nextafter|scalb|ilogb|logb|remainder|remquo|fdim|fma|u?imax|v?f?wprintf|wcs|mbs|wmem|iswc|getopt)')
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout
def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, 'code'), os.path.join(V, 'sim'), os.path.join(V, 'tools')):
        for d, dn, fn in os.walk(top):
            dn.sort()
            if '/tests' in d or '/apps' in d or '__pycache__' in d: continue
            for f in sorted(fn):
                p = os.path.join(d, f); h.update(os.path.relpath(p, top).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
def compile_zpl(out, variant, defs):
    src = os.path.join(out, 'zpl.c')
    open(src, 'w').write(''.join('#define %s\n' % d for d in defs) + ('#define __ARM_ARCH 8\n' if variant == 'P' else '') + '#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n' + ('#include "client.c"\n' if variant in 'SX' else ''))
    o = os.path.join(out, 'zpl0.o')
    if variant == 'X': sh(['g++', '-std=gnu++17', '-fpermissive', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics'] + [f for f in BASE[1:] if not f.startswith('-std')] + VAR[variant][0] + ['-x', 'c++', '-c', src, '-o', o]); return
    if variant not in 'AD': sh(BASE + VAR[variant][0] + ['-c', src, '-o', o]); return
    # the heap allocator is reached through sim/simheap.c, which gives each block its exact end back
    a = os.path.join(out, 'zpl0.s'); sh(BASE + VAR[variant][0] + ['-S', src, '-o', a]); t = open(a).read()
    t = re.sub(r'(?m)^(\s*\.(?:globl|type|size)\s+|)zpl_heap_allocator_proc(:|,.*|)$', lambda m: m.group(0).replace('zpl_heap_allocator_proc', 'zpl__heap_real'), t)
    open(a, 'w').write(t); sh(['gcc', '-c', a, '-o', o]); os.unlink(a)
def finish_zpl(out, variant, simobjs):
    o = os.path.join(out, 'zpl0.o')
    have = set(l.split()[-1][4:] for l in sh(['nm', '--defined-only'] + simobjs).splitlines() if len(l.split()) == 3 and l.split()[-1].startswith('sim_') and l.split()[1] in 'TtBDW')
    have -= API
    und = [l.split()[-1] for l in sh(['nm', '-u', o]).splitlines() if l.strip()]
    red, stub, real = [], [], []
    for u in und:
        if u in have: red.append(u)
        elif PASS.match(u) : real.append(u)
        elif variant in 'TP' and u.startswith('__tsan'): real.append(u)
        else: stub.append(u)
    m = os.path.join(out, 'map.txt'); open(m, 'w').write(''.join('%s sim_%s\n' % (u, u) for u in red) + ''.join('%s simstub_%s\n' % (u, u) for u in stub))
    zo = os.path.join(out, 'zpl.o')
    extra = []
    if variant in 'SX': extra = ['--rename-section', '.text=zpltext', '--rename-section', '.text.unlikely=zpltext']
    sh(['objcopy', '--redefine-syms', m] + extra + [o, zo])
    st = os.path.join(out, 'stub.c')
    open(st, 'w').write('void sim_unsupported(const char*);\n' + ''.join('long simstub_%s(void){ sim_unsupported("%s"); return -1; }\n' % (u, u) for u in stub))
    sh(['gcc', '-w', '-c', st, '-o', os.path.join(out, 'stub.o')])
    open(os.path.join(out, 'symbols.txt'), 'w').write('simulated %s\nreal %s\nunsupported %s\n' % (' '.join(sorted(red)), ' '.join(sorted(real)), ' '.join(sorted(stub))))
SIM = ['sim', 'simthr', 'simfs', 'simnet', 'simmem', 'simheap', 'simsys']
def build_base(variant, defs=()):
    """zpl and simulator objects for a variant; cached by content."""
    key = tree_hash() + hashlib.sha256(repr((variant, sorted(defs))).encode()).hexdigest()[:6]
    out = os.path.join(BUILD, 'base-%s-%s' % (variant, key))
    if os.path.exists(os.path.join(out, 'ok')): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_zpl, tmp, variant, list(defs))]
        for s in SIM: fs.append(ex.submit(sh, BASE + VAR[variant][1] + ['-c', os.path.join(V, 'sim', s + '.c'), '-o', os.path.join(tmp, s + '.o')]))
        for f in fs: f.result()
    finish_zpl(tmp, variant, [os.path.join(tmp, s + '.o') for s in SIM])
    open(os.path.join(tmp, 'ok'), 'w').close()
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out
def scn_meta(scn):
    """directives in the scenario: // variants: A T   // defs: X Y"""
    t = open(os.path.join(V, 'scn', scn + '.c')).read(4000)
    v = re.search(r'//\s*variants:\s*(.*)', t); d = re.search(r'//\s*defs:\s*(.*)', t)
    return (v.group(1).split() if v else ['A']), (d.group(1).split() if d else [])
def build(scn, variant):
    _, defs = scn_meta(scn)
    src = os.path.join(V, 'scn', scn + '.c')
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_base, variant, defs)
        tmpo = tempfile.mktemp(suffix='.o')
        fo = ex.submit(sh, BASE + VAR[variant][1] + ['-D' + d for d in defs] + ['-I' + os.path.join(V, 'scn'), '-c', src, '-o', tmpo])
        base = fb.result(); fo.result()
    out = os.path.join(base, 'run-%s' % scn); t = out + '.%d' % os.getpid()
    sh(['gcc', '-pthread', '-o', t, tmpo, os.path.join(base, 'zpl.o'), os.path.join(base, 'stub.o')] + [os.path.join(base, s + '.o') for s in SIM] + VAR[variant][2] + ['-lm', '-ldl'])
    os.unlink(tmpo); os.rename(t, out)
    return out
if __name__ == '__main__':
    for s in sys.argv[1:]:
        for v in scn_meta(s)[0]: print(build(s, v))
