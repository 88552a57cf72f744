"""Properties decided from the call graph and the declarations alone."""
from common import *
from effects import Exceptions, walk

# ------------------------------------------------------------------ C21
def noexcept_freedom(rep, cache):
    for defs in ((), ('NTC_DUMP_PACKETS', 'NTC_DUMP_PACKETS_FILE="x"')) if rep.tier == 'thorough' else ((),):
        p = program(cache, defs)
        E = Exceptions(p)
        n = 0
        for d in lib_functions(p):
            dd = p.decls[d]
            if dd.get('exc') != 'noexcept': continue
            n += 1
            b = E.body(d)
            det = []
            for e, w in b.items(): det.append('%s: %s' % (e, ' -> '.join(w)))
            rep.ob('noexcept-body-cannot-throw', '%s never lets an exception out' % fname(p, d), p.loc(dd['l']), not b, det)
        rep.count('functions that promise not to throw', n)
        rep.count('call sites', E.sites)
        rep.count('functions with a body', len(p.funcs))
        if n < 60: rep.fatal = 'only %d noexcept functions found' % n
        rep.notes = ['assumed not to throw: ' + x for x in sorted(x for x in E.unknown if x)]
    rep.assume('library functions outside the table of allocating/user-calling operations do not throw (listed in notes)',
               'C callbacks given to the C interface do not throw')

# ------------------------------------------------------------------ C23
def isolation(rep, cache):
    p = program(cache)
    n = 0
    local_decls = set()
    for d, dd in p.decls.items():
        if dd['k'] == 'var' and dd.get('static') and dd.get('repo') and in_lib(p, dd.get('l')):
            n += 1
            where = p.loc(dd['l'])
            t = p.types[dd['t']]
            const = bool(t.get('const')) or dd.get('constexpr')
            if t.get('k') == 'ref': const = bool(p.types[t['p']].get('const'))
            if t.get('k') == 'array': const = bool(p.types[t.get('p', t.get('e', dd['t']))].get('const')) or const
            rep.ob('static-storage-immutable', 'variable %s with static storage cannot change' % dd['q'], where, bool(const))
            rep.ob('no-thread-local', 'variable %s is not thread-local' % dd['q'], where, not dd.get('tls') or bool(const))
            # a constant initialised from a parameter / this / local remembers the first instance
            g = p.globals.get(d)
            bad = []
            if g is not None and 'init' in g:
                def vis(x):
                    if x['k'] == 'This': bad.append('uses this')
                    if x['k'] == 'Ref' and 'cv' not in x:
                        r = p.decls[x['d']]
                        if r['k'] in ('var', 'param') and not r.get('static'): bad.append('uses ' + r['n'])
                    if x['k'] == 'Lambda': return True
                walk(g['init'], vis)
            rep.ob('static-init-independent', 'initial value of %s does not depend on an instance or a call' % dd['q'], where, not bad, bad)
            # class-type constants with mutable members
            rid = p.rec_of(dd['t'])
            if rid is not None:
                mut = [f['n'] for f in p.records[rid].get('fields') or [] if f.get('mut')]
                rep.ob('static-no-mutable-member', 'type of %s has no mutable member' % dd['q'], where, not mut, mut)
    # every class of the library: instance state only
    recs = 0
    for rid, r in enumerate(p.records):
        if not r.get('repo'): continue
        if not any(in_lib(p, p.decls[d].get('l')) for d in p.methods(rid)) : continue
        recs += 1
        for f in r.get('fields') or []:
            t = p.types[f['t']]
            q = ''
            x = p.rec_of(f['t'])
            if x is not None: q = p.records[x]['q']
            shared = q in ('std::shared_ptr', 'boost::shared_ptr')
            rep.ob('member-not-shared', 'member %s of %s is owned by its instance' % (f['n'], r['q']), r['q'], not shared)
    # state reached through calls that hand out process-wide storage
    bad_fn = {'strtok', 'setlocale', 'srand', 'rand', 'std::rand', 'std::srand', 'setenv', 'putenv'}
    sites = 0
    for d in lib_functions(p):
        f = p.funcs[d]
        def vis(x):
            nonlocal sites
            if x['k'] in ('Call', 'MCall', 'OpCall', 'Ctor') and 'callee' in x:
                sites += 1
                q = p.decls[x['callee']].get('q')
                if q in bad_fn:
                    rep.ob('no-process-wide-state', '%s calls %s' % (fname(p, d), q), p.loc(x['l']), False)
            if x['k'] == 'Cast' and x.get('const_cast'): pass
        walk(f.get('body'), vis); walk(f.get('inits'), vis)
    rep.count('variables with static storage', n)
    rep.count('classes', recs)
    rep.count('call sites', sites)
    if n < 5 or recs < 10: rep.fatal = 'static data not found'

# ------------------------------------------------------------------ C24
NONDET_PREFIX = ('std::random_device', 'std::mersenne_twister', 'std::linear_congruential', 'std::uniform_', 'std::this_thread',
                 'std::thread', 'std::chrono::_V2::system_clock', 'std::chrono::system_clock', 'boost::random', 'std::bernoulli')
NONDET = {'rand', 'random', 'srand', 'drand48', 'lrand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getenv',
          'std::rand', 'std::time', 'std::clock', 'std::getenv', 'rand_r', 'getrandom', 'arc4random', 'pthread_self'}
UNORDERED = ('std::unordered_', 'boost::unordered')

def is_clock(q):
    return q.startswith('std::chrono::') and q.endswith('::now')

def determinism(rep, cache):
    p = program(cache)
    sites = 0
    clock_fns = {}
    for d in lib_functions(p):
        f = p.funcs[d]
        def vis(x):
            nonlocal sites
            if x['k'] in ('Call', 'MCall', 'OpCall', 'Ctor') and 'callee' in x:
                sites += 1
                q = p.decls[x['callee']].get('q') or ''
                if is_clock(q): clock_fns.setdefault(d, []).append(x)
                elif q in NONDET or q.startswith(NONDET_PREFIX):
                    rep.ob('no-nondeterministic-source', '%s calls %s' % (fname(p, d), q), p.loc(x['l']), False)
        walk(f.get('body'), vis); walk(f.get('inits'), vis)
    rep.ob('no-nondeterministic-source', 'no call site of the library reads randomness, environment or calendar time', 'netcode/', not rep.violations)
    # containers whose order depends on addresses or hashes
    for rid, r in enumerate(p.records):
        if not r.get('repo'): continue
        for fl in r.get('fields') or []:
            x = p.rec_of(fl['t'])
            if x is None: continue
            q = p.records[x]['q']
            ta = p.records[x].get('targs') or []
            un = q.startswith(UNORDERED)
            ptrkey = False
            if q in ('std::map', 'std::set', 'boost::container::map', 'boost::container::set', 'boost::container::flat_set', 'boost::container::flat_map') and ta and isinstance(ta[0], int):
                cmpi = 2 if q.endswith('map') else 1
                cmpr = p.rec_of(ta[cmpi]) if len(ta) > cmpi and isinstance(ta[cmpi], int) else None
                std_less = cmpr is None or p.records[cmpr]['q'] in ('std::less', 'std::greater')
                ptrkey = p.types[p.strip(ta[0])].get('k') == 'ptr' and std_less
            rep.ob('order-independent-of-addresses', 'member %s of %s is ordered by value' % (fl['n'], r['q']), r['q'], not (un or ptrkey))
    # clock readings may only reach: members of type time_point, and conditions that decide whether
    # an acknowledgment is sent
    for d, xs in clock_fns.items():
        clock_use(rep, p, d, xs)
    rep.count('call sites', sites)
    rep.count('functions reading the steady clock', len(clock_fns))
    if sites < 300: rep.fatal = 'library not found'
    rep.assume('user handlers and GF-complete are deterministic')

def time_type(p, t):
    s = p.types[p.strip(t)]['s']
    return 'chrono' in s or 'time_point' in s or 'duration' in s

def clock_use(rep, p, d, xs):
    """Values derived from the clock keep a chrono type (so they cannot reach bytes, ids or
    counters without an explicit count()), and no count()/time_since_epoch() is taken."""
    f = p.funcs[d]
    bad = []
    def vis(x):
        if x['k'] in ('MCall', 'Call') and 'callee' in x:
            q = p.decls[x['callee']].get('q') or ''
            if q.startswith('std::chrono::') and p.decls[x['callee']]['n'] in ('count', 'time_since_epoch'):
                bad.append('%s at %s' % (q, p.loc(x['l'])))
    walk(f.get('body'), vis); walk(f.get('inits'), vis)
    rep.ob('clock-stays-in-time-types', '%s: readings of the clock are only compared or stored as times' % fname(p, d), p.loc(p.decls[d]['l']), not bad, bad)
    # a branch controlled by the clock may only lead to acknowledgments: its body calls no delivery,
    # source or repair operation
    body = f.get('body')
    def dep(e, tainted):
        r = []
        def v(y):
            if y['k'] in ('Call', 'MCall') and 'callee' in y and is_clock(p.decls[y['callee']].get('q') or ''): r.append(y)
            if y['k'] == 'Ref' and y['d'] in tainted: r.append(y)
        walk(e, v)
        return bool(r)
    tainted = set()
    def decls(y):
        if y['k'] == 'Decl':
            for v in y['v']:
                if 'init' in v and dep(v['init'], tainted): tainted.add(v['d'])
    if body is not None:
        for _ in range(3): walk(body, decls)
        def conds(y):
            if y['k'] in ('If', 'While', 'For', 'Do', 'Cond', 'Switch') and 'c' in y and dep(y['c'], tainted):
                effects = set()
                for part in ('a', 'b', 's', 'inc'):
                    if part in y and isinstance(y[part], (dict, list)): effects |= reach_effects(p, y[part])
                bad2 = sorted(effects & {'data delivery', 'source or repair packet'})
                rep.ob('clock-only-schedules-acks', '%s: a condition on the clock only decides acknowledgments' % fname(p, d), p.loc(y['l']), not bad2, bad2)
        walk(body, conds)

def reach_effects(p, ast):
    """Observable effects reachable from a piece of code."""
    out = set()
    seen = set()
    def code(x):
        def v(y):
            if y['k'] in ('Call', 'MCall', 'OpCall', 'Ctor') and 'callee' in y:
                c = y['callee']
                dd = p.decls[c]
                q = dd.get('q') or ''
                if q.startswith('vdrv::data_sink'): out.add('data delivery')
                if dd['n'] in ('write_source', 'write_repair'): out.add('source or repair packet')
                if dd['n'] == 'write_ack': out.add('ack packet')
                if c in p.funcs and c not in seen:
                    seen.add(c)
                    code(p.funcs[c].get('body')); code(p.funcs[c].get('inits'))
            if y['k'] == 'Lambda' and y['op'] in p.funcs and y['op'] not in seen:
                seen.add(y['op']); code(p.funcs[y['op']].get('body'))
        walk(x, v)
    code(ast)
    return out
