"""Shared access to the exported program."""
import export
from prog import Program

def program(cache, defines=()):
    k = ('prog', tuple(defines))
    if k not in cache:
        cache[k] = Program(export.export(defines=defines))
    return cache[k]

def in_lib(p, l):
    return '/netcode/' in p.file_of(l)

def lib_functions(p):
    return [d for d in p.funcs if in_lib(p, p.decls[d].get('l'))]

def fname(p, d):
    dd = p.decls[d]
    n = dd['q']
    if dd.get('rec') is not None and ('ctor' in dd or dd['n'] == '<ctor>'):
        return n.replace('<ctor>', p.records[dd['rec']].get('n') or 'ctor')
    return n
