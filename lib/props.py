"""Property table: which harness entries with which bounds decide each property."""
import os
PROPS = {}; H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/h/'
def prop(pid, **kw): PROPS[pid] = kw
def grid(entry, _cost=1, **axes):
    """one instance per combination of the axes (lists) / constants"""
    res = [{}]
    opts = {k[4:]: axes.pop(k) for k in [k for k in axes if k.startswith('opt_')]}
    for k, v in axes.items():
        res = [dict(r, **{k: x}) for r in res for x in (v if isinstance(v, (list, tuple)) else [v])]
    return [dict(entry=entry, params=r, cost=_cost, **opts) for r in res]

SET, PAR, VAR, EQU, ALI = 0, 1, 2, 3, 4
def c01(t):
    r = grid('c01_value', typ=[SET, PAR, VAR, EQU], wr=[0, 1, 2], rd=[0, 1, 2], dim=[1, 2], cmp=[0]) + grid('c01_value', typ=[PAR, VAR], wr=[0, 1, 2], rd=[0, 1], dim=[0], cmp=[0, 1])
    r += grid('c01_value', typ=[PAR, EQU], wr=[0, 1], rd=[0], dim=[1], cmp=[1])
    r += grid('c01_default', typ=[PAR, VAR, EQU])
    r += grid('c01_value', _cost=5, typ=[VAR], wr=[0], rd=[0], dim=[1], cmp=[0], two=[1])
    if t != 'quick': r += grid('c01_value', _cost=9, typ=[VAR, EQU], wr=[0, 1, 2], rd=[0, 1, 2], dim=[1, 3], cmp=[0, 1], two=[1]) + grid('c01_value', typ=[PAR], wr=[0, 1, 2], rd=[0, 1, 2], dim=[5, 20], cmp=[0, 1])
    return r
prop('C01', file='c01_values.cpp', bounds='one symbol of 1 or 3 records, dimension 0..2 (thorough: up to 20); one field (quick: also one pair of fields) is an arbitrary 64-bit double outside the acronym range', runs=c01)

def c02(t):
    r = grid('c02_keys', dim=1, n=4, typ=PAR, cmp=[0, 1]) + grid('c02_keys', dim=1, n=3, typ=SET, bits=5) + grid('c02_keys', dim=1, n=3, kb=[1, 2], typ=PAR, bits=18) + grid('c02_keys', dim=1, n=2, kb=[1], cmp=[0, 1])
    r += grid('c02_keys', dim=2, n=3, typ=[SET, PAR, VAR]) + grid('c02_keys', _cost=4, dim=2, n=2, kb=[1], typ=[PAR, VAR], bits=18, opt_covers=['end']) + grid('c02_keys', dim=3, n=2, typ=[PAR, EQU], opt_covers=['end'])
    r += grid('c02_keys', dim=[8, 19, 20], lowdims=2, n=2, kb=[0], opt_covers=['end']) + grid('c02_keys', dim=[20], lowdims=1, n=2, kb=[1], opt_covers=['end']) + grid('c02_many_errors', n=[1, 10, 11, 12, 14]) + grid('c02_scalar')
    if t != 'quick': r += grid('c02_keys', _cost=20, dim=1, n=[5, 6], opt_time=1200) + grid('c02_keys', _cost=20, dim=1, n=4, kb=[1, 2], opt_time=1200) + grid('c02_keys', _cost=20, dim=2, n=4, opt_time=1200) + grid('c02_keys', _cost=20, dim=2, n=3, kb=[1, 2], opt_time=1200) + grid('c02_keys', _cost=20, dim=3, n=3, kb=[0], opt_time=1200) + grid('c02_keys', dim=[4, 12, 20], lowdims=3, n=2, kb=[0, 1], cmp=[0, 1], opt_time=1200)
    return r
prop('C02', file='c02_rawkeys.cpp', runs=c02, bounds='one symbol, up to 4 records of dimension 1, 3 of dimension 2, 2 of dimension 3 and of dimension 8/19/20 with two free positions (thorough: 6/4/3); keys are arbitrary integers 1..INT_MAX-256 (0..31 for one-dimensional sets), arbitrary key bounds with 18-bit keys for 3 records and 31-bit keys for 2; error list up to 14 rejected records')

def c03(t):
    q = t == 'quick'; r = []
    r += grid('c03_str', dim=1, n=4, m=5, typ=[SET, PAR], rd=[0, 1], cmp=[0, 1]) + grid('c03_str', dim=2, n=3, m=3, typ=[PAR, VAR, SET], rd=[0, 1]) + grid('c03_str', dim=[1, 2], n=3, m=3, bad=[1, 2, 3], rd=0) + grid('c03_str', dim=1, n=3, m=3, bad=4, rd=1) + grid('c03_str', dim=3, n=2, m=3, rd=1)
    r += grid('c03_str', dim=1, n=3, m=5, pre=[253, 254, 255, 256], rd=[0]) + grid('c03_str', dim=2, n=2, m=4, pre=[254], rd=[0])
    r += grid('c03_map', dim=1, n=4, m=4, rd=[0, 1, 2], typ=[SET, PAR]) + grid('c03_map', dim=2, n=3, m=3, rd=[0, 2], typ=[PAR]) + grid('c03_map', dim=[1, 2], n=2, m=3, bad=[1, 2, 3, 4, 5], rd=0) + grid('c03_map', dim=1, n=3, m=4, pre=[253, 254, 255], rd=[0, 2])
    r += grid('c03_perm', dim=[1, 2, 3], rd=[0, 1], rot=2) + grid('c03_perm', dim=[1, 2], map=1, rd=[0, 2], rot=2) + grid('c03_perm', dim=2, rot=2, cmp=1)
    r += grid('c03_str', dim=1, n=3, m=3, typ=[PAR, VAR], rd=[0, 1], svat=1) + grid('c03_map', dim=1, n=3, m=3, rd=[0, 1, 2], svat=1)
    r += grid('c03_str', dim=4, n=2, m=4, p=1, q=2) + grid('c03_str', dim=20, n=3, m=2, rd=[0, 1]) + grid('c03_str', dim=20, n=2, m=3, bad=1, p=9) + grid('c03_map', dim=20, n=2, m=4, rd=2) + grid('c03_map', dim=11, n=2, m=3, rd=2, bad=1, p=9, q=10)
    r += grid('c03_str', dim=2, n=2, m=3, trace=3) + grid('c03_map', dim=2, n=2, m=3, trace=3) + grid('c03_str', dim=1, n=2, m=3, bad=[1, 2], trace=[1, 3])
    if not q: r += grid('c03_str', _cost=20, dim=1, n=5, m=5, rd=[0, 1], typ=[PAR, VAR]) + grid('c03_str', _cost=20, dim=2, n=3, m=5, rd=[0, 1]) + grid('c03_str', _cost=20, dim=2, n=4, m=3) + grid('c03_str', _cost=20, dim=3, n=3, m=3, opt_time=600) + grid('c03_str', _cost=30, dim=1, n=3, m=4, pre=[65533, 65534, 65535]) + grid('c03_map', _cost=30, dim=1, n=3, m=4, pre=[65533, 65534]) + grid('c03_perm', _cost=9, dim=[1, 2, 3], rot=3, rd=[0, 1]) + grid('c03_perm', _cost=9, dim=2, map=1, rot=4, rd=2)
    return r
prop('C03', file='c03_sorted.cpp', runs=c03, bounds='one symbol; every sequence of up to 4 records (dimension 1; 3 of dimension 2, 2 of dimension 3 and of dimension 4, 11 and 20 with two free positions) over up to 5 labels/numbers including respellings, duplicates and invalid keys, with 0 or 253..256 (thorough: 65533..65535) labels registered before; every order of 12 records reachable by 2 (thorough 4) arbitrary selections; record values arbitrary 20-bit patterns; part of it with tracing switched on')

def c04(t):
    q = t == 'quick'; r = []
    for e in ('c04_expl', 'c04_comment', 'c04_producer', 'c04_acronym'): r += grid(e, len=[0], ns=[0], cmp=0) + grid(e, len=[1], ns=[1], cmp=0) + grid(e, len=[3, 63, 254, 255], ns=3, cmp=[0, 1])
    for e in ('c04_expl', 'c04_comment', 'c04_settext'): r += grid(e, len=[256, 257, 300], ns=2) + grid(e, len=300, ns=70 if e == 'c04_comment' else 48)
    r += grid('c04_producer', len=[256, 300], ns=2, cmp=[0, 1]) + grid('c04_acronym', len=[256, 300], ns=2, cmp=[0, 1])
    r += grid('c04_settext', len=[1], ns=1, cmp=[0, 1]) + grid('c04_settext', _cost=8, len=[2, 3, 64, 254, 255], ns=2, cmp=[0, 1])
    r += grid('c04_name', len=[1, 2, 3, 62, 63], ns=1, cmp=0, opt_covers=['end', 'good', 'bad']) + grid('c04_name', len=[2, 3, 4], ns=2, cmp=[0, 1]) + grid('c04_name', len=[63], ns=1, first=1) + grid('c04_name', len=[0], ns=0) + grid('c04_name', len=[64, 65, 254], ns=1)
    r += grid('c04_uel', _cost=3, how=[0, 1, 2, 3], len=[1, 2, 63], ns=1, pre=[0, 1], opt_covers=['end', 'good', 'bad']) + grid('c04_uel', _cost=3, how=[0, 1, 2, 3], len=[2, 3], ns=2, pre=1) + grid('c04_uel', how=[0, 3], len=[64, 65], ns=2, pre=0) + grid('c04_uel', how=0, len=[2], ns=2, cmp=1) + grid('c04_uel', how=[0, 1, 2, 3], len=0, ns=0)
    r += grid('c04_domain', len=[1, 2, 3], ns=1) + grid('c04_domain', len=[2, 63], ns=2, opt_covers=['end', 'good', 'bad']) + grid('c04_domain', len=[64], ns=1) 
    if not q:
        r += grid('c04_expl', len=[6, 255, 300], ns=6) + grid('c04_acronym', len=6, ns=6) + grid('c04_settext', _cost=30, len=[3, 254], ns=3, opt_time=900) + grid('c04_name', _cost=9, len=[4, 63], ns=4, opt_time=900) + grid('c04_uel', _cost=20, how=[0, 1, 2, 3], len=[3, 63], ns=3, pre=1, opt_time=900) + grid('c04_domain', _cost=9, len=4, ns=4, opt_time=900) + grid('c04_comment', len=[200, 255], ns=[100]) + grid('c04_producer', len=[255], ns=200)
    return r
prop('C04', file='c04_text.cpp', runs=c04, bounds='one text of length 0..3, 62..65, 254..257 or 300 among fixed neighbours; 1 to 3 of its characters arbitrary non-zero bytes (up to 200 for texts stored unchecked); both compression settings')

def c05(t):
    q = t == 'quick'
    r = grid('c05_ops', _cost=2, n=2, nl=7, side=[0, 1]) + grid('c05_ops', _cost=5, n=3, nl=3, side=0, op1=[0, 1, 2, 3]) + grid('c05_ops', _cost=5, n=3, nl=3, side=1, op1=[1, 2, 3])
    r += grid('c05_ops', _cost=2, n=2, nl=3, side=[0, 1], zero=1)
    r += grid('c05_rename', len=[1], ns=1, side=[0, 1], which=[0, 1]) + grid('c05_rename', len=[2, 3, 63, 64], ns=2, side=[0, 1], which=[0, 1]) + grid('c05_rename', len=65, ns=2, side=0) + grid('c05_many', _cost=3, n=[1499, 1500, 1501], side=[0, 1])
    if not q: r += grid('c05_ops', _cost=20, n=3, nl=5, side=[0, 1], op1=[0, 1, 2, 3], opt_time=900) + grid('c05_ops', _cost=30, n=4, nl=2, side=[0, 1], op1=[0, 1, 2, 3], opt_time=900) + grid('c05_rename', len=[3], ns=3, side=[0, 1]) + grid('c05_many', _cost=50, n=[15000, 15001], side=[0, 1], opt_time=900)
    return r
prop('C05', file='c05_labels.cpp', runs=c05, bounds='every sequence of 2 operations over 7 label spellings and 3 user numbers and of 3 operations over 3 spellings (thorough: 3 over 5, 4 over 2); renames to arbitrary texts with 1..2 free bytes at lengths 1..3 and 63..65; tables of 1499..1501 (thorough 15001) labels; two labels registered under the same user number are not covered')

def c06(t):
    q = t == 'quick'
    r = grid('c06_read', dim=1, nl=4, typ=[PAR, SET], api=[0, 1]) + grid('c06_read', _cost=4, dim=2, nl=3, typ=PAR, act0=[0, 1, 2, 3]) + grid('c06_read', dim=[1, 2], nl=3, api=2, typ=[PAR, VAR]) + grid('c06_badfilter') + grid('c06_sequence', _cost=2, how=[0, 1, 2]) + grid('c06_filters', n=2, nl=3, opt_covers=['end', 'redefined']) + grid('c06_filters', n=3, nl=2) + grid('c06_nolab', dim=[1, 2, 3], zero=[0, 1]) + grid('c06_read', dim=1, nl=3, api=[0, 1, 2], svat=1) + grid('c06_read', _cost=4, dim=2, nl=3, act0=[2, 3], svat=1, svn=1)
    r += grid('c06_read', dim=4, p=1, q=3, acto=[0, 2]) + grid('c06_read', dim=20, p=0, q=19, acto=2) + grid('c06_read', dim=20, p=9, q=10, acto=1) + grid('c06_read', dim=10, p=8, q=9, acto=3) + grid('c06_read', dim=20, p=17, q=18, acto=2, api=2)
    r += grid('c06_read', dim=1, nl=3, api=[0, 1, 2], trace=3)
    if not q: r += grid('c06_read', _cost=20, dim=3, nl=3, typ=[PAR], act0=[0, 1, 2, 3], opt_time=900) + grid('c06_sequence', _cost=5, how=[0, 1, 2], second=1) + grid('c06_sequence', _cost=20, n=3, how=[0, 1, 2], opt_time=900) + grid('c06_read', _cost=4, dim=2, nl=3, typ=[SET, EQU], act0=[0, 1, 2, 3])
    return r
prop('C06', file='c06_mapped.cpp', runs=c06, bounds='files of 3 to 6 records with arbitrary values, dimension 1 and 2 (thorough 3) and dimension 4, 10 and 20 with two free positions, 3 or 4 labels, every assignment of distinct user numbers to labels, every subset as filter, every combination of actions per position; two such reads of three symbols (thorough three reads) in succession on one handle, with and without registrations between them; filter and symbol numbers arbitrary integers in the refusal harness; part of it with tracing switched on')

def c07(t):
    q = t == 'quick'
    r = grid('c07_check', dim=1, n=2, typ=[PAR, VAR, SET], how=[0, 1, 2]) + grid('c07_check', dim=2, n=1, how=[0, 1, 2]) + grid('c07_check', _cost=5, dim=2, n=2, dom0=[1, 2], how=[0, 1]) + grid('c07_check', dim=1, n=1, store=[0, 1], bogus=[0, 1], how=[0, 1]) + grid('c07_check', dim=2, n=1, store=0, bogus=0)
    r += grid('c07_check', dim=3, p=2, n=2) + grid('c07_check', dim=20, p=19, n=2, how=[0, 1]) + grid('c07_check', _cost=3, dim=20, p=10, q=0, n=1, how=2) + grid('c07_check', _cost=2, dim=4, p=1, q=3, n=1) + grid('c07_relaxed', dim=3, p=2) + grid('c07_relaxed', dim=20, p=[0, 19])
    r += grid('c07_bits', base=[0, 8, 2040, 4090, 65530]) + grid('c07_bits', base=[0, 2040], n=3, span=4) + grid('c07_relaxed', dim=1) + grid('c07_relaxed', _cost=6, dim=2) + grid('c07_self', how=[0, 1]) + grid('c07_check', dim=1, n=1, how=[0, 1, 2], typ=[PAR, EQU], svat=0)
    if not q: r += grid('c07_check', _cost=20, dim=2, n=2, dom0=list(range(9)), how=[0, 1, 2], typ=[PAR, SET], opt_time=900) + grid('c07_check', _cost=20, dim=2, n=3, dom0=[1, 2], how=0, opt_time=900) + grid('c07_bits', _cost=9, base=[0, 2040, 16380], n=4, span=5)
    return r
prop('C07', file='c07_domain.cpp', runs=c07, bounds='a set, a subset, aliases (also of an alias and of *) and a symbol of dimension 1 or 2 (3, 4 and 20 with one or two free positions) whose domains are every combination of valid and invalid names; domain sets every subset of the labels (or 2 to 3 elements around 0, 2048, 4096 and 65536 with an arbitrary 20-bit key checked); up to 2 records (thorough 3) with every key; multi-dimensional sets as domains are not covered')

def c08(t):
    q = t == 'quick'
    r = grid('c08_set', rep=[0, 1]) + grid('c08_set', ns=2, first=[0, 1, 3], rep=[0]) + grid('c08_write', typ=[PAR], which=[0, 1, 2, 3, 4], wr=[0, 1, 2], rd=[0], rset=[0, 1]) + grid('c08_write', typ=[VAR], field=[0, 2, 4], which=[0, 3], wr=[0], rd=[1, 2], rset=[1, 2]) + grid('c08_history', n=3) + grid('c08_open')
    if not q: r += grid('c08_write', typ=[PAR, VAR], which=[0, 1, 2, 3, 4], wr=[0, 1, 2], rd=[0, 1, 2], rset=[0, 1, 2]) + grid('c08_history', _cost=9, n=5)
    return r
prop('C08', file='c08_special.cpp', runs=c08, bounds='five special values: all five arbitrary 64-bit patterns for acceptance and classification, one arbitrary at a time (others fixed and different) for write/read transport of one arbitrary 64-bit value outside the acronym range; histories of 3 (thorough 5) set/reset/read-set operations')

def c09(t):
    q = t == 'quick'
    r = grid('c09_index', _cost=9, bits=8, base=[1, 17976931 - 255]) + grid('c09_index', _cost=9, bits=4, base=[250, 65530, 1000000]) + grid('c09_write', n=2) + grid('c09_write', _cost=9, n=3, op=1) + grid('c09_read', _cost=9, n=[1, 2]) + grid('c09_notacr') + grid('c09_read', _cost=2, n=1, added=1) + grid('c09_use', n=120, base=[1, 65500, 17976812])
    if not q: r += grid('c09_index', _cost=30, bits=[12, 16], base=1, opt_time=1500, opt_qtime=1200) + grid('c09_write', _cost=9, n=3, op=[0, 2]) + grid('c09_read', _cost=9, n=3)
    return r
prop('C09', file='c09_acronym.cpp', runs=c09, bounds='index/value conversion for every index in 1..256 and 256 (or 16) indices around 250, 65530, 1000000 and the largest (thorough: 1..65536); histories of 2 (3 starting with implicit use; thorough all 3) operations adding, using and naming acronyms over 4 names and 4 indices; data using one acronym with any number in 1..120, 65500..65619 or the largest 120; 2 renumbering calls while reading, next automatic number arbitrary in 100..355')

def c10(t):
    q = t == 'quick'
    r = grid('c10_notopen', state=[0, 1, 2, 3, 4]) + grid('c10_notopen', _cost=3, state=0, two=1) + grid('c10_write', start=list(range(10)), n=2, finish=[0, 1]) + grid('c10_read', start=list(range(8)), n=2) + grid('c10_write', _cost=9, start=[0, 3, 6, 9], n=3, finish=1) + grid('c10_read', _cost=9, start=[0, 1, 4, 5], n=3)
    r += grid('c10_write', start=list(range(10)), n=1, finish=[0, 1], trace=[1, 2, 3]) + grid('c10_read', start=list(range(8)), n=1, trace=[1, 2, 3])
    if not q: r += grid('c10_write', _cost=9, start=list(range(10)), n=3, finish=[0, 1]) + grid('c10_read', _cost=9, start=list(range(8)), n=3) + grid('c10_notopen', _cost=3, state=[1, 2, 3, 4], two=1) + grid('c10_write', _cost=300, start=[0], n=4, finish=1, opt_time=1500) + grid('c10_read', _cost=300, start=[0], n=4, opt_time=1500)
    return r
prop('C10', file='c10_modes.cpp', runs=c10, bounds='every call and every pair of the 63 calls on a handle without open file (5 ways to get there, numeric arguments arbitrary); from each of 10 writing and 8 reading modes, every sequence of 2 calls and from half of the modes of 3 calls (thorough: 3 from all, 4 from the initial ones) out of 24 (writing) or 27 (reading); the single calls also with tracing switched on')

def c11(t):
    q = t == 'quick'
    r = grid('c11_crash', _cost=4, compr=[0, 1], more=[0, 1], dom=1) + grid('c11_crash', _cost=4, compr=0, over=1) + grid('c11_crash', _cost=6, big=4000, step=997, compr=[0, 1]) + grid('c11_writing', compr=[0, 1], drop=[0, 1]) + grid('c11_trunc', _cost=5, compr=[0, 1], more=[0, 1], dom=1) + grid('c11_append', _cost=3, compr=[0, 1], na=[1, 4]) + grid('c11_append', _cost=3, compr=[0, 1], new=1, more=1)
    if not q: r += grid('c11_crash', _cost=40, big=4000, step=101, compr=[0, 1]) + grid('c11_crash', _cost=9, n=4, more=1, compr=[0, 1]) + grid('c11_append', _cost=9, n=4, na=12, more=1, compr=[0, 1]) + grid('c11_trunc', _cost=40, big=2000, compr=[1], opt_time=900)
    return r
prop('C11', file='c11_crash.cpp', runs=c11, bounds='a file with labels, set texts, a set, a parameter of 2 (thorough 4) records with arbitrary values, optionally alias, comment, acronym and domains, plain and compressed, and one of 36 KB; the process stopping after any number of write calls with any part of the next one done (every 997th byte for the large file, thorough 101st); appending 1 or 4 symbols; every truncation length; writes reach the file in issue order (no reordering by a power failure)')

def c12(t):
    q = t == 'quick'
    r = grid('c12_fail', mode=[0, 1, 4], compr=[0, 1], more=[0, 1], ask=[0, 1], opt_covers=['end']) + grid('c12_fail', mode=[0, 1, 4], conv=1) + grid('c12_fail', _cost=5, mode=[0, 1, 4], big=4000, compr=[0, 1]) + grid('c12_append', mode=[0, 4], compr=[0, 1], conv=0) + grid('c12_append', mode=[0, 4], conv=1) + grid('c12_read', mode=[0, 1], compr=[0, 1])
    if not q: r += grid('c12_fail', _cost=50, mode=[0, 1, 4], big=20000, compr=[0, 1], opt_time=900)
    return r
prop('C12', file='c11_crash.cpp', runs=c12, bounds='the same files; any one write call of the session failing with an error, or being short, or it and all later ones failing; sessions of up to 4000 (thorough 20000) further records so that failures in the middle of data occur; creation and appending; a failing or short read while opening; failures of close(2) and of reads after opening are not covered')

def c13(t):
    q = t == 'quick'
    r = grid('c13_arbitrary', n=[0, 1, 2, 3, 5, 8, 17, 19, 26]) + grid('c13_header', at=[0], n=3) + grid('c13_header', at=3, n=5) + grid('c13_header', at=8, n=9) + grid('c13_header', at=17, n=1) + grid('c13_header', at=18, n=8) + grid('c13_header', at=26, n=[4]) + grid('c13_header', at=30, n=4) + grid('c13_header', at=34, n=[1, 5]) + grid('c13_header', marker=1, n=4) + grid('c13_header', section=[1, 2, 3, 4, 6], n=[1, 6]) + grid('c13_block', section=[0, 1, 2, 3, 4, 6])
    if not q: r += grid('c13_arbitrary', _cost=30, n=[33, 41], opt_time=900) + grid('c13_header', section=[1, 2, 3, 4, 6], n=7) + grid('c13_header', _cost=20, at=34, n=9, opt_time=900) + grid('c13_header', _cost=20, at=26, n=8, opt_time=900)
    for i in r:
        if i['entry'] == 'c13_header': i['covers'] = ['end', 'refused', 'opened']
    return r
prop('C13', file='c14_format.cpp', runs=c13, bounds='every file of up to 28 bytes (selected lengths; thorough 41); a small complete file with any of these replaced by arbitrary bytes: the three byte order fields (the reversed patterns, which denote another machine, excluded), header number, identification, version, compression flag, audit line length, index marker, and the name of each section (symbols, labels, texts, acronyms, domains); in a compressed file any head of a block of each section or of the data with a length beyond the block size; other damage inside the tables or the data is not covered (the reader has no checksums)')

def c14(t):
    q = t == 'quick'
    r = grid('c14_decode', dim=[0, 1, 2], n=2, how=[0, 1]) + grid('c14_decode', dim=2, n=3) + grid('c14_decode', dim=1, typ=SET, how=[0, 1]) + grid('c14_decode', dim=2, typ=[VAR, EQU], n=2, field=[1, 4]) + grid('c14_decode', dim=[1, 2], gap=[200, 255, 300], n=2) + grid('c14_decode', dim=3, how=1, n=2) + grid('c14_errors', how=[0, 1])
    for v in (5, 6, 7):
        for b in (0, 1):
            r += grid('c14_encode', ver=v, big=b, dim=[0, 1], n=2) + grid('c14_encode', ver=v, big=b, dim=2, n=2, range=300, jump=[243, 244, 245, 252, 253, 254], api=[0, 1] if v == 7 else 0) + grid('c14_encode', ver=v, big=b, dim=1, n=2, range=[255, 256, 65535, 65536], base=200, jump=[40]) + grid('c14_encode', ver=v, big=b, dim=1, typ=SET, dup=[0, 1])
    r += grid('c14_encode', ver=5, y2001=1) + grid('c14_encode', dim=2, typ=VAR, field=[0, 3], big=[0, 1]) + grid('c14_encode', dim=2, dom=1) + grid('c14_encode', _cost=4, dim=2, n=3, ver=[6, 7])
    if not q: r += grid('c14_encode', _cost=20, dim=3, n=4, ver=[5, 6, 7], big=[0, 1], range=300, jump=100, opt_time=900) + grid('c14_decode', _cost=5, dim=3, n=4) + grid('c14_decode', dim=20, n=2) + grid('c14_encode', dim=[10], ver=[5, 6], n=2) + grid('c14_encode', dim=[20], n=2)
    return r
prop('C14', file='c14_format.cpp', runs=c14, bounds='one symbol of dimension 0..3 (thorough up to 20) with 2 to 3 (thorough 4) records, one value an arbitrary 64-bit pattern outside the acronym range, key steps and element ranges around the width and short-form limits, every text assignment; versions 5, 6 and 7 in both byte orders for reading; compressed files are covered by C16')

def c15(t):
    q = t == 'quick'
    r = grid('c15_append', n=1, op=list(range(10)), compr=[0, 1], same=[0, 1]) + grid('c15_append', _cost=2, n=2, op=list(range(10)), compr=0, str=[0, 1]) + grid('c15_append', _cost=2, n=2, op=list(range(10)), compr=1) + grid('c15_append', _cost=4, n=3, op=list(range(10)), split=1) + grid('c15_append', n=1, op=list(range(10)), compr=[0, 1], same=[0, 1], pre=1) + grid('c15_refuse', ver=[5, 6, 7], big=[0, 1]) + grid('c15_dup') + grid('c15_append', n=1, op=[0, 2, 7, 8], svat=0) + grid('c15_append', n=1, op=[0, 1, 3, 5, 7, 8], compr=[0, 1], far=[1, 2, 3]) + grid('c15_append', _cost=2, n=2, op=[0, 1, 3], split=1, far=[1, 2])
    r += grid('c15_append', n=1, op=list(range(10)), trace=3)
    if not q: r += grid('c15_append', _cost=9, n=3, op=list(range(10)), compr=[0, 1], same=[0, 1]) + grid('c15_append', _cost=20, n=4, op=list(range(10)), op1=list(range(10)), split=1)
    return r
prop('C15', file='c15_append.cpp', runs=c15, bounds='files built by 1 to 3 (thorough 4) operations out of 10 kinds (string, raw and mapped writes, sets with old and new texts, aliases, acronyms, comments and relaxed domains, renaming, strict domains, scalars, refused duplicates) on top of a base file, with every choice of where the file is closed and appended to; values arbitrary (20 free bits); plain and compressed, same or fresh handle; the same for files whose tables and added data lie around 2 GiB, 4 GiB and 5 TiB; versions 5 to 7 and both byte orders for the refusals; at most 12 labels; single operations also with tracing switched on')

def c16(t):
    q = t == 'quick'
    r = grid('c16_bulk', _cost=3, compr=[0, 1], api=[0, 1], typ=VAR) + grid('c16_bulk', _cost=2, typ=PAR, n=3300, hot=3270, cnt=4, compr=1, zlen=[50, 110]) + grid('c16_bulk', _cost=2, cnt=4, zlen=[110]) + grid('c16_tables', what=[0, 1, 2], cnt=4, compr=[0, 1]) + grid('c16_tables', what=[0, 1, 2], cnt=2, zlen=110) + grid('c16_pair', n=1, zlen=-1) + grid('c16_pair', _cost=3, n=2, zlen=[50, 110]) + grid('c16_env')
    if not q: r += grid('c16_bulk', _cost=9, cnt=1, zlen=-1) + grid('c16_bulk', _cost=9, typ=[VAR, EQU], cnt=23, zlen=[50, 110], n=1500, hot=[711, 1424]) + grid('c16_tables', _cost=4, what=[0, 1, 2], cnt=16, zlen=[50, 110]) + grid('c16_tables', _cost=9, what=[0, 1, 2], n=2300, hot=[1020, 2040], cnt=4, zlen=[50, 110])
    return r
prop('C16', file='c16_compress.cpp', runs=c16, bounds='symbols of 1, 2 or 3 types and up to 2 records in every combination; one symbol of 730 to 3300 records (thorough 1500 records in three blocks) with every alignment of the 32 KiB block limit within a record and an arbitrary value around it; label, text and symbol tables of 1100 (thorough 2300) entries with 4 (16) alignments; compressed size of a block smaller or not smaller than its content (zlib itself is replaced by an invertible stand-in); any non-zero flag, environment strings of up to 2 arbitrary characters')

def c17(t):
    q = t == 'quick'
    r = grid('c17_linked', dim=[1, 2], n=3, keys=3, nv=[0, 1]) + grid('c17_linked', dim=1, n=4, keys=4, base=[0, 65534, 2000000]) + grid('c17_linked', dim=3, n=2, keys=2, bulk=40, nv=5, passes=2) + grid('c17_linked', dim=20, n=2, keys=1, bulk=20, nv=5) + grid('c17_linked', dim=2, n=3, keys=2, gap=70000)
    r += grid('c17_hash', n=3, cs=[0, 1], onebased=[0, 1]) + grid('c17_hash', n=1, bulk=[996, 1499, 1500, 14999], store=[0, 1], cs=[0, 1]) + grid('c17_hash', _cost=3, n=2, bulk=1499, cs=[0]) + grid('c17_hash', n=2, bulk=[38, 41], cap=[0, 30, 2000])
    r += grid('c17_bits', n=3, base=[0, 2040, 4090], span=8, far=[0]) + grid('c17_bits', n=3, base=0, span=3, far=[2040, 16384, 70000]) + grid('c17_bits', n=3, base=[70000, 600000], span=2, far=[65536, 500000], conc=1) + grid('c17_intmap', n=4) + grid('c17_table', dim=[1, 2], n=3) + grid('c17_table', dim=1, n=5, nv=1) + grid('c17_list', n=3, bulk=[0, 15, 127]) + grid('c17_strings') + grid('c17_strlist', kind=[0, 1, 2, 3], onebased=[0, 1], n=4, **{'del': 1}) + grid('c17_grow', bulk=[0, 4094, 8190]) + grid('c17_batch', first=[0, 100, 72]) + grid('c17_cmove')
    if not q: r += grid('c17_linked', _cost=9, dim=2, n=4, keys=3) + grid('c17_linked', _cost=9, dim=1, n=6, keys=4) + grid('c17_hash', _cost=20, n=4, cs=[0, 1]) + grid('c17_hash', _cost=9, n=2, bulk=[1499, 14999], cs=[0, 1], store=[0, 1]) + grid('c17_bits', _cost=9, n=4, base=[0, 2040], span=9) + grid('c17_list', _cost=20, n=4) + grid('c17_strlist', _cost=4, kind=[0, 1, 2, 3], onebased=[0, 1], n=5) + grid('c17_grow', _cost=3, bulk=[4094, 131070], n=5) + grid('c17_batch', n=6, first=[0, 72])
    return r
prop('C17', file='c17_containers.cpp', extra_src=['src/gdlib/gmsobj.cpp', 'src/gdlib/strhash.cpp', 'src/gdlib/gmsdata.cpp', 'src/gdlib/datastorage.cpp'], runs=c17, bounds='sequences of 3 to 5 (thorough 6) operations on every container, starting empty or with a bulk just below a growth threshold (hash list 997/1500/15000 entries, bit set 2048 and 16384 bits, integer map 1024 and 2048, growing array 4096 items, allocator batches), keys 0 to 2000002 and gaps of 70000, values arbitrary; sorting of the hash lists and the one-based mode of TXList are not covered (unused)')

def c19(t):
    q = t == 'quick'
    r = grid('c19_typed', n=1, cmp=[0, 1]) + grid('c19_typed', _cost=4, n=2, before=[0, 1, 3, 5], cmp=[0]) + grid('c19_typed', _cost=2, n=2, first=[5, 7], cmp=1, before=[4])
    r += grid('c19_gmsint', two=[0, 1]) + grid('c19_gmsdbl', special=[0, 1]) + grid('c19_text', n=[0, 4], pw=[0], comp=[0, 1], sig=[0, 1]) + grid('c19_text', n=4, ns=2, pw=[1, 3, 9], pns=[1], comp=[0, 1]) + grid('c19_text', n=33000, ns=1, pw=[0, 5], pns=1, comp=[0, 1]) + grid('c19_text', n=3, pw=[255, 256, 300], pns=1, comp=0)
    r += grid('c19_lines', n=3, how=[0, 1, 2], gz=[0, 1]) + grid('c19_lines', n=2, how=[0, 2], gz=[0, 1], big=[32760, 65530]) + grid('c19_bom', n=[1, 2, 3, 4, 6]) + grid('c19_password', len=[1, 3], n=[4], big=[0, 1])
    if not q: r += grid('c19_typed', _cost=8, n=2, cmp=[0, 1], before=list(range(10))) + grid('c19_typed', _cost=20, n=3, before=[1, 4], first=list(range(9)), opt_time=900) + grid('c19_lines', _cost=4, n=5, how=[0, 1, 2], gz=[0, 1]) + grid('c19_password', _cost=3, len=[5, 8], n=9, big=[0, 1]) + grid('c19_text', n=8, pw=4, pns=2, comp=[0, 1])
    return r
prop('C19', file='c19_stream.cpp', runs=c19, bounds='sequences of 1 or 2 (thorough 3) typed values of every value starting 0 to 9 bytes before a buffer limit; strings of length 0, 1, 4, 254, 255 and 290; every packed integer and number; text files of up to 33000 bytes with up to 4 arbitrary bytes, passwords of up to 300 characters (the last one arbitrary); texts of 3 (thorough 5) characters out of five kinds read by lines with three limits; gzip files made of stored blocks (inflating is zlib)')

def c23(t):
    q = t == 'quick'
    r = grid('c23_readers', dim=0, typ=[PAR, VAR, EQU]) + grid('c23_readers', dim=1, nl=3, typ=[SET, PAR, VAR, EQU], nolab=[0, 1]) + grid('c23_readers', dim=1, typ=SET, nl=3, how=1) + grid('c23_readers', dim=2, nl=2, typ=[SET, PAR, EQU], nolab=[0, 1, 2], cmp=[0, 1]) + grid('c23_readers', _cost=12, dim=2, nl=3) + grid('c23_readers', _cost=12, dim=3, nl=2) + grid('c23_readers', dim=1, nl=3, before=2, typ=[PAR, VAR]) + grid('c23_readers', _cost=2, dim=2, nl=2, before=2) + grid('c23_readers', _cost=2, dim=1, nl=3, typ=[PAR, VAR], svat=[0, 1]) + grid('c23_readers', _cost=3, dim=2, nl=2, svat=1)
    r += grid('c23_universe', how=[0, 1], reg=[0, 1]) + grid('c23_elements', dim=1, nl=3, filt=[0, 1], nolab=[0, 1, 2]) + grid('c23_elements', dim=2, nl=2, filt=[0, 1], nolab=[0, 1, 2]) + grid('c23_elements', _cost=12, dim=2, nl=3, filt=[1])
    r += grid('c23_readers', _cost=3, dim=4, p=2, nl=2) + grid('c23_readers', _cost=6, dim=20, p=10, nl=2)
    r += grid('c23_readers', trace=3)
    if not q: r += grid('c23_readers', _cost=30, dim=2, nl=3, typ=[SET, VAR], nolab=[0, 1, 2], cmp=[0, 1], opt_time=900) + grid('c23_readers', _cost=30, dim=3, nl=2, nolab=[1, 2], typ=[PAR, EQU], opt_time=900) + grid('c23_readers', dim=1, nl=5, typ=[SET, PAR, VAR, EQU]) + grid('c23_elements', _cost=20, dim=2, nl=3, filt=[0, 1], nolab=[0, 1, 2], opt_time=900) + grid('c23_elements', _cost=20, dim=1, nl=4, filt=[0, 1])
    return r
prop('C23', file='c23_readers.cpp', runs=c23, bounds='every subset of the records over 3 labels (dimension 1 and 2) or 2 labels (dimension 3; dimension 4 and 20 with three free positions; thorough 5 labels in dimension 1), arbitrary values, optionally an element number without label (0 or beyond the table); per position no filter, each label or an unknown one; every assignment of two kinds of user numbers for domain elements; files small enough for one block; part of it with tracing switched on')

def c24(t):
    q = t == 'quick'
    r = grid('c24_catalogue', _cost=3, n=2, cmp=[0, 1]) + grid('c24_catalogue', _cost=12, n=1, bulk=[1000]) + grid('c24_catalogue', _cost=8, n=3, op=[1, 4]) + grid('c24_tables', nl=[1, 2, 3], read=[0, 1])
    if not q: r += grid('c24_catalogue', _cost=10, n=3, op=list(range(8)), cmp=[0, 1], opt_time=900) + grid('c24_catalogue', _cost=20, n=2, bulk=[1000], opt_time=900)
    return r
prop('C24', file='c24_catalogue.cpp', runs=c24, bounds='sequences of 2 or 3 definitions (symbols of dimension 0 to 2 and each type, aliases, comments, invalid ones), with and without 1000 symbols before them; arbitrary user info; tables of up to 3 labels, 2 texts')

def c25(t):
    q = t == 'quick'
    r = grid('c25_symbols', n=2, cmp=[0, 1]) + grid('c25_symbols', _cost=4, n=3) + grid('c25_writers', _cost=2, switches=[2, 3, 4]) + grid('c25_nested', a=[0, 1], b=[0, 1], set=[0, 1], cmp=[0, 1]) + grid('c25_reads', n=2, cmp=[0, 1], bulk=[0, 300]) + grid('c25_reads', _cost=7, n=3) + grid('c25_reads', n=2, bulk=6000, cmp=[0, 1]) + grid('c25_handles', n=6, same=[0, 1], cmp=[0, 1])
    if not q: r += grid('c25_writers', _cost=20, switches=[6, 8, 99], opt_time=900) + grid('c25_reads', _cost=20, n=3, cmp=[0, 1], bulk=[0, 300], opt_time=900) + grid('c25_handles', _cost=10, n=8, same=[0, 1])
    return r
prop('C25', file='c25_independent.cpp', runs=c25, bounds='3 symbols in one session, each written by 3 methods with 4 kinds of records; two writing sessions of 9 steps with up to 4 (thorough: all) switches between them, sequences of 2 or 3 complete or abandoned reads of 4 symbols by 4 methods (raw, strings, mapped, filtered), two readers and a writer for 6 (thorough 8) steps in every order; a session of 11 or 12 steps (writing with errors, reading in every style) stopped anywhere while another handle carries out any part of such a session; calls are not concurrent (the library has no locking and does not promise any)')

def c26(t):
    q = t == 'quick'
    r = grid('c26_flat', _cost=4, n=3, init=[0, 40000]) + grid('c26_flat', n=2, init=[32768, 65536, 70000]) + grid('c26_far', _cost=3, n=2, far=[0, 1, 2]) + grid('c26_regions', _cost=4, n=2) + grid('c26_regions', _cost=6, n=3, cz=[2, 5])
    if not q: r += grid('c26_flat', _cost=35, n=4, init=[40000], op=[0, 1, 2], opt_time=900) + grid('c26_flat', _cost=8, n=3, init=[32768, 65536, 70000]) + grid('c26_regions', _cost=20, n=3, cz=list(range(8)), opt_time=900)
    return r
prop('C26', file='c26_buffer.cpp', runs=c26, bounds='sequences of 3 (thorough 4) writes, reads and seeks with sizes 1, 3, 32767 to 32769, 65536 and 70000 and 7 positions; 2 accesses at 10 places in files of more than 2 GiB, 4 GiB and 5 TiB; 2 or 3 regions, compressed or not, of 7 sizes, read from any of them forwards or backwards; the first and last byte of every piece arbitrary; zlib replaced by an invertible stand-in')

def c21(t):
    q = t == 'quick'
    r = grid('c21_data', _cost=4, typ=PAR, kinds=4) + grid('c21_data', _cost=2, typ=SET, nl=2, nosettext=[0, 1]) + grid('c21_data', typ=SET, nl=1, nosettext=[2, 3, 4, 5, 6], hi=0) + grid('c21_data', nl=1, kinds=4, hi=0) + grid('c21_data', kinds=11, nl=1, eps=[0, 1], rel=[0, 2]) + grid('c21_data', kinds=0, eps=[0, 1, 2], nl=1) + grid('c21_data', dim=0, kinds=11, eps=[0, 1]) + grid('c21_data', _cost=3, kinds=3, nl=2, order=[1, 2], ignord=[0, 1], cmpdef=[0, 1]) + grid('c21_data', _cost=3, dim=2, kinds=1)
    for x in (VAR, EQU):
        r += grid('c21_data', typ=x, nl=1, kinds=4, fld=[0, 1, 2, 3, 4]) + grid('c21_data', typ=x, nl=1, kinds=3, fld=[0, 1, 2, 3, 4], diffonly=1, cmpdef=[0, 1]) + grid('c21_data', typ=x, nl=1, kinds=3, fld=[0, 1, 2, 3, 4], field=[1, 3]) + grid('c21_data', typ=x, nl=1, kinds=3, fld=[2, 3], field=[2, 3], fldonly=1) + grid('c21_data', typ=x, nl=1, kinds=3, fld=3, field=[0, 3], diffonly=1) + grid('c21_data', typ=x, nl=1, kinds=8, eps=1, fld=[2, 3], sub=[3, 4, 53, 54, 55, 56, 57, 58, 59, 60, -1, 1000000])
    r += grid('c21_data', typ=[PAR, VAR, EQU, SET], dim=[18, 19, 20], nl=1, kinds=2, diffonly=[0, 1]) + grid('c21_symbols', _cost=3, opt=[0, 2, 3, 4, 5]) + grid('c21_symbols', _cost=6, opt=1, typ=[0, 1, 2, 3]) + grid('c21_data', kinds=16, nl=1, rel=[1, 2], eps=[0, 1]) + grid('c21_acronyms', _cost=4) + grid('c21_acronyms', _cost=4, typ=VAR, sub=5, fld=3)
    if not q: r += grid('c21_data', _cost=30, dim=2, kinds=2, nl=2, opt_time=900) + grid('c21_data', _cost=30, dim=1, kinds=5, nl=2, eps=[0, 1], opt_time=900) + grid('c21_data', _cost=30, dim=1, kinds=2, nl=3, order=[0, 1], opt_time=900) + grid('c21_data', _cost=30, typ=[VAR, EQU], kinds=4, nl=2, fld=[0, 3], diffonly=[0, 1], opt_time=900) + grid('c21_data', _cost=20, typ=SET, nl=3, opt_time=900)
    return r
prop('C21', file='c21_diff.cpp', tool='gdxdiff', runs=c21, bounds='two files with one symbol to compare (and an equal one) of 0 to 4 records over 1 or 2 (thorough 3) labels of dimension 0, 1 or 2 (3 and 4 with any two records, 18 to 20 with one), every presence of records, values out of 16 ordinary and special ones or arbitrary in 1..2 in steps of 1/256; every combination of types, dimensions and domains; options Eps, RelEps (two values each), Field, FldOnly, DiffOnly, CmpDefaults, CmpDomains, SetDesc, ID, SkipID, IgnoreOrder in the combinations listed in lib/props.py; two acronyms per file with numbers from 1, 2 or 7; MatrixFile and parameter files are not covered')

def c20(t):
    q = t == 'quick'
    r = grid('c20_data', typ=[SET, PAR, VAR, EQU], nl=2, big=[0, 1, 9], order=[0, 1]) + grid('c20_data', typ=[PAR, VAR, EQU], dim=0, big=[0, 1]) + grid('c20_data', _cost=4, dim=2, nl=2, big=[0, 1], cmp=[0, 1]) + grid('c20_data', _cost=2, typ=PAR, nl=2, nf=3, big=[0, 1]) + grid('c20_data', _cost=2, typ=[PAR, VAR, EQU], nl=2, big=[0, 1], svat=[0, 3])
    r += grid('c20_symbols', _cost=10, typ=[0, 1, 2, 3, 4]) + grid('c20_symbols', small=1, opt=[0, 1, 2, 3, 4], big=[0, 1]) + grid('c20_symbols', small=1, big=2) + grid('c20_symbols', small=1, opt=[5, 6]) + grid('c20_symbols', _cost=3, small=1, nf=3, big=[0, 1]) + grid('c20_dims', typ=[SET, PAR, VAR, EQU], dim=[18, 19, 20], big=[0, 1]) + grid('c20_dims', _cost=4, dim=[3, 4], n=2, big=[0, 1]) + grid('c20_acronyms', _cost=16, big=[0, 1]) + grid('c20_files', how=[0, 1, 2, 3], strict=[0, 1])
    if not q: r += grid('c20_symbols', _cost=20, typ=[0, 1, 2, 3, 4], big=[1, 2], opt_time=900) + grid('c20_data', _cost=30, typ=SET, nl=2, nf=3, opt_time=900) + grid('c20_data', _cost=20, dim=2, nl=2, typ=[VAR, EQU], big=[0, 1, 20], opt_time=900) + grid('c20_acronyms', _cost=16, big=6)
    return r
prop('C20', file='c20_merge.cpp', tool='gdxmerge', runs=c20, bounds='2 (or 3) files with one symbol in common (and another one in one of them) of 0 to 4 records over 2 labels, dimension 0, 1 or 2 (3 and 4 with any two records, 18 to 20 with one); every type, arbitrary values or four set texts; every combination of type, dimension, subtype, alias and explanatory text in two files; ID and Exclude lists in the six forms of h/c20_merge.cpp; BIG=1, 2 and 9; up to two acronyms per file with numbers 1, 2, 5 (and their successors); file names with and without pattern, missing, foreign; file names are distinct and valid labels, parameter files are not covered')

def c22(t):
    q = t == 'quick'
    r = grid('c22_normal', typ=PAR, kinds=10, nl=1, acr=1) + grid('c22_normal', typ=PAR, kinds=8, nl=1) + grid('c22_normal', typ=SET, kinds=9, nl=1) + grid('c22_normal', typ=[SET, PAR, VAR, EQU], nl=2, kinds=3, filter=[0, 1], cmp=[0, 1]) + grid('c22_normal', typ=[VAR, EQU], nl=1, kinds=8, fld=[1, 2, 3, 4], filter=[0, 1]) + grid('c22_normal', typ=VAR, sub=[1, 2, 4, 5, 6, 7, 8, 9], nl=1, kinds=4, fld=3) + grid('c22_normal', typ=EQU, sub=[54, 55, 56, 57, 58, 59], nl=1, kinds=4, fld=3) + grid('c22_normal', typ=SET, sub=1, nl=1)
    r += grid('c22_normal', typ=[PAR, VAR], dim=[0, 1], txt=1, comm=1, kinds=2, nl=1, nodata=[0, 1]) + grid('c22_normal', dim=2, kinds=2, nl=2, dom=[0, 1]) + grid('c22_normal', dim=2, delim=[32, 44, 59], kinds=1) + grid('c22_normal', dec=1, kinds=1, nl=1) + grid('c22_normal', typ=[PAR, VAR], one=1, nohdr=[0, 1], kinds=2, nl=2) + grid('c22_normal', out=[0, 1], alias=1, kinds=2) + grid('c22_normal', svout=1, kinds=8, nl=1) + grid('c22_normal', hex=1, kinds=0, nl=2) + grid('c22_normal', single=1, nl=5, kinds=1) + grid('c22_bas', typ=[VAR, EQU], dim=[0, 1], fld=[0, 1], kinds=4) + grid('c22_bas', dim=2, kinds=1) + grid('c22_bas', typ=[VAR, EQU], nl=5, kinds=1, fld=1)
    r += grid('c22_csv', typ=[SET, PAR, VAR, EQU], kinds=3, stext=[0, 1], full=[0, 1]) + grid('c22_csv', typ=SET, kinds=9, nl=1, stext=1) + grid('c22_csv', nl=5, kinds=1, delim=[0, 59, 9]) + grid('c22_csv', nl=3, lab=3, kinds=1, typ=[SET, PAR]) + grid('c22_csv', nl=2, lab=4, dim=2, kinds=1, cdim=[0, 1]) + grid('c22_csv', dim=0, typ=[PAR, VAR, EQU], full=[0, 1]) + grid('c22_csv', dim=2, dom=1, kinds=1) + grid('c22_csv', dim=3, dom=1, kinds=1, nl=1) + grid('c22_csv', cdim=1, dim=2, kinds=3) + grid('c22_csv', cdim=1, dim=2, nl=3, kinds=1, typ=[SET, PAR]) + grid('c22_csv', cdim=1, dim=3, kinds=1) + grid('c22_csv', cdim=1, dim=2, kinds=2, nohdr=1) + grid('c22_csv', header=1, cdim=[0, 1], dim=2, kinds=1) + grid('c22_csv', dec=1, delim=59, kinds=2) + grid('c22_csv', hex=1, kinds=0) + grid('c22_csv', svout=1, acr=1, kinds=10, nl=1, nohdr=[0, 1]) + grid('c22_csv', typ=SET, alias=1, kinds=2, nl=2, stext=[0, 1])
    r += grid('c22_normal', typ=[SET, PAR, VAR], dim=20, nl=1, kinds=2) + grid('c22_normal', dim=10, nl=1, kinds=2, dom=1) + grid('c22_csv', dim=20, nl=1, kinds=2, cdim=[0, 1])
    r += grid('c22_nolabel', how=[0, 1, 2]) + grid('c22_lists', _cost=15, how=[0, 1, 2, 3, 4, 5, 6])
    if not q: r += grid('c22_csv', _cost=20, cdim=1, dim=3, kinds=2, typ=[PAR, VAR], opt_time=900) + grid('c22_csv', _cost=20, dim=3, nl=2, kinds=2, dom=0, opt_time=900) + grid('c22_normal', _cost=20, dim=3, nl=2, kinds=2, typ=[PAR, VAR], opt_time=900) + grid('c22_normal', _cost=20, typ=[VAR, EQU], nl=3, kinds=8, fld=[0, 2, 3], opt_time=900) + grid('c22_lists', _cost=60, n=3, how=[0, 1, 2, 3, 4], opt_time=900)
    return r
prop('C22', file='c22_dump.cpp', tool='gdxdump', runs=c22, bounds='one symbol of every type and subtype (plus a domain set) with every subset of up to 9 records over up to 5 labels (with quotes, blanks, commas), dimension 0 to 3 (10 and 20 with one), values out of 10 ordinary, special and acronym ones, arbitrary values (20 free bits) in hexadecimal output; 9 element texts, 6 explanatory texts, up to two comments; formats normal, gamsbas and CSV with the options listed in lib/props.py; catalogues of 2 (thorough 3) symbols; the decimal output of doubles is covered for these values only')

def c27(t):
    q = t == 'quick'
    r = grid('c27_any', _cost=3, state=list(range(18)), layer=[1, 3]) + grid('c27_any', _cost=3, state=[1, 4, 9, 11, 13], layer=[2, 4, 6]) + grid('c27_callbacks', fn=[0, 1, 2], opt_covers=['end', 'fortran']) + grid('c27_version') + grid('c27_signature')
    if not q: r += grid('c27_any', _cost=3, state=list(range(18)), layer=[2, 4, 5, 6]) + grid('c27_any', _cost=9, state=list(range(18)), layer=[1, 3], wide=1, opt_time=900)
    return r
prop('C27', file='c27_capi.cpp', capi=1, extra_src=[H + 'c27_layers.cpp'], runs=c27, bounds='in 18 states (unopened, writing, within each kind of write and registration, closed, reading, within each kind of read, filter definition) one call of any of the 97 functions with integer arguments -1..4 (thorough: arbitrary), an arbitrary value and one of five text pairs, followed by a fixed sequence of calls and closing; every client version number; one function signature with an arbitrary argument count and type; compressed block contents are not compared')

def c28(t):
    q = t == 'quick'
    r = grid('c28_any', _cost=3, state=list(range(18)), layer=0) + grid('c28_any', _cost=3, state=[1, 9], layer=[1, 3]) + grid('c28_reuse', kind=list(range(15)), compr=[0, 1]) + grid('c28_session', kind=list(range(15)), compr=[0, 1]) + grid('c28_damaged', _cost=3, how=[0, 1, 2, 3]) + grid('c28_faults', kind=list(range(13)), mode=[0, 1, 4])
    if not q: r += grid('c28_any', _cost=3, state=list(range(18)), layer=[1, 2, 3, 4, 5]) + grid('c28_any', _cost=40, state=[1, 2, 4, 9, 11], two=1, opt_time=900) + grid('c28_session', kind=list(range(15)), compr=[0, 1], layer=[1, 5]) + grid('c28_faults', kind=list(range(13)), mode=[0, 1, 4], compr=1)
    return r
prop('C28', file='c28_release.cpp', capi=1, extra_src=[H + 'c27_layers.cpp'], runs=c28, bounds='in 18 states one call (thorough: two) of any of the 97 functions with integer arguments -1..4 and one of three text pairs, then freed with or without closing; every sequence of two out of 15 activities (writing in each style finished and unfinished, reading in each style, appending, refused opening), each finished or not, with one handle freed afterwards or used for three rounds; a file cut anywhere or with one arbitrary byte in its header, index or table markers; one failing write or read (of the first 12), or all from there on; memory is counted in allocated blocks, after a first identical session that may set up program wide data')
