"""Which symbolic runs decide which property. A job is one harness with fixed sizes; every path of it is explored."""


def c(s):
    o = '"'
    for ch in s.encode('latin-1'):
        o += '\\%03o' % ch if ch < 32 or ch > 126 or ch in b'"\\?' else chr(ch)
    return o + '"'


def tpl(name, t, what, alpha='', varlen=None, reach=('accepted', 'rejected'), src='parse_any.cpp', more={}, **kw):
    d = dict(TPL=c(t), ALPHA=c(alpha), WHAT=what, **more)
    if varlen is not None:
        d['VARLEN'] = varlen
    b = 'text %s' % t.encode('unicode_escape').decode()
    if '?' in t:
        b += '; ? = any byte'
    if '@' in t:
        b += '; @ = any byte of %r' % alpha
    if varlen is not None:
        b += '; every length from %d' % varlen
    return dict(name=name, src=src, defs=d, reach=list(reach), bounds=b, **kw)


NUM = '0129.+-eE'
STR = '[]{}:,"1 '
HEX = '0149adDeEfF8BCcb"\\'
WS = ' \t\n\r\v\f1,'
NAMES = 'ab"\\'


def seq(name, t1, t2, alpha='', steps=2, tier=None):
    return job(name, 'parse_seq.cpp', 'sequences of %d parses of %s, %s, a fixed valid text, unterminated and empty buffers and missing files; ? = any byte, @ = any of %r' % (steps, t1, t2, alpha),
               reach=('end', 'ok', 'failed'), tier=tier, TPL1=c(t1), TPL2=c(t2), ALPHA=c(alpha), STEPS=steps)


SEQ = [('seq_arr', '[1@@', '@"b"@', '],"2'), ('seq_obj', '{"a":[?]}?', '["long enough to need the heap ?"'), ('seq_tail', '[[],{}]?', '"??'),
       ('seq_name', '{"?":1,"?":@', '[tru?,@', '}]1')]


def seqs():
    return [seq(*s, steps=3) for s in SEQ] + [seq(s[0] + '4', *s[1:], steps=4, tier='thorough') for s in SEQ]


def sizes(w, src='parse_sizes.cpp', lim=34, big=140, reach=('accepted', 'rejected'), name='sizes', tier=None, **kw):
    return job(name, src, 'strings, names, numbers and escape sequences of every length below %d, arrays, objects (three name orders) and nestings of every size below %d, with 1-2 free bytes' % (big, lim),
               reach=reach, tier=tier, WHAT=w, LIM=lim, BIG=big, **kw)


def wide(name, w, kinds, szs, src='parse_sizes.cpp', reach=('accepted', 'rejected'), tier=None, **kw):
    what = {0: 'strings', 1: 'names', 2: 'arrays', 3: 'objects', 4: 'objects', 5: 'objects', 6: 'nestings', 7: 'numbers', 9: 'lines', 10: 'columns'}
    return job(name, src, '%s of sizes %s, with 1-2 free bytes' % (', '.join(sorted(set(what[k] for k in kinds))), ', '.join(map(str, szs))), reach=reach, tier=tier, WHAT=w,
               LIM=0, BIG=0, KINDS='{%s}' % ','.join(map(str, kinds)), SIZES='{%s}' % ','.join(map(str, szs)), maxinst=60000000, **kw)


def parse_jobs(w):
    ok = ('accepted', 'rejected')
    q = [
        tpl('uesc', '"\\u????"', w),
        tpl('ucat', '"a\\u0@@@\\n\\u@@41"', w, '018fF7g'),
        tpl('surr', '"\\uD@@@\\uD@@@"', w, '79aBCf', reach=('accepted',)),
        tpl('pairs', '"\\ud@@0\\u@@@0"', w, '07abcdeF', reach=('accepted',)),
        tpl('pairsf', '"\\ud@@F\\u@@@f"', w, '07bcdeF', reach=('accepted',)),
        tpl('pairall', '"\\ud@@@\\ud@@@"', w, '0123456789abcdef', reach=('accepted',)),
        tpl('pairs9', '"%s\\ud8@0\\uDc@0\\uD8@0\\udC@0"' % ('x' * 9), w, '0123456789ABCDEF', reach=('accepted',)),
        tpl('any6', '?' * 6, w, varlen=0),
        tpl('num', '[@@@@@@@]', w, NUM),
        tpl('numend', '@@@@@@@', w, NUM, varlen=1),
        tpl('struct', '@@@@@@@', w, STR, varlen=1),
        tpl('string', '"????"', w),
        tpl('strings', '["?\\?"]', w),
        tpl('surr2', '"\\ud83d@@de00@"', w, '\\uU"a'),
        tpl('obj', '{"a":1?"b"?2??', w),
        tpl('objend', '{"a":[{}]????', w),
        tpl('arr', '[[1],"x"????', w),
        tpl('ws', '@[@1@,@2@]@', w, ' \t\n\r\v1'),
        tpl('wsobj', '@{@"a"@:@1@}@', w, ' \t\n\r1'),
        tpl('lit', '[true,f?lse?nu?l?]', w),
        tpl('long', '{"a long name over the local size":"and a long value ? that needs ?", "n":[0.5e-3,{"k?":null}?]}', w),
        tpl('utf8', '["\xe2\x82\xac","?\xbf?\x80"]', w, reach=ok),
        tpl('utf8b', '"\xf0????"', w, reach=ok),
        tpl('nul', '[1,?2]?\x00?', w, reach=('rejected',)),
        tpl('many', '{"h":1,"b":2,"?":3,"a":4,"d":5,"?":6,"f":[],"c":{"b":8}}', w, reach=('accepted',)),
        tpl('deep', '[[[[[[[[[[[[@]]]]]]]]]]]@', w, ']}1 "', reach=ok),
    ]
    t = [
        dict(tpl('any8', '?' * 8, w, varlen=0), tier='thorough'),
        dict(tpl('num9', '[@@@@@@@@@]', w, NUM), tier='thorough'),
        dict(tpl('struct9', '@@@@@@@@@', w, STR, varlen=1), tier='thorough'),
        dict(tpl('string6', '"??????"', w), tier='thorough'),
        dict(tpl('obj6', '{"a":??????', w), tier='thorough'),
    ]
    big = [wide('kilo', w, (0, 1, 7, 9, 10), (254, 255, 256, 257, 512, 1023, 1024, 1025, 4096)), wide('many300', w, (2, 3, 4, 5), (127, 128, 129, 255, 256, 257, 300)),
           wide('deep600', w, (6,), (64, 100, 127, 128, 129, 255, 256, 257, 600), DEEP=1), wide('many1000', w, (2, 3, 4, 5), (511, 512, 513, 1000, 1025), tier='thorough'),
           wide('huge', w, (0, 1, 9, 10), (32767, 32768, 65535, 65536))]
    return q + big + [sizes(w), sizes(w, lim=60, big=200, name='sizes60', tier='thorough')] + t


def job(name, src, bounds, reach=('end',), tier=None, **kw):
    d = dict(name=name, src=src, bounds=bounds, reach=list(reach), defs={k: v for k, v in kw.items() if k.isupper()})
    d.update({k: v for k, v in kw.items() if not k.isupper()})
    if tier:
        d['tier'] = tier
    return d


def write_jobs(w):
    lab = ('text',) if w == 1 else ('again',)
    def wt(name, t, alpha='', tier=None, cap=600, reach=lab, **kw):
        d = tpl(name, t, w, alpha, src='write.cpp', reach=reach)
        d['defs'].update(CAP=cap, **kw)
        if 'IND' in kw:
            d['bounds'] += '; indentation of 0 to %d spaces, tabs, newlines or carriage returns' % kw.get('MAXIND', 2)
        if tier:
            d['tier'] = tier
        return d
    q = [
        wt('string', '"???"'), wt('strings', '["?\\u00@@","a?"]', '01f'), wt('name', '{"??":"?"}'),
        wt('esc', '["\\@\\u@@@1"]', '"\\/bfnrtu0127dDef'),
        wt('num', '[@@@@,-1@17]', '015.eE+-', FIXED=1), wt('numend', '1e30@', '0789', FIXED=1, reach=lab + ('refused',)),
        wt('struct', '@@@@@@', STR, IND=1, FIXED=1), wt('struct2', '[[@@@{"a":@@@@@', STR, IND=1, FIXED=1),
        wt('objs', '{"b":[1,{}],"@":{"a":[[]],"a@":1},"@":"x"}', 'ab', IND=1),
        wt('ind', '[{"a":[1,@]},@]', '123', IND=1, MAXIND=17, cap=2000),
        wt('lit', '{"t":tru?,"f":fals?,"n":[nul?]}'),
        sizes(w, src='write.cpp', reach=lab, CAP=6000),
        wt('string5', '"?????"', tier='thorough'), wt('num6', '[@@@@@@]', '015.eE+-', tier='thorough', FIXED=1), wt('struct8', '@@@@@@@@', STR, tier='thorough', FIXED=1),
        sizes(w, src='write.cpp', reach=lab, CAP=20000, lim=60, big=200, name='sizes60', tier='thorough'),
        wide('kilo', w, (0, 1, 7), (254, 255, 256, 257, 512, 1023, 1024, 1025, 4096), src='write.cpp', reach=lab, CAP=80000),
        wide('many300', w, (2, 3, 4, 5), (127, 128, 129, 255, 256, 257, 300), src='write.cpp', reach=lab, CAP=80000),
        wide('deep200', w, (6,), (64, 100, 127, 128, 129, 200), src='write.cpp', reach=lab, CAP=200000, DEEP=1),
        wide('huge', w, (0, 1), (32767, 32768, 65535, 65536), src='write.cpp', reach=lab, CAP=80000),
        job('double', 'write_double.cpp', 'every 64-bit double', reach=('again', 'refused'), COUNT=1),
        job('double2', 'write_double.cpp', 'every pair of 64-bit doubles, in an array and in an object', reach=('again', 'refused'), COUNT=2),
    ]
    return q


def typed(name, ty, what, tier=None, **kw):
    return job(name, 'typed.cpp', what, reach=('memory', 'file') if 'THROUGH' in kw else ('memory',), tier=tier, TYPE=ty, **kw)


def typed_jobs():
    S = 'String<>'
    return [
        typed('number', 'double', 'every finite double', THROUGH=1, DOUBLES=1, USED=1),
        typed('string', S, 'strings of 9 lengths up to 70 with 2 arbitrary ASCII characters', THROUGH=1, LENS=9, DIRTY=1),
        typed('stdstring', 'std::string', 'strings of 9 lengths up to 70 with 2 arbitrary ASCII characters', THROUGH=1, LENS=9, DIRTY=1),
        typed('bool', 'bool', 'both booleans', THROUGH=1, USED=1), typed('null', 'Null', 'null', THROUGH=1),
        typed('basic', 'Basic', 'a structure of a string, a number, a boolean and null', THROUGH=1, LENS=5, DOUBLES=1, USED=1),
        typed('doubles', 'Array<double>', 'arrays of up to 2 arbitrary doubles', THROUGH=1, DOUBLES=1, DIRTY=1),
        typed('strings', 'Array<String<>>', 'arrays of up to 2 strings', THROUGH=1, LENS=4, DIRTY=1),
        typed('bools', 'Array<bool>', 'arrays of up to 7 booleans', THROUGH=1, MAXN=7),
        typed('nulls', 'Array<Null>', 'arrays of up to 10 nulls', THROUGH=1, MAXN=10, USED=1, DIRTY=1),
        typed('grid', 'Array<Array<double>>', 'arrays of arrays', THROUGH=1, MAXN=3, DIRTY=1),
        typed('points', 'Array<Point>', 'arrays of up to 3 structures', THROUGH=1, MAXN=3, USED=1, DIRTY=1),
        typed('nested', 'Nested', 'nested structures with arrays and an optional member', THROUGH=1, LENS=2, MAXN=1),
        typed('nestedmem', 'Nested', 'nested structures in memory, every double', LENS=2, MAXN=1, DOUBLES=1),
        typed('member', 'Member', 'a class with member functions', THROUGH=1, LENS=2),
        typed('members', 'Array<Member>', 'arrays of up to 2 classes with member functions', THROUGH=1, LENS=1),
        typed('maps', 'Maps', 'string-keyed maps of numbers, strings and structures', THROUGH=1, LENS=2),
        typed('map', 'ObjectMap<double>', 'maps of up to 6 numbers', THROUGH=1, MAXN=6, USED=1),
        typed('mapinplace', 'ObjectMap<String<>>', 'maps serialized into a used value', THROUGH=1, MAXN=3, LENS=2, USED=1, INPLACE=1),
        typed('arrinplace', 'Array<Point>', 'arrays serialized into a used value', THROUGH=1, MAXN=3, USED=1, INPLACE=1),
        typed('basicinplace', 'Basic', 'a structure serialized into a used value', THROUGH=1, LENS=2, USED=1, INPLACE=1),
        typed('std', 'Std', 'a structure of standard containers', THROUGH=1, MAXN=1, LENS=2),
        typed('vec', 'std::vector<double>', 'vectors of up to 2 arbitrary doubles', THROUGH=1, DOUBLES=1, DIRTY=1, USED=1),
        typed('vecs', 'std::vector<std::string>', 'vectors of up to 2 strings', THROUGH=1, LENS=4, DIRTY=1),
        typed('vecb', 'std::vector<bool>', 'vectors of up to 7 booleans', THROUGH=1, MAXN=7),
        typed('vecgrid', 'std::vector<std::vector<double>>', 'vectors of vectors', THROUGH=1, MAXN=3, DIRTY=1),
        typed('vecp', 'std::vector<Point>', 'vectors of up to 3 structures', THROUGH=1, MAXN=3, USED=1, DIRTY=1),
        typed('vecmember', 'std::vector<Member>', 'vectors of up to 2 classes with member functions', THROUGH=1, LENS=1),
        typed('stdmap', ('std::map<std::string,double>'), 'maps of up to 6 numbers', THROUGH=1, MAXN=6, USED=1),
        typed('stdmapinplace', ('std::map<std::string,std::string>'), 'maps serialized into a used value', THROUGH=1, MAXN=3, LENS=2, USED=1, INPLACE=1),
        typed('mixed', ('std::map<std::string,std::vector<Array<std::string>>>'), 'maps of vectors of arrays of strings', THROUGH=1, LENS=2, MAXN=1),
        typed('mapmember', 'ObjectMap<Member>', 'maps of up to 2 classes with member functions', THROUGH=1, LENS=1),
        typed('stdmapmember', 'std::map<std::string,Member>', 'maps of up to 2 classes with member functions', THROUGH=1, LENS=1),
        typed('mapbool', 'ObjectMap<bool>', 'maps of up to 5 booleans', THROUGH=1, MAXN=5), typed('mapgrid', 'ObjectMap<ObjectMap<Array<double>>>', 'maps of maps of arrays', THROUGH=1, MAXN=2),
        typed('arrstd', 'Array<std::string>', 'arrays of up to 2 standard strings', THROUGH=1, LENS=4, DIRTY=1),
        typed('choices', 'Choices', 'a structure of optional members of every kind', THROUGH=1, MAXN=1, LENS=2),
        typed('flat', 'Array<Flat>', 'arrays of up to 3 structures that have the members of another one beside their own', THROUGH=1, MAXN=3),
        typed('flat1', 'Flat', 'a structure that has the members of another one beside its own', THROUGH=1, DOUBLES=1),
        typed('nested2', 'Nested', 'nested structures with arrays of up to 2', tier='thorough', THROUGH=1, LENS=2, MAXN=2),
        typed('std2', 'Std', 'a structure of standard containers of up to 2', tier='thorough', THROUGH=1, MAXN=2, LENS=2),
        typed('doubles3', 'Array<double>', 'arrays of up to 3 arbitrary doubles', tier='thorough', THROUGH=1, DOUBLES=1, MAXN=3),
    ]


def name_jobs():
    R = ('hit', 'miss', 'repeated')
    def nj(name, k, l, prefix='', turn=0, reach=R, tier=None, **kw):
        return job(name, 'names.cpp', '%d members%s and a lookup with names %r + any 0 to %d bytes, %s' % (k, ' (%d of them with given names, in three orders)' % kw['FIXED'] if 'FIXED' in kw else '', prefix if len(prefix) < 80 else '%d x' % len(prefix), l, 'parsed' if 'PARSE' in kw else 'inserted'), reach=reach, tier=tier, K=k, L=l, PREFIX=c(prefix), TURN=turn, **kw)
    RR = R + ('removed',)
    return [
        nj('parse2', 2, 2, PARSE=1), nj('parse3', 3, 1, PARSE=1, turn=2), nj('parse_long', 2, 2, 'a name of 15 by', turn=4, PARSE=1), nj('parse_64', 2, 1, 'x' * 62, PARSE=1, turn=3),
        nj('insert2', 2, 2, turn=2), nj('insert3', 3, 1, turn=5, reach=RR, REMOVE=1), nj('insert_long', 2, 2, 'a name of 14 b', turn=1), nj('insert4', 4, 1, turn=3),
        nj('parse_22', 22, 1, PARSE=1, turn=1, FIXED=20), nj('insert_16', 16, 1, turn=3, reach=RR, FIXED=14, REMOVE=1), nj('insert_42', 42, 1, turn=2, FIXED=40, tier='thorough'), nj('parse_255', 2, 1, 'x' * 254, PARSE=1, turn=3, ROOM=300),
        nj('parse_92', 92, 2, PARSE=1, turn=2, FIXED=90, tier='thorough'), nj('insert_44', 44, 1, turn=2, reach=RR, FIXED=40, REMOVE=1, tier='thorough'),
        nj('parse3x2', 3, 2, PARSE=1, turn=1, tier='thorough'), nj('insert3x2', 3, 2, turn=4, tier='thorough', reach=RR, REMOVE=1), nj('insert5', 5, 1, turn=3, tier='thorough'), nj('parse4', 4, 1, PARSE=1, turn=2, tier='thorough'),
    ]


ALLOC_TEXTS = [
    ('values', '["a string that is long enough for the heap","short",1.5,true,null,[],{}]'),
    ('object', '{"a":{"b":[1,{"c":"x"}],"a name that is long enough for the heap":null},"a":[2],"d":false}'),
    ('nested', '[[[[1,[2,3,4,5,6]],"\\u00e9\\n"]],{"x":{"y":{"z":[]}}}]'),
    ('growth', '["%s",%s]' % ('x' * 70, ','.join('1' * 17))),
    ('dup', '{"k":["some text in the first one"],"k":["some text in the second one",{"k":1}]}'),
]


def alloc_jobs():
    R = ('exception', 'done')
    def aj(op, name, what, reach=R, tier=None, **kw):
        return job(name, 'alloc.cpp', what + ', any one allocation failing', reach=reach, tier=tier, OP=op, **kw)
    def at(op, name, t, what, reach=R, tier=None, alpha='', **kw):
        j = tpl(name, t, 0, alpha, src='alloc.cpp', reach=reach, more=dict(OP=op, **kw))
        j['bounds'] = what + ' of ' + j['bounds'] + ', any one allocation failing'
        return dict(j, tier=tier) if tier else j
    js = []
    for n, t in ALLOC_TEXTS:
        js += [at(1, 'parse_' + n, t, 'parsing'), at(3, 'write_' + n, t, 'writing', INDENT=3)]
    js += [at(1, 'parse_any', '[???]', 'parsing', R, alpha=''), at(1, 'parse_used', '{"?":"??"}', 'parsing again', USED=1), at(2, 'file', '{"?":["a string that is long enough for the heap"]}', 'reading a file', USED=1),
           at(3, 'write_wide', '[[[[1]]]]', 'writing with a wide indentation', INDENT=17)]
    for n, t in [('basic', 'Basic'), ('nested', 'Nested'), ('member', 'Member'), ('members', 'Array<Member>'), ('std', 'Std'), ('maps', 'Maps'), ('strings', 'Array<String<>>'), ('vec', 'std::vector<std::string>'), ('stdmap', 'std::map<std::string,std::string>'), ('map', 'ObjectMap<String<>>'), ('vmembers', 'std::vector<Member>'), ('mmembers', 'ObjectMap<Member>'), ('names', 'LongNamed'), ('choices', 'Choices'), ('mapgrid', 'ObjectMap<ObjectMap<Array<String<>>>>'), ('flats', 'Array<Flat>')]:
        opt = dict(TYPE=t, LENS=1, MAXN=1) if n in ('nested', 'choices', 'mapgrid', 'std', 'maps', 'members', 'vmembers', 'mmembers') else dict(TYPE=t, LENS=2, MAXN=2)
        opt['LONGTEXT'] = 1
        js += [aj(4, 'ser_' + n, 'serializing ' + t, **(dict(opt, REST=1) if n in ('basic', 'member', 'maps', 'strings', 'stdmap') else opt)), aj(5, 'des_' + n, 'deserializing ' + t, **opt)]
    for n, t in [('nested', 'Nested'), ('member', 'Member'), ('std', 'Std'), ('maps', 'Maps'), ('names', 'LongNamed')]:
        js += [aj(6, 'val_' + n, 'validating ' + t, reach=('done',), TYPE=t, LENS=1, MAXN=1, LONGTEXT=1), aj(4, 'seru_' + n, 'serializing %s again' % t, TYPE=t, LENS=1, MAXN=1, LONGTEXT=1, USED=1), ] + ([aj(5, 'desu_' + n, 'deserializing %s again' % t, TYPE=t, LENS=1, MAXN=1, LONGTEXT=1, USED=1)] if n in ('nested', 'member') else []) # (members of used maps stay: not specified)
    js += [at(7, 'find', '{"a name that is long enough for the heap":7}', 'looking up', ('done',), NAME=c('a name that is long enough for the heap')), aj(8, 'message', 'making messages', reach=('done',))]
    return js


def int_jobs():
    ty = {1: 'int32', 2: 'uint32', 3: 'int64', 4: 'uint64'}
    js = []
    for fn, ws, what in [(1, (1, 3), 'into a buffer with every limit'), (2, (1, 2, 3, 4), 'strings of fixed capacity'), (3, (1, 2, 3, 4), 'strings of any length'), (4, (1, 3), 'functions that make a string')]:
        for w in ws:
            js.append(job('%s_%d' % (ty[w], fn), 'ints.cpp', 'every %s, %s' % (ty[w], what), time=120, FN=fn, W=w))
    return js + [job('hex', 'hex.cpp', 'every 64-bit and 32-bit value', FN=1), job('types', 'hex.cpp', 'every type code', reach=('end', 'back'), FN=2)]


def string_jobs():
    L1 = '0,1,14,15,16,17,30,31,32,62,63,64,65,126,127,128'
    L2 = '0,1,13,14,15,16,17,30,31,32,33,61,62,63,64,127'
    ops = lambda name, n, k, l1, l2, tier=None, **kw: job(name, 'string.cpp', 'six ways to construct a string of %d lengths, then %d operations of 35 toward %d and %d lengths%s' % (
        len(l1.split(',')), n, len(l1.split(',')), len(l2.split(',')), k), tier=tier, STEPS=n, LIST1=l1, LIST2=l2, **kw)
    fail = '; each allocation of the last operation fails'
    return [ops('ops1', 1, '', L1, L2), ops('ops2', 2, '', '0,2,15,16,63,64', '1,15,16,60,70'), ops('ops2b', 2, '', '1,14,17,31,65', '0,15,16,32,63,64,124'), ops('ops3', 3, '', '3,64', '0,15,16,63'),
            ops('fail1', 1, fail, L1, L2, reach=('end', 'failed'), FAIL=1), ops('fail2', 2, fail, '0,15,16,64', '1,15,16,60,70', reach=('end', 'failed'), FAIL=1),
            ops('ops2c', 2, '', L1, L2, tier='thorough'), ops('ops3b', 3, '', '0,15,16,64', '0,1,15,16,17,32,63,64,128', tier='thorough'),
            job('edit3', 'string_edit.cpp', 'four beginnings followed by 0 to 3 arbitrary bytes', N=3), job('edit5', 'string_edit.cpp', 'four beginnings followed by 0 to 5 arbitrary bytes', N=5, tier='thorough')]


def fixed_jobs():
    j = lambda cap, n, tier=None: job('cap%d_%d' % (cap, n), 'fixed.cpp', 'capacity %d, two strings, five ways to construct, %d operations of 24 with six lengths around the capacity and free bytes' % (cap, n), tier=tier, CAP=cap, STEPS=n)
    return [j(1, 2), j(2, 2), j(5, 2), j(15, 2), j(31, 1), j(2, 3, 'thorough'), j(7, 3, 'thorough'), j(64, 2, 'thorough')]


def utf_jobs():
    j = lambda name, fn, n, what, reach, tier=None: job(name, 'utf.cpp', what % n if '%' in what else what, reach=reach, tier=tier, FN=fn, N=n)
    cnt, w8, w16 = 'texts of 0 to %d arbitrary bytes: counting, for every limit', 'texts of 0 to %d arbitrary words to UTF-8 and back, for every limit', 'texts of 0 to %d arbitrary bytes to UTF-16 and back, for every limit'
    return [j('code', 1, 0, 'every 32-bit code', ('end', 'scalar')), j('char', 2, 0, 'every sequence of 0 to 4 bytes', ('end', 'valid', 'malformed')), j('count6', 3, 6, cnt, ('end', 'valid')), j('utf16_3', 4, 3, w8, ('end', 'back')),
            j('utf8_6', 5, 6, w16, ('end', 'back')), j('count8', 3, 8, cnt, ('end', 'valid'), 'thorough'), j('utf16_5', 4, 5, w8, ('end', 'back'), 'thorough'), j('utf8_8', 5, 8, w16, ('end', 'back'), 'thorough')]


def array_jobs():
    def j(name, base, start, steps, tier=None, **kw):
        return job(name, 'array.cpp', '%s elements, %d of them inline, 0 to %d in the beginning, then %d operations of 15 with every index and count%s' % ('plain' if 'POD' in kw else 'owning', base, start, steps, '; each allocation of the last operation fails' if 'FAIL' in kw else ''),
                   reach=('end', 'failed') if 'FAIL' in kw else ('end',), tier=tier, BASE=base, START=start, STEPS=steps, **kw)
    return [j('heap', 0, 5, 2), j('inline1', 1, 5, 2), j('inline3', 3, 5, 2), j('heap9', 0, 9, 1), j('plain', 0, 5, 1, POD=1), j('plain3', 3, 5, 1, POD=1), j('fail', 0, 5, 1, FAIL=1), j('fail3', 3, 5, 1, FAIL=1),
            j('heap3', 0, 2, 3, 'thorough'), j('inline2', 2, 2, 3, 'thorough'), j('inline6', 6, 9, 2, 'thorough'), j('fail2', 0, 4, 2, 'thorough', FAIL=1), j('fail2_2', 2, 4, 2, 'thorough', FAIL=1)]


def cmp_jobs():
    r = ('different', 'equal')
    j = lambda name, fn, n, what, tier=None, **kw: job(name, 'cmp.cpp', what % n, reach=r, tier=tier, FN=fn, N=n, **kw)
    plain, lim, num, ops = 'pairs of texts of 0 to %d arbitrary bytes', 'pairs of texts of 0 to %d arbitrary bytes, every limit', 'numbered comparisons of pairs of texts of 0 to %d arbitrary bytes', 'operators on pairs of texts of 0 to %d arbitrary bytes'
    run = 'numbers of 0 to %d arbitrary digits'
    return [j('plain4', 1, 4, plain), j('max4', 2, 4, lim), j('operators3', 5, 3, ops), j('numbered4', 3, 4, num), j('digits12', 4, 12, run, PRE=0, POST=0), j('digits4', 4, 4, run + ' between arbitrary bytes', PRE=1, POST=1),
            j('plain7', 1, 7, plain, 'thorough'), j('max6', 2, 6, lim, 'thorough'), j('operators5', 5, 5, ops, 'thorough'), j('numbered5', 3, 5, num, 'thorough'), j('digits21', 4, 21, run, 'thorough', PRE=0, POST=0), j('digits11', 4, 11, run + ' between arbitrary bytes', 'thorough', PRE=1, POST=1)]


def text_jobs():
    def j(name, fn, n, what, reach=('found', 'none'), tier=None, **kw): return job(name, 'text.cpp', what % n if '%' in what else what, reach=reach, tier=tier, FN=fn, N=n, **kw)
    w = {1: 'a character, counting and copying in texts of 0 to %d arbitrary bytes, every limit', 2: 'a character outside of quotes in texts of 0 to %d arbitrary bytes', 3: 'a text in texts of 0 to %d arbitrary bytes', 5: 'paths of 0 to %d arbitrary bytes',
         6: 'numbers in texts of 0 to %d arbitrary bytes, every limit', 7: 'strings in texts of 0 to %d arbitrary bytes, every limit', 8: 'types in texts of 0 to %d arbitrary bytes'}
    sl, num, st, ty = ('slash', 'none'), ('end', 'number'), ('quoted', 'plain'), ('end', 'type')
    return [j('find5', 1, 5, w[1]), j('unquoted6', 2, 6, w[2]), j('text5', 3, 5, w[3], M=3), j('hash', 4, 0, 'one free character in texts of 1 to 17 bytes against their compile-time hash', ('end',)), j('path6', 5, 6, w[5], sl),
            j('number6', 6, 6, w[6], num), j('string6', 7, 6, w[7], st), j('type6', 8, 6, w[8], ty), j('code', 9, 0, 'every 32-bit type', ('end',)),
            j('find8', 1, 8, w[1], tier='thorough'), j('unquoted10', 2, 10, w[2], tier='thorough'), j('text8', 3, 8, w[3], M=4, tier='thorough'), j('path10', 5, 10, w[5], sl, 'thorough'), j('number8', 6, 8, w[6], num, 'thorough'), j('string8', 7, 8, w[7], st, 'thorough'), j('type9', 8, 9, w[8], ty, 'thorough')]


def proto(name, ty, pat, reach=('fits', 'refused'), values=15, tier=None, **kw):
    return job(name, 'proto.cpp', 'type %s; documents %s where $ is any of %d values of all kinds, ~...; a member that is there or not, ? a letter' % (ty, pat, values), reach=reach, tier=tier, TYPE=ty, PATTERN=c(pat), VALUES=values, **kw)


def proto_jobs():
    return [proto('root_' + n, t, '$', EMPTY=1) for n, t in [
        ('double', 'double'), ('string', 'String<>'), ('bool', 'bool'), ('null', 'Null'), ('stdstring', 'std::string'), ('doubles', 'Array<double>'), ('point', 'Point'),
        ('points', 'Array<Point>'), ('vec', 'std::vector<std::string>'), ('vecp', 'std::vector<Point>'), ('map', 'ObjectMap<double>'), ('stdmap', 'std::map<std::string,double>'), ('wrapped', 'Wrapped')]] + [
        proto('point', 'Point', '{~"y":$;~"x":$;~"?":1;}', ('fits', 'refused', 'optional'), POINT=1),
        proto('basic', 'Basic', '{~"text":$;~"number":$;~"flag":$;~"nothing":$;}', values=6),
        proto('nested', 'Nested', '{"the basic one":{"text":"","flag":false,"nothing":null,~"number":1;},~"points":$;~"names":$;~"maybe":$;~"last":"x";}'),
        proto('points', 'Array<Point>', '[~$;~$;~$;]', values=13),
        proto('member', 'Member', '{~"a":$;"b":"",~"c":$;~"d":$;}'),
        proto('members', 'Array<Member>', '[{"a":0,"b":"",~"c":[];"d":$},{"a":0,"b":"","c":$,~"d":$;}]', values=9),
        proto('vmembers', 'std::vector<Member>', '[{"a":0,"b":"",~"c":[];"d":$},{"a":0,"b":"","c":$,~"d":$;}]', values=9),
        proto('maps', 'Maps', '{~"numbers":{"a":$};~"texts":{"b":"",~"c":$;};~"points":{"q":$,~"r":$;};}', values=8),
        proto('std', 'Std', '{~"s":"";"v":[1,~$;],~"w":["",~$;];"m":{~"a":$;},~"p":{"z":$};}', values=8),
        proto('std_root', 'Std', '{"s":$,"v":$,"w":$,"m":$,"p":{}}', values=7),
        proto('choices', 'Choices', '{~"s":$;~"v":$;~"t":$;}', ('fits', 'refused', 'optional'), values=9, CHOICES=1),
        proto('choices2', 'Choices', '{~"m":$;~"f":$;~"n":$;~"p":$;}', ('fits', 'refused', 'optional'), values=8, CHOICES=1),
        proto('choices3', 'Choices', '{~"m":{"a":$};~"p":[{"y":$}];~"v":[1,$];}', ('fits', 'refused', 'optional'), values=8, CHOICES=1),
        proto('flat', 'Flat', '{~"z":$;~"x":$;~"y":$;}', values=8), proto('flats', 'Array<Flat>', '[{"z":1,~"y":$;},{~"z":2;"x":$,"y":1}]', values=8),
        proto('mapmembers', 'ObjectMap<Member>', '{"k":{"a":0,"b":"",~"c":[];"d":$},"q":{"a":0,"b":"","c":$,~"d":$;}}', values=9),
        proto('stdmapmembers', 'std::map<std::string,Member>', '{"k":{"a":0,"b":"",~"c":[];"d":$},"q":{"a":0,"b":"","c":$,~"d":$;}}', values=9),
        proto('nested2', 'Nested', '{~"the basic one":$;~"points":[{"y":1},$];~"names":["",$];~"maybe":{~"y":$;~"x":$;};~"last":$;}', values=9, tier='thorough'),
    ]


def math_jobs():
    src = 'math.cpp'
    return [
        job('scalar', src, 'sign, minimum, maximum and clamping of any floats', PART=1),
        job('plain', src, 'sign, minimum, maximum and clamping of any floats, built with TERATHON_NO_SIMD', PART=1, TERATHON_NO_SIMD=1),
        job('lanes', src, 'loads, stores, shuffles, bit operations, selection and comparison of any vectors', PART=3),
        job('vsign', src, 'sign, minimum and maximum in each lane of any vectors', PART=4),
        job('arith', src, 'arithmetic in each lane of any vectors', PART=6),
        job('products', src, 'sums, products and transformations of any vectors', PART=7),
        job('pack', src, 'integer lanes: any 128-bit values', PART=8),
        job('convert', src, 'conversion between any int32 and float', reach=('end', 'range'), PART=9),
        *[job('round%d' % k, src, 'rounding of floats with exponents of case %d to %d of 57 (every float in all)' % (a, b - 1), reach=('end', 'positive', 'negative')[:1 if a >= 55 else 3], PART=2, E0=a, E1=b)
          for k, (a, b) in enumerate(((0, 20), (20, 30), (30, 35), (35, 38), (38, 41), (41, 43), (43, 45), (45, 46), (46, 47), (47, 48), (48, 55), (55, 57)))],
        *[job('plainround%d' % k, src, 'rounding of floats with exponents of case %d to %d of 57 (every float in all), built with TERATHON_NO_SIMD' % (a, b - 1), reach=('end', 'positive', 'negative')[:1 if a >= 55 else 3], PART=2, TERATHON_NO_SIMD=1, tier=None if b <= 20 or a >= 48 else 'thorough', E0=a, E1=b)
          for k, (a, b) in enumerate(((0, 20), (20, 30), (30, 35), (35, 38), (38, 41), (41, 43), (43, 45), (45, 46), (46, 47), (47, 48), (48, 55), (55, 57)))],
    ]


def float_jobs():
    src = 'float.cpp'
    js = []
    for e in range(113, 144):
        js.append(job('fixed%d' % e, src, 'any float with exponent %d' % (e - 127), tier=None if e in (113, 116, 118, 119) else 'thorough', MODE=1, E0=e, E1=e + 1))
        if e >= 120:
            t = None if e in (120, 123, 126, 127, 130, 134, 140, 143) else 'thorough'
            js.append(job('high%d' % e, src, 'floats with exponent %d and 7 free leading bits of the fraction' % (e - 127), tier=t, MODE=1, E0=e, E1=e + 1, FREE='0x7F0000', REST=0))
            js.append(job('low%d' % e, src, 'floats with exponent %d and 7 free trailing bits of the fraction' % (e - 127), tier=t, MODE=1, E0=e, E1=e + 1, FREE='0x7F', REST='0x%X' % ((e * 0x12345 & 0x7FFFFF) if e < 143 else 0xCC800)))
            js.append(job('mid%d' % e, src, 'floats with exponent %d and 11 free leading bits of the fraction' % (e - 127), tier='thorough', MODE=1, E0=e, E1=e + 1, FREE='0x7FF000', REST=0))
    for e, b in ((127, 0), (131, 4)):
        js.append(job('nines%d' % e, src, 'floats with exponent %d whose fraction is close to 1' % (e - 127), tier='thorough' if b else None, MODE=1, E0=e, E1=e + 1, FREE='0x7FF', REST='0x7FFFFF'))
        js.append(job('zeros%d' % e, src, 'floats with exponent %d whose fraction is close to 0.1' % (e - 127), tier='thorough' if b else None, MODE=1, E0=e, E1=e + 1, FREE='0x7FF', REST='0x%X' % (0x0CC800 >> b)))
    js.append(job('special', src, 'zeros, denormals, infinities and NaN, limits of -1 to 7', MODE=2))
    js.append(job('limits', src, '13 values, both signs, up to 8 free low bits, limits of -1 to 16', reach=('end', 'full'), MODE=3))
    js.append(job('power', src, 'exponent notation: 4 values for each exponent, both signs', MODE=4, E0=1, E1=255))
    return js


BULK = 'a string or an array of strings with one free byte, in files of the sizes given, in up to PIECES parts (1, 255, 4096, 32768, half, all but one byte) of each large transfer, with a fault at one of the first transfers'

CHECKS = {
    'C01': dict(bounds=['every byte string of up to 6 bytes (8 thorough)', 'the templates of each job, with up to 9 free bytes inside longer texts'],
                outside=['longer free parts', 'nesting deeper than 600'], jobs=parse_jobs(1)),
    'C02': dict(bounds=['every byte string of up to 6 bytes (8 thorough)', 'the templates of each job, with up to 9 free bytes inside longer texts'],
                outside=['longer free parts', 'value of number literals with more than 15 digits: checked to be the same function of the literal, not re-rounded'], jobs=parse_jobs(2)),
    'C04': dict(bounds=['every byte string of up to 6 bytes (8 thorough)', 'the templates of each job, with up to 9 free bytes inside longer texts'],
                outside=['longer free parts'], jobs=parse_jobs(4)),
    'C03': dict(leak=True, bounds=['every buffer of up to 5 bytes (7 thorough), terminated or not', 'the templates of each job, with up to 9 free bytes inside longer texts', 'sequences of 3 parses (4 thorough) on one object'],
                outside=['longer free parts', 'stack use of deep nesting (C25)'],
                jobs=[job('raw', 'parse_raw.cpp', 'buffers of 0 to 5 arbitrary bytes, terminated or not, parsed twice', N=5), job('raw7', 'parse_raw.cpp', 'buffers of 0 to 7 arbitrary bytes, terminated or not, parsed twice', N=7, tier='thorough')] + parse_jobs(8) + seqs()),
    'C05': dict(bounds=['texts of the templates of each job with up to 7 free bytes', 'every 64-bit double, in pairs', 'indentations of 0 to 17 of each whitespace character'],
                outside=['larger free parts'], assumptions=['17 significant digits identify a double (C library)'], jobs=write_jobs(2)),
    'C06': dict(bounds=['texts of the templates of each job with up to 7 free bytes', 'every 64-bit double, in pairs', 'indentations of 0 to 17 of each whitespace character'],
                outside=['larger free parts', 'indentation characters that are not JSON whitespace'], assumptions=['17 significant digits identify a double (C library)'], jobs=write_jobs(1)),
    'C07': dict(bounds=['file contents of the templates of each job (up to 6 free bytes)', 'every partition of up to 7 bytes into reads; longer files in one read', 'a failure of open, fstat or any of the first 6 reads, a file up to 9 bytes shorter than its size', 'every file size beyond the limit up to 2^62, and the two largest sizes within it'],
                outside=['sizes between the templates and the limit', 'a file that grows while it is read'], leak=True, jobs=[
        tpl('any', '?' * 5, 0, varlen=0, src='file_read.cpp', reach=('same', 'accepted', 'rejected'), more=dict(SHORT=0)),
        tpl('split', '[@@@]', 0, '1,"x', src='file_read.cpp', reach=('same', 'accepted', 'rejected'), more=dict(SHORT=1)),
        tpl('split7', '{"a":7}', 0, src='file_read.cpp', reach=('same', 'accepted'), more=dict(SHORT=1)),
        tpl('faults', '[1,?]', 0, varlen=0, src='file_read.cpp', reach=('same', 'fault', 'accepted', 'rejected'), more=dict(SHORT=1, FAULT=11)),
        tpl('used', '[1?2]', 0, varlen=3, src='file_read.cpp', reach=('same', 'fault', 'accepted', 'rejected'), more=dict(SHORT=1, FAULT=8, USED=1)),
        tpl('long', '{"a long name over the local size":"and a long value ? that needs ?", "n":[0.5e-3,{"k?":null}?]}', 0, src='file_read.cpp', reach=('same', 'fault', 'accepted', 'rejected'), more=dict(SHORT=0, FAULT=7)),
        tpl('nul', '[1,?2]?\x00?', 0, src='file_read.cpp', reach=('same', 'rejected'), more=dict(SHORT=0)),
        job('size', 'file_size.cpp', 'sizes 65533 and 65534, and every size above', reach=('large', 'within'), maxinst=8000000),
        job('bulk', 'file_bulk.cpp', BULK, reach=('accepted', 'rejected', 'fault', 'same'), WHAT=1, SIZES='{200,4096,4097,32768,32769,65534}', maxinst=60000000),
        job('bulk4', 'file_bulk.cpp', BULK, reach=('accepted', 'rejected', 'fault', 'same'), WHAT=1, PIECES=4, SIZES='{255,256,257,8193,65533}', tier='thorough', maxinst=60000000),
        dict(tpl('any7', '?' * 7, 0, varlen=0, src='file_read.cpp', reach=('same', 'accepted', 'rejected'), more=dict(SHORT=0)), tier='thorough'),
        dict(tpl('split10', '{"a":@@@@}', 0, '1,"x', src='file_read.cpp', reach=('same', 'accepted', 'rejected'), more=dict(SHORT=1)), tier='thorough'),
        dict(tpl('faults8', '[1,??,{}]', 0, varlen=0, src='file_read.cpp', reach=('same', 'fault', 'accepted', 'rejected'), more=dict(SHORT=1, FAULT=14)), tier='thorough'),
    ]),
    'C08': dict(bounds=['documents of the templates of each job (up to 3 free bytes)', 'a file that is missing, shorter, as long or longer, with 12 arbitrary bytes', 'every partition of each write into pieces', 'a failure of open or of any of the first 36 writes, and every amount of disk space below 24 bytes'],
                outside=['writes that return 0', 'an error reported by close'], leak=True, jobs=[
        tpl('doc', '["??",1,{"a":@}]', 0, '0123', src='file_write.cpp', reach=('same',), more=dict(SHORT=0)),
        tpl('split', '["abcd"]', 0, src='file_write.cpp', reach=('same',), more=dict(SHORT=1, OLD=2)),
        tpl('splitnum', '{"":true}', 0, src='file_write.cpp', reach=('same',), more=dict(SHORT=1, OLD=1)),
        tpl('faults', '["a?",[1,{"b":tru?}]]', 0, src='file_write.cpp', reach=('same', 'fault', 'refused', 'again'), more=dict(SHORT=0, FAULT=40)),
        tpl('faultlong', '["this string is long enough ? for the heap and for one large write", -1.5e-7, null, false, [], {}]', 0, src='file_write.cpp', reach=('same', 'fault', 'refused', 'again'), more=dict(SHORT=0, FAULT=40)),
        tpl('faultsplit', '[tru?]', 0, src='file_write.cpp', reach=('same', 'fault', 'refused', 'again'), more=dict(SHORT=1, FAULT=12, OLD=1)),
        tpl('root', '"?"', 0, src='file_write.cpp', reach=('same', 'fault', 'refused', 'again'), more=dict(SHORT=1, FAULT=12)),
        job('bulk', 'file_bulk.cpp', BULK, reach=('fault', 'same'), WHAT=2, SIZES='{200,4096,4097,32768,32769,65534}', maxinst=60000000),
        job('bulk4', 'file_bulk.cpp', BULK, reach=('fault', 'same'), WHAT=2, PIECES=4, SIZES='{255,256,257,8193,65533}', tier='thorough', maxinst=60000000),
        dict(tpl('split8', '["abcdefg"]', 0, src='file_write.cpp', reach=('same',), more=dict(SHORT=1, OLD=2)), tier='thorough'),
        dict(tpl('faultsplit2', '{"ab":false}', 0, src='file_write.cpp', reach=('same', 'fault', 'refused', 'again'), more=dict(SHORT=1, FAULT=20, OLD=2)), tier='thorough'),
    ]),
    'C09': dict(leak=True, bounds=['28 type shapes with containers of up to 1-10 entries, strings of up to 9 lengths with 2 arbitrary ASCII characters', 'doubles: every finite value where stated, otherwise 5 representative values'],
                outside=['larger containers', 'other user types', 'stale entries of maps that are read into (left as they are)'], jobs=typed_jobs()),
    'C10': dict(bounds=['24 type shapes against documents built from patterns over 15 values of every kind, every member present or absent'],
                outside=['other user types', 'larger documents'], leak=True, jobs=proto_jobs()),
    'C11': dict(leak=True, bounds=['any one failing allocation of each operation', 'the texts and data shapes of each job'],
                outside=['two failing allocations in one operation', 'other texts and shapes'], jobs=alloc_jobs()),
    'C12': dict(bounds=['sequences of 3 parses (4 thorough) over two templates with up to 4 free bytes, a fixed valid text, unterminated and empty buffers and missing files'],
                outside=['longer sequences', 'allocation failures (C11), faults while reading (C07)'], jobs=seqs()),
    'C13': dict(leak=True, bounds=['objects of 2 to 4 members (5 thorough) whose names are any texts of 0 to 2 bytes, alone or after a common prefix of 14 to 17 or 62 bytes, and the lookup of any such name',
                                   'names of any bytes when inserted, printable ASCII when parsed'],
                outside=['larger objects (the map itself: C14)', 'names of escapes and multi-byte characters in texts (C02)'], jobs=name_jobs()),
    'C14': dict(leak=True, bounds=['maps of 6 shapes with up to 12 elements (20 thorough), then every sequence of 2 operations (3 thorough) of 8 kinds, each with an arbitrary 32-bit key',
                                   'maps built from 4 (5 thorough) arbitrary 32-bit keys in arbitrary order, repetitions included, then one operation'],
                outside=['larger maps and longer histories', 'changing a key while its element is in a map'], jobs=[
        job('ops2', 'map.cpp', '2 operations with any keys on 6 shapes', OPS=2, SHAPES=6, FIRST=0, SIDE=50),
        job('wipe', 'map.cpp', '1 operation, then removing or purging everything', OPS=1, SHAPES=6, FIRST=0, SIDE=100, WIPE=1),
        job('orders', 'map.cpp', '4 arbitrary keys in any order and 1 operation', OPS=1, SYMKEYS=4, SIDE=0),
        job('big1', 'map.cpp', '1 operation on the sparsest balanced tree of 20 elements', OPS=1, SHAPES=1, FIRST=6, SIDE=50),
        job('avl8', 'map.cpp', 'every balanced tree of up to 8 elements, then 2 insertions or removals with any keys', OPS=2, AVL=0, AVLTO=8, OPLIST='{0,4}', SIDE=50),
        job('avl9', 'map.cpp', 'every balanced tree of 9 elements, then 2 insertions or removals with any keys', OPS=2, AVL=9, AVLTO=9, OPLIST='{0,4}', SIDE=50),
        job('avl10', 'map.cpp', 'every balanced tree of 10 elements, then 2 insertions or removals with any keys', OPS=2, AVL=10, AVLTO=10, OPLIST='{0,4}', SIDE=50, tier='thorough'),
        job('avl12', 'map.cpp', 'every balanced tree of 11 and 12 elements, then 2 removals of any keys', OPS=2, AVL=11, AVLTO=12, OPLIST='{4}', SIDE=50, tier='thorough'),
        job('ops3', 'map.cpp', '3 operations with any keys on 4 shapes', OPS=3, SHAPES=4, FIRST=2, SIDE=50, tier='thorough'),
        job('big2', 'map.cpp', '2 operations on the sparsest balanced tree of 20 elements', OPS=2, SHAPES=1, FIRST=6, SIDE=50, tier='thorough'),
        job('orders5', 'map.cpp', '5 arbitrary keys in any order and 1 operation', OPS=1, SYMKEYS=5, SIDE=0, tier='thorough'),
    ]),
    'C15': dict(leak=True, bounds=['an array with 0, 1 or 3 (thorough: 2, 6) inline elements and up to 5 (9) elements in the beginning, then up to 2 (3) operations of 15 with every index and count up to 5 beyond the end; the values are arbitrary', 'any one allocation of the last operation failing'],
                outside=['longer sequences', 'elements whose move constructors throw', 'negative counts and indices', 'over-aligned elements'], jobs=array_jobs()),
    'C16': dict(leak=True, bounds=['two strings, constructed in six ways with lengths around the buffer sizes, and up to 3 operations with 3 to 16 target lengths; bytes at the boundaries are arbitrary', 'texts of a fixed beginning and 0 to 3 (5 thorough) arbitrary bytes for the editing functions'],
                outside=['longer sequences', 'lengths above 256', 'the characters between the old and the new end after SetStringLength lengthens a string, which are unspecified', 'replacing a character by the terminator'], jobs=string_jobs()),
    'C17': dict(leak=True, bounds=['two strings of capacities 1, 2, 5, 15 (and 7, 31, 64), up to 2 operations (3 thorough) with texts of six lengths around the capacity whose bytes are arbitrary'],
                outside=['other capacities, longer sequences', 'setting a length above the capacity'], jobs=fixed_jobs()),
    'C18': dict(leak=True, bounds=['every 32-bit code', 'every byte sequence of up to 4 bytes for one character, of up to 6 (8 thorough) bytes for texts', 'every sequence of up to 3 (4 thorough) 16-bit words', 'every limit of the length up to beyond the converted text'],
                outside=['longer texts', 'how encoded surrogates are treated'], jobs=utf_jobs()),
    'C19': dict(leak=True, bounds=['every pair of texts of up to 4 (thorough: 7) arbitrary bytes, with every limit up to one beyond; unterminated texts where the limit ends them', 'numbered comparisons: every pair of texts of up to 4 (5) bytes, and of numbers of up to 12 (21) digits'],
                outside=['longer texts', 'locale or Unicode case folding (only a to z is folded)'], jobs=cmp_jobs()),
    'C20': dict(leak=True, bounds=['every 32-bit integer, signed and unsigned, every 64-bit integer, in each function, constructor and operator', 'length limits of 0 to 23'], outside=['other limits'], jobs=int_jobs()),
    'C21': dict(leak=True, bounds=['every status, every line and column from 1 to 2147483647, and results without a place'], outside=['results that no parse returns: a column without a line, a place with success or an exception, negative places'],
                jobs=[job('messages', 'messages.cpp', 'every status, line and column', reach=('end', 'place'))]),
    'C22': dict(leak=True, bounds=['every text of up to 5 or 6 (thorough: 8 to 10) arbitrary bytes with every limit up to one beyond and, for searches, every character or every text of up to 3 (4) bytes', 'every 32-bit type code', 'hashes of texts with one free character, up to 17 bytes long'],
                outside=['longer texts', 'searching for the empty text or for the terminator', 'what ReadFloat makes of malformed numbers, beyond its limits', 'how well the hash spreads'], jobs=text_jobs()),
    'C23': dict(bounds=['every 32-bit and 64-bit argument, and every pair'], outside=['the smallest integer for Abs, zero for Pow2Floor, zero and values above 2^31 for Pow2Ceil, negative values for OverflowZero: no defined result',
                'moduli other than 1, 2, 3, 7 and 2^31-1 for IncMod and DecMod'], jobs=[job('prim', 'prim.cpp', 'every argument')]),
    'C24': dict(bounds=['every bit pattern of every argument'],
                outside=['the signs of zeros', 'NaN where ordering or minima are asked for', 'clamping to an empty range', 'values beyond 2^23 in the Positive and Negative forms of the rounding functions',
                         'conversion of floats outside the range of int32', 'overflow flags and rounding modes other than to nearest', 'the AVX, SSE4 and NEON forms, which this build does not contain'],
                jobs=math_jobs()),
    'C27': dict(leak=True, bounds=['floats from 0.0001 to 100000: for four exponents below -7 all, for the others (quick: 8 of them) 7 free leading or trailing bits of the fraction (thorough: every exponent, all fractions as far as the solver gets)', 'every zero, denormal, infinity and NaN', 'limits of -1 to 16 for representative values'],
                outside=['the value of the text in exponent notation, except for representative values: the power of ten is found with the approximated logarithm', 'the text of a value cut by the limit'], jobs=float_jobs()),
}

NOT_APPLICABLE = {
    'C25': 'Stack consumption is a property of the compiled frames and of the machine stack, which the symbolic semantics of the IR does not have; '
           'the deep-nesting finding (about 65000 open brackets overflow an 8 MB stack) is described in DESIGN.md.',
    'C26': 'The approximations start from the reciprocal square root estimate of the processor, whose value is not specified, and chain rounded '
           'multiplications whose comparison with a transcendental function is beyond bit-blasted floating point.',
}
