"""C11: stored verification states are read back exactly."""
import copy
import json
from rv import gen, modes, ref
from rv.props import common, c09

LEVEL = 'exploration'
QUICK, THOROUGH = 3500, 28000
RULE = ('a case is either a random state (0 to 6 registers, any field values, both kinds of ID '
        'tracking) that is written, turned into text, read back and compared, or a state of a '
        'real verification whose continuation is compared before and after, or a stored state '
        'with every single removal and type change, each of which must be refused; distinct by '
        'kind and shape')
MANDATORY = ['roundtrip', 'behaviour', 'removals', 'types', 'unique', 'sorted', 'empty state',
             'unequal', 'continued ok', 'continued err']
FIELDS = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt',
          'chainNextTo')


def S():
    return modes.verification_state


def text(rng):
    return rng.choice([u'', u'x', u'äöü漢🎉', 'a.b.c', '"\\', 'null', 'true', '0', '\u2028',
                       'x' * 3000, ' ', '\0\x1f', u'e\u0301', u'\u00e9',
                       gen.ident(rng)])


def rand_reg(rng):
    r = ref.Reg()
    if rng.random() < .8:
        r.start = text(rng)
    if rng.random() < .8:
        r.last = text(rng)
    if rng.random() < .4:
        r.chain_next = text(rng)
    r.tc = rng.choice([0, 1, -1, 99, 2**53 + 1, -2**63 - 1, 2**127 - 1, -2**127, 2**64,
                       rng.randrange(-10**12, 10**12), 10**18 + 7])
    r.need = rng.random() < .5
    return r


def rand_cluster(rng):
    cl = ref.Cluster(rng.choice(['unique', 'sorted']))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        cl.regs.append(rand_reg(rng))
    for i in range(rng.choice([0, 1, 2, 20])):
        cl.used.add(text(rng) + (str(i) if rng.random() < .8 else ''))
    return cl


def build(cl):
    """Without reading it."""
    st = S().ClusterState(modes.BACKENDS[cl.used.kind])
    for r in cl.regs:
        c = S().CashRegisterState()
        for k, v in r.view().items():
            setattr(c, k, v)
        st.cashRegisters.append(c)
    for i in (sorted(cl.used.ids) if cl.used.kind == 'unique' else
              [x for x in (cl.used.min, cl.used.max) if x is not None]):
        st.usedReceiptIds.add(i)
    return st


def roundtrip(ctx):
    rng = ctx.rng
    cl = rand_cluster(rng)
    st = build(cl)
    want = modes.model_view(cl)
    before = copy.deepcopy(st.__dict__)
    j = st.writeStateToJson()
    ctx.check(len(before['cashRegisters']) == len(st.cashRegisters) and
              all(a == b for a, b in zip(before['cashRegisters'], st.cashRegisters)) and
              before['usedReceiptIds'] == st.usedReceiptIds, 'writing modified the state')
    ctx.check(modes.view(st) == want, 'wrong content written', got=modes.view(st), want=want)
    t = json.dumps(j, ensure_ascii=rng.random() < .5)
    j2 = json.loads(t)
    snap = copy.deepcopy(j2)
    st2 = S().ClusterState.readStateFromJson(j2)
    ctx.check(j2 == snap, 'reading modified the stored state')
    ctx.check(modes.view(st2) == want, 'other content read', got=modes.view(st2), want=want)
    for i, (a, b) in enumerate(zip(st.cashRegisters, st2.cashRegisters)):
        ctx.check(a == b and not (a != b), 'register differs after reading', i=i)
        ctx.check(type(b.lastTurnoverCounter) is int and type(b.needRestoreReceipt) is bool,
                  'field types')
    ctx.check(st.usedReceiptIds == st2.usedReceiptIds and
              not (st.usedReceiptIds != st2.usedReceiptIds) and
              type(st.usedReceiptIds) is type(st2.usedReceiptIds), 'used IDs differ after reading')
    # equality tells different states apart
    if st2.cashRegisters:
        r = rng.choice(range(len(st2.cashRegisters)))
        f = rng.choice(FIELDS)
        v = getattr(st2.cashRegisters[r], f)
        setattr(st2.cashRegisters[r], f, (not v) if f == 'needRestoreReceipt' else
                (v + 1 if f == 'lastTurnoverCounter' else (v or '') + 'x'))
        ctx.check(st.cashRegisters[r] != st2.cashRegisters[r] and
                  not st.cashRegisters[r] == st2.cashRegisters[r],
                  'different registers are equal', field=f)
        ctx.check(j2 == snap and j == json.loads(t), 'stored state changes with the state')
        ctx.count('unequal')
    st2.usedReceiptIds.add('zzz another 99999999')
    ctx.check(not st.usedReceiptIds == st2.usedReceiptIds, 'different used IDs are equal')
    ctx.check(j2 == snap and json.loads(t) == j, 'stored state changes with the used IDs')
    # nor do the states change with what was written or read
    for x, y in ((j, st), (j2, st2)):
        have = modes.view(y)
        for r in x['cashRegisters']:
            for f in FIELDS:
                r[f] = 'changed'
        u = x['usedReceiptIds']['backendData']
        if isinstance(u, list):
            u.append('changed')
        else:
            u['maxId'] = 'changed'
        x['cashRegisters'].append('changed')
        ctx.check(modes.view(y) == have, 'the state changes with what was %s' % (
            'written' if x is j else 'read'), before=have, after=modes.view(y))
    ctx.count('roundtrip')
    ctx.count(cl.used.kind)
    if not cl.regs:
        ctx.count('empty state')
    ctx.distinct('roundtrip', len(cl.regs), cl.used.kind, [r.tc for r in cl.regs])
    ctx.sample(kind='roundtrip', registers=len(cl.regs), used=cl.used.kind)


def behaviour(ctx):
    rng = ctx.rng
    kind = rng.choice(['unique', 'sorted'])
    h = gen.history(rng, rng.randrange(2, 14), fail_p=.3, stretch=.02,
                    idstyle=rng.choice(['num', 'nat']) if kind == 'sorted' else None)
    key = rng.choice([h.key, None])
    pre, post = common.cut(h.ref_groups(), rng.randrange(1, len(h.metas)))
    m = modes.Mode(entry='dep')
    ks = modes.real_ks(h.ks)
    a = modes.run(m, gen.make_dep(pre), ks, key, None, None, kind, rng)
    ctx.check(a[0] == 'ok', 'prefix rejected', got=modes.brief(a))
    st = a[1]
    if rng.random() < .5:
        # state without verification
        st = modes.real_state(ref.verify(pre, h.ks, key, kind=kind).ok)
    j = json.loads(json.dumps(st.writeStateToJson()))
    snap = copy.deepcopy(j)
    st2 = S().ClusterState.readStateFromJson(j)
    what = rng.choice(['post', 'post', 'pre', 'skip', 'index', 'new'])
    groups, idx = post, 0
    if what == 'pre':
        groups = pre
    elif what == 'skip':
        groups = common.cut(post, 1)[1]
        if not sum(len(g[0]) for g in groups):
            groups = post
    elif what == 'index':
        idx = rng.choice([-1, 2, 3, 100])
    elif what == 'new':
        idx = None
    m = modes.pick_mode(rng, len(h.metas))
    dep = gen.make_dep(groups)
    seed = rng.random()
    import random
    o1 = modes.run(m, dep, ks, key, st, idx, kind, random.Random(seed))
    o2 = modes.run(m, dep, ks, key, st2, idx, kind, random.Random(seed))
    ctx.check(modes.brief(o1) == modes.brief(o2), 'reloaded state behaves differently',
              original=modes.brief(o1), reloaded=modes.brief(o2), what=what)
    ctx.check(modes.view(st) == modes.view(st2), 'reloaded state differs afterwards',
              original=modes.view(st), reloaded=modes.view(st2))
    ctx.check(j == snap, 'using the state changed the stored state')
    ctx.count('continued ' + o1[0])
    ctx.count('behaviour')
    ctx.distinct('behaviour', what, len(h.metas), kind)


def base(rng):
    while True:
        cl = rand_cluster(rng)
        if cl.regs:
            return modes.state_json(cl)


def refuse(ctx, j, what):
    snap = copy.deepcopy(j)
    try:
        st = S().ClusterState.readStateFromJson(j)
    except S().StateParseException as e:
        str(e)
        ctx.check(j == snap, 'refused state modified')
        ctx.count('refused')
        return
    ctx.fail('stored state accepted although ' + what, state=j, got=modes.view(st))


STR_BAD = [0, 1, True, False, 1.5, [], {}, ['x'], {'x': 'y'}]


def edits(j):
    """(description, edited state) for all single removals and type changes."""
    for bad in (None, [], 'x', 1, True, 1.5, [j], {}):
        yield 'types', 'root is %r' % (bad,), bad
    for k in list(j):
        c = copy.deepcopy(j)
        del c[k]
        yield 'removals', 'no ' + k, c
    for bad in (None, {}, 'x', 1, True, 1.5, {'0': j['cashRegisters'][0]}):
        yield 'types', 'cashRegisters is %r' % (bad,), dict(j, cashRegisters=bad)
    for bad in (None, [], 'x', 1, True, ['a'], {}):
        yield 'types', 'usedReceiptIds is %r' % (bad,), dict(j, usedReceiptIds=bad)
    for i in range(len(j['cashRegisters'])):
        for bad in (None, [], 'x', 1, True, {}):
            c = copy.deepcopy(j)
            c['cashRegisters'][i] = bad
            yield 'types', 'register %d is %r' % (i, bad), c
        for f in FIELDS:
            c = copy.deepcopy(j)
            del c['cashRegisters'][i][f]
            yield 'removals', 'register %d has no %s' % (i, f), c
            if f == 'lastTurnoverCounter':
                bads = [None, '1', '', True, False, 1.0, 1.5, [], {}, [1]]
            elif f == 'needRestoreReceipt':
                bads = [None, 'true', '', 0, 1, 0.0, [], {}, [True]]
            else:
                bads = STR_BAD
            for bad in bads:
                c = copy.deepcopy(j)
                c['cashRegisters'][i][f] = bad
                yield 'types', 'register %d: %s is %r' % (i, f, bad), c
    u = j['usedReceiptIds']
    for f in list(u):
        c = copy.deepcopy(j)
        del c['usedReceiptIds'][f]
        yield 'removals', 'no ' + f, c
    for bad in (None, 1, True, [], {}, 'USED_RECEIPT_IDS_X', '', 'USED_RECEIPT_IDS_INVALID',
                'used_receipt_ids_unique', [u['backendType']]):
        c = copy.deepcopy(j)
        c['usedReceiptIds']['backendType'] = bad
        yield 'types', 'backendType is %r' % (bad,), c
    c = copy.deepcopy(j)
    other = [t for t in modes.BTYPE.values() if t != u['backendType']][0]
    c['usedReceiptIds']['backendType'] = other
    yield 'types', 'data of the other backend', c
    if isinstance(u['backendData'], list):
        bads = [None, 1, 'x', True, {}, {'minId': 'a', 'maxId': 'b'}]
        bads += [[x] for x in (None, 1, True, 1.5, [], {}, ['a'])]
        bads += [u['backendData'] + [x] for x in (None, 1, [], {})]
    else:
        bads = [None, 1, 'x', True, [], ['a', 'b'], {}]
        for f in ('minId', 'maxId'):
            d = dict(u['backendData'])
            del d[f]
            c = copy.deepcopy(j)
            c['usedReceiptIds']['backendData'] = d
            yield 'removals', 'no ' + f, c
            for bad in STR_BAD:
                bads.append(dict(u['backendData'], **{f: bad}))
    for bad in bads:
        c = copy.deepcopy(j)
        c['usedReceiptIds']['backendData'] = bad
        yield 'types', 'backendData is %r' % (bad,), c


def hostile(ctx):
    j = base(ctx.rng)
    for kind, what, bad in edits(j):
        refuse(ctx, bad, what)
        ctx.count(kind)
    ctx.distinct('hostile', len(j['cashRegisters']), j['usedReceiptIds']['backendType'])


def garbage(ctx):
    """Well-formed states with meaningless content end in documented errors."""
    rng = ctx.rng
    h = gen.history(rng, rng.randrange(1, 5))
    cl = rand_cluster(rng)
    st = modes.real_state(cl)
    m = modes.pick_mode(rng, 4)
    out = modes.run(m, h.dep(), modes.real_ks(h.ks), h.key, st,
                    rng.choice([None, 0, len(cl.regs)]), cl.used.kind, rng)
    ctx.count('garbage ' + out[0])
    ctx.distinct('garbage', len(cl.regs), out[:2] if out[0] == 'err' else 'ok')


def case(ctx):
    k = ctx.index % 10
    if k < 5:
        roundtrip(ctx)
    elif k < 8:
        behaviour(ctx)
    elif k == 8:
        hostile(ctx)
    else:
        garbage(ctx)
