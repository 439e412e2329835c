"""C30: the graphical tool reaches the verdicts of the library."""
import base64
import builtins
import contextlib
import gettext
import io
import json
import os
import runpy
import sys

from rv import core, gen, gui, modes, ref
from librksv import gettext_helper
from rv.props import c08, c18, c19, c28, common

LEVEL = 'exploration'
QUICK, THOROUGH = 2100, 20000
RULE = ('a case is one session of the graphical tool (started with stand-ins for the toolkit): a random sequence of '
        'user actions (loading DEPs, keys, key stores, receipts and pictures, verifying, aborting, viewing receipts, '
        'changing the key store, hostile files) whose every visible result is compared with a model; distinct by the '
        'sequence of actions and results')
MANDATORY = ['dep shown', 'dep refused', 'dep valid', 'dep invalid', 'dep error:key', 'abort', 'retry', 'late result',
             'load while verifying', 'receipt of dep viewed', 'receipt of verified dep', 'decrypted', 'not decrypted',
             'tab receipt:JWS', 'tab receipt:QR', 'tab receipt:OCR', 'tab receipt:URL', 'tab receipt refused',
             'signature valid', 'signature invalid', 'picture', 'picture without code', 'text file',
             'cert added from dep', 'ks cert', 'ks key', 'ks delete', 'ks import', 'ks import refused', 'ks export',
             'ks file refused', 'key file', 'key file refused', 'real pool', 'cancelled', 'key store changed meanwhile',
             'bad url', 'empty dep', 'codes printed']
CODES = {'JWS': 'jws', 'QR': 'code', 'OCR': 'ocr', 'URL': 'url'}
rktool = None


def setup(tier):
    global rktool
    # as the program does when it is started
    getattr(gettext_helper, 'install', lambda: gettext.install('rktool', './lang'))()
    rktool = gui.load()
    c28.setup(tier)


def tr(s):
    return builtins._(s)


def key64(k):
    return base64.b64encode(k).decode()


class Session(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.dir = ctx.scratch()
        self.n = 0
        self.log = []
        self.real = real = ctx.index % 17 == 16
        self.nprocs = ctx.rng.choice([1, 2, 3, 8, 200]) if not real else 2
        self.tool = gui.Tool(rktool, self.nprocs, gui.RealPool if real else gui.Pool)
        ctx.count('real pool', real)
        gui.Pool.late = ctx.rng.random() < .5
        self.ks = ref.Ks()
        self.spki = {}
        self.dep = None            # groups shown
        self.keytext = ''
        self.key = None            # usable key or None; False: unusable
        self.state = 'none'        # none, idle, valid
        self.world = None          # ks, sim of the DEP at hand
        self.expected_state()

    # ------------------------------------------------------------- judgements
    def fail(self, msg, **k):
        self.ctx.fail(msg, log=self.log[-12:], **k)

    def check(self, cond, msg, **k):
        if not cond:
            self.fail(msg, **k)

    def did(self, what):
        self.log.append(what)

    def no_lost(self):
        if gui.T.lost:
            e = gui.T.lost[0]
            self.fail('a background job ended with an error of which nobody is told: %s: %s' % (type(e).__name__, e))

        if gui.T.foreign:
            self.fail('a widget is changed outside of the main thread: ' + gui.T.foreign[0])

    def quiet(self, what):
        """Everything is done and nobody complained."""
        self.tool.drain()
        errs = self.tool.errors()
        self.check(not errs, 'an error message although everything is right', what=what, got=errs)

    def complained(self, what):
        """At least one message."""
        self.tool.drain()
        errs = self.tool.errors()
        self.check(len(errs) > 0, 'no error message', what=what)
        for ex, text in errs:
            self.check(isinstance(text, str) and text.strip() != '', 'an empty error message', what=what, got=repr(ex))
        return errs

    def no_popup(self, what):
        k, c = self.tool.popup()
        self.check(k is None, 'a dialog stays open', what=what, kind=k)

    def expected_state(self):
        b = self.tool.dep.verify_button
        want = {'none': (tr('Verify'), True), 'idle': (tr('Verify'), False), 'valid': (tr('Valid DEP'), True)}[self.state]
        got = (b.text, b.disabled)
        self.check(got == want, 'the DEP view shows something else', got=got, want=want)

    # ------------------------------------------------------------------ files
    def write(self, data, ext):
        self.n += 1
        p = os.path.join(self.dir, 'f%d%s' % (self.n, ext))
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))
        return p

    def choose(self, path, button='Load', popup='LoadDialog'):
        """Chooses a file in the dialog."""
        k, c = self.tool.popup()
        self.check(k == popup, 'no file dialog', got=k)
        if self.rng.random() < .08:
            self.tool.button(c, tr('Cancel')).press()
            self.tool.drain()
            self.no_popup('cancel')
            self.ctx.count('cancelled')
            return False
        f = c.ids['filechooser']
        self.check(os.path.isdir(f.path), 'the file dialog starts nowhere', got=f.path)
        if self.rng.random() < .1 and popup == 'LoadDialog':
            f.selection = []
            self.tool.button(c, tr(button)).press()
            self.tool.drain()
            self.check(self.tool.popup()[0] == popup, 'something happens without a file')
        f.path = os.path.dirname(path)
        f.selection = [path]
        f.fire('on_selection')
        self.tool.button(c, tr(button)).press()
        return True

    def missing(self):
        self.n += 1
        return self.rng.choice([os.path.join(self.dir, 'missing%d' % self.n), self.dir])

    def garbage(self, ext):
        rng = self.rng
        return self.write(rng.choice([b'', b'\xff\xfe\x80', b'{', b'[]', b'null', b'5', b'"x"', b'{}', b'\0' * 9,
                                      bytes(rng.randrange(256) for _ in range(rng.randrange(60))),
                                      b'[1, 2]', b'{"a": [', b'\xef\xbb\xbf']), ext)

    # -------------------------------------------------------------------- DEP
    def new_world(self):
        rng = self.rng
        defect = rng.choice(c08.DEFECTS + ['duplicate'] * 4 + ['none'] * 14)
        ks, devs, sim, certful, groups, at = c08.build(rng, defect)
        self.world = (ks, sim, groups, defect)

    def adopt(self, ks):
        """The user imports the key store that goes with a DEP."""
        entries = []
        for kid, (t, x) in ks.d.items():
            e = c19.Entry()
            e.rid = e.kid = kid
            e.kind = t
            e.obj = (t, x)
            e.text = x.b64 if t == 'cert' else base64.b64encode(spki(x)).decode()
            entries.append(e)
        self.import_store({'certificateOrPublicKeyMap': {e.rid: e.json() for e in entries}}, entries)

    def load_dep(self):
        rng, t = self.rng, self.tool
        self.new_world()
        ks, sim, groups, defect = self.world
        path = self.write(gen.layout(rng, gen.make_dep(groups)), '.json')
        if rng.random() < .75:
            self.adopt(ks)
        t.button(t.dep, tr('Load DEP')).press()
        if not self.choose(path):
            return self.did('load cancelled')
        t.drain()
        recs = [ref.parse_jws(j) for g in groups for j in g[0]]
        self.did('load %s' % defect)
        if any(r.cls == ref.BAD for r in recs):
            self.complained('load of a DEP with a malformed receipt')
            self.dep, self.state = None, 'none'
            self.ctx.count('dep refused')
        else:
            self.quiet('load of a DEP')
            self.dep, self.state = shown(groups), 'idle'
            self.ctx.count('dep shown')
        self.no_popup('load')
        self.expected_state()
        self.tree()
        self.stored()

    def tree(self):
        """What is shown of the DEP."""
        gs = self.tool.dep.treeView.root.nodes
        want = self.dep or []
        self.check(len(gs) == len(want), 'not the groups of the DEP', got=len(gs), want=len(want))
        for i, (n, (recs, cert, chain)) in enumerate(zip(gs, want)):
            self.check(n.text == tr('Group %d') % (i + 1), 'not the number of the group', got=n.text)
            c, h, r = n.nodes
            ser = [tr('Serial: ') + ref.serial_id(x.serial) for x in ([cert] if cert else [])]
            self.check([x.text for x in c.nodes] == ser, 'not the certificate of the group',
                       got=[x.text for x in c.nodes], want=ser)
            ser = [tr('Serial: ') + ref.serial_id(x.serial) for x in chain]
            self.check([x.text for x in h.nodes] == ser, 'not the chain of the group',
                       got=[x.text for x in h.nodes], want=ser)
            ids = [ref.parse_jws(j).rid for j in recs]
            self.check([x.text for x in r.nodes] == ids, 'not the receipts of the group',
                       got=[x.text for x in r.nodes], want=ids)

    def load_hostile(self):
        """A file that is no DEP or a strange one."""
        rng, t = self.rng, self.tool
        k = rng.random()
        x = None
        if k < .15:
            path = self.missing() if rng.random() < .4 else self.garbage('.json')
        elif k < .3:
            gs = [(recs, c, ch) for recs, c, ch in gen.history(rng, 2, ndev=1).ref_groups()]
            gs = [([], c, ch) for recs, c, ch in gs]
            path = self.write(gen.layout(rng, gen.make_dep(gs if rng.random() < .7 else [])), '.json')
            self.ctx.count('empty dep')
        else:
            x = c18.build(self.ctx)
            data = x.data
            if data is None:
                try:
                    data = json.dumps(x.dep).encode('utf-8')
                except ValueError:
                    return
            path = self.write(data, '.json')
        before = self.dep
        t.button(t.dep, tr('Load DEP')).press()
        if not self.choose(path):
            return
        t.drain()
        errs = t.errors()
        self.no_popup('load hostile')
        self.did('hostile %s' % (x and x.changes))
        shown = self.tool.dep.treeView.root.nodes
        if errs:
            self.ctx.count('dep refused')
            if t.dep.verify_button.disabled and not shown and t.dep.verify_button.text != tr('Valid DEP'):
                self.dep, self.state = None, 'none'
            self.expected_state()
            self.tree()
            return
        try:
            with open(path) as f:
                groups = [c[0] for c in modes.depparser.FullFileDEPParser(f).parse(0)]
        except Exception as e:
            self.fail('a file was loaded that is no DEP: %s' % e)
        self.check(len(shown) == len(groups), 'not the groups of the DEP')
        for n, g in zip(shown, groups):
            self.check(len(n.nodes[2].nodes) == len(g[0]), 'not the receipts of the group')
        # the verdict of the library
        self.ctx.count('dep shown')
        self.dep, self.state = [], 'idle'
        self.expected_state()
        real = t.app.keyStore
        key = self.key or None
        parser = modes.depparser.DictDEPParser(None)
        parser.parse = lambda chunksize=0: iter([groups] if groups else [])
        out = modes.outcome(lambda: modes.verify.verifyParsedDEP(parser, real, key, None, None, None, 1, 0,
                                                                modes.BACKENDS['unique']))
        self.press_verify()
        t.settle()
        self.no_lost()
        errs = t.errors()
        if self.key is False:
            want = 'err'
        else:
            want = out[0]
        if want == 'err':
            self.check(errs != [], 'no error message for a DEP that the library rejects', want=modes.brief(out))
        else:
            self.check(errs == [], 'an error message for a DEP that the library accepts', got=errs)
            self.state = 'valid'
        self.expected_state()
        if self.key is False:
            self.sync_key()
        # nothing is known about it
        self.tool.dep.dep = None
        self.tool.dep.clearDEPDisplay()
        self.tool.dep.verifyAbort()
        self.tool.dep.verify_button.disabled = True
        self.dep, self.state = None, 'none'

    def press_verify(self):
        t = self.tool
        self.check(t.dep.verify_button.press(), 'the button cannot be pressed')

    def sync_key(self):
        """After a key was refused its text may be gone."""
        if self.tool.dep.aesInput.text != self.keytext:
            self.check(self.tool.dep.aesInput.text == '', 'the key changed', got=self.tool.dep.aesInput.text)
            self.keytext, self.key = '', None

    def verify(self):
        rng, t = self.rng, self.tool
        if self.state != 'idle' or not self.dep:
            return
        again = 1 + (rng.random() < .25)
        for i in range(again):
            if self.state != 'idle':
                break
            self.ctx.count('retry', i > 0)
            self.verify_once()

    def verify_once(self):
        rng, t, ctx = self.rng, self.tool, self.ctx
        ks = ref.Ks(self.ks.d)
        key = self.key
        self.press_verify()
        t.drain()
        if t.dep.verify_button.text == tr('Verifying...'):
            k = rng.random() if not self.real else .9
            if k < .12:
                for _ in range(rng.randrange(3)):
                    if t.dep.verify_button.text == tr('Verifying...'):
                        t.step()
                errs = t.dep.verify_button.text != tr('Verifying...')
                if not errs:
                    late = rng.random() < .5 and not t.app.pool.idle()
                    if late:
                        t.app.pool.step()  # its result has not been looked at yet
                        errs = t.dep.verify_button.text != tr('Verifying...')
                        ctx.count('late result', not errs)
                if not errs:
                    self.did('abort')
                    self.press_verify()
                    t.settle()
                    self.no_lost()
                    self.quiet('abort')
                    ctx.count('abort')
                    self.expected_state()
                    return
            elif k < .2:
                for _ in range(rng.randrange(3)):
                    if t.dep.verify_button.text == tr('Verifying...'):
                        t.step()
                if t.dep.verify_button.text == tr('Verifying...') and not t.errors():
                    ctx.count('load while verifying')
                    self.did('load meanwhile')
                    old, st = self.dep, self.state
                    self.state = None
                    self.load_dep_meanwhile(ks, key)
                    return
            elif k < .4 and t.app.pool is not None:
                if rng.random() < .5:
                    t.step()
                if t.dep.verify_button.text == tr('Verifying...'):
                    # the store at the time of the request counts
                    self.store_change()
                    ctx.count('key store changed meanwhile')
        self.finish(ks, key)

    def load_dep_meanwhile(self, ks, key):
        """Loads another DEP; nothing of the old result may show."""
        rng, t = self.rng, self.tool
        old = self.dep
        self.new_world()
        groups = self.world[2]
        path = self.write(gen.layout(rng, gen.make_dep(groups)), '.json')
        t.button(t.dep, tr('Load DEP')).press()
        if not self.choose(path):
            self.state = 'idle'
            return self.finish(ks, key)
        t.drain()
        if any(ref.parse_jws(j).cls == ref.BAD for g in groups for j in g[0]):
            self.complained('load of a DEP with a malformed receipt')
            self.dep, self.state = None, 'none'
        else:
            self.quiet('load of a DEP')
            self.dep, self.state = shown(groups), 'idle'
        t.settle()
        self.no_lost()
        self.quiet('load while verifying')
        self.expected_state()
        self.tree()

    def finish(self, ks, key):
        rng, t, ctx = self.rng, self.tool, self.ctx
        t.settle()
        self.no_lost()
        errs = t.errors()
        self.no_popup('verification')
        if key is False:
            self.check(len(errs) == 1, 'a useless key does not lead to one error message', got=errs)
            ctx.count('dep error:key')
            self.sync_key()
            self.did('verify: bad key')
            return self.expected_state()
        res = ref.verify(self.dep, ks, key)
        if res.ok is not None:
            self.did('verify: valid')
            self.check(errs == [], 'a correct DEP is rejected', got=errs)
            self.state = 'valid'
            ctx.count('dep valid')
        else:
            self.did('verify: invalid')
            self.check(len(errs) == 1, 'a wrong DEP does not lead to one error message', got=errs,
                       expected=sorted(res.loose, key=repr))
            e = errs[0][0]
            out = ('err', type(e).__name__, getattr(e, 'receipt', None), str(e), e)
            self.check(modes.matches(out, res.loose), 'wrong error message', got=modes.brief(out),
                       expected=sorted(res.loose, key=repr))
            self.check(errs[0][1] == str(e), 'the message is not what is shown', got=errs[0])
            ctx.count('dep invalid')
        self.expected_state()

    # -------------------------------------------------------------------- key
    def a_key(self):
        """(text, key or None or False)"""
        rng = self.rng
        sim = self.world[1] if self.world else None
        good = sim.key if sim and rng.random() < .75 else bytes(rng.randrange(256) for _ in range(32))
        k = rng.random()
        if k < .65:
            return key64(good) + rng.choice(['', '', '\n', '\r\n', ' ']), good
        n = rng.choice([0, 1, 15, 16, 24, 31, 33, 64])
        if rng.random() < .4:
            n = rng.choice([16, 24, 31, 33])
            return key64((good + good)[:n]), False
        return rng.choice([key64(bytes(n)) or '====', key64(good)[:-1], key64(good)[1:], u'\xe4', 'x', '=', '!',
                           key64(good) + 'AAAA', ' ']), False

    def set_key(self):
        rng, t = self.rng, self.tool
        k = rng.random()
        if k < .15:
            self.keytext, self.key = '', None
            t.dep.aesInput.text = ''
            return self.did('no key')
        text, key = self.a_key()
        if k < .5:
            t.dep.aesInput.text = text
            self.keytext, self.key = text, key
            return self.did('key typed %r' % key)
        how, path = self.key_file(text)
        t.button(t.dep, tr('Load AES Key')).press()
        if not self.choose(path):
            return
        t.drain()
        self.did('key file %s' % how)
        if how == 'bad':
            self.complained('a bad key file')
            self.sync_key()
        else:
            self.quiet('a key file')
            self.check(t.dep.aesInput.text.strip() == text.strip(), 'not the key of the file', got=t.dep.aesInput.text,
                       want=text)
            text = t.dep.aesInput.text
            self.keytext, self.key = text, key
        self.no_popup('key file')

    def key_file(self, text):
        rng = self.rng
        k = rng.random()
        if k < .4:
            self.ctx.count('key file')
            return 'text', self.write(text, rng.choice(['.txt', '', '.key']))
        if k < .75:
            self.ctx.count('key file')
            c = {'base64AESKey': text}
            if rng.random() < .5:
                c['certificateOrPublicKeyMap'] = {}
            b = b'\xef\xbb\xbf' if rng.random() < .2 else b''
            return 'json', self.write(b + json.dumps(c, ensure_ascii=rng.random() < .5).encode('utf-8'), '.json')
        self.ctx.count('key file refused')
        if k < .85:
            return 'bad', rng.choice([self.missing(), self.write(b'\xff\xfe\x81', '.txt')])
        v = rng.choice([None, 5, [], [text], {'base64AESKey': None}, {'base64AESKey': 5}, {}, {'base64AESKey': [text]},
                        {'base64aesKey': text}, 'base64AESKey', True, 1.5, {'base64AESKey': {}}, {'base64AESKey': False}])
        if rng.random() < .2:
            return 'bad', self.write(rng.choice([b'', b'{', b'{"base64AESKey": "', b'\xff', text.encode('utf-8')]), '.json')
        return 'bad', self.write(json.dumps(v), '.json')

    # --------------------------------------------------------------- receipts
    def from_dep(self):
        """Presses a receipt or a certificate of the DEP."""
        rng, t = self.rng, self.tool
        gs = [i for i, g in enumerate(self.dep or []) if g[0] or g[1]]
        if not gs:
            return
        i = rng.choice(gs)
        recs, cert, chain = self.dep[i]
        node = t.dep.treeView.root.nodes[i]
        if cert and (not recs or rng.random() < .3):
            cs = [cert] + list(chain)
            k = rng.randrange(len(cs))
            b = (list(node.nodes[0].nodes) + list(node.nodes[1].nodes))[k]
            self.did('certificate of the DEP')
            self.check(b.press(), 'a certificate cannot be pressed')
            self.quiet('add a certificate of the DEP')
            self.ks.add_cert(cs[k])
            self.ctx.count('cert added from dep')
            return self.stored()
        k = rng.randrange(len(recs))
        r = ref.parse_jws(recs[k])
        self.did('receipt of the DEP')
        self.check(node.nodes[2].nodes[k].press(), 'a receipt cannot be pressed')
        self.ctx.count('receipt of dep viewed')
        self.ctx.count('receipt of verified dep', self.state == 'valid')
        self.viewed(r, self.state == 'valid', self.keytext, self.key if self.keytext else None)

    def viewed(self, r, valid, keytext, key):
        """The view of a receipt is open."""
        rng, t, ctx = self.rng, self.tool, self.ctx
        t.drain()
        errs = t.errors()
        want = 0
        if r.broken and r.null and not r.dummy and not r.reversal:
            want += 1
        if key is False:
            want += 1
        self.check(len(errs) == want, 'not the messages for a receipt', got=errs, want=want)
        k, w = t.popup()
        self.check(k == 'ViewReceiptWidget', 'the receipt is not shown', got=k)
        got = {x['item_name']: x['item_value'] for x in w.adapter.shown()}
        have = key if key else None
        self.fields(w, r, have)
        self.check(w.decrypt_button.disabled == bool(r.dummy or r.reversal or have),
                   'not the state of the decryption', got=w.decrypt_button.disabled, have=bool(have), receipt=r.jws)
        sig = 'valid' if valid and not r.broken else 'none' if r.broken else 'open'
        for _ in range(rng.randrange(3)):
            if rng.random() < .5:
                if sig == 'open':
                    self.did('verify receipt')
                    self.check(w.verify_button.press(), 'the signature cannot be verified')
                    want = ref.single(r, self.ks)
                    if rng.random() < .2:
                        t.button(w, tr('Exit'))
                    t.settle()
                    self.no_lost()
                    errs = t.errors()
                    if want == {'ok'}:
                        self.check(errs == [], 'a valid signature is rejected', got=errs)
                        sig = 'valid'
                        ctx.count('signature valid')
                    else:
                        self.check(len(errs) == 1 and type(errs[0][0]).__name__ in want,
                                   'a wrong receipt is not reported', got=errs, want=sorted(want))
                        ctx.count('signature invalid')
            elif not w.decrypt_button.disabled:
                text, k = self.a_key()
                if self.world and rng.random() < .3:
                    k = self.world[1].key
                    text = key64(k)
                how = 'typed'
                if rng.random() < .5:
                    w.aes_input.text = text
                    w.decrypt_button.press()
                    t.drain()
                else:
                    how, path = self.key_file(text)
                    w.aes_input.text = ''
                    w.decrypt_button.press()
                    kind = t.popup()[0]
                    if not self.choose_in_view(path):
                        continue
                    t.drain()
                self.did('decrypt %s %r' % (how, k))
                if how == 'bad' or k is False:
                    self.complained('a bad key for a receipt')
                    ctx.count('not decrypted')
                else:
                    self.quiet('a key for a receipt')
                    have = k
                    ctx.count('decrypted')
                    self.check(w.decrypt_button.disabled, 'a decrypted receipt can be decrypted again')
                    self.check(base64.b64decode(w.aes_input.text) == k, 'not the key used is shown',
                               got=w.aes_input.text)
            kind, x = t.popup()
            self.check(x is w, 'the receipt is not shown any more', got=kind)
            self.fields(w, r, have)
        b = w.verify_button
        want = {'valid': (tr('Valid Signature'), True), 'none': (tr('No Signature'), True),
                'open': (tr('Verify'), False)}[sig]
        self.check((b.text, b.disabled) == want, 'not the state of the signature', got=(b.text, b.disabled),
                   want=want, receipt=r.jws)
        x = [x for x in w.walk() if x.title == tr('Receipt')]
        self.check(len(x) == 1, 'the view cannot be left')
        x[0].press()
        t.drain()
        self.no_popup('receipt view')

    def choose_in_view(self, path):
        t = self.tool
        k, c = t.popup()
        self.check(k == 'LoadDialog', 'no file dialog', got=k)
        if self.rng.random() < .1:
            t.button(c, tr('Cancel')).press()
            t.drain()
            self.ctx.count('cancelled')
            return False
        f = c.ids['filechooser']
        f.path = os.path.dirname(path)
        f.selection = [path]
        t.button(c, tr('Load')).press()
        return True

    def fields(self, w, r, key):
        got = {x['item_name']: x['item_value'] for x in w.adapter.shown()}
        want = {tr('ZDA ID'): 'R1-' + r.zda, tr('Cash Register ID'): r.reg, tr('Receipt ID'): r.rid,
                tr('Certificate Serial/Key ID'): r.serial, tr('Chaining Value'): r.chain,
                tr('Signature'): tr('Signature system broken') if r.broken else r.sig}
        if r.dt >= '1000':
            want[tr('Timestamp')] = r.dt
        for k, v in want.items():
            self.check(got.get(k) == v, 'a field of a receipt is wrong', field=k, got=got.get(k), want=v)
        names = ['Sum Tax Normal', 'Sum Tax Reduced 1', 'Sum Tax Reduced 2', 'Sum Tax Zero', 'Sum Tax Special']
        for n, s in zip(names, r.sums):
            c = int(s.replace(',', ''))
            self.amount(n, got.get(tr(n)), c)
        g = got.get(tr('Turnover Counter'))
        if r.dummy or r.reversal:
            self.check(g == ('TRA' if r.dummy else 'STO'), 'not the kind of the receipt', got=g)
        elif key:
            self.amount('counter', g, ref.dec_counter(key, r.reg, r.rid, r.tc))
            self.ctx.count('counter shown')
        else:
            self.check(g == r.tc64, 'not the encrypted turnover counter', got=g, want=r.tc64)
        self.check(len(got) == 13, 'not 13 fields', got=sorted(got))
        texts = [x['item_value'] for x in w.adapter.shown()]
        self.check(all(isinstance(x, str) for x in texts), 'a field is no text', got=repr(texts))

    def amount(self, what, text, cents):
        try:
            v = float(text)
        except (TypeError, ValueError):
            self.fail('an amount is shown as something else', field=what, got=text)
        if abs(cents) < 10 ** 15:
            self.check(round(v * 100) == cents, 'a wrong amount is shown', field=what, got=text, want=cents)

    def tab(self):
        """The receipt tab."""
        rng, t, ctx = self.rng, self.tool, self.ctx
        ks, recs = c28.some(ctx, 2)
        r, bad = rng.choice(recs)
        if rng.random() < .7:
            self.adopt(ks)
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            form = rng.choice(['JWS', 'QR', 'OCR', 'URL', 'URL'])
            self.select(form)
        text = {'JWS': r.jws, 'QR': r.code, 'OCR': r.ocr, 'URL': None}[form]
        ok = True
        if form == 'URL':
            text, ok = self.url(r)
        elif rng.random() < .3:
            ok = False
            text = self.damaged(form, text)
        if form != 'URL' and rng.random() < .3:
            p = self.write(rng.choice(['', ' ', '\n']) + text + rng.choice(['', '\n', ' \n']), '.txt')
            t.button(t.rec, '...').press()
            if not self.choose(p):
                return
            self.quiet('a receipt in a file')
            self.no_popup('receipt file')
            self.check(t.rec.receiptInput.text == text.strip(), 'not the text of the file',
                       got=t.rec.receiptInput.text, want=text)
            ctx.count('text file')
        else:
            t.rec.receiptInput.text = text
        self.did('tab %s %s' % (form, ok))
        self.read(form, r if ok else None)

    def damaged(self, form, text):
        from rv.props import c27
        return c27.bad_text(self.rng, {'JWS': 'jws', 'QR': 'qr', 'OCR': 'ocr'}[form], text)

    def select(self, form):
        w = self.tool.rec.buttons[form]
        cb = [x for x in w.walk() if 'on_press' in x.handlers]
        self.check(len(cb) == 1, 'no radio button')
        cb[0].press()
        self.selected(form)

    def selected(self, form):
        st = {k: b.state for k, b in self.tool.rec.buttons.items()}
        self.check(st == {k: 'down' if k == form else 'normal' for k in st}, 'not the chosen input format',
                   got=st, want=form)

    def read(self, form, r):
        t, ctx = self.tool, self.ctx
        t.button(t.rec, tr('Read Receipt')).press()
        t.drain()
        if r is None:
            self.complained('a malformed receipt')
            self.no_popup('a malformed receipt')
            ctx.count('tab receipt refused')
            return
        ctx.count('tab receipt:' + form)
        self.viewed(r, False, '', None)

    def url(self, r):
        rng, ctx = self.rng, self.ctx
        srv = c28.server()
        h = ref.url_hash(r.code)
        k = rng.random()
        srv.answers.clear()
        if k < .5:
            url, path = self.place(srv, h)
            srv.answers[path] = (None, c28.body_of(rng, r.code), r.code)
            return url, True
        ctx.count('bad url')
        if k < .75:
            # somebody else's hash or none
            url, path = self.place(srv, rng.choice([c28.swap(rng, h), 'x', '']))
            srv.answers[path] = (None, c28.body_of(rng, r.code), r.code)
        elif k < .9:
            url, path = self.place(srv, h)
            srv.answers[path] = (rng.choice(['200', '200', '200', '404', '500']), rng.choice([
                b'', b'{}', b'[]', b'null', b'5', b'"code"', b'{"code": null}', b'{"code": 5}', b'{"code": ["x"]}',
                b'{"Code": "x"}', b'<html>', b'\xff\xfe\xfd', b'{"code": ""}', b'{"code": "x"}', b'[{"code": "x"}]',
                json.dumps({'code': r.code[:-30]}).encode(), json.dumps({'code': {'code': r.code}}).encode()]), r.code)
        else:
            url = rng.choice(['', 'x', 'http://', srv.deadbase + '/' + h, '//', 'http://[', 'foo://bar/' + h,
                              'http://127.0.0.1:99999/' + h, 'http://\u2028/' + h])
        return url, False

    def place(self, srv, h):
        path = '/r/%d/%s' % (self.rng.randrange(10 ** 6), 'x' * 20)
        if self.rng.random() < .5:
            return srv.base + path + '#' + h, path
        path = '/r/%s' % (h,)
        if len(h) != 11:
            path = '/r/%s' % ('-' * 5)
        return srv.base + path, path

    def pictures(self):
        rng, t, ctx = self.rng, self.tool, self.ctx
        ks, recs = c28.some(ctx, 2)
        r, bad = rng.choice(recs)
        k = rng.random()
        self.n += 1
        p = os.path.join(self.dir, 'p%d.png' % self.n)
        before = t.rec.receiptInput.text
        form = [f for f, b in t.rec.buttons.items() if b.state == 'down'][0]
        if k < .5:
            syms = [(0, r.code)]
            if rng.random() < .4:
                syms += [(0, recs[0][0].code)] * rng.randrange(2) + [(1, '4006381333931')]
            if rng.random() < .4:
                syms.insert(0, (rng.choice([1, 2]), '4006381333931'))
            gui.picture(p, syms, rng)
            want = r.code
        elif k < .8:
            gui.picture(p, rng.choice([[], [(1, '4006381333931')], [(2, r.code), (1, 'x')]]), rng)
            want = None
        else:
            gui.picture(p, [(0, r.code)], rng)
            with open(p, 'rb') as f:
                b = bytearray(f.read())
            c = rng.randrange(3)
            if c == 0:
                b = b[:rng.randrange(8, len(b))]
            elif c == 1:
                b[rng.randrange(8, len(b))] ^= rng.randrange(1, 256)
            else:
                b = b[:8] + bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
            with open(p, 'wb') as f:
                f.write(bytes(b))
            want = 0
        t.button(t.rec, '...').press()
        if not self.choose(p):
            return
        t.drain()
        self.did('picture %r' % (want is not None and want != 0))
        if want == 0:
            t.errors()
            self.no_popup('damaged picture')
            return ctx.count('damaged picture')
        if want is None:
            self.complained('a picture without a code')
            self.no_popup('picture')
            self.check(t.rec.receiptInput.text == before, 'the input changed without a code')
            self.selected(form)
            return ctx.count('picture without code')
        self.quiet('a picture')
        self.no_popup('picture')
        self.check(t.rec.receiptInput.text == want, 'not the code of the picture', got=t.rec.receiptInput.text)
        self.selected('QR')
        ctx.count('picture')
        self.read('QR', r)

    def decode_script(self):
        """img_decode.py prints the QR codes of pictures."""
        rng = self.rng
        ks, recs = c28.some(self.ctx, 2)
        paths, want = [], []
        for i in range(rng.randrange(1, 4)):
            self.n += 1
            p = os.path.join(self.dir, 'p%d.png' % self.n)
            syms = [(rng.choice([0, 0, 1, 2]), rng.choice([recs[0][0].code, recs[1][0].code, u'\xe4', 'x y']))
                    for _ in range(rng.randrange(4))]
            gui.picture(p, syms, rng)
            paths.append(p)
            want += [x for k, x in syms if k == 0]
        out, argv = io.StringIO(), sys.argv
        try:
            sys.argv = ['img_decode.py'] + paths
            with contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(core.REPO, 'img_decode.py'), run_name='__main__')
        finally:
            sys.argv = argv
        self.check(out.getvalue().split('\n') == want + [''], 'not the codes of the pictures', got=out.getvalue(),
                   want=want)
        self.ctx.count('codes printed', len(want) > 0)

    # -------------------------------------------------------------- key store
    def stored(self):
        """The key store and what is shown of it."""
        app, ctx = self.tool.app, self.ctx
        entries = []
        for kid, (t, x) in self.ks.d.items():
            e = c19.Entry()
            e.rid = e.kid = kid
            e.kind, e.text = t, ''
            e.der = x.der if t == 'cert' else None
            e.spki = spki(x.pub if t == 'cert' else x)
            entries.append(e)
        real = app.keyStore
        ids = sorted(real.getKeyIds())
        self.check(ids == sorted(self.ks.d), 'wrong IDs in the key store', got=ids, want=sorted(self.ks.d))
        for e in entries:
            k, c = real.getKey(e.kid), real.getCert(e.kid)
            self.check(k is not None and c19.spki(k) == e.spki, 'wrong key under an ID', id=e.kid)
            self.check((c is None) == (e.der is None) and (c is None or base64.b64decode(c18.b64cert(c)) == e.der),
                       'wrong certificate under an ID', id=e.kid)
        w = self.tool.ks
        got = sorted(n.text for n in w.certGroup.nodes)
        want = sorted(tr('Serial: ') + e.kid for e in entries if e.der is not None)
        self.check(got == want, 'not the certificates are shown', got=got, want=want)
        got = sorted(n.text for n in w.pubKeyGroup.nodes)
        want = sorted(tr('Key ID: ') + e.kid for e in entries if e.der is None)
        self.check(got == want, 'not the keys are shown', got=got, want=want)
        ctx.count('key store compared')

    def store_change(self):
        rng = self.rng
        k = rng.randrange(7)
        if k == 0:
            self.ks_cert()
        elif k == 1:
            self.ks_key()
        elif k == 2 or k == 3:
            self.ks_delete()
        elif k == 4:
            self.ks_import()
        elif k == 5:
            self.ks_export()
        else:
            self.ks_bad()
        self.stored()

    def ks_delete(self):
        rng, w = self.rng, self.tool.ks
        if not self.ks.d:
            return
        kid = rng.choice(sorted(self.ks.d))
        t = self.ks.d[kid][0]
        g = w.certGroup if t == 'cert' else w.pubKeyGroup
        label = (tr('Serial: ') if t == 'cert' else tr('Key ID: ')) + kid
        b = [n for n in g.nodes if n.text == label]
        self.check(len(b) == 1 and b[0].press(), 'an entry cannot be removed', got=len(b))
        del self.ks.d[kid]
        self.quiet('delete')
        self.did('delete %s' % kid)
        self.ctx.count('ks delete')

    def entry(self, cert):
        while True:
            e = c19.entry(self.rng, self.ctx, set(self.ks.d) if self.rng.random() < .8 else set())
            if (e.kind == 'cert') == cert:
                return e

    def ks_cert(self):
        rng, t = self.rng, self.tool
        e = self.entry(True)
        if self.world and rng.random() < .5:
            cs = [c for g in self.world[2] if g[1] for c in [g[1]] + list(g[2])]
            if cs:
                e.obj = ('cert', rng.choice(cs))
        t.ks.certGroup.press()
        pem = gen.dressed(rng, e.obj[1].pem())
        if not self.choose(self.write(pem, '.pem')):
            return
        self.quiet('add a certificate')
        self.no_popup('add a certificate')
        self.ks.add_cert(e.obj[1])
        self.did('add cert')
        self.ctx.count('ks cert')

    def ks_key(self):
        rng, t = self.rng, self.tool
        e = self.entry(False)
        pub = e.obj[1]
        t.ks.pubKeyGroup.press()
        pem = gen.dressed(rng, gen.spki_pem(pub))
        if not self.choose(self.write(pem, '.pem')):
            return
        t.drain()
        k, c = t.popup()
        self.check(k == 'SingleValueDialog', 'nobody asks for the ID', got=k)
        if rng.random() < .15:
            t.button(c, tr('Cancel')).press()
            t.drain()
            self.no_popup('add a key')
            return self.ctx.count('cancelled')
        c.text_input.text = e.kid
        t.button(c, tr('Ok')).press()
        self.quiet('add a key')
        self.no_popup('add a key')
        self.ks.add_key(e.kid, pub)
        self.did('add key %s' % e.kid)
        self.ctx.count('ks key')

    def import_store(self, cont, entries, must=True):
        rng, t = self.rng, self.tool
        b = b'\xef\xbb\xbf' if rng.random() < .2 else b''
        try:
            b += json.dumps(cont, ensure_ascii=rng.random() < .7, indent=rng.choice([None, 1])).encode('utf-8')
        except (UnicodeEncodeError, ValueError):
            b = json.dumps(cont).encode('utf-8')
        p = self.write(b, '.json')
        t.button(t.ks, tr('Import')).press()
        if not self.choose(p):
            return
        t.drain()
        if must:
            self.quiet('import')
            self.ks = ref.Ks({e.kid: e.obj for e in entries})
            self.ctx.count('ks import')
        else:
            self.complained('import of a defective key store')
            self.ctx.count('ks import refused')
        self.no_popup('import')
        self.did('import %s' % must)
        self.stored()

    def ks_import(self):
        rng, ctx = self.rng, self.ctx
        used = set()
        entries = list({e.rid: e for e in (c19.entry(rng, ctx, used) for _ in range(rng.randrange(5)))}.values())
        cont = {'certificateOrPublicKeyMap': {e.rid: e.json() for e in entries}}
        if rng.random() < .4:
            cont['base64AESKey'] = key64(bytes(32))
        if entries and rng.random() < .5:
            cont, d = c19.defect(ctx, cont, entries)
            self.did('defect ' + d)
            return self.import_store(cont, entries, False)
        self.import_store(cont, entries)

    def ks_export(self):
        rng, t = self.rng, self.tool
        self.n += 1
        if rng.random() < .25:
            p = rng.choice([self.dir, os.path.join(self.dir, 'no', 'such')])
            t.button(t.ks, tr('Export')).press()
            k, c = t.popup()
            self.check(k == 'SaveDialog', 'no file dialog', got=k)
            c.text_input.text = p
            t.button(c, tr('Save')).press()
            self.complained('export to nowhere')
            self.no_popup('export')
            return
        p = os.path.join(self.dir, 'e%d.json' % self.n)
        if rng.random() < .3:
            with open(p, 'w') as f:
                f.write('x' * 9000)
        t.button(t.ks, tr('Export')).press()
        if rng.random() < .5:
            if not self.choose(p, 'Save', 'SaveDialog'):
                return
        else:
            k, c = t.popup()
            c.ids['filechooser'].path = self.dir
            c.text_input.text = os.path.basename(p)
            t.button(c, tr('Save')).press()
        self.quiet('export')
        self.no_popup('export')
        self.did('export')
        with open(p, 'rb') as f:
            j = json.loads(f.read().decode('utf-8'))
        self.check('base64AESKey' not in j or not j['base64AESKey'], 'a key in an exported key store')
        m = j['certificateOrPublicKeyMap']
        self.check(sorted(m) == sorted(self.ks.d), 'not the entries in the exported key store', got=sorted(m),
                   want=sorted(self.ks.d))
        for kid, (ty, x) in self.ks.d.items():
            v = m[kid]
            want = {'id': kid, 'signatureDeviceType': 'CERTIFICATE' if ty == 'cert' else 'PUBLIC_KEY',
                    'signatureCertificateOrPublicKey': x.b64 if ty == 'cert' else base64.b64encode(spki(x)).decode()}
            self.check(v == want, 'wrong entry in the exported key store', got=v, want=want)
        self.ctx.count('ks export')
        if rng.random() < .5:
            t.button(t.ks, tr('Import')).press()
            if self.choose(p):
                self.quiet('import of an export')
                self.no_popup('import')

    def ks_bad(self):
        """Files that are no key, certificate or key store."""
        rng, t = self.rng, self.tool
        k = rng.randrange(4)

        def pem(kind, b):
            return ('-----BEGIN %s-----\n%s\n-----END %s-----\n' % (kind, b, kind)).encode('utf-8', 'replace')
        if k == 0:
            p = rng.choice([self.missing(), self.garbage('.json'), self.write(json.dumps(c19.shaped(rng)), '.json')])
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    d = f.read()
                try:
                    j = json.loads(d.decode('utf-8-sig'))
                    if modes.outcome(lambda: modes.key_store.KeyStore.readStoreFromJson(j))[0] == 'ok':
                        return
                except ValueError:
                    pass
            t.button(t.ks, tr('Import')).press()
            if not self.choose(p):
                return
        elif k == 1:
            p = rng.choice([self.missing(), self.garbage('.pem'), self.write(pem('CERTIFICATE', c19.bad_cert(rng)), '.pem'),
                            self.write(gen.spki_pem(gen.key('p256', 1).pub), '.pem')])
            t.ks.certGroup.press()
            if not self.choose(p):
                return
        else:
            p = rng.choice([self.garbage('.pem'), self.write(pem('PUBLIC KEY', c19.bad_key(rng)), '.pem'),
                            self.write(gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 5).pem(), '.pem')])
            if k == 3:
                p = self.missing()
            t.ks.pubKeyGroup.press()
            if not self.choose(p):
                return
            t.drain()
            kind, c = t.popup()
            if kind == 'SingleValueDialog':
                c.text_input.text = rng.choice(['5', 'U:x', 'zz'])
                t.button(c, tr('Ok')).press()
        self.complained('a bad key, certificate or key store')
        self.no_popup('a bad file')
        self.did('bad %d' % k)
        self.ctx.count('ks file refused')


def shown(groups):
    """Groups without receipts are not."""
    return [g for g in groups if g[0]]


def spki(pub):
    return c19.spki(pub)


def case(ctx):
    rng = ctx.rng
    s = Session(ctx)
    try:
        for _ in range(rng.randrange(5, 12)):
            op = rng.random()
            if op < .22 or (s.dep is None and op < .4):
                s.load_dep()
            elif op < .42:
                s.verify()
            elif op < .52:
                s.set_key()
            elif op < .66:
                s.from_dep()
            elif op < .74:
                s.tab()
            elif op < .79:
                s.pictures()
            elif op < .8:
                s.decode_script()
            elif op < .86:
                s.load_hostile()
            else:
                s.store_change()
            s.tool.drain()
            s.no_lost()
            s.no_popup('any')
            s.expected_state()
            s.stored()
    finally:
        s.tool.close()
    ctx.distinct(s.log)
    ctx.sample(log=s.log)
