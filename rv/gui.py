"""
Stand-ins for the toolkit of the graphical tool (Kivy is not installed here): enough of its widgets, its
description language and its event loop to run rktool.py and rktool.kv as they are. Nothing is drawn; what the
user would see (texts, buttons, trees, popups) can be read from the widgets, and what he does is an event.
"""
import importlib.abc
import importlib.machinery
import os
import pickle
import re
import sys
import threading
import types

from rv import core


# ------------------------------------------------------------------ properties

class Property(object):
    def __init__(self, default=None, **k):
        self.default = default

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, inst, owner=None):
        if inst is None:
            return self
        return inst.__dict__.get(self.name, self.default)

    def __set__(self, inst, value):
        old = inst.__dict__.get(self.name, self.default)
        inst.__dict__[self.name] = value
        if old is not value and not (old == value):
            f = getattr(inst, 'on_' + self.name, None)
            if f:
                f(inst, value)


class DictProperty(Property):
    pass


# ------------------------------------------------------------- kv descriptions

class Rule(object):
    def __init__(self, name):
        self.name, self.props, self.kids = name, [], []


NAME = re.compile(r'^[A-Za-z_][A-Za-z_0-9]*$')


def parse_kv(text):
    """The rules <Name>: of a description; every rule is a tree of widgets with properties."""
    rules, stack = {}, []
    for line in text.split('\n'):
        body = line.strip()
        if not body or body.startswith('#'):
            continue
        depth = len(line) - len(line.lstrip('\t'))
        while stack and stack[-1][0] >= depth:
            stack.pop()
        if depth == 0:
            m = re.match(r'^<([A-Za-z]+)(?:@([A-Za-z]+))?>:$', body)
            if not m:
                raise ValueError('kv: %r' % line)
            r = Rule(m.group(1))
            r.base = m.group(2)
            rules[r.name] = r
            stack = [(0, r)]
            continue
        name, x, expr = body.partition(':')
        top = stack[-1][1]
        if not expr.strip() and name[:1].isupper():
            k = Rule(name)
            top.kids.append(k)
            stack.append((depth, k))
        else:
            top.props.append((name.strip(), expr.strip()))
    return rules


class Look(object):
    """Evaluates an expression of a description whenever it is looked at (Kivy's bindings)."""

    def __init__(self, expr, env, me):
        self.code, self.env, self.me = compile(expr, '<kv>', 'eval'), env, me

    def __call__(self):
        return eval(self.code, self.env, {'self': self.me})


class Toolkit(object):
    """One running tool."""
    rules = {}
    classes = {}
    app = None
    popups = []
    later = []
    lost = []       # exceptions of jobs and callbacks of which nobody is told
    foreign = []    # changes of widgets outside of the main thread


T = Toolkit()
VISIBLE = ('text', 'title', 'state', 'disabled', 'path')
EVENTS = ('on_press', 'on_release', 'on_selection', 'change')


class Widget(object):
    """Base of all widgets."""

    def __init__(self, **kw):
        self.children = []
        self.parent = None
        self.handlers = {}
        self.looks = {}
        self.ids = {}
        for c in reversed(type(self).__mro__):
            r = T.rules.get(c.__name__)
            if r is not None:
                self._apply(r, {})
        for k, v in kw.items():
            if k.startswith('on_'):
                self.bind(**{k: v})
            else:
                setattr(self, k, v)

    def _apply(self, rule, env):
        env = dict(env, root=self, app=T.app, os=os, _=_builtin('_'))
        todo = []
        self._fill(rule, env, todo)
        self.ids.update({k: v for k, v in env.items() if isinstance(v, Widget)})
        for w, name, expr in todo:
            if name == 'id':
                continue
            if name in EVENTS:
                c = compile(expr, '<kv>', 'exec')
                if name == 'change':
                    w.change = Look(expr, env, w)()
                else:
                    w.bind(**{name: lambda inst, c=c, w=w: eval(c, env, {'self': w})})
            elif w is self and isinstance(getattr(type(w), name, None), Property):
                setattr(w, name, Look(expr, env, w)())
            elif name in VISIBLE or name == 'adapter':
                w.looks[name] = Look(expr, env, w)

    def _fill(self, rule, env, todo):
        for name, expr in rule.props:
            if name == 'id':
                env[expr] = self
            todo.append((self, name, expr))
        for k in rule.kids:
            w = make(k.name)
            self.add_widget(w)
            w._fill(k, env, todo)

    def __getattr__(self, name):
        d = self.__dict__
        if name in d.get('looks', ()):
            v = d['looks'][name]()
            if name in ('text', 'title') and not isinstance(v, str):
                raise ValueError('%s.%s accept only str' % (type(self).__name__, name))
            return v
        if name in ('text', 'title'):
            return ''
        if name == 'disabled':
            return False
        if name == 'state':
            return 'normal'
        raise AttributeError('%s has no %s' % (type(self).__name__, name))

    def __setattr__(self, name, value):
        if name in VISIBLE:
            mine('%s of %s' % (name, type(self).__name__))
        if name in ('text', 'title') and not isinstance(value, str):
            raise ValueError('%s.%s accept only str' % (type(self).__name__, name))
        object.__setattr__(self, name, value)

    def add_widget(self, w):
        mine('adding a widget')
        w.parent = self
        self.children.append(w)

    def remove_widget(self, w):
        mine('removing a widget')
        if w in self.children:
            self.children.remove(w)
            w.parent = None

    def clear_widgets(self, children=None):
        for w in list(self.children if children is None else children):
            self.remove_widget(w)

    def dispatch(self, name, *a):
        self.fire(name, *a)

    def setter(self, name):
        return lambda inst, value: setattr(self, name, value)

    def bind(self, **k):
        for n, f in k.items():
            self.handlers.setdefault(n, []).append(f)

    def unbind(self, **k):
        for n, f in k.items():
            if f in self.handlers.get(n, []):
                self.handlers[n].remove(f)

    def fire(self, name, *a):
        for f in list(self.handlers.get(name, [])):
            f(self, *a)

    def press(self):
        """The user presses it."""
        if self.disabled:
            return False
        self.fire('on_press')
        self.fire('on_release')
        return True

    def walk(self):
        yield self
        for c in list(self.children):
            for x in c.walk():
                yield x


def _builtin(name):
    import builtins
    return lambda m: getattr(builtins, name)(m)


def make(name):
    c = T.classes.get(name)
    if c is None:
        base = getattr(T.rules.get(name), 'base', None)
        c = T.classes[name] = type(str(name), (T.classes.get(base, Widget) if base else Widget,), {})
    return c()


def widget(name, base=Widget, **d):
    c = T.classes[name] = type(name, (base,), d)
    return c


class TreeViewNode(object):
    parent_node = None

    @property
    def nodes(self):
        return self.__dict__.setdefault('_nodes', [])


class TreeView(Widget):
    def __init__(self, **kw):
        self.root = Widget.__new__(TreeViewLabel)
        Widget.__init__(self.root)
        super(TreeView, self).__init__(**kw)

    def add_node(self, node, parent=None):
        if not isinstance(node, TreeViewNode):
            raise Exception('The node must be a subclass of TreeViewNode')
        if parent is None:
            parent = self.root
        parent.nodes.append(node)
        node.parent_node = parent
        return node

    def remove_node(self, node):
        if not isinstance(node, TreeViewNode):
            raise Exception('The node must be a subclass of TreeViewNode')
        p = node.parent_node
        if p is not None:
            if node in p.nodes:
                p.nodes.remove(node)
            node.parent_node = None

    def iterate_all_nodes(self, node=None):
        if not node:
            node = self.root
        yield node
        for c in node.nodes:
            for x in self.iterate_all_nodes(c):
                yield x


class TreeViewLabel(Widget, TreeViewNode):
    pass


class ModalView(Widget):
    def open(self, *a):
        mine('opening a dialog')
        if self not in T.popups:
            T.popups.append(self)
            self.fire('on_open')

    def dismiss(self, *a):
        if self in T.popups:
            T.popups.remove(self)
            self.fire('on_dismiss')


class Popup(ModalView):
    content = None


class DictAdapter(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def shown(self):
        return [self.args_converter(i, self.data[k]) for i, k in enumerate(self.sorted_keys) if k in self.data]


class FileChooser(Widget):
    selection = ()


class App(object):
    def __init__(self, **k):
        T.app = self
        self.stopped = False

    @staticmethod
    def get_running_app():
        return T.app

    def stop(self, *a):
        self.stopped = True


class Clock(object):
    @staticmethod
    def schedule_once(f, t=0):
        T.later.append(lambda: f(t))

    @staticmethod
    def create_trigger(f, t=0):
        return lambda *a: T.later.append(lambda: f(t))


def mainthread(f):
    def later(*a, **k):
        T.later.append(lambda: f(*a, **k))
    return later


class WindowType(object):
    height, keyboard_height = 600, 0

    @property
    def children(self):
        return T.popups

    def bind(self, **k):
        pass


# ------------------------------------------------------------------- processes

def elsewhere(f):
    """Callbacks of a pool run in a thread of their own."""
    def run():
        try:
            f()
        except Exception as e:
            T.lost.append(e)
    t = threading.Thread(target=run)
    t.start()
    t.join()


def mine(what):
    """Only the main thread may touch the widgets."""
    if threading.current_thread() is not threading.main_thread():
        T.foreign.append(what)


class Star(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, a):
        return self.f(*a)


class Result(object):
    value = error = None

    def ready(self):
        return self.value is not None or self.error is not None

    def successful(self):
        return self.error is None

    def wait(self, timeout=None):
        pass

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value


class Pool(object):
    """A process pool whose jobs run when the monitor wants them to; pickles like a real one."""
    late = False

    def __init__(self, n=None, init=None, initargs=()):
        self.jobs = []
        self.closed = False

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        assert not self.closed
        job = self.packed(f, tuple(args), dict(kwds))
        return self.queue(job, False, callback, error_callback)

    def queue(self, job, many, callback, error_callback):
        r = Result()
        self.jobs.append((job, many, callback, error_callback, r))
        return r

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        assert not self.closed
        job = self.packed(f, list(it), None)
        return self.queue(job, True, callback, error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self.map_async(Star(f), it, chunksize, callback, error_callback)

    def close(self):
        pass

    def packed(self, *job):
        # A real pool does it in another thread, at once or some time later.
        return job if self.late else pickle.dumps(job)

    def run_one(self, i=0):
        job, many, cb, ecb, r = self.jobs.pop(i)
        try:
            f, args, kwds = pickle.loads(job if isinstance(job, bytes) else pickle.dumps(job))
            # results travel one by one
            res = [pickle.loads(pickle.dumps(f(a))) for a in args] if many else \
                pickle.loads(pickle.dumps(f(*args, **kwds)))
            r.value = res
        except Exception as e:
            r.error = e
            if ecb:
                x = pickle.loads(pickle.dumps(e))
                elsewhere(lambda: ecb(x))
            else:
                T.lost.append(e)
            return
        if cb:
            elsewhere(lambda: cb(res))

    def terminate(self):
        self.closed = True
        self.jobs = []

    def join(self):
        pass

    def idle(self):
        return not self.jobs

    def step(self):
        self.run_one()


class RealPool(object):
    """multiprocessing.Pool, with a look at what is still under way."""

    def __init__(self, n=None, init=None, initargs=()):
        import multiprocessing
        self.pool = multiprocessing.Pool(min(n or 2, 3), init, initargs)
        self.results = []

    def _keep(self, r):
        self.results.append(r)
        return r

    def apply_async(self, *a, **k):
        return self._keep(self.pool.apply_async(*a, **k))

    def map_async(self, *a, **k):
        return self._keep(self.pool.map_async(*a, **k))

    def starmap_async(self, *a, **k):
        return self._keep(self.pool.starmap_async(*a, **k))

    def close(self):
        self.pool.close()

    def idle(self):
        return not self.results

    def step(self):
        r = self.results.pop(0)
        r.wait(60)
        if not r.ready():
            raise core.Harness('a job of the pool does not end')
        # callbacks run before the result is ready
        if not r.successful():
            try:
                r.get()
            except Exception as e:
                T.lost.append(e)

    def terminate(self):
        self.pool.terminate()
        self.results = []

    def join(self):
        self.pool.join()


# ----------------------------------------------------------------------- files

class ZImage(object):
    """zbar stand-in: the pixels of a picture carry its symbols."""

    def __init__(self, width, height, kind, raw):
        assert kind == 'Y800' and len(raw) == width * height
        self.raw = raw
        self.symbols = []

    def __iter__(self):
        return iter(self.symbols)


class Symbol(object):
    def __init__(self, kind, data):
        self.type, self.data = kind, data


class ZScanner(object):
    def scan(self, img):
        raw = img.raw
        if raw[:4] != b'SYMS':
            return 0
        n, at = raw[4], 5
        for _ in range(n):
            if at + 3 > len(raw):
                break
            k = 'QRCODE' if raw[at] == 0 else 'EAN13' if raw[at] == 1 else 'I25'
            ln = raw[at + 1] * 256 + raw[at + 2]
            img.symbols.append(Symbol(k, raw[at + 3:at + 3 + ln].decode('utf-8', 'replace')))
            at += 3 + ln
        return n


def picture(path, symbols, rng):
    """Writes a picture with symbols (kind, text)."""
    from PIL import Image
    raw = b'SYMS' + bytes([len(symbols)])
    for k, t in symbols:
        b = t.encode('utf-8')
        raw += bytes([k, len(b) // 256, len(b) % 256]) + b
    w = rng.randrange(20, 60)
    raw += b'\0' * (-len(raw) % w)
    im = Image.frombytes('L', (w, len(raw) // w), raw)
    if rng.random() < .5:
        im = im.convert('RGB')
    im.save(path, 'PNG')


# --------------------------------------------------------------------- loading

def stubs():
    def mod(name, **d):
        m = types.ModuleType(name)
        m.__dict__.update(d)

        def more(attr):
            if attr[:1].isupper():
                m.__dict__[attr] = T.classes.get(attr) or widget(attr)
                return m.__dict__[attr]
            raise AttributeError(attr)
        m.__getattr__ = more
        sys.modules[name] = m
        if '.' in name:
            up, x, last = name.rpartition('.')
            setattr(sys.modules[up], last, m)
        return m

    class Others(importlib.abc.MetaPathFinder, importlib.abc.Loader):
        """Any other part of the toolkit."""
        def find_spec(self, name, path=None, target=None):
            if name.startswith('kivy.'):
                return importlib.machinery.ModuleSpec(name, self)

        def create_module(self, spec):
            return mod(spec.name, __path__=[])

        def exec_module(self, module):
            pass
    sys.meta_path.append(Others())
    for n in ('kivy', 'kivy.adapters', 'kivy.uix', 'kivy.core'):
        mod(n, require=lambda v: None, __path__=[])
    mod('kivy.adapters.dictadapter', DictAdapter=DictAdapter)
    mod('kivy.app', App=App)
    mod('kivy.core.window', Window=WindowType())
    mod('kivy.clock', mainthread=mainthread, Clock=Clock)
    mod('kivy.properties', ObjectProperty=Property, DictProperty=DictProperty, StringProperty=Property,
        NumericProperty=Property, BooleanProperty=Property, ListProperty=Property)
    for n, c in (('boxlayout', 'BoxLayout'), ('button', 'Button'), ('floatlayout', 'FloatLayout'),
                 ('gridlayout', 'GridLayout'), ('label', 'Label'), ('textinput', 'TextInput')):
        mod('kivy.uix.' + n, **{c: widget(c)})
    T.classes['FileChooserListView'] = FileChooser
    T.classes['TreeView'] = TreeView
    T.classes['TreeViewLabel'] = TreeViewLabel
    mod('kivy.uix.listview', CompositeListItem=widget('CompositeListItem'),
        ListItemButton=widget('ListItemButton'), ListItemLabel=widget('ListItemLabel'))
    mod('kivy.uix.modalview', ModalView=ModalView)
    mod('kivy.uix.popup', Popup=Popup)
    mod('kivy.uix.selectableview', SelectableView=type('SelectableView', (object,), {}))
    mod('kivy.uix.treeview', TreeView=TreeView, TreeViewNode=TreeViewNode, TreeViewLabel=TreeViewLabel)
    mod('kivy.uix.screenmanager', NoTransition=widget('NoTransition'), ScreenManager=widget('ScreenManager'),
        Screen=widget('Screen'))
    mod('kivy.uix.image', Image=widget('Image'))
    mod('kivy.utils', platform='linux')
    mod('zbar', Image=ZImage, ImageScanner=ZScanner)


def load():
    """The module rktool of the tree under test, its description included."""
    stubs()
    import rktool
    for n, c in vars(rktool).items():
        if isinstance(c, type) and issubclass(c, Widget):
            T.classes[n] = c
    with open(os.path.join(core.REPO, 'rktool.kv'), encoding='utf-8') as f:
        T.rules = parse_kv(f.read())
    return rktool


class Tool(object):
    """A started tool."""

    def __init__(self, rktool, nprocs, pool=Pool, late=False):
        T.popups[:] = []
        T.later[:] = []
        T.lost = []
        T.foreign = []
        self.mod = rktool
        rktool.PoolClass = pool
        self.app = rktool.RKToolApp(nprocs)
        # a class attribute, a new process would have a new one
        rktool.RKToolApp.keyStore = rktool.key_store.KeyStore()
        self.top = self.app.build()
        self.app.on_start()
        self.drain()
        self.dep = self.find('VerifyDEPWidget')
        self.rec = self.find('VerifyReceiptWidget')
        self.ks = self.find('KeyStoreWidget')

    def find(self, name):
        for w in self.top.walk():
            if type(w).__name__ == name:
                return w
        raise core.Harness('no widget ' + name)

    def drain(self):
        while T.later:
            T.later.pop(0)()

    def step(self):
        """One step of the background work and what it entails."""
        if not self.app.pool.idle():
            self.app.pool.step()
        self.drain()

    def settle(self):
        self.drain()
        while not self.app.pool.idle():
            self.step()

    def close(self):
        self.app.on_stop()

    # the user
    def button(self, w, text):
        for x in w.walk():
            if x.text == text and 'on_press' in x.handlers or x.text == text and 'on_release' in x.handlers:
                return x
        raise core.Harness('no button %r' % text)

    def popup(self):
        """The topmost one: (kind, the widget in it)."""
        if not T.popups:
            return None, None
        p = T.popups[-1]
        c = p.content if isinstance(p, Popup) else p.children[0]
        return type(c).__name__, c

    def errors(self):
        """What is said in error messages; closes them."""
        out = []
        while T.popups:
            k, c = self.popup()
            if k != 'ErrorDialog':
                break
            n = len(T.popups)
            out.append((c.exception, [x.text for x in c.walk() if x.text][0]))
            self.button(c, 'Ok').press()
            if len(T.popups) == n:
                raise core.Harness('an error message can not be closed')
        return out
