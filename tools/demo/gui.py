"""Stand-ins for Kivy and zbar, just enough to import rktool.py and to press its buttons."""
import sys
import types


class W(object):
    text = ''
    disabled = False
    state = 'normal'

    def __init__(self, **kw):
        self.nodes, self.children, self.shown = [], [], []
        self.is_open = False
        for k, v in kw.items():
            setattr(self, k, v)

    def open(self):
        self.is_open = True
        App.popups.append(self)

    def dismiss(self, *a):
        self.is_open = False

    def add_widget(self, w):
        self.children.append(w)

    def bind(self, **kw):
        pass


class ModalView(W):
    pass


class Popup(W):
    pass


class TreeView(W):
    def __init__(self):
        W.__init__(self)
        self.root = W()

    def add_node(self, n, parent=None):
        (parent or self.root).nodes.append(n)
        n.above = parent or self.root
        return n

    def iterate_all_nodes(self, node=None):
        yield node or self.root
        for n in list((node or self.root).nodes):
            for x in self.iterate_all_nodes(n):
                yield x

    def remove_node(self, n):
        if n is not self.root:
            n.above.nodes.remove(n)


class DictAdapter(object):
    def __init__(self, **kw):
        self.data = kw.get('data')


class App(W):
    running = None
    popups = []

    @staticmethod
    def get_running_app():
        return App.running


class Clock(object):
    @staticmethod
    def schedule_once(f, t=0):
        f(0)


class Window(object):
    height = 600
    keyboard_height = 0
    children = []

    @staticmethod
    def bind(**kw):
        pass


class Pool(object):
    """Jobs wait until they are told to run."""
    def __init__(self, *a):
        self.jobs = []

    def apply_async(self, f, args=(), callback=None):
        self.jobs.append(lambda: callback(f(*args)))

    def map_async(self, f, args, callback=None):
        self.jobs.append(lambda: callback([f(x) for x in args]))

    def step(self):
        self.jobs.pop(0)()

    def go(self):
        while self.jobs:
            self.step()

    def terminate(self):
        pass

    def join(self):
        pass


NAMES = {'App': App, 'Clock': Clock, 'Window': Window, 'mainthread': lambda f: f, 'TreeView': TreeView,
         'DictAdapter': DictAdapter, 'ModalView': ModalView, 'Popup': Popup, 'platform': 'linux',
         'ObjectProperty': lambda d=None: d, 'DictProperty': lambda d=None: d, 'require': lambda v: None}


class Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n not in NAMES:
            NAMES[n] = type(n, (W,), {})
        return NAMES[n]


for m in ('', '.adapters', '.adapters.dictadapter', '.app', '.core', '.core.window', '.clock', '.properties', '.uix',
          '.uix.boxlayout', '.uix.button', '.uix.floatlayout', '.uix.gridlayout', '.uix.listview', '.uix.modalview',
          '.uix.popup', '.uix.selectableview', '.uix.treeview', '.utils'):
    sys.modules['kivy' + m] = Module('kivy' + m)
sys.modules['img_decode'] = types.ModuleType('img_decode')

import builtins  # noqa
builtins._ = lambda s: s
import rktool  # noqa


def app(ks=None, nprocs=2):
    rktool.PoolClass = Pool
    App.running = a = rktool.RKToolApp(nprocs)
    if ks:
        a.keyStore = ks
    a.on_start()
    del App.popups[:]
    return a


def depwidget(key=''):
    w = rktool.VerifyDEPWidget()
    w.treeView = TreeView()
    w.aesInput = W(text=key)
    w.verify_button = W(text='Verify')
    w._popup = W()
    return w


def load(w, path):
    import os
    w.loadDEPCb(os.path.dirname(path), [os.path.basename(path)])


def storewidget(a):
    w = rktool.KeyStoreWidget()
    w.treeView = TreeView()
    w.on_treeView(w, w.treeView)
    w._popup = W()
    w.buildKSTree()
    return w


def view(rec, prefix, valid=False, key=None):
    rktool.ViewReceiptWidget.verify_button = W()
    rktool.ViewReceiptWidget.decrypt_button = W()
    rktool.ViewReceiptWidget.aes_input = W()
    w = rktool.ViewReceiptWidget(rec, prefix, valid, key)
    w._popup = W()
    w.firstDisplay(w)
    return w


def buttons(tv):
    return [n for n in tv.iterate_all_nodes() if type(n).__name__ == 'TreeViewReceiptButton']


def keys(tv):
    return [n for n in tv.iterate_all_nodes() if type(n).__name__ == 'TreeViewKeyButton']
