"""
The languages of the messages: the translations the repository provides and an artificial one, without
compiling them to files. Imported before the code under test; the language can be changed at any time.
"""
import ast
import gettext
import os
import re
import struct

from . import core

DOMAIN = 'rktool'
_real = gettext.translation
current = ['en']


def parse_po(text):
    """{original: translation} without fuzzy and empty ones."""
    out, cur, ent, fuzzy, nfuzzy = {}, None, {}, False, False

    def flush():
        if ent.get('msgid') and ent.get('msgstr') and not fuzzy:
            out[ent['msgid']] = ent['msgstr']
    for l in text.splitlines() + ['msgid ""']:
        l = l.strip()
        if l.startswith('#,') and 'fuzzy' in l:
            nfuzzy = True
        elif l.startswith('#'):
            continue
        elif l.startswith('msgid '):
            flush()
            ent, cur = {'msgid': ast.literal_eval(l[6:])}, 'msgid'
            fuzzy, nfuzzy = nfuzzy, False
        elif l.startswith('msgstr '):
            ent['msgstr'], cur = ast.literal_eval(l[7:]), 'msgstr'
        elif l.startswith('"'):
            ent[cur] = ent.get(cur, '') + ast.literal_eval(l)
    return out


def po_files():
    base = os.path.join(core.REPO, 'lang')
    out = {}
    for l in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        p = os.path.join(base, l, 'LC_MESSAGES', DOMAIN + '.po')
        if os.path.isfile(p):
            out[l] = p
    return out


def load():
    cat = {}
    for l, p in po_files().items():
        try:
            with open(p, encoding='utf-8') as f:
                cat[l] = parse_po(f.read())
        except (ValueError, SyntaxError, KeyError, TypeError):
            cat[l] = {}
    return cat


CATALOGS = load()
LANGS = ['en'] + sorted(CATALOGS) + ['xx']


def translate(lang, msg):
    if lang == 'en' or not msg:
        return msg
    if lang == 'xx':
        # another order of words and sentences, no letter left
        return u'\u00ab' + ''.join(t if i % 2 else t.translate(XX) for i, t in
                                enumerate(re.split(r'(\{[^{}]*\}|%\w)', msg))) + u'\u00bb'
    return CATALOGS[lang].get(msg, msg)


XX = {ord(c): 0x3b1 + i % 17 for i, c in enumerate('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')}


class Switch(gettext.NullTranslations):
    def gettext(self, message):
        return translate(current[0], message)

    ugettext = gettext


def translation(domain, *a, **k):
    if domain == DOMAIN:
        return Switch()
    return _real(domain, *a, **k)


gettext.translation = translation


def use(lang):
    current[0] = lang if lang in LANGS else 'en'


def write_mo(cat, path):
    """The binary form, as made by msgfmt."""
    cat = dict(cat)
    cat[''] = 'Content-Type: text/plain; charset=UTF-8\n'
    ks = sorted(k.encode('utf-8') for k in cat)
    vs = [cat[k.decode('utf-8')].encode('utf-8') for k in ks]
    n = len(ks)
    ids = b''.join(k + b'\0' for k in ks)
    at = 28 + 16 * n
    t1, t2 = b'', b''
    for k in ks:
        t1 += struct.pack('<II', len(k), at)
        at += len(k) + 1
    for v in vs:
        t2 += struct.pack('<II', len(v), at)
        at += len(v) + 1
    os.makedirs(os.path.dirname(path))
    with open(path, 'wb') as f:
        f.write(struct.pack('<7I', 0x950412de, 0, n, 28, 28 + 8 * n, 0, 28 + 16 * n) + t1 + t2 + ids +
                b''.join(v + b'\0' for v in vs))


# ------------------------------------------------- is one text the translation of the other?

FIELD = re.compile(r'\{([^{}:]*)(?::[^{}]*)?\}|%[sdr]')


def pattern(text):
    """(literal pieces, numbers of the arguments between them)"""
    lits, args, pos = [], [], 0
    for m in FIELD.finditer(text):
        lits.append(text[pos:m.start()].replace('{{', '{').replace('}}', '}'))
        args.append(str(m.group(1) if m.group(1) else len(args)))
        pos = m.end()
    lits.append(text[pos:].replace('{{', '{').replace('}}', '}'))
    return lits, args


def fits(lits, args, text, limit=50):
    """All (at most limit) ways to read text as the pattern, as dictionaries."""
    out = []

    def go(i, pos, vals):
        if len(out) >= limit:
            return
        if i == len(lits):
            if pos == len(text):
                out.append(dict(zip(args, vals)))
            return
        l = lits[i]
        if i == len(lits) - 1:
            if text.endswith(l) and len(text) - len(l) >= pos:
                go(i + 1, len(text), vals + [text[pos:len(text) - len(l)]])
            return
        at = text.find(l, pos)
        while at >= 0 and len(out) < limit:
            go(i + 1, at + len(l), vals + [text[pos:at]])
            if not l:
                at = at + 1 if at < len(text) else -1
            else:
                at = text.find(l, at + 1)
    if len(lits) == 1:
        return [{}] if text == lits[0] else []
    if text.startswith(lits[0]):
        go(1, len(lits[0]), [])
    return out


_patterns = {}


def patterns(lang):
    if lang not in _patterns:
        _patterns[lang] = [(pattern(k), pattern(translate(lang, k)), len(FIELD.sub('', k)))
                           for k in CATALOGS[next(iter(CATALOGS))]]
    return _patterns[lang]


def corresponds(lang, en, other, depth=0):
    """Is other the translation of en, with the same values in it?"""
    specific = False
    if ' -- ' in en and depth < 4:
        # texts that are put together
        a, b = en.split(' -- '), other.split(' -- ')
        for i in range(1, len(a)):
            for j in range(1, len(b)):
                if corresponds(lang, ' -- '.join(a[:i]), ' -- '.join(b[:j]), depth + 1) and \
                        same(lang, ' -- '.join(a[i:]), ' -- '.join(b[j:]), depth):
                    return True
    for p, q, fixed in patterns(lang):
        ms = fits(p[0], p[1], en)
        if not ms:
            continue
        specific = specific or fixed > 3
        for n in fits(q[0], q[1], other):
            for m in ms:
                if set(m) == set(n) and all(same(lang, m[i], n[i], depth) for i in m):
                    return True
    return en == other and not specific


def same(lang, x, y, depth):
    return x == y or depth < 4 and corresponds(lang, x.strip(), y.strip(), depth + 1)
