"""Helpers of the demonstrations. The tree under test is the working directory."""
import base64
import copy
import datetime
import json
import os
import pickle
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

from librksv import algorithms, cashreg, depexport, depparser, key_store, receipt  # noqa
from librksv import sigsys, utils, verification_state, verify, verify_receipt  # noqa

KEY = bytes(range(32))
T0 = datetime.datetime(2020, 1, 1)
DAY = datetime.timedelta(1)


class Dev(object):
    def __init__(self, closed=False, name='dev', issuer=None):
        s, p = utils.makeES256Keypair()
        self.priv = utils.loadPrivKey(s) if isinstance(s, (bytes, str)) else s
        self.pub = utils.loadPubKey(p) if isinstance(p, (bytes, str)) else p
        num = utils.makeCertSerial()
        self.cert = utils.makeSignedCert(self.pub, name, 3650, num,
                                         issuer.priv if issuer else self.priv,
                                         *([issuer.cert] if issuer else []))
        self.closed = closed
        self.serial = 'U:ATU123-K1' if closed else key_store.numSerialToKeyId(num)
        self.zda = 'AT0' if closed else 'AT1'
        self.ok = sigsys.SignatureSystemWorking(self.zda, self.serial, self.priv)
        self.broken = sigsys.SignatureSystemBroken(self.zda, self.serial)

    def b64(self):
        return utils.exportCertToPEM(self.cert)


def store(*devs):
    ks = key_store.KeyStore()
    for d in devs:
        if d.closed:
            ks.putKey(d.serial, d.pub, None)
        else:
            ks.putPEMCert(utils.addPEMCertHeaders(d.b64()))
    return ks


class Reg(object):
    def __init__(self, dev, rid='KASSE', size=8, last=None):
        self.dev = dev
        self.reg = cashreg.CashRegister(rid, last, 0, KEY, size)
        self.n = 0
        self.jws = []

    def rec(self, total=0, kind='', failed=False, rid=None, t=None, dev=None, ov=None):
        dev = dev or self.dev
        r = self.reg.receipt('R1', rid or 'r%d' % self.n, t or T0 + self.n * DAY, total, 0, 0, 0, 0,
                             dev.broken if failed else dev.ok, kind == 'tra', kind == 'sto',
                             ov or {})
        self.n += 1
        j = r.toJWSString('R1')
        self.jws.append(j)
        return j

    def resign(self, dev, jws):
        raise NotImplementedError

    def dep(self):
        return dep((self.jws, None, []))


def compact(jws):
    return jws


def dep(*groups):
    return {'Belege-Gruppe': [{
        'Signaturzertifikat': c.b64() if c else '',
        'Zertifizierungsstellen': [x.b64() for x in ch],
        'Belege-kompakt': list(j)} for j, c, ch in groups]}


def outcome(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except utils.RKSVException as e:
        return (type(e).__name__, getattr(e, 'receipt', None))


def run(d, ks, key=KEY, chunk=0, nprocs=1, state=None, idx=None, parser=None, nparts=1,
        backend=verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND, pool=None):
    p = parser or depparser.DictDEPParser(d, nparts)
    return outcome(verify.verifyParsedDEP, p, ks, key, state, idx, pool, nprocs, chunk, backend)


def whole(d, ks, key=KEY, state=None, idx=None):
    return outcome(verify.verifyDEP, d, ks, key, state, idx)


def expect(what, got, want):
    got = got[0] if isinstance(got, tuple) else got
    print('%s: %s (expected %s)' % (what, got, want))
    if got != want:
        sys.exit(1)
