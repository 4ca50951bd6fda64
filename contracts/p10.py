"""P10: timestamps decode to the stored instant."""
import datetime
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts import gens
from dfir_ntfs import Attributes, WSL

US_MAX = 3652059 * 86400 * 10**6 - 1          # last microsecond of year 9999, from 0001-01-01
E1601 = 584388 * 86400 * 10**6                # 1601-01-01
E1582 = 577735 * 86400 * 10**6                # 1582-10-15
E1970 = 719162 * 86400 * 10**6                # 1970-01-01
SLOP = 64                                     # a double holds microseconds of year 9999 to 32

def judge(dt, epoch_us, num, den):
    """Is dt within a microsecond (plus the spacing of doubles) of the instant epoch + num/den microseconds?"""
    top = (US_MAX - epoch_us) * den
    if num > top + SLOP * den: return 'none' if dt is None else 'not representable, but decoded'
    if dt is None: return 'none' if num > top - SLOP * den else 'representable, but not decoded'
    d = dt - datetime.datetime(1, 1, 1)
    us = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    err = (us - epoch_us) * den - num
    tol = den + num // (1 << 52)
    if err > tol or err < -tol: return 'wrong instant'
    return 'instant'
def expect(epoch_us, num, den, got_edge):
    top = (US_MAX - epoch_us) * den
    if num > top + SLOP * den: return 'none'
    if num > top - SLOP * den: return got_edge
    return 'instant'

def real_filetime(ts):
    return judge(Attributes.DecodeFiletime(ts), E1601, ts, 10)
def pre_ft(ts): return ts <= (US_MAX - E1601) * 10 - SLOP * 10 or ts > (US_MAX - E1601) * 10 + SLOP * 10
def spec_filetime(ts): return expect(E1601, ts, 10, None)

def real_guidtime(ts):
    return judge(Attributes.DecodeGUIDTime(ts), E1582, ts, 10)
def pre_gt(ts): return ts <= (US_MAX - E1582) * 10 - SLOP * 10 or ts > (US_MAX - E1582) * 10 + SLOP * 10
def spec_guidtime(ts): return expect(E1582, ts, 10, None)

def real_strict(ts, guid):
    try:
        if guid: d = Attributes.DecodeGUIDTime(ts, False)
        else: d = Attributes.DecodeFiletime(ts, DoNotRaise = False)
    except OverflowError:
        return 'raised'
    return judge(d, E1582 if guid else E1601, ts, 10)
def pre_strict(ts, guid): return pre_gt(ts) if guid else pre_ft(ts)
def spec_strict(ts, guid):
    r = spec_guidtime(ts) if guid else spec_filetime(ts)
    return 'raised' if r == 'none' else r

def real_unixtime(s, ns):
    return judge(WSL.DecodeUnixtime(s, ns), E1970, s * 10**9 + ns, 1000)
def spec_unixtime(s, ns): return 'instant'
def pre_ut(s, ns): return s * 10**6 + 4294968 + E1970 <= US_MAX

# timestamps are ordered as the stored values are, up to the resolution
def real_order(a, b):
    x = Attributes.DecodeFiletime(a); y = Attributes.DecodeFiletime(b)
    if x is None or y is None: return True
    return x < y
def pre_order(a, b): return b - a >= 1280
def spec_order(a, b): return True

def gen_ts(r): return {'ts': r.choice([0, 1, 9, 10, r.randrange(1 << 64), r.randrange(1 << 57), 127374881427825632 + r.randrange(10**6), (1 << 64) - 1, 2650467744000000000 + r.randrange(-2000, 2000), 2656216224000000000 + r.randrange(-2000, 2000)])}
def gen_strict(r): return dict(gen_ts(r), guid=r.random() < 0.5)
def gen_ut(r): return {'s': r.choice([0, 1, r.randrange(1 << 31), r.randrange(1 << 36), 253402300799]), 'ns': r.choice([0, 999, 1000, 999999999, r.randrange(10**9), r.randrange(1 << 32)])}
def gen_order(r):
    a = gen_ts(r)['ts']; return {'a': a, 'b': a + r.choice([1280, 10**7, r.randrange(1280, 1 << 60)])}

U64 = Int(0, (1 << 64) - 1)
CONTRACTS = [
    Contract('filetime', ['Attributes.DecodeFiletime'], {'ts': U64}, real_filetime, spec_filetime, pre=pre_ft, gen=gen_ts),
    Contract('guidtime', ['Attributes.DecodeGUIDTime'], {'ts': U64}, real_guidtime, spec_guidtime, pre=pre_gt, gen=gen_ts),
    Contract('strict_mode', ['Attributes.DecodeFiletime', 'Attributes.DecodeGUIDTime'], {'ts': U64, 'guid': Bool()}, real_strict, spec_strict, pre=pre_strict, gen=gen_strict),
    Contract('unixtime', ['WSL.DecodeUnixtime'], {'s': U64, 'ns': Int(0, (1 << 32) - 1)}, real_unixtime, spec_unixtime, pre=pre_ut, gen=gen_ut),
    Contract('filetime_order', ['Attributes.DecodeFiletime'], {'a': U64, 'b': U64}, real_order, spec_order, pre=pre_order, gen=gen_order),
]
