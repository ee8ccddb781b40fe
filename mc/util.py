"""helpers shared by the harnesses"""
import os, sys, hashlib, shutil, glob
import numpy as np
import pandas as pd
from .core import Violation, Skip, canon, diff, REPO

EX = os.path.join(REPO, 'weio', 'tests', 'example_files')
W = 'weio.'


def put(path, data):
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
    return path


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def tree(d):
    """ {relative path: bytes} of every file below d """
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = get(p)
    return out


def raises(fn, *a, **k):
    """ the exception raised by fn, or None """
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def mro_names(e):
    return [c.__name__ for c in type(e).__mro__]


def outcome(fn, *a, **k):
    """ ('ok', value) or ('err', exception) """
    try:
        return ('ok', fn(*a, **k))
    except Violation:
        raise
    except Exception as e:
        return ('err', e)


def dfs_of(f):
    """ dataframes of a file object, normalised to a dict {name: DataFrame} """
    df = f.toDataFrame()
    if df is None:
        return {}
    if isinstance(df, dict):
        return df
    return {'': df}


def cp(x):
    """ deep copy of plain content (dict/list/array/frame) """
    import copy
    return copy.deepcopy(x)
