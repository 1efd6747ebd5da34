"""A small stand-in for pandas: what src/python/modeling/create-dataset.py and its like need, in plain lists.

Whatever is not modelled raises Unsupported (a BaseException: nothing a program catches by accident).
NAMES selects how groupby names groups of a list of one key: 2 (pandas >= 2) as a tuple, 1 as the bare value.
"""
import builtins, math

__version__ = '2.0.0'
NAMES = 2
NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL', 'NaN', 'None', 'n/a', 'nan', 'null'}
nan = float('nan')


class Unsupported(BaseException):
    pass


def _no(what):
    raise Unsupported(what)


class _Errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass

    def __getattr__(self, n):
        _no('errors.' + n)


errors = _Errors()


def __getattr__(n):
    if n.startswith('_'):
        raise AttributeError(n)
    _no('pandas.' + n)


def isna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isna()
    return x is None or isinstance(x, float) and x != x


def notna(x):
    return ~isna(x) if isinstance(x, (Series, DataFrame)) else not isna(x)


isnull, notnull = isna, notna


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _settle(v):
    """one type per column: integers beside floats or missing values are floats"""
    if all(_num(x) for x in v) and any(isinstance(x, float) for x in v):
        return [float(x) for x in v]
    return v


def _plain(x):
    return hasattr(x, '__iter__') and not isinstance(x, (str, tuple))


class Index(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Index(list.__getitem__(self, i))
        if isinstance(i, int):
            return list.__getitem__(self, i)
        if _plain(i):
            i = list(i)
            if all(isinstance(b, bool) for b in i):
                return Index(x for x, b in zip(self, i) if b)
            return Index(list.__getitem__(self, j) for j in i)
        _no('Index[%r]' % (i,))

    @property
    def size(self):
        return len(self)

    @property
    def values(self):
        return Values(self)

    def get_loc(self, x):
        return self.index(x)

    def difference(self, o, sort=None):
        return Index(sorted(x for x in self if x not in list(o)))

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        _no('Index.' + n)


class Values(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def size(self):
        return len(self)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        _no('ndarray.' + n)


class _Loc:
    def __init__(self, o, pos):
        self.o, self.pos = o, pos

    def __getitem__(self, k):
        return self.o._loc(k, self.pos)

    def __setitem__(self, k, v):
        _no('loc assignment')


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index, data = list(data.keys()), list(data.values())
        v = list(data if data is not None else [])
        self._v = _settle(v)
        self.index = index if isinstance(index, Index) else Index(range(len(v)) if index is None else index)
        self.name = name

    def _new(self, v):
        return Series(v, self.index, self.name)

    @property
    def values(self):
        return Values(self._v)

    array = values

    def to_numpy(self):
        return Values(self._v)

    def tolist(self):
        return list(self._v)

    to_list = tolist

    def __len__(self):
        return len(self._v)

    @property
    def size(self):
        return len(self._v)

    @property
    def empty(self):
        return not self._v

    def __iter__(self):
        return iter(self._v)

    def items(self):
        return iter(list(zip(self.index, self._v)))

    def keys(self):
        return self.index

    def to_dict(self):
        return dict(zip(self.index, self._v))

    def get(self, k, d=None):
        return self[k] if k in self.index else d

    def __contains__(self, k):
        return k in list(self.index)

    def _loc(self, k, pos):
        if isinstance(k, Series):
            k = list(k)
        if isinstance(k, slice):
            if not pos:
                _no('Series.loc slice')
            return self._pick(range(len(self))[k])
        if isinstance(k, (list, Values, Index)):
            k = list(k)
            if all(isinstance(b, bool) for b in k) and len(k) == len(self):
                i = [j for j, b in enumerate(k) if b]
            else:
                i = k if pos else [self._at(x) for x in k]
            return self._pick(i)
        if pos:
            return self._v[k]
        return self._v[self._at(k)]

    def _pick(self, i):
        x = Index(self.index[j] for j in i)
        if hasattr(self.index, '_names'):
            x.__dict__['_names'] = self.index._names
        return Series([self._v[j] for j in i], x, self.name)

    def _at(self, k):
        p = [i for i, x in enumerate(self.index) if type(x) is type(k) and x == k or _num(x) and _num(k) and x == k]
        if not p:
            raise KeyError(k)
        if len(p) > 1:
            _no('repeated label')
        return p[0]

    def __getitem__(self, k):
        if isinstance(k, int) and not all(isinstance(x, int) for x in self.index):
            return self._v[k]
        return self._loc(k, isinstance(k, slice))

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n != 'index' and 'index' in self.__dict__ and n in self.__dict__['index']:
            return self[n]
        _no('Series.' + n)

    @property
    def loc(self):
        return _Loc(self, False)

    @property
    def iloc(self):
        return _Loc(self, True)

    at, iat = loc, iloc

    def _bin(self, o, f):
        o = list(o) if isinstance(o, (Series, list, Values, Index)) else [o] * len(self)
        if len(o) != len(self):
            _no('operation on different lengths')
        return self._new([f(a, b) for a, b in zip(self._v, o)])

    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __and__(self, o): return self._bin(o, lambda a, b: a and b)
    def __or__(self, o): return self._bin(o, lambda a, b: a or b)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __invert__(self): return self._new([not a for a in self._v])
    def __bool__(self): raise ValueError('The truth value of a Series is ambiguous.')
    __hash__ = None
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def isna(self): return self._new([isna(x) for x in self._v])
    def notna(self): return self._new([not isna(x) for x in self._v])
    isnull, notnull = isna, notna
    def any(self): return builtins.any(self._v)
    def all(self): return builtins.all(self._v)

    def isin(self, o):
        o = list(o)
        return self._new([x in o for x in self._v])

    def map(self, f):
        if not callable(f):
            f = f.__getitem__
        return self._new([f(x) for x in self._v])

    apply = map

    def astype(self, t):
        f = {'int': int, 'int64': int, 'float': float, 'float64': float, 'str': str, 'string': str, 'object': lambda x: x}.get(t, t)
        if f not in (int, float, str) and t != 'object':
            _no('astype %r' % (t,))
        return self._new([f(x) for x in self._v])

    def _ok(self):
        return [x for x in self._v if not isna(x)]

    def dropna(self):
        i = [j for j, x in enumerate(self._v) if not isna(x)]
        return self._pick(i)

    def unique(self):
        out, seen = [], set()
        for x in self._v:
            k = 'nan' if isna(x) else (x,)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return Values(out)

    def drop_duplicates(self):
        return Series(self.unique())

    def nunique(self):
        return len({x for x in self._ok()})

    def mean(self):
        v = self._ok()
        if any(not _num(x) for x in v):
            raise TypeError('mean of strings')
        return math.fsum(v) / len(v) if v else nan

    def sum(self): return math.fsum(self._ok()) if any(isinstance(x, float) for x in self._v) else builtins.sum(self._ok())
    def count(self): return len(self._ok())
    def min(self): return min(self._ok()) if self._ok() else nan
    def max(self): return max(self._ok()) if self._ok() else nan

    def median(self):
        v = sorted(self._ok())
        n = len(v)
        return nan if not n else float(v[n // 2]) if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2

    def _arg(self, f):
        c = [(x, i) for i, x in enumerate(self._v) if not isna(x)]
        if not c:
            raise ValueError('attempt to get argmin of an empty sequence')
        m = f(x for x, _ in c)
        return next(i for x, i in c if x == m)

    def argmin(self): return self._arg(min)
    def argmax(self): return self._arg(max)
    def idxmin(self): return self.index[self._arg(min)]
    def idxmax(self): return self.index[self._arg(max)]

    def sort_values(self, ascending=True):
        i = sorted(range(len(self)), key=lambda j: self._v[j], reverse=not ascending)
        return self._pick(i)

    def head(self, n=5):
        return self._pick(range(len(self))[:n])

    def copy(self):
        return Series(self._v, self.index, self.name)

    def reset_index(self, drop=False, name=None):
        if drop:
            return Series(self._v, None, self.name)
        names = getattr(self.index, '_names', None)
        if names is None:
            return DataFrame({'index': list(self.index), name or self.name or 0: list(self._v)})
        d = {n: [k[i] for k in self.index] if len(names) > 1 else list(self.index) for i, n in enumerate(names)}
        d[name or self.name] = list(self._v)
        return DataFrame(d)

    def __repr__(self):
        return '\n'.join('%s    %s' % x for x in self.items())


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        d = {}
        if isinstance(data, DataFrame):
            d = {c: list(v) for c, v in data._d.items()}
            index = data._i if index is None else index
        elif isinstance(data, dict):
            n = builtins.max([len(v) for v in data.values() if _plain(v)] or [0])
            d = {c: list(v) if _plain(v) else [v] * n for c, v in data.items()}
        elif data is not None:
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                cols = []
                for r in rows:
                    cols += [c for c in r if c not in cols]
                d = {c: [r.get(c, nan) for r in rows] for c in cols}
            elif columns is not None:
                d = {c: [r[i] for r in rows] for i, c in enumerate(columns)}
            elif rows:
                _no('DataFrame from rows')
        if columns is not None and not d:
            d = {c: [] for c in columns}
        self.__dict__['_d'] = {c: _settle(v) for c, v in d.items()}
        n = len(next(iter(d.values()))) if d else 0
        self.__dict__['_i'] = index if isinstance(index, Index) else Index(range(n) if index is None else index)

    @property
    def columns(self):
        return Index(self._d)

    @columns.setter
    def columns(self, cols):
        self.__dict__['_d'] = dict(zip(cols, self._d.values()))

    @property
    def index(self):
        return self._i

    @property
    def shape(self):
        return (len(self._i), len(self._d))

    @property
    def empty(self):
        return not self._i or not self._d

    @property
    def values(self):
        return Values(Values(list(r)) for r in self._rows(list(self._d)))

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._d)

    def keys(self):
        return self.columns

    def __contains__(self, c):
        return c in self._d

    def __setattr__(self, n, v):
        if n == 'columns':
            return DataFrame.columns.fset(self, v)
        _no('DataFrame.%s =' % n)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in self.__dict__.get('_d', {}):
            return self[n]
        _no('DataFrame.' + n)

    def __setitem__(self, c, v):
        if not isinstance(c, str):
            _no('DataFrame[%r] =' % (c,))
        v = list(v) if _plain(v) else [v] * len(self)
        if len(v) != len(self):
            _no('assignment of another length')
        self._d[c] = _settle(v)

    def _rows(self, cols):
        num = all(_num(x) for c in cols for x in self._d[c][:1]) and any(isinstance(x, float) for c in cols for x in self._d[c][:1])
        for t in zip(*[self._d[c] for c in cols]) if cols else [()] * len(self):
            yield [float(x) for x in t] if num else list(t)

    def _take(self, i):
        if hasattr(self._i, '_names'):
            _no('selection from a grouped result')
        return DataFrame({c: [v[j] for j in i] for c, v in self._d.items()}, [self._i[j] for j in i])

    def _rowat(self, j):
        cols = list(self._d)
        num = all(_num(self._d[c][j]) for c in cols) and any(isinstance(self._d[c][j], float) for c in cols)
        s = Series([], [], self._i[j])
        s._v = [float(self._d[c][j]) if num else self._d[c][j] for c in cols]
        s.index = Index(cols)
        return s

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._d:
                raise KeyError(k)
            return Series(self._d[k], self._i, k)
        if isinstance(k, slice):
            return self._take(range(len(self))[k])
        if isinstance(k, (Series, list, Values, Index)):
            k = list(k)
            if k and all(isinstance(b, bool) for b in k) or not k and not len(self):
                return self._take([j for j, b in enumerate(k) if b])
            for c in k:
                if c not in self._d:
                    raise KeyError(c)
            return DataFrame({c: list(self._d[c]) for c in k}, self._i)
        _no('DataFrame[%r]' % (k,))

    def _loc(self, k, pos):
        if isinstance(k, tuple):
            if len(k) != 2:
                _no('loc')
            f = self if isinstance(k[0], slice) and k[0] == slice(None) else self._loc(k[0], pos)
            c = k[1]
            if isinstance(c, slice) and c == slice(None):
                return f
            if pos and not isinstance(f, Series):
                c = f.columns[c]
            if isinstance(f, Series):
                return f._loc(c, pos)
            if isinstance(c, slice):
                _no('loc with a slice of labels')
            if isinstance(c, (Series, list, Values, Index)):
                c = list(c)
                if all(isinstance(b, bool) for b in c):
                    c = [x for x, b in zip(f.columns, c) if b]
            return f[c]
        if isinstance(k, slice):
            if not pos:
                _no('loc with a slice of labels')
            return self._take(range(len(self))[k])
        if isinstance(k, (Series, list, Values, Index)):
            k = list(k)
            if all(isinstance(b, bool) for b in k) and len(k) == len(self):
                return self._take([j for j, b in enumerate(k) if b])
            return self._take([x if pos else self._i.index(x) for x in k])
        if pos:
            return self._rowat(k)
        p = [j for j, x in enumerate(self._i) if x == k]
        if not p:
            raise KeyError(k)
        return self._rowat(p[0]) if len(p) == 1 else self._take(p)

    @property
    def loc(self):
        return _Loc(self, False)

    @property
    def iloc(self):
        return _Loc(self, True)

    at, iat = loc, iloc

    def iterrows(self):
        cols = list(self._d)
        for j, t in enumerate(self._rows(cols)):
            s = Series([], [], self._i[j])
            s._v, s.index = list(t), Index(cols)
            yield self._i[j], s

    def itertuples(self, index=True, name='Pandas'):
        import collections
        cols = list(self._d)
        rows = zip(*[self._d[c] for c in cols])
        if name is None:
            for i, t in zip(self._i, rows):
                yield ((i,) if index else ()) + tuple(t)
            return
        T = collections.namedtuple(name, (['Index'] if index else []) + cols, rename=True)
        for i, t in zip(self._i, rows):
            yield T(*(((i,) if index else ()) + tuple(t)))

    def to_dict(self, orient='dict'):
        if orient == 'records':
            return [dict(zip(self._d, t)) for t in zip(*self._d.values())]
        if orient == 'list':
            return {c: list(v) for c, v in self._d.items()}
        _no('to_dict')

    def isna(self):
        return DataFrame({c: [isna(x) for x in v] for c, v in self._d.items()}, self._i)

    isnull = isna

    def any(self, axis=0):
        if axis not in (0, 'index'):
            _no('any(axis)')
        return Series([any(v) for v in self._d.values()], list(self._d))

    def all(self, axis=0):
        if axis not in (0, 'index'):
            _no('all(axis)')
        return Series([all(v) for v in self._d.values()], list(self._d))

    def notna(self):
        return DataFrame({c: [not isna(x) for x in v] for c, v in self._d.items()}, self._i)

    notnull = notna

    def dropna(self, axis=0, how='any', subset=None):
        f = {'any': any, 'all': all}[how]
        if axis in (1, 'columns'):
            if subset is not None:
                _no('dropna(subset)')
            return DataFrame({c: list(v) for c, v in self._d.items() if not (v and f(isna(x) for x in v) or not v and how == 'all')}, self._i)
        cols = list(self._d) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        return self._take([j for j in range(len(self)) if not f([isna(self._d[c][j]) for c in cols])])

    def reset_index(self, drop=False, **kw):
        if kw:
            _no('reset_index %r' % kw)
        names = getattr(self._i, '_names', None)
        d = {}
        if not drop:
            if names is None:
                d['index' if 'index' not in self._d else 'level_0'] = list(self._i)
            else:
                for i, n in enumerate(names):
                    d[n] = [k[i] for k in self._i] if len(names) > 1 else list(self._i)
        d.update({c: list(v) for c, v in self._d.items()})
        return DataFrame(d)

    def drop(self, labels=None, axis=0, columns=None, errors='raise'):
        if columns is None:
            if axis not in (1, 'columns'):
                _no('drop rows')
            columns = labels
        columns = [columns] if isinstance(columns, str) else list(columns)
        for c in columns:
            if c not in self._d and errors == 'raise':
                raise KeyError(c)
        return DataFrame({c: list(v) for c, v in self._d.items() if c not in columns}, self._i)

    def rename(self, columns=None, **kw):
        if kw or columns is None:
            _no('rename')
        return DataFrame({columns.get(c, c): list(v) for c, v in self._d.items()}, self._i)

    def filter(self, items=None, like=None, regex=None, axis=1):
        import re
        if axis not in (1, 'columns'):
            _no('filter')
        keep = [c for c in self._d if (items is None or c in items) and (like is None or like in c) and (regex is None or re.search(regex, c))]
        return self[keep]

    def sort_values(self, by, ascending=True, kind=None, ignore_index=False):
        by = [by] if isinstance(by, str) else list(by)
        if not isinstance(ascending, bool):
            _no('sort_values(ascending=[])')
        i = sorted(range(len(self)), key=lambda j: tuple(self._d[c][j] for c in by), reverse=not ascending)
        r = self._take(i)
        return r.reset_index(drop=True) if ignore_index else r

    def sort_index(self):
        return self._take(sorted(range(len(self)), key=lambda j: self._i[j]))

    def drop_duplicates(self, subset=None, keep='first', ignore_index=False):
        cols = list(self._d) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        seen, i = set(), []
        if keep not in ('first', 'last'):
            _no('drop_duplicates(keep)')
        for j in range(len(self)) if keep == 'first' else reversed(range(len(self))):
            k = tuple(self._d[c][j] for c in cols)
            if k not in seen:
                seen.add(k)
                i.append(j)
        r = self._take(sorted(i))
        return r.reset_index(drop=True) if ignore_index else r

    def copy(self, deep=True):
        return DataFrame(self)

    def head(self, n=5):
        return self._take(range(len(self))[:n])

    def tail(self, n=5):
        return self._take(range(len(self))[-n:])

    def apply(self, f, axis=0):
        if axis not in (1, 'columns'):
            _no('apply')
        return Series([f(r) for _, r in self.iterrows()], self._i)

    def groupby(self, by=None, sort=True, as_index=True, dropna=True, **kw):
        if kw:
            _no('groupby %r' % kw)
        return GroupBy(self, by, sort, as_index, dropna)

    def __repr__(self):
        return '\n'.join([' '.join(map(str, self._d))] + [' '.join(map(str, t)) for t in zip(*self._d.values())])


class GroupBy:
    def __init__(self, df, by, sort, as_index, dropna, col=None):
        self._df, self._col, self._as = df, col, as_index
        self._one = isinstance(by, str)
        if not self._one and not isinstance(by, (list, Index)):
            _no('groupby(%r)' % (by,))
        self._by = [by] if self._one else list(by)
        if not self._by:
            raise ValueError('No group keys passed!')
        for c in self._by:
            if c not in df._d:
                raise KeyError(c)
        self._args = (by, sort, as_index, dropna)
        g = {}
        for j in range(len(df)):
            k = tuple(df._d[c][j] for c in self._by)
            if dropna and any(isna(x) for x in k):
                continue
            g.setdefault(k, []).append(j)
        self._g = {k: g[k] for k in sorted(g)} if sort else g

    def _name(self, k):
        return k if len(k) > 1 or NAMES == 2 and not self._one else k[0]

    def _part(self, i):
        f = self._df._take(i)
        return f if self._col is None else f[self._col]

    def __iter__(self):
        return iter([(self._name(k), self._part(i)) for k, i in self._g.items()])

    def __len__(self):
        return len(self._g)

    @property
    def ngroups(self):
        return len(self._g)

    @property
    def groups(self):
        return {k if len(k) > 1 else k[0]: Index(self._df._i[j] for j in i) for k, i in self._g.items()}

    @property
    def indices(self):
        return {k if len(k) > 1 else k[0]: list(i) for k, i in self._g.items()}

    def get_group(self, k):
        for n, i in self._g.items():
            if n == k or len(n) == 1 and n[0] == k:
                return self._part(i)
        raise KeyError(k)

    def __getitem__(self, c):
        if not isinstance(c, (str, list)):
            _no('groupby[%r]' % (c,))
        if isinstance(c, str) and c not in self._df._d:
            raise KeyError(c)
        return GroupBy(self._df, *self._args, col=c)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in self.__dict__.get('_df', DataFrame())._d:
            return self[n]
        _no('GroupBy.' + n)

    def _index(self):
        i = Index(k if len(k) > 1 else k[0] for k in self._g)
        i.__dict__['_names'] = list(self._by)
        return i

    def _agg(self, f):
        cols = [self._col] if isinstance(self._col, str) else self._col or [c for c in self._df._d if c not in self._by]
        d = {c: [f(Series([self._df._d[c][j] for j in i], [self._df._i[j] for j in i], c)) for i in self._g.values()] for c in cols}
        if not self._as:
            k = {c: [n[x] for n in self._g] for x, c in enumerate(self._by)}
            return DataFrame(dict(k, **d))
        if isinstance(self._col, str):
            return Series(d[self._col], self._index(), self._col)
        return DataFrame(d, self._index())

    def mean(self, numeric_only=False):
        if numeric_only:
            _no('mean(numeric_only)')
        return self._agg(Series.mean)

    def min(self): return self._agg(Series.min)
    def max(self): return self._agg(Series.max)
    def sum(self): return self._agg(Series.sum)
    def count(self): return self._agg(Series.count)
    def median(self): return self._agg(Series.median)
    def idxmin(self): return self._agg(Series.idxmin)
    def idxmax(self): return self._agg(Series.idxmax)
    def first(self): return self._agg(lambda s: s.iloc[0])
    def last(self): return self._agg(lambda s: s.iloc[-1])

    def size(self):
        return Series([len(i) for i in self._g.values()], self._index())

    def agg(self, f):
        if callable(f):
            return self._agg(f)
        if isinstance(f, str) and f in ('mean', 'min', 'max', 'sum', 'count', 'median', 'idxmin', 'idxmax', 'first', 'last'):
            return getattr(self, f)()
        _no('agg(%r)' % (f,))

    aggregate = agg

    def apply(self, f):
        v = [f(self._part(i)) for i in self._g.values()]
        if any(isinstance(x, (Series, DataFrame)) for x in v):
            _no('groupby.apply')
        return Series(v, self._index())


def _convert(col):
    def kind(t, f):
        try:
            return f(t)
        except ValueError:
            return None
    if all(t in NA or t in ('True', 'False') for t in col) and any(t not in NA for t in col):
        _no('column of booleans')
    v = [nan if t in NA else kind(t, int) if '_' not in t else None for t in col]
    if any(x is None for x in v):
        v = [nan if t in NA else kind(t, float) if '_' not in t else None for t in col]
    if any(x is None for x in v):
        return [nan if t in NA else t for t in col]
    return _settle(v)


def read_csv(path, sep=',', delimiter=None, header='infer', index_col=None, names=None, comment=None, engine=None, usecols=None, skiprows=None, nrows=None, dtype=None, low_memory=None, memory_map=None):
    if header not in ('infer', 0) or names is not None or comment is not None or usecols is not None or skiprows is not None or nrows is not None or dtype is not None or index_col not in (None, False):
        _no('read_csv options')
    sep = delimiter or sep
    if sep not in (' ', ',', '\t', ';'):
        _no('read_csv(sep=%r)' % sep)
    if hasattr(path, 'read'):
        text = path.read()
    else:
        with open(path) as f:
            text = f.read()
    if '"' in text:
        _no('quotes')
    lines = [l for l in text.splitlines() if l]
    if not lines:
        raise errors.EmptyDataError('No columns to parse from file')
    cols = []
    for i, c in enumerate(lines[0].split(sep)):
        c = c or 'Unnamed: %d' % i
        n, x = 0, c
        while x in cols:
            n += 1
            x = '%s.%d' % (c, n)
        cols.append(x)
    rows = [l.split(sep) for l in lines[1:]]
    if index_col is None and any(len(r) > len(cols) for r in rows):
        if all(len(r) == len(cols) + 1 for r in rows):
            _no('index from the first column')
        raise errors.ParserError('Error tokenizing data')
    d = {c: _convert([r[i] if i < len(r) else '' for r in rows]) for i, c in enumerate(cols)}
    return DataFrame(d)


def concat(objs, axis=0, ignore_index=False, sort=False, join='outer', **kw):
    if kw or axis not in (0, 'index') or join != 'outer':
        _no('concat options')
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    if not all(isinstance(o, DataFrame) for o in objs):
        _no('concat of Series')
    cols = []
    for o in objs:
        cols += [c for c in o._d if c not in cols]
    if sort:
        cols.sort()
    d = {c: [x for o in objs for x in (o._d[c] if c in o._d else [nan] * len(o))] for c in cols}
    return DataFrame(d, None if ignore_index else [i for o in objs for i in o._i])
