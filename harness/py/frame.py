# A stand-in for the parts of pandas that data_processing.py uses.
import math

nan = float("nan")


def clean(v):
    return nan if v is None else v


class Series(list):
    """A column of a table (or the values of a row)."""

    def __init__(self, data=(), *_, **__):
        super().__init__(data.values() if isinstance(data, dict) else data if isinstance(data, (list, tuple)) else [data])

    def apply(self, f):
        rows = [f(v) for v in self]
        if rows and isinstance(rows[0], Series):
            return DataFrame({i: [clean(r[i]) for r in rows] for i in range(len(rows[0]))})
        return Series([clean(r) for r in rows])

    def __eq__(self, other):
        return Series([v == o for v, o in zip(self, other)] if isinstance(other, list) else [v == other for v in self])

    def __ne__(self, other):
        return Series([not x for x in self == other])

    def __and__(self, other):
        return Series([a and b for a, b in zip(self, other)])

    def __or__(self, other):
        return Series([a or b for a, b in zip(self, other)])

    def __invert__(self):
        return Series([not a for a in self])

    def beyond(self, *_):
        raise AttributeError("the stand-in has no arithmetic on columns")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __iadd__ = __imul__ = beyond
    __lt__ = __le__ = __gt__ = __ge__ = __contains__ = beyond

    __hash__ = None

    def isna(self):
        return Series([v is None or v != v for v in self])

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def isin(self, values):
        return Series([v in list(values) for v in self])

    def fillna(self, x):
        xs = x if isinstance(x, Series) else [x] * len(self)
        return Series([x if v is None or v != v else v for v, x in zip(self, xs)])

    def known(self):
        return [v for v in self if not (v is None or v != v)]

    def sum(self):
        return sum(self.known())

    def count(self):
        return len(self.known())

    def mean(self):
        k = self.known()
        return sum(k) / len(k) if k else nan

    def std(self):
        k = self.known()
        m = self.mean()
        return math.sqrt(sum((v - m) ** 2 for v in k) / (len(k) - 1)) if len(k) > 1 else nan

    def tolist(self):
        return list(self)


class Row:
    def __init__(self, d):
        self.__dict__.update(d)
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


class DataFrame:
    def __init__(self, data=None, columns=None):
        d = {}
        if isinstance(data, dict):
            d = {k: Series(v) for k, v in data.items()}
        elif data is not None:
            d = {columns[0]: Series(list(data))}
        elif columns is not None:
            d = {c: Series() for c in columns}
        object.__setattr__(self, "cols", d)
        object.__setattr__(self, "index", None)

    def __len__(self):
        return max((len(c) for c in self.cols.values()), default=0)

    def __getattr__(self, k):
        if k in self.cols:
            return self.cols[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k == "columns":
            assert len(v) == len(self.cols)
            object.__setattr__(self, "cols", dict(zip(v, self.cols.values())))
        elif k in self.cols:
            self.cols[k] = Series(v)
        else:
            # as in pandas, this does not make a column
            object.__setattr__(self, k, v)

    def __getitem__(self, k):
        if isinstance(k, Series):
            return DataFrame({c: [v for v, keep in zip(col, k) if keep] for c, col in self.cols.items()})
        if isinstance(k, list):
            return DataFrame({c: self.cols[c] for c in k})
        return self.cols[k]

    def __setitem__(self, k, v):
        if isinstance(k, list):
            assert len(v.cols) == len(k) or len(v) == 0, "columns must be as many as names"
            for i, c in enumerate(k):
                self.cols[c] = list(v.cols.values())[i] if len(v) else Series()
        elif isinstance(v, DataFrame):
            assert len(v.cols) == 1 or len(v) == 0
            self.cols[k] = list(v.cols.values())[0] if len(v) else Series()
        else:
            self.cols[k] = Series(list(v))

    def apply(self, f, axis=0):
        assert axis in (1, "columns")
        return Series([clean(f(Row({c: col[i] for c, col in self.cols.items()}))) for i in range(len(self))])

    def copy(self):
        return DataFrame({c: list(v) for c, v in self.cols.items()})

    def transpose(self):
        res = DataFrame({i: [col[i] for col in self.cols.values()] for i in range(len(self))})
        object.__setattr__(res, "index", list(self.cols))
        return res
