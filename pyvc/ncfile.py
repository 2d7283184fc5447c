"""Contract of the part of netCDF4 that the code uses, over symbolic arrays: a dataset that is being written or has been read.

What is written into a variable is what is read from it (converted to the type of the variable); reading gives a fresh masked array
without masked elements (netCDF4's default `always_mask`); values equal to a fill value are outside the contract."""
import z3

from . import arr as A
from .arr import SMa, dim_eq, toarr
from .core import Sym, Unsupported

import netCDF4 as _nc4

_REAL_VARIABLE = {k for k in dir(_nc4.Variable) if not k.startswith("__")}
_REAL_DATASET = {k for k in dir(_nc4.Dataset) if not k.startswith("__")}


def num2date(times, units=None, calendar="standard", only_use_cftime_datetimes=True, only_use_python_datetimes=False, has_year_zero=None):
    """contract of netCDF4.num2date for times without gaps after 1582: linear in the numbers, through the dates that it gives for 0 and 1 (asked from
    the real function for the units at hand). Rounding to microseconds is outside the contract"""
    import datetime as dt
    from .core import ctx, realval
    if only_use_cftime_datetimes or calendar not in (None, "standard", "gregorian", "proleptic_gregorian") or has_year_zero is not None or not isinstance(units, str):
        raise Unsupported("num2date other than to datetimes")
    a, b = _nc4.num2date([0, 1], units, calendar="standard", only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    if a.year < 1583:
        raise Unsupported("num2date before 1583")
    sec = lambda d: realval((d - dt.datetime(2000, 1, 1)).total_seconds())
    a, b = sec(a), sec(b)
    v = toarr(times)
    masked = isinstance(v, SMa)
    if masked and v._mask is not None:
        raise Unsupported("num2date of masked times")
    v = v.data if masked else v
    rd = v.reader()

    def one(i):
        x = rd(i)
        e = x.e if x.kind == "f" else z3.ToReal(x.e)
        return Sym("t", a + e * (b - a))
    r = A.new(v.sshape, "t", one)
    return SMa(r, None) if masked else r


class Dim:
    def __init__(self, n):
        self.n = n

    @property
    def size(self):
        return self.n if isinstance(self.n, int) else Sym("i", self.n)

    def slen(self):
        return self.n if isinstance(self.n, int) else Sym("i", self.n)


def build(nc):
    """(Dataset, Variable) classes on top of the shim module's"""
    class Variable(nc.Variable):
        def __init__(self, ds, name, dtype, dims, data=None):
            for k, v in dict(_ds=ds, name=name, dimensions=tuple(dims), _attrs={}, _kind=A.kind_of_dtype(dtype), _dt=dtype, _data=data).items():
                object.__setattr__(self, k, v)

        @property
        def __dict__(self):     # netCDF4: the attributes of the variable in the file
            return dict(self._attrs)

        @property
        def _grp(self):
            return self._ds

        def group(self):
            return self._ds

        @property
        def sshape(self):
            return tuple(self._ds.dimensions[x].n for x in self.dimensions)

        @property
        def shape(self):
            return A.new(self.sshape, self._kind, None).shape if self._data is None else self._data.shape

        @property
        def dtype(self):
            import numpy as np
            return np.dtype(self._dt)

        @property
        def ndim(self):
            return len(self.dimensions)

        def slen(self):
            if not self.dimensions:
                raise TypeError("len() of unsized object")
            return self._ds.dimensions[self.dimensions[0]].slen()

        def __len__(self):
            raise Unsupported("native len() of a netCDF variable")

        def __dir__(self):
            return list(self._attrs) + ["dimensions", "dtype", "name", "ndim", "shape"]

        def __bool__(self):     # netCDF4: len() of the variable
            return bool(self.slen() > 0)

        def __getattr__(self, k):
            try:
                return object.__getattribute__(self, "_attrs")[k]
            except KeyError:
                if k in _REAL_VARIABLE:
                    raise Unsupported(f"netCDF4.Variable.{k}") from None
                raise AttributeError(k) from None

        def __setattr__(self, k, v):
            self._attrs[k] = v

        def setncattr(self, k, v):
            self._attrs[k] = v

        def setncatts(self, d):
            self._attrs.update(d)

        def setncattr_string(self, k, v):
            self._attrs[k] = v

        def getncattr(self, k):
            try:
                return self._attrs[k]
            except KeyError:
                raise AttributeError(k) from None

        def ncattrs(self):
            return list(self._attrs)

        def _all(self, key):
            key = key if isinstance(key, tuple) else (key,)
            return all(isinstance(k, slice) and k == slice(None) for k in key) and len(key) <= max(1, self.ndim) or key == (Ellipsis,)

        def __getitem__(self, key):
            if self._data is None:
                raise Unsupported("read of a variable that was never written")
            r = SMa(self._data.copy(), None)
            return r if self._all(key) else r[key]

        def __setitem__(self, key, val):
            if not self._all(key):
                raise Unsupported("partial write of a netCDF variable")
            v = toarr(val)
            if isinstance(v, SMa):
                if v._mask is not None:
                    raise Unsupported("write of masked data")
                v = v.data
            sh = self.sshape
            if v.ndim != len(sh) or not all(dim_eq(a, b) for a, b in zip(v.sshape, sh)):
                raise Unsupported("write of other than the shape of the variable")
            narrow = A.narrow_of(self._dt) is not None
            v = v.astype(self._dt if narrow else self._kind_dtype()) if narrow or v.kind != self._kind else v.copy()
            object.__setattr__(self, "_data", v)

        def _kind_dtype(self):
            import numpy as np
            return {"f": np.float64, "i": np.int64, "b": np.bool_}[self._kind]

    class Dataset(nc.Dataset):
        _files = {}

        def __init__(self, _path=None, _mode="r", **attrs):
            self.dimensions, self.variables = {}, {}
            if _path is not None:       # a file that was written before, or a new one
                if _mode == "r":
                    if _path not in self._files:
                        raise OSError(f"no such file: {_path}")
                    self.dimensions, self.variables = self._files[_path]
                elif _mode == "w":
                    self._files[_path] = self.dimensions, self.variables
                else:
                    raise Unsupported(f"netCDF4.Dataset mode {_mode}")
            self.__dict__.update(attrs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __getitem__(self, name):
            if name not in self.variables:
                raise IndexError(f"{name} not found in /")
            return self.variables[name]

        def get_variables_by_attributes(self, **kw):
            return [v for v in self.variables.values() if all(k in v._attrs and v._attrs[k] == x for k, x in kw.items())]

        def createDimension(self, name, n=None):
            if name in self.dimensions:
                raise RuntimeError("NetCDF: String match to name in use")
            self.dimensions[name] = Dim(n.e if isinstance(n, Sym) else n)
            return self.dimensions[name]

        def createVariable(self, name, dtype, dimensions=(), **k):
            if name in self.variables:
                raise RuntimeError("NetCDF: String match to name in use")
            if isinstance(dimensions, str):
                dimensions = (dimensions,)
            for d in dimensions:
                if d not in self.dimensions:
                    raise ValueError(f"cannot find dimension {d} in this group or parent groups")
            v = self.variables[name] = Variable(self, name, dtype, dimensions)
            return v

        def filepath(self):
            return "file.nc"

        def ncattrs(self):
            return [k for k in self.__dict__ if k not in ("dimensions", "variables")]

        def getncattr(self, k):
            if k not in self.ncattrs():
                raise AttributeError(k)
            return self.__dict__[k]

        def __getattr__(self, k):
            if k in _REAL_DATASET:
                raise Unsupported(f"netCDF4.Dataset.{k}")
            raise AttributeError(k)

        def sync(self):
            pass

        def close(self):
            pass
    return Dataset, Variable
