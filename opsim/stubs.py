"""Stand-ins for third-party output code and the wall-clock `datetime.now`."""
import datetime as _dt
import os
import sys
import types

from . import core

_real_dt = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)


class SimDateTime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if core.S is None:
            return _real_dt.now(tz)
        return _real_dt.fromtimestamp(core.S.now(), tz)

    @classmethod
    def utcnow(cls):
        if core.S is None:
            return _real_dt.utcnow()
        return _real_dt.utcfromtimestamp(core.S.now())

    @classmethod
    def today(cls):
        return cls.now()


def _plot(fig, *a, filename="temp-plot.html", **k):
    """plotly.offline.plot: write the figure's data, not 3 MB of JavaScript."""
    import json
    try:
        d = fig.to_plotly_json() if hasattr(fig, "to_plotly_json") else fig
    except Exception:
        d = str(fig)

    def enc(o):
        try:
            import numpy as np
            if isinstance(o, np.ndarray):
                return o.tolist()
            if isinstance(o, np.generic):
                return o.item()
        except Exception:
            pass
        return str(o)
    data = d.get("data") if isinstance(d, dict) else d
    txt = json.dumps(data, default=enc)
    with open(filename, "w", encoding="utf-8") as f:
        f.write("<html>" + txt + "</html>")
    return "file://" + str(filename)


def install_pre():
    import plotly.offline
    import plotly.offline.offline
    plotly.offline.plot = _plot
    plotly.offline.offline.plot = _plot
    import plotly.io as pio
    try:
        import plotly.graph_objects as go

        def write_html(self, file, *a, **k):
            return _plot(self, filename=str(file))
        go.Figure.write_html = write_html
        pio.write_html = lambda fig, file, *a, **k: _plot(fig, filename=str(file))
    except Exception:
        pass

    import cv2
    cv2.setNumThreads(0)
    core._real["cv2.imread"] = cv2.imread
    core._real["cv2.imwrite"] = cv2.imwrite

    def imread(path, *a, **k):
        s = core.S
        if s is not None:
            path = s.remap(path)
            p = s.inside(path)
            if p is not None and os.path.exists(p):
                try:
                    s.read_op(p)
                except OSError:
                    return None
        return core._real["cv2.imread"](path, *a, **k)

    def imwrite(path, img, *a, **k):
        s = core.S
        if s is None:
            return core._real["cv2.imwrite"](path, img, *a, **k)
        path = s.remap(path)
        if s.inside(path) is None:
            return core._real["cv2.imwrite"](path, img, *a, **k)
        ok, buf = cv2.imencode(os.path.splitext(path)[1], img, *a, **k)
        if not ok:
            return False
        try:
            with open(path, "wb") as f:
                f.write(buf.tobytes())
        except OSError:
            return False
        return True
    cv2.imread = imread
    cv2.imwrite = imwrite

    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot  # noqa  (wraps the real savefig at import)

    def savefig(self, fname, *a, **k):
        """matplotlib figures: write a digest of the plotted data."""
        import hashlib
        h = hashlib.sha256()
        for ax in self.axes:
            for ln in ax.get_lines():
                h.update(repr(ln.get_xydata().tolist()).encode())
            for im in ax.get_images():
                h.update(repr(im.get_array().shape).encode())
        with open(fname, "wb") as f:
            f.write(b"\x89PNG-sim " + h.hexdigest().encode())
    matplotlib.figure.Figure.savefig = savefig
    import matplotlib.backend_bases
    matplotlib.backend_bases.FigureCanvasBase.draw_idle = lambda self, *a, **k: None
    import psutil

    class _Mem:
        def __init__(self, real, n):
            self._r, self.available = real, n

        def __getattr__(self, k):
            return getattr(self._r, k)
    core._real["psutil.mem"] = psutil.virtual_memory
    core._real["psutil.cpus"] = psutil.cpu_count

    def virtual_memory():
        r = core._real["psutil.mem"]()
        return r if core.S is None else _Mem(r, core.S.cfg.get("mem", 2 ** 33))
    psutil.virtual_memory = virtual_memory
    psutil.cpu_count = lambda *a, **k: core._real["psutil.cpus"](*a, **k) if core.S is None else core.S.cpus

    from PIL import ImageFile

    class _NoFd:
        """no descriptor: image encoders write through the seam instead of straight to the kernel"""

        def __init__(self, f):
            self._f = f

        def __getattr__(self, k):
            if k == "fileno":
                raise AttributeError(k)
            return getattr(self._f, k)
    core._real["pil.save"] = ImageFile._save
    ImageFile._save = lambda im, fp, *a, **k: core._real["pil.save"](im, _NoFd(fp), *a, **k)
    try:
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        import tqdm.std
        tqdm.std.tqdm.monitor_interval = 0
    except Exception:
        pass


def install_post():
    proxy = types.ModuleType("datetime")
    proxy.__dict__.update(_dt.__dict__)
    proxy.datetime = SimDateTime
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None) or ""
        if not f.startswith(core.REPO_SRC):
            continue
        for k, v in list(vars(mod).items()):
            if v is _real_dt:
                setattr(mod, k, SimDateTime)
            elif v is _dt:
                setattr(mod, k, proxy)
