"""C28: drawing calls, formatters, axes arrays, figures, run-time configuration."""
import os
import numpy as np
import matplotlib as mpl
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib.markers import MarkerStyle
from pyhipp import plot
from pyhipp.plot import Color, ColorSeq, RuntimeConfig
from pyhipp.plot.color import Colormap, ScalarMappable, Normalize, _predefined_color_seqs
from pyhipp.plot.figure import SubFigure, SubFigureArray, FigureBase
from pyhipp.astro.plot.shortcuts import Axes as AstroAxes
from ..core import Monitor
from ..gen import pick, chance, Frozen

RULE = ('random histories of formatter settings, frame settings and drawing calls on single axes, arrays of axes and slices of them; after every call all artists and frame state of all axes are compared with a twin figure '
        'drawn by bare matplotlib from an independent model of the styles. Identity is the history.')

COLORS = ['r', 'blue', '#12ab9f', (.1, .2, .3), (.5, .25, .75, .5), '0.25', 'C3', 'k']


def rgba(c, a):
    c = mcolors.to_rgba(c)
    return c if a is None else (*c[:3], a)


# ---------------------------------------------------------------- twin dump
def _v(x):
    return np.asarray(x, float).round(10)


def _path(p, tr):
    return _v(p.transformed(tr).vertices)


def dump_artist(a, ax):
    d = {'cls': type(a).__name__, 'label': a.get_label(), 'z': a.get_zorder(), 'vis': a.get_visible(), 'alpha': a.get_alpha()}
    if isinstance(a, mpl.lines.Line2D):
        d |= dict(x=_v(a.get_xdata()), y=_v(a.get_ydata()), c=_v(mcolors.to_rgba(a.get_color())), lw=a.get_linewidth(), ls=a.get_linestyle(), m=str(a.get_marker()), ms=a.get_markersize(),
                  mew=a.get_markeredgewidth(), mec=_v(mcolors.to_rgba(a.get_markeredgecolor())), mfc=_v(mcolors.to_rgba(a.get_markerfacecolor())), ds=a.get_drawstyle())
    elif isinstance(a, mpl.collections.Collection):
        d |= dict(off=_v(a.get_offsets()), fc=_v(a.get_facecolor()), ec=_v(a.get_edgecolor()), lw=_v(a.get_linewidth()), ls=str(a.get_linestyle()), paths=[_v(p.vertices) for p in a.get_paths()],
                  tr=_v(a.get_transforms()) if len(a.get_transforms()) else 0, arr=None if a.get_array() is None else _v(a.get_array()), hatch=a.get_hatch())
        if hasattr(a, 'get_sizes'):
            d['s'] = _v(a.get_sizes())
    elif isinstance(a, mpl.patches.Patch):
        d |= dict(fc=_v(a.get_facecolor()), ec=_v(a.get_edgecolor()), lw=a.get_linewidth(), ls=str(a.get_linestyle()), fill=a.get_fill(), hatch=a.get_hatch(), path=_path(a.get_path(), a.get_patch_transform()))
    elif isinstance(a, mpl.text.Text):
        p = ax.transAxes.inverted().transform(a.get_transform().transform(a.get_position()))
        d |= dict(text=a.get_text(), p=p.round(8), c=_v(mcolors.to_rgba(a.get_color())), s=a.get_fontsize(), va=a.get_va(), ha=a.get_ha(), rot=a.get_rotation(), w=a.get_weight())
    return d


def dump_legend(lg):
    if lg is None:
        return None
    t = lg.get_title()
    return dict(texts=[x.get_text() for x in lg.get_texts()], tc=[_v(mcolors.to_rgba(x.get_color())) for x in lg.get_texts()], s=[x.get_fontsize() for x in lg.get_texts()], loc=lg._loc, ncol=lg._ncols, title=t.get_text(), ts=t.get_fontsize(),
                frame=lg.get_frame_on(), fa=lg.get_frame().get_alpha(), par=[lg.markerscale, lg.numpoints, lg.scatterpoints, lg.handlelength, lg.handleheight, lg.handletextpad, lg.borderpad, lg.borderaxespad, lg.labelspacing, lg.columnspacing])


def dump_frame(ax):
    out = dict(xlim=_v(ax.get_xlim()), ylim=_v(ax.get_ylim()), xl=ax.get_xlabel(), yl=ax.get_ylabel(), xls=ax.xaxis.label.get_fontsize(), yls=ax.yaxis.label.get_fontsize(), xlv=ax.xaxis.label.get_visible(), ylv=ax.yaxis.label.get_visible(),
               xs=ax.get_xscale(), ys=ax.get_yscale(), on=ax.axison)
    for n, axis in (('x', ax.xaxis), ('y', ax.yaxis)):
        for w in ('major', 'minor'):
            p = axis.get_tick_params(which=w)
            out[n + w] = {k: str(v) for k, v in sorted(p.items())}
            out[n + w + 'loc'] = type(axis.get_major_locator() if w == 'major' else axis.get_minor_locator()).__name__
        f = axis.get_major_formatter()
        out[n + 'fmt'] = type(f).__name__, list(getattr(f, 'seq', [])) if type(f).__name__ == 'FixedFormatter' else None
        loc = axis.get_major_locator()
        out[n + 'ticks'] = _v(loc.locs) if type(loc).__name__ == 'FixedLocator' else None
    return out


def dump(ax):
    out = dump_frame(ax)
    for n in ('lines', 'collections', 'patches', 'texts'):
        out[n] = [dump_artist(a, ax) for a in getattr(ax, n)]
    out['legend'] = dump_legend(ax.get_legend())
    out['containers'] = [type(c).__name__ for c in ax.containers]
    out['images'] = len(ax.images)
    return out


def same_fig(T, raws, twins, what):
    for i, (a, b) in enumerate(zip(raws, twins)):
        g, w = dump(a), dump(b)
        for k in w:
            if isinstance(w[k], list):
                T.check(len(g[k]) == len(w[k]), f'{what}: number of {k} on axes {i}', got=len(g[k]), want=len(w[k]))
                for j, (x, y) in enumerate(zip(g[k], w[k])):
                    if isinstance(y, dict):
                        for q in y:
                            T.eq(x.get(q), y[q], f'{what}: {k}[{j}].{q} on axes {i}')
                    else:
                        T.eq(x, y, f'{what}: {k}[{j}] on axes {i}')
            elif isinstance(w[k], dict) and isinstance(g[k], dict):
                for q in w[k]:
                    T.eq(g[k].get(q), w[k][q], f'{what}: {k}.{q} on axes {i}')
            else:
                T.eq(g[k], w[k], f'{what}: {k} on axes {i}')
        T.ev('axes compared')


# ---------------------------------------------------------------- the model
class Model:
    """Styles and frame settings of one axes, and its matplotlib twin."""

    def __init__(self, raw):
        self.raw = raw
        self.line = dict(c='k', a=1., lw=2.5, ls='-')
        self.marker = dict(style=None, s=10, ec='k', fc='k', ea=1., fa=.3, elw=1.)
        self.errorbar = dict(c='k', a=1., lw=1, capsize=4, capthick=1)
        self.fill = dict(fc='k', ec='k', fa=.2, ea=1, lw=1, ls='-')
        self.text = dict(use_tex=True, c='k', a=1., s=15)
        self.frame = dict(lim=None, label=None, scale=None, ticks=None, ticklabels=None, tick_params=None, label_outer=None)
        self.labels = 0

    def c(self, c, a):
        for d, pairs in ((self.line, ['ca']), (self.errorbar, ['ca']), (self.marker, ['fx', 'ex']), (self.fill, ['fx', 'ex'])):
            for p in pairs:
                kc, ka = ('c', 'a') if p == 'ca' else (p[0] + 'c', p[0] + 'a')
                if c is not None:
                    d[kc] = c
                if a is not None:
                    d[ka] = a

    def two(self, d, c, a):
        for e in 'fe':
            if c is not None:
                d[e + 'c'] = c
            if a is not None:
                d[e + 'a'] = a

    def line_kw(self):
        l, m = self.line, self.marker
        return dict(c=rgba(l['c'], l['a']), lw=l['lw'], ls=l['ls'], marker=m['style'], ms=m['s'], mew=m['elw'], mec=rgba(m['ec'], m['ea']), mfc=rgba(m['fc'], m['fa']))

    def fill_kw(self):
        f = self.fill
        return dict(ec=rgba(f['ec'], f['ea']), fc=rgba(f['fc'], f['fa']), lw=f['lw'], ls=f['ls'])

    def do_frame(self, kw):
        self.frame |= kw
        r, f = self.raw, self.frame

        def each(v, sx, sy):
            if v is None:
                return
            if isinstance(v, dict):
                x, y = v.get('x'), v.get('y')
                more = {k: u for k, u in v.items() if k not in 'xy'}
            else:
                (x, y), more = v, {}
            if x is not None:
                sx(x, **more)
            if y is not None:
                sy(y, **more)
        each(f['lim'], r.set_xlim, r.set_ylim)
        each(f['label'], r.set_xlabel, r.set_ylabel)
        each(f['scale'], r.set_xscale, r.set_yscale)
        each(f['ticks'], r.set_xticks, r.set_yticks)
        each(f['ticklabels'], r.set_xticklabels, r.set_yticklabels)
        tp = f['tick_params']
        if tp is not None:
            more = {k: u for k, u in tp.items() if k not in ('x', 'y', 'both')}
            for k in ('x', 'y', 'both'):
                if tp.get(k) is not None:
                    r.tick_params(axis=k, **tp[k], **more)
        if f['label_outer']:
            r.label_outer()

    def wrap(self, s):
        return f'${s}$' if self.text['use_tex'] else s


def rnd_color(rng):
    c = pick(rng, COLORS)
    return Color(c, .7) if False else c


def style_call(rng, m):
    """A formatter call: name, kwargs, and what the model makes of it."""
    k = pick(rng, ['c', 'marker', 'fill', 'line', 'errorbar', 'text', 'fmt', 'bad'])
    c = rnd_color(rng) if chance(rng, .6) else None
    a = float(pick(rng, [0., 1., rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 1)])) if chance(rng, .5) else None

    def sub(keys):
        gens = dict(s=lambda: float(rng.uniform(2, 30)), elw=lambda: float(rng.uniform(.1, 4)), lw=lambda: float(pick(rng, [0., rng.uniform(.1, 6), rng.uniform(.1, 6), rng.uniform(.1, 6)])), ls=lambda: pick(rng, ['-', '--', ':', '-.', (0, (3., 1.5))]),
                    capsize=lambda: float(rng.uniform(0, 9)), capthick=lambda: float(rng.uniform(.1, 4)), use_tex=lambda: bool(rng.integers(2)))
        out = {}
        for q in keys:
            if chance(rng, .4):
                out[q] = gens[q]() if q in gens else (rnd_color(rng) if q in ('c', 'fc', 'ec') else float(pick(rng, [0., 1., rng.uniform(0, 1), rng.uniform(0, 1)])))
        return out
    marker_kw = {'style': pick(rng, ['o', 's', '^', 'x', 'D', '.', '*']), **({'c': c} if c is not None else {}), **({'a': a} if a is not None else {}), **sub(['s', 'elw', 'ec', 'fc', 'ea', 'fa'])}
    fill_kw = {**({'c': c} if c is not None else {}), **({'a': a} if a is not None else {}), **sub(['fc', 'ec', 'fa', 'ea', 'lw', 'ls'])}
    line_kw, err_kw, text_kw = sub(['c', 'a', 'lw', 'ls']), sub(['c', 'a', 'lw', 'capsize', 'capthick']), sub(['use_tex', 'c', 'a', 's'])
    parts = {'marker': marker_kw, 'fill': fill_kw, 'line': line_kw, 'errorbar': err_kw, 'text': text_kw}

    def apply(m, which):
        kw = dict(parts[which])
        d = getattr(m, which)
        if which in ('marker', 'fill'):
            m.two(d, kw.pop('c', None), kw.pop('a', None))
        d |= kw
    if k == 'c':
        kw = {**({'c': c} if c is not None else {}), **({'a': a} if a is not None else {})}
        return 'c', kw, lambda m: m.c(c, a), None
    if k == 'fmt':
        names = [n for n in parts if chance(rng, .5)]
        return 'fmt', {n: parts[n] for n in names}, lambda m: [apply(m, n) for n in names], None
    if k == 'bad':
        which = pick(rng, ['marker', 'fill', 'line', 'errorbar', 'text', 'frame'])
        kw = {'marker': {'style': None}}.get(which, {}) | {pick(rng, ['zz', 'colour', 'linewidth_', 'Lw']): 1}
        if which == 'marker':
            def eff(m):
                m.marker['style'] = None
            return 'fmt_' + which, kw, eff, KeyError
        return 'fmt_' + which, kw, lambda m: None, KeyError
    return 'fmt_' + k, parts[k], lambda m: apply(m, k), None


def frame_call(rng):
    """A frame call: name, args, kwargs, model effect."""
    k = pick(rng, ['lim', 'lim', 'label', 'scale', 'tick_params', 'ticks', 'frame', 'label_outer', 'grid', 'axis'])
    lo, hi = sorted(rng.uniform(.05, 9, size=2).round(3).tolist())
    hi += 1.
    lo2, hi2 = sorted(rng.uniform(.05, 90, size=2).round(3).tolist())
    hi2 += 1.
    x = (lo, hi) if chance(rng, .7) else None
    y = (lo2, hi2) if chance(rng, .7) else None

    def some(x, y):
        return {k: v for k, v in (('x', x), ('y', y)) if v is not None}
    if k == 'lim':
        return 'lim', some(x, y), lambda m: m.do_frame({'lim': {'x': x, 'y': y}})
    if k == 'label':
        lx = pick(rng, ['M', r'\alpha', 'x_1']) if chance(rng, .7) else None
        ly = pick(rng, ['N', r'\beta', 'y^2']) if chance(rng, .7) else None
        return 'label', some(lx, ly), lambda m: m.do_frame({'label': {'x': None if lx is None else m.wrap(lx), 'y': None if ly is None else m.wrap(ly)}})
    if k == 'scale':
        sx = pick(rng, ['log', 'linear', 'symlog']) if chance(rng, .7) else None
        sy = pick(rng, ['log', 'linear']) if chance(rng, .7) else None
        return 'scale', some(sx, sy), lambda m: m.do_frame({'scale': {'x': sx, 'y': sy}})
    if k == 'tick_params':
        tx = {'which': pick(rng, ['both', 'major', 'minor']), pick(rng, ['top', 'bottom', 'labelbottom']): bool(rng.integers(2))} if chance(rng, .6) else None
        ty = {'length': float(rng.uniform(1, 9)), pick(rng, ['left', 'right', 'labelleft']): bool(rng.integers(2))} if chance(rng, .6) else None
        tb = {'width': float(rng.uniform(.5, 3))} if chance(rng, .4) else None
        for t in (tx, ty, tb):      # settings that any axis takes
            if t is not None and chance(rng, .6):
                t |= {q: v for q, v in dict(labelsize=float(rng.uniform(4, 20)), pad=float(rng.uniform(0, 9)), length=float(rng.uniform(1, 9)), color='r', labelrotation=30.).items() if chance(rng, .4)}
        more = {'direction': pick(rng, ['in', 'out', 'inout'])} if chance(rng, .4) else {}
        kw = {k: v for k, v in (('x', tx), ('y', ty), ('both', tb)) if v is not None} | more
        return 'tick_params', kw, lambda m: m.do_frame({'tick_params': {'x': tx, 'y': ty, 'both': tb, **more}})
    if k == 'ticks':
        t = np.linspace(lo, hi, int(rng.integers(2, 6))).round(3).tolist()
        lab = [f't{i}' for i in range(len(t))] if chance(rng, .5) else None
        w = pick(rng, ['x', 'y'])
        kw = {'ticks': {w: t}, 'ticklabels': {w: lab} if lab else None}
        form = int(rng.integers(4))
        if form == 1:       # a pair instead of a mapping
            pair = lambda v: None if v is None else ((v, None) if w == 'x' else [None, v])
            kw = {'ticks': pair(t), 'ticklabels': pair(lab)}
        elif form == 2:     # both axes, with settings for both
            u = np.linspace(lo2, hi2, len(t))
            kw = {'ticks': pick(rng, [(t, u), {'x': t, 'y': u, 'minor': False}]), 'ticklabels': None if lab is None else pick(rng, [{'x': lab, 'y': lab[::-1], 'fontsize': 7., 'rotation': 30.}, (lab, lab[::-1])])}
        elif form == 3 and lab is None:
            kw['ticks'] = {w: t, 'minor': True}
        return 'fmt_frame', kw, lambda m: m.do_frame(kw)
    if k == 'frame':
        kw = {}
        if chance(rng, .6):
            kw['lim'] = pick(rng, [(x, y), {'x': x, 'y': y, 'auto': None}, [x, y]])
        if chance(rng, .5):
            kw['label'] = pick(rng, [('u', None), {'y': 'v', 'fontsize': 9.}, ('u', 'v')])
        if chance(rng, .3):
            kw['scale'] = pick(rng, [('log', 'linear'), {'x': 'linear'}])
        if chance(rng, .5):
            return 'fmt', {'frame': kw}, lambda m: m.do_frame(kw)
        return 'fmt_frame', kw, lambda m: m.do_frame(kw)
    if k == 'label_outer':
        return 'label_outer', {}, lambda m: m.do_frame({'label_outer': True})
    if k == 'grid':
        kw = {'visible': bool(rng.integers(2)), 'which': pick(rng, ['major', 'minor', 'both']), 'axis': pick(rng, ['x', 'y', 'both'])}
        if kw['visible'] and chance(rng, .5):
            kw |= {q: v for q, v in {'lw': pick(rng, [0., .5, 1.5]), 'ls': pick(rng, [':', '-']), 'c': pick(rng, ['r', (.1, .2, .3), '0.5'])}.items() if chance(rng, .7)}
            if chance(rng, .3):
                kw['alpha'] = float(pick(rng, [0., .25]))
        return 'grid', kw, lambda m: m.raw.grid(**kw)
    on = bool(rng.integers(2))
    return ('axis_on' if on else 'axis_off'), {}, lambda m: (m.raw.set_axis_on if on else m.raw.set_axis_off)()


def draw_call(rng, m):
    """A drawing call: (method, args, kwargs), twin call, number of last_draw pushes."""
    k = pick(rng, ['plot', 'scatter', 'errorbar', 'fill_between', 'errorfill', 'stairs', 'hist', 'text', 'leg'])
    n = int(pick(rng, [1, 2, 7, 20]))
    x, y = np.sort(rng.uniform(.1, 9, n)), rng.uniform(.1, 90, n)
    if chance(rng, .2):
        x, y = x.tolist(), y.tolist()
    m.labels += 1
    lab = {'label': f'L{m.labels}'} if chance(rng, .5) else {}
    r = m.raw

    def over(cands):
        return {q: f() for q, f in cands.items() if chance(rng, .25)}
    pk = lambda *v: lambda: pick(rng, list(v))
    o_line = dict(c=lambda: rnd_color(rng), lw=pk(3.25, 0.), ls=pk(':', '', 'none'), marker=pk('s', ''), ms=pk(4.5, 0.), mew=pk(.75, 0.), mec=lambda: 'g', mfc=pk('w', 'none'), zorder=pk(7, 0), alpha=pk(.35, 0.))
    o_fill = dict(ec=pk('b', 'none'), fc=lambda: rnd_color(rng), lw=pk(.5, 0.), ls=lambda: '--', zorder=pk(4, 0), alpha=pk(.45, 0.))
    if k == 'plot':
        ov = over(o_line)
        return k, (x, y), lab | ov, lambda: [r.plot(x, y, **({'label': None} | m.line_kw() | lab | ov))]
    if k == 'scatter':
        ov = over(dict(s=lambda: rng.uniform(1, 9, n), marker=lambda: 'D', edgecolors=lambda: 'g', facecolors=lambda: rnd_color(rng), linewidths=lambda: .6, zorder=lambda: 6))
        f = m.marker
        kw = dict(label=None, s=f['s'], linewidths=f['elw'], marker=f['style'], edgecolors=rgba(f['ec'], f['ea']), facecolors=rgba(f['fc'], f['fa'])) | lab | ov
        return k, (x, y), lab | ov, lambda: [r.scatter(x, y, **kw)]
    if k == 'errorbar':
        def err():
            q = int(rng.integers(4))
            return None if q == 0 else (.3 if q == 1 else (rng.uniform(0, 1, n) if q == 2 else rng.uniform(0, 1, (2, n))))
        ov = over(o_line | dict(ecolor=lambda: 'r', elinewidth=lambda: 2.5, capsize=lambda: 6, capthick=lambda: 2., lolims=lambda: True, uplims=lambda: True, xlolims=lambda: True, xuplims=lambda: True))
        e, arg = m.errorbar, {}
        ye, xe = err(), err()
        if ye is not None or chance(rng, .5):
            arg['yerr'] = ye
        if xe is not None:
            arg['xerr'] = xe
        kw = m.line_kw() | dict(label=None, ecolor=rgba(e['c'], e['a']), elinewidth=e['lw'], capsize=e['capsize'], capthick=e['capthick']) | lab | ov
        return k, (x, y), arg | lab | ov, lambda: [r.errorbar(x, y, yerr=ye, xerr=xe, **kw)]
    if k == 'fill_between':
        ov = over(o_fill | dict(where=lambda: rng.random(n) < .7, interpolate=lambda: True, step=lambda: pick(rng, ['pre', 'mid', 'post'])))
        y2 = None if chance(rng, .3) else (5. if chance(rng, .3) else rng.uniform(0, 80, n))
        args = (x, y) if y2 is None else (x, y, y2)
        kw = m.fill_kw() | dict(label=None) | lab | ov
        return k, args, lab | ov, lambda: [r.fill_between(x, y, y2=0 if y2 is None else y2, **kw)]
    if k == 'errorfill':
        ov = over({q: o_line[q] for q in ('c', 'lw', 'ls', 'marker')})
        fov = over({q: o_fill[q] for q in ('ec', 'fc', 'lw', 'alpha', 'zorder')}) if chance(rng, .5) else None
        fl = {'fill_label': f'F{m.labels}'} if chance(rng, .4) else {}
        q = int(rng.integers(5))
        ye = [None, .4, rng.uniform(0, 1, n), rng.uniform(0, 1, (2, n)), rng.uniform(0, 1, (2, n)).tolist()][q]
        kw = ({} if ye is None and chance(rng, .5) else {'yerr': ye}) | lab | ov | fl | ({} if fov is None else {'fill_between_kw': dict(fov)})

        def go():
            out = [r.plot(x, y, **({'label': None} | m.line_kw() | lab | ov))]
            if ye is not None:
                e = np.broadcast_to(np.asarray(ye, float), (2, n)) if np.ndim(ye) < 2 else np.asarray(ye)
                yy = np.asarray(y)
                out.append(r.fill_between(x, yy - e[0], y2=yy + e[1], **(m.fill_kw() | {'label': fl.get('fill_label')} | (fov or {}))))
            return out
        return k, (x, y), kw, go
    if k == 'stairs':
        ov = over({q: v for q, v in o_fill.items()} | dict(orientation=lambda: 'horizontal', baseline=lambda: 1.5, fill=lambda: False))
        edges = np.linspace(.5, 8, n + 1) if chance(rng, .7) else None
        kw = m.fill_kw() | dict(orientation='vertical', baseline=0, fill=True, label=None) | lab | ov
        return k, (y,) if edges is None else (y, edges), lab | ov, lambda: [r.stairs(y, edges, **kw)]
    if k == 'hist':
        v = rng.uniform(.1, 9, 30)
        ov = over({q: v for q, v in o_fill.items()} | dict(bins=lambda: pick(rng, [4, np.linspace(0, 9, 6)]), range=lambda: (1., 8.), density=lambda: True, weights=lambda: rng.random(30), histtype=lambda: pick(rng, ['bar', 'step']),
                                                            orientation=lambda: 'horizontal', align=lambda: 'left', cumulative=lambda: True, log=lambda: pick(rng, [True, False]), rwidth=lambda: .6)) | lab
        kw = m.fill_kw() | dict(histtype='stepfilled') | ov
        return k, (v,), ov, lambda: [r.hist(v, **kw)]
    if k == 'text':
        ov = over(dict(va=lambda: 'top', ha=lambda: 'right', fontsize=lambda: 8., color=lambda: 'g', rotation=lambda: 30., transform=lambda: None))
        if 'transform' in ov:
            ov.pop('transform')
        data = chance(rng, .25)
        s = pick(rng, ['ab', r'\sigma_8', 'x'])
        p = tuple(rng.uniform(0, 1, 2).tolist())
        kw = dict(transform=r.transData if data else r.transAxes, color=rgba(m.text['c'], m.text['a']), fontsize=m.text['s'], va='center', ha='left') | ov
        return k, (s, p), ov | ({'transform': 'DATA'} if data else {}), lambda: [r.text(*p, m.wrap(s), **kw)]
    loc_full = {'r': 'right', 'lr': 'lower right', 'll': 'lower left', 'cl': 'center left', 'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center', 'cr': 'center right', 'c': 'center'}
    loc = pick(rng, list(loc_full) + ['best', 'upper left', 'lower center', 'center right', 'upper right', 2, (.2, .3), 'right', 'center'])
    full = loc_full.get(loc, loc) if isinstance(loc, str) else loc
    ov = over(dict(fontsize=lambda: 7., ncol=lambda: 2, title=lambda: 'T', title_fontsize=lambda: 9., frameon=lambda: True, framealpha=lambda: .3, labelspacing=lambda: .7, columnspacing=lambda: .4, handlelength=lambda: 3., handleheight=lambda: 1.5,
                   handletextpad=lambda: .9, markerscale=lambda: 2., numpoints=lambda: 3, scatterpoints=lambda: 2, borderpad=lambda: .6, borderaxespad=lambda: .8, labelcolor=lambda: 'linecolor', shadow=lambda: True))
    arg = ({} if loc == 'best' and chance(rng, .5) else {'loc': loc})
    return k, (), arg | ov, lambda: [r.legend(**({'loc': full} | ov))]


def same_kind(T, got, want, what):
    """The wrapped last artist is the one drawn."""
    if isinstance(want, tuple) and isinstance(want, mpl.container.Container):
        T.check(type(got) is type(want), f'{what}: last_draw type')
    elif isinstance(want, (list, tuple)):
        T.check(len(got) == len(want), f'{what}: last_draw length')
        T.check(all(type(a) is type(b) for a, b in zip(got, want)), f'{what}: last_draw element types')
    else:
        T.check(type(got) is type(want), f'{what}: last_draw type', got=type(got).__name__, want=type(want).__name__)


def history(rng, T):
    """Formatter, frame and drawing calls on axes and arrays of axes."""
    shape = pick(rng, [(1, 1), (1, 2), (2, 2), (1, 3), (3, 1)])
    n = int(np.prod(shape))
    fig, axs = plot.subplots(shape, figsize=(4, 4), layout='none')
    tf = plt.figure(figsize=(4, 4))
    twin = tf.subplots(*shape, squeeze=False)
    try:
        arr = None if n == 1 else axs
        if n == 1:
            T.check(isinstance(axs, plot.Axes), 'a single subplot is an Axes')
            flat = [axs]
        else:
            T.check(isinstance(axs, plot.AxesArray) and axs.shape == (shape if 1 not in shape else (n,)), 'shape of the axes array', got=getattr(axs, 'shape', None))
            flat = axs.to_list()
        raws = [a._raw for a in flat]
        T.check(fig._raw.axes == raws, 'axes of the figure in row-major order')
        mods = [Model(r) for r in twin.ravel()]
        same_fig(T, raws, twin.ravel(), 'fresh figure')
        log = []
        for step in range(int(rng.integers(4, 13))):
            kind = pick(rng, ['style', 'style', 'frame', 'draw', 'draw', 'draw'])
            i = int(rng.integers(n))
            # the targets: one axes, or a part of the array
            if arr is None or (kind == 'draw' and chance(rng, .8)):
                tgt, ids = flat[i], [i]
            else:
                idx = np.arange(n).reshape(arr.shape)
                q = int(rng.integers(6))
                if q == 0:
                    tgt, ids = arr, idx.ravel().tolist()
                elif q == 1:
                    tgt, ids = arr.flat, idx.ravel().tolist()
                elif q == 2:
                    tgt, ids = arr.T, idx.T.ravel().tolist()
                elif q == 3:
                    j = int(rng.integers(len(idx)))
                    tgt, ids = arr[j], np.ravel(idx[j]).tolist()
                elif q == 4:
                    tgt, ids = arr[::2], idx[::2].ravel().tolist()
                else:
                    tgt, ids = arr[..., -1:], idx[..., -1:].ravel().tolist()
                if not isinstance(tgt, plot.Axes) and kind == 'draw':
                    tgt, ids = flat[i], [i]
            if isinstance(tgt, plot.Axes):
                i = ids[0]
            exc, ok = None, True
            if kind == 'style':
                name, kw, eff, exc = style_call(rng, mods[0])
                if exc is not None and not isinstance(tgt, plot.Axes):
                    ids = ids[:1]
                call = lambda: getattr(tgt, name)(**kw)
                effs = [lambda m=mods[j]: eff(m) for j in ids]
            elif kind == 'frame':
                name, kw, eff = frame_call(rng)
                if name.startswith('axis_') and not isinstance(tgt, plot.Axes):
                    tgt, ids = flat[i], [i]
                call = lambda: getattr(tgt, name)(**kw)
                effs = [lambda m=mods[j]: eff(m) for j in ids]
            else:
                name, args, kw, eff = draw_call(rng, mods[i])
                if kw.get('transform') == 'DATA':
                    kw['transform'] = raws[i].transData
                if name == 'leg' and arr is not None and chance(rng, .4):
                    tgt, ids = arr, list(range(n))

                    def legs(kw=dict(kw)):
                        kw = dict(kw)
                        full = {'r': 'right', 'lr': 'lower right', 'll': 'lower left', 'cl': 'center left', 'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center', 'cr': 'center right', 'c': 'center'}
                        loc = kw.get('loc', 'best')
                        kw['loc'] = full.get(loc, loc) if isinstance(loc, str) else loc
                        return [[m.raw.legend(**kw)] for m in mods][-1]
                    eff = legs
                call = lambda: getattr(tgt, name)(*args, **kw)
                effs = [eff]
            log.append((name, sorted(kw), ids))
            T.note(shape=shape, log=log[-6:])
            before = {k: v for k, v in kw.items() if isinstance(v, dict)}
            frozen = repr(before)
            if exc is not None:
                T.raises(exc, call, f'{name} refuses unknown keys')
                effs[0]()
                T.ev('refused')
                continue
            out = call()
            T.check(out is tgt, f'{name} returns the object it was called on')
            T.check(repr(before) == frozen, f'{name} leaves its dictionaries alone')
            res = [e() for e in effs]
            if kind == 'draw':
                last = tgt.last_draw if isinstance(tgt, plot.Axes) else tgt[-1].last_draw if isinstance(tgt[-1], plot.Axes) else tgt[-1][-1].last_draw
                same_kind(T, last._raw, res[-1][-1], name)
                T.ev(f'drew {name}')
            T.ev(kind)
            same_fig(T, raws, twin.ravel(), name)
        if chance(rng, .2):
            fig._raw.canvas.draw()
            tf.canvas.draw()
            same_fig(T, raws, twin.ravel(), 'after rendering')
            a, b = np.asarray(fig._raw.canvas.buffer_rgba()), np.asarray(tf.canvas.buffer_rgba())
            T.check(a.shape == b.shape and np.array_equal(a, b), 'the rendered pixels are those of the twin', n_diff=int((a != b).any(-1).sum()) if a.shape == b.shape else None)
            T.ev('rendered')
        T.state('histories', log)
        T.sig(shape, log)
    finally:
        plt.close(fig._raw)
        plt.close(tf)


# ---------------------------------------------------------------- layouts
def expect4(v, swap):
    if v is None or np.isscalar(v):
        return [v] * 4
    if len(v) == 2:
        return [v[1], v[1], v[0], v[0]]
    return list(v)


def grid_kw(rng, nr, nc):
    """Options of a grid of subplots, and those of bare matplotlib."""
    share = pick(rng, [False, True, (True, False), ('col', 'row'), 'all', 'row'])
    kw = {} if share is False and chance(rng, .5) else {'share': share}
    q = int(rng.integers(4))
    edges = [None] * 4
    if q == 1:
        hi, lo = float(rng.uniform(.8, .99)), float(rng.uniform(.01, .2))
        ext = pick(rng, [(lo, hi), [hi, hi - .1, lo, lo + .05]])
        kw['extent'] = ext
        edges = expect4(ext, True)
    elif q == 2:
        m = pick(rng, [float(rng.uniform(0, .2)), (.05, .15), (.02, .08, .12, .2)])
        kw['margin'] = m
        t = expect4(m, True)
        edges = [1 - t[0], 1 - t[1], t[2], t[3]]
    space = pick(rng, [None, 0., .3, (.1, .4), (.1, None)])
    if space is not None or chance(rng, .3):
        kw['space'] = space
    ws, hs = (space, space) if space is None or np.isscalar(space) else space
    wr = list(range(1, nc + 1)) if chance(rng, .4) else None
    hr = [2] + [1] * (nr - 1) if chance(rng, .4) else None
    if wr or hr:
        kw['ratios'] = (wr, hr)
    sk = {'facecolor': 'y'} if chance(rng, .3) else ({'projection': 'polar'} if chance(rng, .1) else None)
    if sk is not None:
        kw['mpl_subplot_kw'] = sk
    shx, shy = share if not np.isscalar(share) else (share, share)
    gs = dict(wspace=ws, hspace=hs, width_ratios=wr, height_ratios=hr, top=edges[0], right=edges[1], bottom=edges[2], left=edges[3])
    if chance(rng, .15):
        more = pick(rng, [{'wspace': .6}, {'left': .21, 'top': .83}, {'hspace': .05}])
        kw |= more
        gs |= more
    return kw, dict(sharex=shx, sharey=shy, squeeze=False, subplot_kw=dict(sk or {}), gridspec_kw=gs)


def placed(T, got, want, what='axes placed'):
    for i, (a, b) in enumerate(zip(got, want, strict=True)):
        T.close(a._raw.get_position().bounds, b.get_position().bounds, f'box of axes {i}', rtol=1e-9, atol=1e-12)
        T.check(type(a._raw) is type(b), 'projection')
        T.eq(tuple(a._raw.get_facecolor()), tuple(b.get_facecolor()), 'facecolor')
        for c, (p, q) in enumerate(zip(got, want)):
            T.eq([bool(a._raw.get_shared_x_axes().joined(a._raw, p._raw)), bool(a._raw.get_shared_y_axes().joined(a._raw, p._raw))],
                 [bool(b.get_shared_x_axes().joined(b, q)), bool(b.get_shared_y_axes().joined(b, q))], f'sharing of axes {i} and {c}')
        T.ev(what)


def layout(rng, T):
    """Figures, subplots and subfigures come in the stated layout."""
    n = pick(rng, [1, 2, 3, (1, 1), (2, 1), (2, 3), (1, 4), np.int64(2), (3, 2)])
    nr, nc = (1, int(n)) if np.isscalar(n) else n
    kw, tkw = grid_kw(rng, nr, nc)
    given = {k: repr(v) for k, v in kw.items()}
    lay = pick(rng, [None, None, 'none', 'constrained', 'tight'])
    fkw, size = {}, None
    if chance(rng, .5):
        sub = pick(rng, [3, 2.5, (2, 3)])
        fkw['subsize'] = sub
        w, h = (sub, sub) if np.isscalar(sub) else sub
        size = (w * nc, h * nr)
    elif chance(rng, .3):
        size = pick(rng, [5, (4, 3)])
        fkw['figsize'] = size
        size = (size, size) if np.isscalar(size) else size
    if lay is not None:
        fkw['layout'] = lay
    if chance(rng, .3):
        fkw['figure_kw'] = {'dpi': 50, 'facecolor': '0.9'}
    T.note(n=n, kw=kw, fkw=fkw)
    figs = []
    sub_figs = chance(rng, .3)
    try:
        if not sub_figs:
            how = pick(rng, ['subplots', 'figure'])
            if how == 'subplots':
                fig, ax = plot.subplots(n, **kw, **fkw)
                dflt = (4 * nc, 4 * nr)
                want_lay = lay if lay is not None else ('tight' if kw.get('space') is None else None)
            else:
                f2 = {k: v for k, v in fkw.items() if k in ('figsize', 'layout')}
                fig = plot.figure(**f2)
                ax = fig.subplots(n, **kw)
                dflt = tuple(mpl.rcParams['figure.figsize'])
                size = size if 'figsize' in fkw else None
                want_lay = lay or 'tight'
            figs.append(fig._raw)
            eng = fig._raw.get_layout_engine()
            got_lay = {None: None, 'TightLayoutEngine': 'tight', 'ConstrainedLayoutEngine': 'constrained', 'PlaceHolderLayoutEngine': None}[None if eng is None else type(eng).__name__]
            T.eq(got_lay, None if want_lay == 'none' else want_lay, 'layout engine')
            want = plt.figure(figsize=size or dflt)
            figs.append(want)
            T.close(fig._raw.get_size_inches(), size or dflt, 'figure size')
            tw = want.subplots(nr, nc, **tkw)
            if nr * nc == 1:
                T.check(isinstance(ax, plot.Axes), 'one subplot is an Axes')
                got = [ax]
            else:
                T.check(isinstance(ax, plot.AxesArray), 'several subplots are an AxesArray')
                got = ax.to_list()
                T.check(ax.size == nr * nc and ax.shape == ((nr, nc) if nr > 1 and nc > 1 else (nr * nc,)), 'shape of the axes', got=ax.shape)
            placed(T, got, tw.ravel())
            if 'figure_kw' in fkw and how == 'subplots':
                T.eq(fig._raw.dpi, 50, 'dpi of the figure')
        else:
            f2 = {k: v for k, v in fkw.items() if k != 'layout'}
            kk = {k: kw[k] for k in ('space', 'ratios') if k in kw}
            ws, hs, wr, hr = [tkw['gridspec_kw'][k] for k in ('wspace', 'hspace', 'width_ratios', 'height_ratios')]
            space = kw.get('space')
            ws, hs = (space, space) if space is None or np.isscalar(space) else space
            face = pick(rng, [None, None, 'c', '0.8'])
            if face:
                kk['facecolor'] = face
            fig, sf = plot.subfigures(n, **kk, **f2)
            figs.append(fig._raw)
            T.close(fig._raw.get_size_inches(), size or (5 * nc, 5 * nr), 'figure size')
            want = plt.figure(figsize=size or (5 * nc, 5 * nr))
            figs.append(want)
            tw = np.asarray(want.subfigures(nr, nc, squeeze=False, wspace=ws, hspace=hs, width_ratios=wr, height_ratios=hr)).ravel()
            if nr * nc == 1:
                T.check(isinstance(sf, SubFigure), 'one subfigure is a SubFigure')
                got = [sf]
            else:
                T.check(isinstance(sf, SubFigureArray), 'several are an array')
                T.check(len(sf) == (nr if nr > 1 else nc), 'length of the array')
                got = [f for row in sf for f in ([row] if isinstance(row, SubFigure) else row)]
                again = SubFigureArray(sf)
                T.check([f._raw for row in again for f in ([row] if isinstance(row, SubFigure) else row)] == [f._raw for f in got], 'an array of subfigures made from another')
                j = int(rng.integers(-len(sf), len(sf)))
                row = sf[j]
                T.check((row._raw if isinstance(row, SubFigure) else [f._raw for f in row]) == (got[j]._raw if isinstance(row, SubFigure) else [f._raw for f in got[j % len(sf) * nc:(j % len(sf) + 1) * nc]]), 'indexed subfigures')
                part = sf[::-1]
                T.check([f._raw for r in part for f in ([r] if isinstance(r, SubFigure) else r)] == [f._raw for r in list(sf)[::-1] for f in ([r] if isinstance(r, SubFigure) else r)], 'sliced subfigures')
            T.check(len(got) == nr * nc, 'number of subfigures')
            for i, (a, b) in enumerate(zip(got, tw)):
                T.close(a._raw.bbox_relative.bounds if a._raw.bbox_relative is not None else a._raw.bbox.bounds, b.bbox_relative.bounds if b.bbox_relative is not None else b.bbox.bounds, f'box of subfigure {i}', atol=1e-9)
                T.eq(mcolors.to_rgba(a._raw.get_facecolor()), mcolors.to_rgba(face or (0., 0., 0., 0.)), 'background of a subfigure')
                T.ev('subfigures placed')
            if chance(rng, .3):
                # subfigures of a subfigure, drawn on beside what follows
                j, m = int(rng.integers(len(got))), pick(rng, [1, 2, (2, 1), (2, 2)])
                mr, mc = (1, m) if np.isscalar(m) else m
                nk = pick(rng, [{}, {'ratios': (list(range(1, mc + 1)), list(range(2, mr + 2)))}, {'space': (.2, .1)}, {'edgecolor': 'r', 'linewidth': 2.}])
                tk = {'ratios': {'width_ratios': list(range(1, mc + 1)), 'height_ratios': list(range(2, mr + 2))}, 'space': {'wspace': .2, 'hspace': .1}}.get(next(iter(nk), ''), {})
                o, t = got[j].subfigures(m, **nk), tw[j].subfigures(mr, mc, squeeze=False, **tk).ravel()
                o = [o] if mr * mc == 1 else [f for row in o for f in ([row] if isinstance(row, SubFigure) else row)]
                T.check(len(o) == mr * mc and [f._raw for f in o] == got[j]._raw.subfigs, 'subfigures of a subfigure')
                for a, b in zip(o, t):
                    T.close(a._raw.bbox_relative.bounds, b.bbox_relative.bounds, 'box of a nested subfigure', atol=1e-9)
                    T.check('edgecolor' not in nk or mcolors.same_color(a._raw.get_edgecolor(), 'r') and a._raw.get_linewidth() == 2., 'border of a nested subfigure')
                T.ev('nested')
            inner = pick(rng, [1, 2, (2, 2)])
            k = 1 if inner == 1 else (2 if inner == 2 else 4)
            ikw, itkw = grid_kw(rng, max(1, k // 2), min(k, 2))
            T.note(n=n, kw=kw, fkw=fkw, inner=inner, ikw=ikw)
            was = repr(ikw)
            out = sf.subplots(inner, **ikw)
            T.eq(repr(ikw), was, 'arguments unchanged')
            if nr * nc == 1:
                outs = [out]
            else:
                T.check(np.shape(out) == ((nr, nc) if nr > 1 and nc > 1 else (nr * nc,)), 'one entry per subfigure', got=np.shape(out))
                outs = list(np.asarray(out, dtype=object).ravel()) if k == 1 else [out[i] for i in np.ndindex(*np.shape(out))]
            for o, f in zip(outs, got):
                T.check(isinstance(o, plot.Axes if k == 1 else plot.AxesArray), 'subplots of a subfigure')
                raw = [o._raw] if k == 1 else [a._raw for a in o.to_list()]
                T.check(f._raw.axes == raw and len(raw) == k, 'axes in their own subfigure, in order')
            for o, t in zip(outs, tw):
                placed(T, [o] if k == 1 else o.to_list(), t.subplots(max(1, k // 2), min(k, 2), **itkw).ravel(), 'inner axes placed')
            for o in outs:
                T.ev('inner subplots')
        T.check({k: repr(v) for k, v in kw.items()} == given, 'arguments unchanged')
        T.sig(n, repr(kw), repr(fkw), sub_figs)
        T.state('layouts', (nr, nc, repr(sorted(kw)), repr(kw.get('space')), repr(kw.get('share')), sub_figs))
    finally:
        for f in figs:
            plt.close(f)


# ---------------------------------------------------------------- arrays
def arrays(rng, T):
    """Indexing, iterating, flattening and transposing arrays of axes."""
    shape = pick(rng, [(2,), (4,), (2, 3), (3, 2), (2, 2), (1, 3), (3, 1), (1, 1)])
    fig = plt.figure(figsize=(3, 3))
    try:
        n = int(np.prod(shape))
        raws = np.empty(n, dtype=object)
        for i in range(n):
            raws[i] = fig.add_axes([.1, .1, .2, .2])
        raws = raws.reshape(shape)
        k = int(rng.integers(3))
        if k == 0:
            arr = plot.AxesArray(raws)
        elif k == 1:
            arr = plot.AxesArray(plot.AxesArray(raws))
        else:
            arr = plot.AxesArray(raws.tolist())
        T.check(arr.shape == shape and arr.size == n and len(arr) == shape[0], 'shape, size, length')
        raw_of = lambda a: (a._raw if isinstance(a, plot.Axes) else np.array([x._raw for x in a.to_list()], dtype=object).reshape(a.shape))
        hold = arr.to_list()
        T.check([a._raw for a in hold] == raws.ravel().tolist(), 'flattened in row-major order')
        nest = arr.to_list(flat=False)
        T.check(np.shape(np.array(nest, dtype=object)) == shape, 'nested list')
        T.check(raw_of(arr.T).tolist() == raws.T.tolist(), 'transpose')
        T.check(arr.flat.shape == (n,) and raw_of(arr.flat).tolist() == raws.ravel().tolist(), 'flat')
        it = list(arr)
        T.check(len(it) == shape[0], 'iteration length')
        for a, r in zip(it, raws):
            T.check(np.array_equal(raw_of(a), r) if not isinstance(a, plot.Axes) else a._raw is r, 'iteration element')
        for _ in range(6):
            key = []
            for s in shape[:int(rng.integers(1, len(shape) + 1))]:
                j = int(rng.integers(4))
                key.append(int(rng.integers(-s, s)) if j == 0 else (slice(None, None, int(pick(rng, [1, -1, 2]))) if j == 1 else (rng.integers(0, s, 2).tolist() if j == 2 else slice(0, max(1, s - 1)))))
            if sum(isinstance(x, list) for x in key) > 1:
                key = key[:1]
            key = tuple(key) if len(key) > 1 or chance(rng, .5) else key[0]
            if chance(rng, .2):
                key = rng.random(shape) < .5
            want = raws[key]
            got = arr[key]
            if isinstance(want, np.ndarray):
                T.check(isinstance(got, plot.AxesArray) and got.shape == want.shape, f'indexed shape of {key}', got=getattr(got, 'shape', None), want=want.shape)
                T.check([a._raw for a in got.to_list()] == want.ravel().tolist(), f'indexed elements of {key}')
                T.check(all(any(a is h for h in hold) for a in got.to_list()), 'indexing keeps the same axes objects')
            else:
                T.check(isinstance(got, plot.Axes) and got._raw is want, f'indexed element {key}')
                T.check(any(got is h for h in hold), 'indexing keeps the same axes object')
            T.ev('indexed')
        T.raises(IndexError, lambda: arr[shape[0]], 'index out of range')
        s = repr(arr)
        T.check(s.count('Axes object') == n, 'printed form lists every axes')
        T.sig(shape, k)
        T.state('shapes', shape)
    finally:
        plt.close(fig)


# ---------------------------------------------------------------- formatters
FMT = {'MarkerFormatter': dict(style='o', s=10, ec='k', fc='k', ea=1., fa=.3, elw=1.), 'LineFormatter': dict(c='k', a=1., lw=2.5, ls='-'), 'ErrorBarFormatter': dict(c='k', a=1., lw=1, capsize=4, capthick=1),
       'FillFormatter': dict(fc='k', ec='k', fa=.2, ea=1, lw=1, ls='-'), 'TextFormatter': dict(use_tex=True, c='k', a=1., s=15)}


def formatters(rng, T):
    """A formatter is a fixed set of settings: every way of changing it."""
    from pyhipp.plot import artist_formatter as af
    name = pick(rng, sorted(FMT))
    cls, base = getattr(af, name), FMT[name]

    def val(k):
        if k in ('c', 'fc', 'ec'):
            return pick(rng, COLORS)
        if k in ('a', 'fa', 'ea'):
            return float(rng.uniform(0, 1))
        return pick(rng, ['o', 'x']) if k == 'style' else pick(rng, [0, False, None, 2.5, ':'])
    def some():
        return {k: val(k) for k in base if chance(rng, .4)}
    first = some()
    f, g = cls(**first), cls()
    m, log = base | first, [repr(first)]
    pairs = [('c', 'a')] if 'c' in base else [('fc', 'fa'), ('ec', 'ea')]
    for _ in range(int(rng.integers(2, 8))):
        k = pick(rng, ['set', 'ior', 'update', 'c', 'one', 'bad'])
        d = some()
        log.append((k, repr(d)))
        T.note(name=name, log=log)
        if k == 'set':
            for q, v in d.items():
                f[q] = v
            m |= d
        elif k == 'ior':
            h = f
            h |= d
            T.check(h is f, 'updated in place')
            m |= d
        elif k == 'update':
            e = some()
            T.check(f.update(d, **e) is f, 'update returns the formatter')
            m |= d | e
        elif k in ('c', 'one'):
            c = pick(rng, COLORS) if chance(rng, .7) else None
            a = pick(rng, [0., .3, 1.]) if chance(rng, .7) else None
            if k == 'c' or len(pairs) == 1:
                T.check(f.c(c, a) is f if chance(rng, .5) else f.c(c=c, a=a) is f, 'c returns the formatter')
                ps = pairs
            else:
                ps = [pick(rng, pairs)]
                T.check(getattr(f, ps[0][0])(c, a) is f, 'fc, ec return the formatter')
            for kc, ka in ps:
                if c is not None:
                    m[kc] = c
                if a is not None:
                    m[ka] = a
        else:
            def by_set(): f['zz'] = 1
            def by_ior():
                h = f
                h |= {'zz': 1}
            T.raises(KeyError, pick(rng, [by_set, by_ior, lambda: f.update(zz=1), lambda: f.update({'colour': 1}), lambda: f['zz']]), 'unknown keys are refused')
            T.ev('refused')
        T.eq({q: repr(f[q]) for q in base}, {q: repr(m[q]) for q in base}, f'settings of the {name} after {k}')
        two = [pick(rng, sorted(base)) for _ in range(2)]
        T.eq([repr(v) for v in f[two[0], two[1]]], [repr(m[q]) for q in two], 'two settings at once')
        for kc, ka in pairs:
            if m[kc] is not None:
                T.eq(tuple(getattr(f, 'get_' + kc)().get_rgba()), rgba(m[kc], m[ka]), f'get_{kc}')
        T.eq({q: repr(g[q]) for q in base}, {q: repr(base[q]) for q in base}, 'another formatter is untouched')
    T.ev(name)
    if name == 'TextFormatter':
        T.eq(f.wrap_text('ab'), '$ab$' if m['use_tex'] else 'ab', 'wrapped text')
    T.sig(name, log)


# ---------------------------------------------------------------- colours
def colors(rng, T):
    """Colours, sequences, colour maps and colour bars."""
    c = pick(rng, COLORS)
    a = pick(rng, [None, 0., 1., .3, .75])
    col = Color(c, a) if a is not None or chance(rng, .5) else Color(c)
    T.eq(tuple(col.get_rgba()), rgba(c, a), 'rgba')
    T.eq(col.get_alpha(), rgba(c, a)[3], 'alpha')
    col2 = Color(col)
    T.eq(tuple(col2.get_rgba()), rgba(c, a), 'copied colour')
    b = float(rng.uniform(0, 1))
    T.check(col2.alpha(b) is col2, 'alpha returns the colour')
    T.eq(tuple(col2.get_rgba()), (*rgba(c, a)[:3], b), 'changed alpha')
    T.eq(tuple(col.get_rgba()), rgba(c, a), 'the original colour is untouched')
    T.eq(tuple(Color.to_rgba(col)), rgba(c, a), 'to_rgba of a colour')
    T.eq(tuple(Color.to_rgba(c)), mcolors.to_rgba(c), 'to_rgba of a specification')
    T.eq(tuple(Color().get_rgba()), (0., 0., 0., 1.), 'default colour')
    T.raises(ValueError, lambda: Color('no such colour'), 'unknown colour')
    cs = [pick(rng, COLORS) for _ in range(int(rng.integers(1, 6)))]
    seq = ColorSeq([Color(x) if chance(rng, .3) else x for x in cs])
    T.eq([tuple(x) for x in seq.get_rgba()], [mcolors.to_rgba(x) for x in cs], 'sequence of colours')
    name = pick(rng, ['dark2', 'tab10', 'set1', 'set2'])
    want = plt.get_cmap({'dark2': 'Dark2', 'tab10': 'tab10', 'set1': 'Set1', 'set2': 'Set2'}[name]).colors
    T.eq([tuple(x) for x in ColorSeq.predefined(name).get_rgba()], [mcolors.to_rgba(x) for x in want], f'predefined {name}')
    if chance(rng, .3):
        T.eq(ColorSeq.predefined().get_rgba(), ColorSeq.predefined('dark2').get_rgba(), 'default sequence')
    m, k = pick(rng, ['rainbow', 'gnuplot', 'gnuplot2']), pick(rng, [5, 10])
    T.eq([tuple(float(v) for v in x) for x in ColorSeq.predefined(f'{m}_{k}').get_rgba()], [tuple(float(v) for v in x) for x in plt.get_cmap(m)(np.linspace(0, 1, k))], f'predefined {m}_{k}')
    T.raises(KeyError, lambda: ColorSeq.predefined('zz'), 'unknown sequence')
    cm = pick(rng, ['viridis', 'rainbow', 'RdBu'])
    lev = pick(rng, [1, 2, 7, rng.uniform(0, 1, 4), [0., .5, 1.]])
    al = pick(rng, [None, .4])
    src = cm if chance(rng, .5) else Colormap(plt.get_cmap(cm))
    got = ColorSeq.from_cmap(src, lev, **({} if al is None else {'alpha': al})).get_rgba()
    want = plt.get_cmap(cm)(np.linspace(0, 1, lev) if isinstance(lev, int) else np.asarray(lev), alpha=al)
    T.eq([tuple(float(v) for v in x) for x in got], [tuple(float(v) for v in x) for x in want], 'colours of a colour map')
    x = rng.uniform(-.2, 1.2, 5)
    T.eq(np.asarray(Colormap(plt.get_cmap(cm))(x, alpha=al)), np.asarray(plt.get_cmap(cm)(x, alpha=al)), 'mapped values')
    T.ev('colours')
    # colour bar
    if chance(rng, .35):
        grid = pick(rng, [(1, 2), (1, 2), (2, 1), (2, 2), (2, 3)])
        fig, axs2 = plot.subplots(grid, figsize=(3, 3), layout='none')
        tf = plt.figure(figsize=(3, 3))
        tx2 = tf.subplots(*grid)
        axs, tx = axs2.flat, tx2.ravel()
        try:
            lo, hi = sorted(rng.uniform(0, 10, 2))
            norm = mcolors.Normalize(lo, hi + 1)
            sm = ScalarMappable.from_cmap(Colormap(plt.get_cmap(cm)), Normalize(norm))
            T.check(isinstance(sm, ScalarMappable), 'scalar mappable')
            T.eq(np.asarray(sm._raw.to_rgba(x * 10)), np.asarray(plt.get_cmap(cm)(norm(x * 10))), 'mapped colours')
            kw = {}
            for q, v in dict(fraction=.2, shrink=.7, aspect=10, pad=.05, ticks=[lo, hi], label='lab').items():
                if chance(rng, .4):
                    kw[q] = v
            q = int(rng.integers(7))
            if q == 0:
                akw, tkw = {'ax': axs[0]}, {'ax': tx[0]}
            elif q == 1:
                akw, tkw = {'ax': axs if chance(rng, .3) else axs2}, {'ax': list(tx)}
            elif q == 5:
                row = tx2[-1] if tx2.ndim == 2 else tx2[-1:]
                akw, tkw = {'ax': axs2[-1] if tx2.ndim == 2 else axs2[-1:]}, {'ax': list(row)}
            elif q == 6:
                akw, tkw = {'ax': axs2.to_list()}, {'ax': list(tx)}
            elif q == 2:
                akw, tkw = {'ax': [axs[1], axs[0]._raw]}, {'ax': [tx[1], tx[0]]}
            elif q == 3:
                akw, tkw = {'cax': axs[1]}, {'cax': tx[1]}
            else:
                akw, tkw = {'ax': axs[1]._raw}, {'ax': tx[1]}
            if 'ax' in akw and chance(rng, .6):
                d = pick(rng, [{'location': 'top'}, {'location': 'left'}, {'orientation': 'horizontal'}, {'orientation': 'vertical'}])
                kw |= d
            kw |= pick(rng, [{}, {}, {'extend': 'both'}, {'drawedges': True}, {'extend': 'max', 'extendfrac': .2}, {'format': '%.3f'}])
            out = fig.colorbar(sm if chance(rng, .7) else sm._raw, **akw, **kw)
            T.check(out is fig, 'colorbar returns the figure')
            full = dict(location=None, orientation=None, fraction=.1, shrink=1., aspect=20, pad=0, ticks=None, label=None) | kw
            if full['label'] is None:
                full['label'] = None
            cb = tf.colorbar(mpl.cm.ScalarMappable(cmap=plt.get_cmap(cm), norm=norm), **tkw, **full)
            g = fig.last_draw._raw
            T.check(type(g) is type(cb), 'last_draw is the colour bar')
            T.check(len(fig._raw.axes) == len(tf.axes), 'number of axes after the colour bar')
            for i, (p, r) in enumerate(zip(fig._raw.axes, tf.axes)):
                T.close(p.get_position().bounds, r.get_position().bounds, f'box of axes {i}', atol=1e-9)
            T.eq([g.vmin, g.vmax, g.orientation, g.ax.get_ylabel(), g.ax.get_xlabel()], [cb.vmin, cb.vmax, cb.orientation, cb.ax.get_ylabel(), cb.ax.get_xlabel()], 'colour bar')
            T.close(g.get_ticks(), cb.get_ticks(), 'ticks of the colour bar')
            T.eq([g.extend, g.extendfrac, g.drawedges, [t.get_text() for t in g.ax.get_xticklabels() + g.ax.get_yticklabels()]], [cb.extend, cb.extendfrac, cb.drawedges, [t.get_text() for t in cb.ax.get_xticklabels() + cb.ax.get_yticklabels()]], 'colour bar settings')
            T.ev('colour bars')
        finally:
            plt.close(fig._raw)
            plt.close(tf)
    T.sig(repr(c), a, name, cm, repr(lev), al)


# ---------------------------------------------------------------- configuration
GROUPS = {'lines': dict(linewidth=[1., 4.], markersize=[3., 9.], linestyle=['--', ':']), 'axes': dict(labelsize=[9., 22.], linewidth=[.5, 3.], grid=[True, False]), 'xtick': dict(labelsize=[7., 18.], top=[True, False], direction=['in', 'out']),
          'figure': dict(dpi=[50., 150.], figsize=[[3., 3.], [2., 5.]]), 'legend': dict(loc=['upper left', 'best'], fontsize=[6., 12.], frameon=[True, False]), 'font': dict(size=[8., 12.], weight=['bold', 'normal']),
          'figure.subplot': dict(wspace=[.1, .5], hspace=[.1, .6]), 'xtick.major': dict(width=[.5, 3.], size=[2., 12.]), 'hist': dict(bins=[7, 31]), 'savefig': dict(dpi=[33., 77.]), 'mathtext': dict(default=['it', 'rm'])}


def flat_rc(d):
    """rcParams a configuration dictionary stands for."""
    out = {}
    with mpl.rc_context():
        for g, v in d.items():
            for k, x in v.items():
                mpl.rcParams[f'{g}.{k}'] = x
                out[f'{g}.{k}'] = mpl.rcParams[f'{g}.{k}']
    return out


def config(rng, T):
    """Configuration objects, their updates and style sheets."""
    default = repr(RuntimeConfig.default_config_dict)
    sheets = repr(RuntimeConfig.stylesheets)
    base = {k: dict(v) for k, v in RuntimeConfig.default_config_dict.items()}

    def rnd():
        out = {}
        for g in GROUPS:
            if chance(rng, .3):
                d = {k: pick(rng, v) for k, v in GROUPS[g].items() if chance(rng, .6)}
                if d:
                    out[g] = d
        return out
    with mpl.rc_context():
        start = dict(mpl.rcParams)
        first = rnd() if chance(rng, .7) else None
        cfg = RuntimeConfig(first) if first is not None or chance(rng, .5) else RuntimeConfig()
        other = RuntimeConfig()
        model = dict(base)
        model |= first or {}
        T.check(dict(mpl.rcParams) == start, 'building a configuration changes no global setting')
        applied = {}
        for _ in range(int(rng.integers(2, 7))):
            k = pick(rng, ['update', 'update', 'set', 'sheet', 'sheet_off', 'foreign', 'none'])
            before = dict(mpl.rcParams)
            if k == 'update':
                d = rnd()
                s = repr(d)
                T.check(cfg.update(d) is cfg, 'update returns the configuration')
                model |= d
                T.check(repr(d) == s, 'update leaves its argument alone')
                T.check(dict(mpl.rcParams) == before, 'update changes no global setting')
            elif k == 'none':
                cfg.update(None)
                cfg.update()
            elif k == 'foreign':
                d = flat_rc(rnd())
                mpl.rcParams.update(d)
            elif k == 'set':
                T.check(cfg.set_global() is cfg, 'set_global returns the configuration')
                want = before | flat_rc(model)
                T.check(dict(mpl.rcParams) == want, 'set_global sets exactly its settings', diff={q: (mpl.rcParams[q], want[q]) for q in want if mpl.rcParams[q] != want[q]})
                T.ev('applied')
            else:
                names = [pick(rng, ['default', 'mathtext-it']) for _ in range(int(rng.integers(0, 3)))]
                on = k == 'sheet'
                T.check((cfg.use_stylesheets(*names) if on and chance(rng, .5) else cfg.use_stylesheets(*names, set_global=on)) is cfg, 'use_stylesheets returns the configuration')
                for nm in names:
                    model |= {'default': base, 'mathtext-it': {'mathtext': {'default': 'it'}}}[nm]
                want = before | flat_rc(model) if on else before
                T.check(dict(mpl.rcParams) == want, f'style sheets {names} set={on}', diff={q: (mpl.rcParams[q], want[q]) for q in want if mpl.rcParams[q] != want[q]})
                T.ev('style sheets')
            T.check(cfg.config_dict == model, 'configuration dictionary after ' + k)
            T.check(other.config_dict == base, 'another configuration is untouched')
        T.raises(KeyError, lambda: cfg.use_stylesheets('zz'), 'unknown style sheet')
        T.check(repr(RuntimeConfig.default_config_dict) == default and repr(RuntimeConfig.stylesheets) == sheets, 'the defaults are untouched')
        T.sig(repr(model))
        T.state('models', repr(model))


def startup(rng, T):
    """Importing the plotting layer applies the default configuration."""
    import subprocess, sys, json
    code = ('import matplotlib as mpl, json\nfrom pyhipp import plot\nprint(json.dumps({k: repr(v) for k, v in mpl.rcParams.items()}))')
    env = dict(os.environ)
    out = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=env, timeout=120)
    T.check(out.returncode == 0, 'import', err=out.stderr[-500:])
    got = json.loads(out.stdout.strip().splitlines()[-1])
    code = 'import matplotlib as mpl, json\nimport matplotlib.pylab\nprint(json.dumps({k: repr(v) for k, v in mpl.rcParams.items()}))'
    bare = json.loads(subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=env, timeout=120).stdout.strip().splitlines()[-1])
    want = bare | {k: repr(v) for k, v in flat_rc(RuntimeConfig.default_config_dict).items()}
    T.eq({k: got[k] for k in sorted(got)}, {k: want[k] for k in sorted(want)}, 'settings after the import')
    T.ev('start')
    T.sig('startup')


# ---------------------------------------------------------------- astronomy helpers
def secondary(rng, T):
    """Secondary axes and polygons of the astronomy helpers."""
    fig, ax = plot.subplots(figsize=(3, 3), layout='none')
    try:
        lo, hi = sorted(rng.uniform(0, 1.2, 2))
        hi += .1
        ax.lim((lo, hi), (lo, hi))
        h = AstroAxes(ax)
        kind = pick(rng, ['fn', 'z', 'same', 'interp', 'poly', 'raw'])
        loc = pick(rng, ['top', 'bottom', 'left', 'right'])
        kw = {} if loc == 'top' and chance(rng, .5) else {'location': loc}
        ax_axis = 'x' if loc in ('top', 'bottom') else 'y'
        hide = True
        if chance(rng, .4):
            hide = kw['hide_first_ticks'] = bool(rng.integers(2))
        ticks = label = None
        if chance(rng, .6):
            ticks = [1., 2., 3.5]
            kw['ticks'] = ticks
        if chance(rng, .6):
            label = 'lab'
            kw['label'] = label
        extra = {}
        if kind in ('fn', 'same', 'interp', 'z') and chance(rng, .4):
            extra = pick(rng, [{'zorder': 7}, {'facecolor': 'y'}, {'visible': False}])
            kw |= extra
        T.note(kind=kind, kw=kw)
        before = {w: dict((ax._raw.xaxis if ax_axis == 'x' else ax._raw.yaxis).get_tick_params(which=w)) for w in ('major', 'minor')}
        if kind == 'poly':
            n1, n2 = int(rng.integers(1, 6)), int(rng.integers(2, 6))
            c1, c2 = rng.uniform(0, 1, (2, n1)), rng.uniform(0, 1, (2, n2))
            fz = Frozen(c1=c1, c2=c2)
            p = {}
            if chance(rng, .5):
                p['c'] = 'r'
            if chance(rng, .5):
                p['a'] = .3
            if chance(rng, .5):
                p['patch_kw'] = {'lw': 2.5, 'zorder': 5}
            T.check(h.fill_between_xy(*c1, *c2, **p) is h, 'fill_between_xy returns its object')
            fz.check(T)
            T.check(len(ax._raw.patches) == 1, 'one polygon')
            g = ax._raw.patches[0]
            want = np.concatenate([c1.T, c2.T[::-1], c1.T[:1]])
            T.close(g.get_path().vertices, want, 'vertices')
            T.eq(tuple(g.get_facecolor()), rgba(p.get('c', 'k'), p.get('a', 1.)), 'colour')
            if 'patch_kw' in p:
                T.eq([g.get_linewidth(), g.get_zorder()], [2.5, 5], 'patch settings')
            T.ev('polygons')
            T.sig(kind, n1, n2, sorted(p))
            return
        if kind == 'raw':
            fns = (lambda v: 2 * v + 1, lambda v: (v - 1) / 2)
            if chance(rng, .4):
                extra = pick(rng, [{'zorder': 7}, {'facecolor': 'y'}, {'visible': False}])
            s = getattr(ax, f'secondary_{ax_axis}axis')(loc, **extra, functions=fns)
            fwd = fns[0]
            hide, ticks, label = False, None, None
        elif kind == 'fn':
            fwd = lambda v: 3 * v - .5
            s = h.add_secondary_axis(fwd, lambda v: (v + .5) / 3, **kw)
        elif kind == 'z':
            fwd = lambda v: 10.**v - 1
            s = h.add_secondary_axis_lgzp1_to_z(**kw)
            ticks = ticks if ticks else [0, 1, 2, 3, 4, 5, 7, 10, 14]
            label = label or '$z$'
        elif kind == 'same':
            fwd = lambda v: v
            s = h.add_secondary_identical_axis(**kw)
        else:
            xs = np.sort(rng.uniform(0, 1.5, 5)) + np.arange(5) * .01
            ys = np.cumsum(rng.uniform(.1, 1, 5))
            fwd = lambda v: np.interp(v, xs, ys) if True else v

            def fwd(v):
                v = np.asarray(v, float)
                out = np.interp(v, xs, ys)
                s0, s1 = (ys[1] - ys[0]) / (xs[1] - xs[0]), (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
                return np.where(v < xs[0], ys[0] + s0 * (v - xs[0]), np.where(v > xs[-1], ys[-1] + s1 * (v - xs[-1]), out))
            if chance(rng, .3):
                kw['interp_kw'] = pick(rng, [{'kind': 'linear'}, {'copy': False}, {'kind': 'next'}])
                if kw['interp_kw'].get('kind') == 'next':       # a step upwards at every node
                    xs[0], xs[-1] = lo - .1, hi + .1
                    xs.sort()
                    fwd = lambda v: ys[np.searchsorted(xs, np.asarray(v, float), side='left')]
            s = h.add_secondary_axis_interp(xs, ys, **kw)
        T.check(isinstance(s, plot.Axes) and s is not ax, 'a new axes')
        T.check(s._raw in ax._raw.child_axes, 'attached to its parent')
        axis = s._raw.xaxis if ax_axis == 'x' else s._raw.yaxis
        T.check(s._raw._orientation == ax_axis and s._raw._locstrings[0] == loc, 'side of the secondary axes', got=s._raw._locstrings, want=loc)
        s._raw._set_lims()
        lim = s._raw.get_xlim() if ax_axis == 'x' else s._raw.get_ylim()
        T.close(lim, fwd(np.array([lo, hi])), 'limits of the secondary axes', rtol=1e-7, atol=1e-9)
        for a, b in extra.items():
            v = getattr(s._raw, f'get_{a}')()
            T.eq(tuple(v) if a == 'facecolor' else v, mcolors.to_rgba(b) if a == 'facecolor' else b, f'{a} of the secondary axes')
        if label is not None:
            T.eq(axis.get_label_text(), label, 'label of the secondary axes')
        if ticks is not None:
            T.close(np.asarray(axis.get_major_locator().locs, float), np.asarray(ticks, float), 'ticks of the secondary axes')
        main = ax._raw.xaxis if ax_axis == 'x' else ax._raw.yaxis
        for w in ('major', 'minor'):
            now = main.get_tick_params(which=w)
            want = dict(before[w])
            if hide:
                want[loc] = False
            T.eq({k: now.get(k) for k in sorted(set(now) | set(want))}, {k: want.get(k) for k in sorted(set(now) | set(want))}, f'{w} ticks of the parent axes')
        fig._raw.canvas.draw()
        T.ev('secondary')
        T.state('secondary', (kind, loc, hide, ticks is not None, label is not None))
        T.sig(kind, loc, hide, repr(ticks), label, lo, hi)
        if chance(rng, .2):
            T.raises(ValueError, lambda: h.add_secondary_axis(lambda v: v, lambda v: v, location='middle'), 'unknown side')
    finally:
        plt.close(fig._raw)


def planes(rng, T):
    """Density plots: meshes, contours and points against a twin drawn by bare matplotlib."""
    n = int(pick(rng, [30, 80]))
    x, y = rng.normal(size=(2, n)) * pick(rng, [1., 10.])
    w = rng.random(n) + .05 if chance(rng, .3) else None
    fz = Frozen(x=x, y=y)
    fig, ax = plot.subplots(figsize=(3, 3), layout='none')
    tf = plt.figure(figsize=(3, 3))
    tx = tf.subplots()
    try:
        kw = {'n_bins': pick(rng, [6, (5, 9)])}
        if w is not None:
            kw['weight'] = w
        if chance(rng, .3):
            kw['range'] = (float(np.quantile(x, .02)), float(x.max()) + 1), (float(y.min()) - 1, float(np.quantile(y, .97)))
        if chance(rng, .3):
            kw['z_transform'] = np.sqrt
        s = ax.scatter_2d(x, y, **kw)
        nb = kw['n_bins'] if isinstance(kw['n_bins'], tuple) else (kw['n_bins'],) * 2
        rg = kw.get('range', ((x.min(), x.max()), (y.min(), y.max())))
        xe, ye = [np.linspace(*r, b + 1) for r, b in zip(rg, nb)]
        xc, yc = .5 * (xe[1:] + xe[:-1]), .5 * (ye[1:] + ye[:-1])
        z = s.transformed_density_on_mesh
        same_fig(T, [ax._raw], [tx], 'fresh plane')
        log = []
        for _ in range(int(rng.integers(1, 4))):
            k = pick(rng, ['mesh', 'contour', 'contour', 'area', 'points'])
            opt = {}

            def may(name, vals, p=.3):
                if chance(rng, p):
                    opt[name] = pick(rng, vals)
            may('zorder', [0, 4, 7])
            may('alpha', [None, .25, .75])
            lo, hi = float(z.min()), float(z.max())
            if k == 'mesh':
                may('cmap', ['viridis', 'RdBu'])
                may('edgecolors', ['k', 'face'])
                may('label', ['density'])
                may('antialiased', [True, False])
                if chance(rng, .3):
                    opt['norm'] = mcolors.PowerNorm(.5, lo, hi + 1)
                else:
                    may('vmin', [lo - 1., None])
                    may('vmax', [hi + 2., (lo + hi) / 2 + 1e-3])
                out = s.mesh(**opt)
                tx.pcolormesh(xe, ye, z, **(dict(cmap='jet', edgecolors='none') | opt))
            elif k in ('contour', 'area'):
                ps = pick(rng, [None, (.99, .95, .68), [.9, .3], (.8,), np.array([.95, .7, .4, .1])])
                ls = s.z_level_at_percentile((.99, .95, .68) if ps is None else ps)
                if len(np.unique(ls)) < len(ls):
                    continue
                m = len(ls)
                if k == 'area' and m < 2:
                    continue
                if chance(rng, .5):
                    opt['colors'] = pick(rng, ['r', ['r', 'g', 'b', 'y'][:m]])
                elif chance(rng, .5):
                    opt |= {'colors': None, 'cmap': pick(rng, ['viridis', 'RdBu'])}
                    if chance(rng, .3):
                        opt['norm'] = mcolors.PowerNorm(.5, lo, hi + 1)
                    else:
                        may('vmin', [lo - 1., None], .5)
                        may('vmax', [hi + 2., float(np.max(ls)) + .5], .5)
                lw, st = np.linspace(1, 3, m), [(0, (g, 3)) for g in np.linspace(3, 6, m - 1)] + ['-']
                if k == 'contour':
                    if chance(rng, .4):
                        opt['lw'] = lw = pick(rng, [1.5, list(np.linspace(2, .5, m))])
                    if chance(rng, .4):
                        opt['ls'] = st = pick(rng, ['--', ['-', ':', '--', '-.'][:m]])
                mk = dict(levels=ls, colors='k') | {a: b for a, b in opt.items() if a not in ('lw', 'ls')}
                if ps is None and chance(rng, .5):
                    out = s.contour(use_fill=k == 'area', **opt) if k == 'area' or chance(rng, .5) else s.contour(**opt)
                else:
                    out = s.contour(ps, k == 'area', **opt)
                if k == 'area':
                    tx.contourf(xc, yc, z, **mk)
                else:
                    tx.contour(xc, yc, z, linewidths=lw, linestyles=st, **mk)
            else:
                may('marker', ['s', '^'])
                may('s', [3., 40.])
                may('c', ['r', '#12ab9f'])
                may('edgecolors', ['b', 'face'])
                may('linewidths', [2.5, 0.])
                may('label', ['points'])
                may('rasterized', [True])
                hide = float(rng.uniform(.1, .95)) if chance(rng, .4) else None
                sel = np.ones(n, bool)
                if hide is not None:
                    zp = s.density_estimator.on(x, y)
                    zp = zp if 'z_transform' not in kw else np.sqrt(zp)
                    sel = zp < s.z_level_at_percentile([hide], id_shift=-1)[0]
                    out = s.scatter(hide, **opt)
                else:
                    out = s.scatter(**opt)
                tx.scatter(x[sel], y[sel], **(dict(marker='o', s=10, c='k', edgecolors='none', linewidths=1) | opt))
            T.check(out is s, f'{k} returns the plot')
            log.append((k, sorted(opt)))
            T.note(log=log)
            same_fig(T, [ax._raw], [tx], k)
            g, t = ax._raw.collections[-1], tx.collections[-1]
            T.check(g is s.plot_outs[-1], 'the last artist is kept')
            if k != 'points':
                T.eq([g.get_cmap().name, type(g.norm).__name__, g.norm.vmin, g.norm.vmax], [t.get_cmap().name, type(t.norm).__name__, t.norm.vmin, t.norm.vmax], f'colour scale of {k}')
            T.ev(f'drew {k}')
        fz.check(T)
        if chance(rng, .2):
            fig._raw.canvas.draw()
            tf.canvas.draw()
            T.check(np.array_equal(np.asarray(fig._raw.canvas.buffer_rgba()), np.asarray(tf.canvas.buffer_rgba())), 'the rendered pixels are those of the twin')
            T.ev('rendered')
        T.sig(x, log)
    finally:
        plt.close(fig._raw)
        plt.close(tf)


def saving(rng, T):
    """savefig writes the current figure; close removes it."""
    plt.close('all')
    fig, ax = plot.subplots(pick(rng, [1, 2]), figsize=(2, 1.5), layout='none')
    a = ax if isinstance(ax, plot.Axes) else ax[0]
    a.plot([0, 1], rng.uniform(0, 1, 2))
    dpi = int(pick(rng, [40, 70]))
    path = os.path.join(os.environ['VH_CASEDIR'], 'f.png')
    plot.savefig(path, dpi=dpi)
    img = plt.imread(path)
    T.eq(img.shape[:2], (int(1.5 * dpi), 2 * dpi), 'size of the image')
    fig._raw.set_dpi(dpi)
    fig._raw.canvas.draw()
    want = np.asarray(fig._raw.canvas.buffer_rgba())
    T.check(np.array_equal((img * 255).round().astype(np.uint8)[..., :3], want[..., :3]), 'the image is the figure')
    n = len(plt.get_fignums())
    plot.close()
    T.check(len(plt.get_fignums()) == n - 1 and fig._raw.number not in plt.get_fignums(), 'close removes the current figure')
    T.ev('saved')
    T.sig(dpi, rng.random())


MONITORS = [
    Monitor('history', history, 240, 4000, shards=8, need={'axes compared': 1500, 'style': 200, 'frame': 100, 'draw': 300, 'refused': 15, 'rendered': 20, **{f'drew {k}': 15 for k in ('plot', 'scatter', 'errorbar', 'fill_between', 'errorfill', 'stairs', 'hist', 'text', 'leg')}}),
    Monitor('layout', layout, 160, 2000, shards=4, need={'axes placed': 150, 'subfigures placed': 40, 'inner subplots': 40}),
    Monitor('arrays', arrays, 80, 1000, shards=2, need={'indexed': 300}),
    Monitor('formatters', formatters, 300, 5000, need={'refused': 50, **{k: 20 for k in FMT}}),
    Monitor('colors', colors, 150, 2000, shards=2, need={'colours': 100, 'colour bars': 25}),
    Monitor('config', config, 150, 3000, shards=2, need={'applied': 50, 'style sheets': 80}),
    Monitor('startup', startup, 1, 1, need={'start': 1}),
    Monitor('secondary', secondary, 100, 1500, shards=2, need={'secondary': 60, 'polygons': 8}),
    Monitor('planes', planes, 160, 2500, shards=4, need={'drew mesh': 20, 'drew contour': 30, 'drew area': 8, 'drew points': 20}),
    Monitor('saving', saving, 8, 100, need={'saved': 8}),
]
