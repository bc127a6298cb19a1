"""C33: fitting never changes the data it is given.

Frame conditions. The functions that are handed the caller's arrays (numerical kernels, term tables, regressions, data import,
trimming, estimators) are already executed symbolically by other checks, for their results. Here the same executions are repeated with a
different postcondition: whatever array existed before the function under contract was entered (the caller's arrays, in every group) holds
exactly its old values at the end of every path: normal end, exception, and the end of one arbitrary iteration of every cut loop.
The obligations about results belong to the other checks and are not repeated."""
import builtins, io, operator, os, tempfile, types, contextlib, importlib
import numpy as np
from pyvc import core, arrays, interp as interp_mod
from pyvc.core import *
from pyvc.interp import Interp, LoopContract
from pyvc.arrays import SArr, dims
from pyvc.report import need, check, Fail
from .c12 import C
from .c32 import Any_

ID = 'C33'
LEVEL = 'proof'
BUDGET = {'quick': 60, 'thorough': 600}
RULE = 'small real fits of every model on seeded arrays and data sets: all arrays, lists and dictionaries of the caller are compared before and after; non-trivial when the fit is new'


def prepare():
    import triton._C.libtriton


class Frame:
    """frame mode for one path: which stores belong to the caller, what was written"""
    depth = 0
    containers = True
    stores = {}
    installed = False


def install():
    if Frame.installed:
        return
    Frame.installed = True
    init = arrays.Store.__init__

    def store_init(self, *a, **k):
        init(self, *a, **k)
        if Frame.depth == 0 and cur() is not None:
            Frame.stores[id(self)] = (self, self.get)
    arrays.Store.__init__ = store_init
    call_node = Interp.call_node

    def entered(self, node, args, kw, *a, **k):
        snap = None
        if Frame.depth == 0 and Frame.containers and cur() is not None:
            own = bool(node.args.args) and node.args.args[0].arg in ('self', 'cls')
            given = (list(args[1:] if own else args), dict(kw))
            snap = snapshot(given)
        Frame.depth += 1
        try:
            return call_node(self, node, args, kw, *a, **k)
        finally:
            Frame.depth -= 1
            if snap is not None and snap[1]:
                d = difference(snap, snapshot(given))
                cur().prove('frame: lists, dictionaries and objects passed in are not changed' + (f' ({d})' if d else ''), z3.BoolVal(not d))
    Interp.call_node = entered
    prove = core.Path.prove

    def only_frame(self, name, goal):
        if name.startswith('frame: '):
            return prove(self, name, goal)
        o = core.Obligation(name)
        o.status = 'discharged'
        return o
    core.Path.prove = only_frame
    shaped = arrays.reshape

    def reshape(a, shp):
        try:
            return shaped(a, shp)
        except Unsupported:
            return Ten(a)                       # numpy may return a view: same memory, nothing else known
    arrays.reshape = reshape


def snapshot(x, level=0, seen=None):
    """structure of a container: (kind, parts) with identity of the leaves; objects are followed two levels"""
    seen = seen or ()
    if id(x) in seen or level > 6:
        return ('leaf', None, x)
    seen = seen + (id(x),)
    nx = lambda y: snapshot(y, level + 1, seen)
    if isinstance(x, (list, tuple)):
        return ('list', [(i, nx(y)) for i, y in enumerate(x)], x)
    if isinstance(x, dict) or type(x).__module__.startswith('kd.dataset'):
        d = x if isinstance(x, dict) else vars(x)
        return ('dict', [(k, nx(y)) for k, y in d.items()], x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return ('array', [('values', ('leaf', None, x.tobytes())), ('shape', ('leaf', None, x.shape))], x)
    return ('leaf', None, x)


def difference(a, b, at='argument'):
    if a[0] != b[0] or (a[2] is not b[2] and at.startswith('argument') and a[1] is None and not (type(a[2]) in (bytes, tuple, int, str) and a[2] == b[2])):
        return at
    if a[1] is None:
        return None
    if [repr(k) for k, _ in a[1]] != [repr(k) for k, _ in b[1]]:
        return f'{at}: entries'
    for (k, x), (_, y) in zip(a[1], b[1]):
        d = difference(x, y, f'{at}[{k!r}]')
        if d:
            return d
    return None


def in_range(st, ix):
    return z3.And(*[z3.And(i >= 0, i < lift(n)) for i, n in zip(ix, st.shape)])


def frame_check(start):
    c = cur()
    first = {}
    for st, old in arrays.WRITE_LOG[start:]:
        if id(st) in Frame.stores and id(st) not in first:
            first[id(st)] = (st, old)
    for st, old in first.values():
        ix = [z3.Int(fresh_name('fi')) for _ in st.shape]
        g = z3.Implies(in_range(st, ix), lift(st.get(*ix)) == lift(old(*ix)))
        c.prove(f'frame: the caller\'s array {st.name or "(unnamed)"} is not changed'.replace('!', ''), g)
    if not first:
        c.prove(f'frame: no array of the caller is written', z3.BoolVal(True))


class FrameCtx:
    """hands a group of another check a context in which only the frame condition is an obligation"""

    def __init__(self, ctx):
        self.__dict__['_ctx'] = ctx

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def __setattr__(self, n, v):
        setattr(self._ctx, n, v)

    def on_refuted(self, fn):
        pass

    def assume_note(self, *a):
        pass

    def run(self, fn, name=None, **k):
        def framed():
            Frame.stores = {}
            Frame.depth = 0
            start = len(arrays.WRITE_LOG)
            try:
                return fn()
            except (PathEnd, PyRaise):
                Frame.depth = 0
                raise
            finally:
                Frame.depth = 1
                frame_check(start)
                Frame.depth = 0
        return self._ctx.run(framed, name=name, raises_ok=(BaseException,))


# groups of other checks whose functions are handed the data of the caller
REUSED = {'c06': ['python_execute', 'python_execute_torch'], 'c07': ['coef_calculate'], 'c08': None, 'c10': None, 'c11': None,
          'c13': ['evaluate'], 'c15': ['tables', 'tables:no-parameters', 'grads', 'operators', 'grid', 'spacing'], 'c16': None, 'c18': ['fitness', 'translation', 'library'],
          'c21': None, 'c22': None, 'c23': None, 'c24': None, 'c28': ['import KD_Discover', 'import KD_Discover_SPR', 'settings over defaults'],
          'c29': ['input checking', 'fit', 'predictions', 'evaluation'], 'c31': None}
SKIP = {'c13': {'lists'}}       # the candidate (not data of the caller) keeps its own coefficient table


def reuse(mod, g, f):
    def run(ctx):
        install()
        Frame.containers = mod not in SKIP
        f(FrameCtx(ctx))
    return (f'frame of {mod.upper()} {g}', run)


# ------------------------------------------------------------------ estimators and tasks
class Loose(Any_):
    """an arbitrary value; a decision on it goes either way"""

    def __bool__(self):
        return cur().decide(fresh_bool('any').t)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Loose()

    def __call__(self, *a, **k): return Loose()
    def __getitem__(self, i): return Loose()
    def _op(self, *a): return Loose()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _op
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __mod__ = _op
    __hash__ = object.__hash__

    def __float__(self): return 0.0
    def __iter__(self): return iter([Loose()])


def overwrite(a):
    """an external routine changes the array in place, in an arbitrary way"""
    a[...] = SArr.symbolic(fresh_name('overwritten'), a._shape, a.sort)


class Ten(Loose):
    """tensor sharing the memory of an array: its in-place methods (names ending in an underscore) write there"""
    SAME = ('to', 'view', 'reshape', 'float', 'double', 'detach', 'cpu', 'numpy', 'contiguous', 'squeeze', 'unsqueeze', 'requires_grad_', 'retain_grad', 'T', 'data', 't')

    def __init__(self, arr):
        self.__dict__['arr'] = arr

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('T', 'data'):
            return self
        if n in self.SAME:
            return lambda *a, **k: self
        if n == 'shape':
            return dims(self.arr._shape)
        if n.endswith('_'):
            def inplace(*a, **k):
                overwrite(self.arr)
                return self
            return inplace
        return Loose()

    def __setattr__(self, n, v): pass
    def __getitem__(self, i): return self

    def __setitem__(self, i, v): overwrite(self.arr)

    def _inplace(self, o):
        overwrite(self.arr)
        return self
    __iadd__ = __isub__ = __imul__ = __itruediv__ = _inplace


class Ip(Interp):
    """unresolved calls of the training library give arbitrary values; every cut loop may do anything but write the data"""

    def __init__(self, s):
        super().__init__(s)
        import torch

        def shuffle(ip_, x, *a, **k):
            if isinstance(x, SArr):
                overwrite(x)
            else:
                raise Unsupported('shuffle of another value')
        loose = lambda ip_, *a, **k: Loose()
        for f in (torch.nn.MSELoss, torch.optim.Adam, torch.save, torch.load, torch.autograd.grad, torch.concatenate, torch.cat, torch.zeros_like, torch.empty, torch.zeros, np.random.get_state,
                  np.random.set_state, os.makedirs, builtins.print, np.random.seed, torch.manual_seed):
            self.contracts[f] = loose
        self.contracts[np.random.shuffle] = shuffle
        self.contracts[torch.from_numpy] = lambda ip_, a: Ten(a) if isinstance(a, SArr) else Loose()
        self.contracts[torch.as_tensor] = self.contracts[torch.from_numpy]
        self.contracts[torch.tensor] = loose
        self.contracts[torch.no_grad] = lambda ip_, *a, **k: contextlib.nullcontext()
        self.intrinsics[builtins.min] = self.intrinsics[builtins.max] = lambda *a, **k: Loose()
        mean = self.intrinsics.get(np.mean)
        self.intrinsics[np.mean] = lambda x, *a, **k: Loose() if isinstance(x, Any_) else mean(x, *a, **k)

        class Any_thing(LoopContract):
            modifies = ('validate_error', 'train_loss_history', 'val_loss_history', 'best_epoch')

            def check(self, info, k, when):
                pass

            def havoc(self, info, k):
                if 'validate_error' in info.env:
                    info.env['validate_error'] = Loose()
        self.loop_template = lambda fr, node: Any_thing()


    def binop(self, op, a, b):
        if isinstance(a, str) and op is operator.mod:
            return 'text'
        return super().binop(op, a, b)


def samples():
    """the caller's samples: an arbitrary number of points and values"""
    n = Int('n')
    cur().assume(n.t >= 1, check=False)
    return SArr.symbolic('X', (n, 2)), SArr.symbolic('y', (n, 1))


def estimator(cls):
    m = cls.__new__(cls)
    object.__setattr__(m, '__dict__', dict(vars(m)))
    for k, v in dict(train_ratio=0.8, valid_ratio=0.2, device='cpu', Net=Loose(), max_iter=Int('max_iter'), best_epoch=Int('best_epoch'), train_loss_history=[], val_loss_history=[], metadata={}, epi=Real('epi')).items():
        m.__dict__[k] = v
    return m


def g_train(ctx):
    DLGA = need('kd.model.dlga', 'DLGA')
    fctx = FrameCtx(ctx)
    install()

    def run():
        X, y = samples()
        Ip(ctx.session).call(DLGA.train_NN, estimator(DLGA), X, y)
    fctx.run(run)
    ctx.assume_note('the network, the optimiser and the loss do not write the tensors they are given (torch); numpy.random.shuffle permutes its argument in place')


def g_features(ctx):
    KD, DLGA = need('kd.model.kd_dlga', 'KD_DLGA'), need('kd.model.dlga', 'DLGA')
    install()

    def run():
        c = cur()
        X, y = samples()
        k = c.choose(3)
        if k == 0:
            Ip(ctx.session).call(DLGA.generate_meta_data, estimator(DLGA), X)
            return
        m = estimator(KD)
        m.__dict__['user_operators'] = [['u', 'u_x'], ['u_xxx'], []][c.choose(3)]
        Ip(ctx.session).call(KD.generate_meta_data if k == 1 else KD.predict, m, X)
    FrameCtx(ctx).run(run)
    ctx.assume_note('automatic differentiation does not write the network\'s inputs (torch)')


def g_dlga(ctx):
    """fitting on arrays and on a dataset: what is handed on are the caller's arrays, nothing writes them"""
    KD, DLGA = need('kd.model.kd_dlga', 'KD_DLGA'), need('kd.model.dlga', 'DLGA')
    from . import c21
    install()

    def ip_for(m):
        ip = c21.Ip(ctx.session)
        base = Ip(ctx.session)
        ip.contracts.update(base.contracts)
        ip.contracts[DLGA.train_NN] = lambda ip_, me, X, y: (Loose(), Loose())          # contract: group 'train'
        ip.contracts[KD.generate_meta_data] = lambda ip_, me, X: Loose()               # contract: group 'features'
        ip.contracts[KD.evolution] = lambda ip_, me: (Loose(), Loose(), Loose(), Loose())
        ip.contracts[KD.convert_chrom_to_eq] = lambda ip_, me, *a: 'equation'
        ip.contracts[need('kd.viz.dlga_eq2latex', 'dlga_eq2latex')] = lambda ip_, *a, **k: 'latex'
        return ip

    def arrays_():
        X, y = samples()
        m = estimator(KD)
        m.__dict__['user_operators'] = ['u', 'u_x']
        ip_for(m).call(KD.fit, m, X, y)

    def dataset():
        c = cur()
        P = need('kd.dataset', 'PDEDataset')
        ds, order, co, u = c21.build()
        m = estimator(KD)
        m.__dict__['user_operators'] = ['u', 'u_x']
        ip = ip_for(m)
        ip.contracts[P.sample] = lambda ip_, me, *a, **k: samples()                     # contract: C22
        ip.contracts[P.mesh] = lambda ip_, me, *a, **k: SArr.symbolic(fresh_name('mesh'), (Int('n'), len(order)))      # contract: C21
        kw = dict(Xy_from=['sample', 'mesh'][c.choose(2)])
        if c.choose(2):
            kw['sample'] = Int('n_samples')
        ip.call(KD.fit_dataset, m, ds, **kw)
    FrameCtx(ctx).run(arrays_)
    FrameCtx(ctx).run(dataset)


def g_pysr(ctx):
    KD = need('kd.model.kd_pysr', 'KD_PySR')
    install()

    def run():
        c = cur()
        n = Int('n')
        c.assume(n.t >= 0, check=False)
        X = SArr.symbolic('X', (n, Int('p')) if c.choose(2) else (n,))
        y = SArr.symbolic('y', [(n,), (n, 1), (Int('m'),)][c.choose(3)])
        m = KD.__new__(KD)
        ip = Interp(ctx.session)
        ip.contracts[KD._build_backend] = lambda ip_, me: Loose()
        ip.contracts[KD._update_equation_info] = lambda ip_, me: None
        ip.call(KD.fit, m, X, y)
    FrameCtx(ctx).run(run)
    ctx.assume_note('PySR does not write the arrays it is given (external, not installed)')


def g_tasks(ctx):
    """the tasks of the reinforcement search take the data over as they are"""
    PDE, Reg = need('kd.model.discover.task.pde.pde', 'PDETask'), need('kd.model.discover.task.regression', 'RegressionTask')
    install()

    def tokens(ip, mod):
        m = need(mod)
        ip.contracts[m.create_tokens] = lambda ip_, *a, **k: []
        ip.contracts[m.Library] = lambda ip_, t: types.SimpleNamespace(tokens=[])

    def pde():
        c = cur()
        t = PDE.__new__(PDE)
        t.__dict__.update(function_set=['add'], protected=False, decision_tree_threshold_set=None)
        nx, nt = Int('nx'), Int('nt')
        d = dict(u=SArr.symbolic('u', (nx, nt)), X=[SArr.symbolic('x', (nx, 1))], ut=SArr.symbolic('ut', (nx, nt)))
        if c.choose(2):
            d.update(sym_true='add', n_input_dim=1)
        if c.choose(2):
            d.update(param_data=[SArr.symbolic('p', (nx, nt))], n_param_var=1, param_names=['nu'])
        ip = Interp(ctx.session)
        tokens(ip, 'kd.model.discover.task.pde.pde')
        ip.call(PDE.load_data, t, d)

    def reg():
        c = cur()
        t = Reg.__new__(Reg)
        t.__dict__.update(function_set=['add'], protected=False, decision_tree_threshold_set=None)
        n = Int('n')
        d = dict(X=[SArr.symbolic('x1', (n, 1)), SArr.symbolic('x2', (n,))], y=SArr.symbolic('y', [(n,), (n, 1)][c.choose(2)]))
        if c.choose(2):
            d.update(n_input_var=2, var_names=['a', 'b'])
        ip = Interp(ctx.session)
        tokens(ip, 'kd.model.discover.task.regression')
        ip.call(Reg.load_data, t, d)
    FrameCtx(ctx).run(pde)
    FrameCtx(ctx).run(reg)


SGA = 'kd.model.sga.sgapde.context'


def problem(c, ndim, legacy=False, params=False):
    """configuration of the genetic search as the model builds it: the caller's arrays, dictionaries and lists"""
    from . import sga
    axes = [['x', 't'], ['t', 'x']][c.choose(2)] if ndim == 2 else ['t', 'y', 'x']
    N = {a: Int('n_' + a) for a in axes}
    for a in axes:
        c.assume(N[a].t >= (1 if legacy else 2), check=False)
    grid = tuple(N[a] for a in axes)
    cfg = types.SimpleNamespace(fields_data=None, coords_1d=None, axis_order=None, u_data=None, x_data=None, t_data=None, target_field='u', param_fields=None, use_metadata=False,
                                enforce_uniform_grid=bool(c.choose(2)), primary_spatial_axis=None, delete_edges=ndim == 2, use_autograd=False, has_ground_truth=False, right_side=None, left_side=None,
                                right_side_origin=None, left_side_origin=None, divide=Loose(), device='cpu', simple_mode=True, problem_name='p', model_path=None)
    if legacy:
        cfg.u_data, cfg.x_data, cfg.t_data = SArr.symbolic('u', (N['x'], N['t'])), SArr.symbolic('x', (N['x'],)), SArr.symbolic('t', (N['t'], 1))
    else:
        cfg.fields_data = {'u': SArr.symbolic('u', grid), 'v': SArr.symbolic('v', grid)}
        cfg.coords_1d = {a: SArr.symbolic(a, (N[a],)) for a in axes}
        cfg.axis_order = list(axes)
    if params:
        cfg.param_fields = {'nu': SArr.symbolic('nu', grid if not legacy else (N['x'], N['t']))}
    return cfg


def g_context(ctx):
    P = need(SGA, 'ProblemContext')
    install()

    def run(ndim, legacy):
        c = cur()
        odd = legacy and not c.choose(2)
        c.odd_values = odd
        cfg = problem(c, ndim, legacy, not odd and bool(c.choose(2)))
        if odd:
            cfg.delete_edges = False
        given = [v for v in (cfg.fields_data, cfg.coords_1d, cfg.axis_order, cfg.param_fields) if v is not None]
        before = snapshot(given)
        s = P.__new__(P)
        s.config, s.device, s.simple_mode, s.target_field, s.lhs_axis = cfg, 'cpu', True, 'u', 't'
        ip = Interp(ctx.session)
        for f, usual in ((np.allclose, True), (np.any, False), (np.all, True)):           # arbitrary values; in the other variants those of an acceptable grid
            ip.contracts[f] = lambda ip_, *a, usual=usual, **k: fresh_bool('any') if c.odd_values else usual
        ip.contracts[P._finite_diff_along_axis] = lambda ip_, a, *r, **k: SArr.symbolic(fresh_name('derivative'), a._shape)     # contract: C10 (frame of the stencils)
        ip.contracts[builtins.print] = lambda ip_, *a, **k: None
        base = ip.intrinsics.get(np.array)
        ip.contracts[np.array] = lambda ip_, x, *a, **k: [list(r) for r in x] if isinstance(x, list) else base(x, *a, **k)
        try:
            for f in (P._load_data, P._initialize_slicing_indices, P._init_operators, P._calculate_derivatives_difference, P._compute_grad_fields, P._update_operators_with_derivatives, P._calculate_errors):
                ip.call(f, s)
        finally:
            d = difference(before, snapshot(given))
            c.prove('frame: the dictionaries of fields, coordinates and parameters are not changed' + (f' ({d})' if d else ''), z3.BoolVal(not d))
    for nd, leg in ((2, False), (2, True), (3, False)):
        FrameCtx(ctx).run(lambda: run(nd, leg), name=f'{nd} axes' + (', arrays given one by one' if leg else ''))


class Grad(Loose):
    requires_grad = True

    def __getitem__(self, i): return self


class Net_(Loose):
    """a trained network for two axes"""
    in_features = 2

    def __call__(self, *a):
        r = Loose()
        r.__dict__.update(ndim=2, shape=(1, 1))
        return r


def g_autograd(ctx):
    """the dictionaries of trained models given by the caller"""
    P = need(SGA, 'ProblemContext')
    install()

    def run():
        c = cur()
        cfg = problem(c, 2)
        cfg.autograd_models = [None, {}, {'v': Net_()}][c.choose(3)]
        cfg.autograd_model = [None, Net_()][c.choose(2)]
        cfg.autograd_model_paths = [None, {}, {'v': 'net.pkl'}][c.choose(3)]
        cfg.model_path = [None, 'other.pkl'][c.choose(2)]
        cfg.autograd_fields = [None, ['u']][c.choose(2)]
        given = [v for v in (cfg.autograd_models, cfg.autograd_model_paths, cfg.autograd_fields) if isinstance(v, (dict, list))]
        before = snapshot(given)
        s = P.__new__(P)
        s.__dict__.update(config=cfg, device='cpu', target_field='u', lhs_axis='t', fields=cfg.fields_data, coords_1d=cfg.coords_1d, axis_order=list(cfg.axis_order),
                          axis_map={a: i for i, a in enumerate(cfg.axis_order)}, primary_spatial_axis='x', u=cfg.fields_data['u'], u_origin=cfg.fields_data['u'], coord_grids={a: SArr.symbolic('grid_' + a, cfg.fields_data['u']._shape) for a in cfg.axis_order}, delta={'x': Real('dx'), 't': Real('dt')})
        s.x_origin, s.t_origin = s.coord_grids['x'], s.coord_grids['t']
        cfg.hidden_dim = cfg.max_epoch = cfg.train_ratio = cfg.seed = 1
        cfg.normal = True
        ip = Ip(ctx.session)
        float_ = lambda ip_, x=0: 1.0
        m_ = need(SGA)
        ip.contracts[m_.train_metanet] = lambda ip_, *a, **k: (Net_(), Loose())          # contract: group 'SGA training'
        ip.contracts[m_.Net] = lambda ip_, *a, **k: Net_()
        ip.contracts[np.stack] = ip.contracts[np.std] = ip.contracts[np.where] = ip.contracts[np.ones] = lambda ip_, *a, **k: Loose()
        ip.contracts[P._finite_diff_along_axis] = lambda ip_, a, *r, **k: Loose()
        ip.contracts[need('torch').autograd.grad] = lambda ip_, *a, **k: Grad()
        ip.contracts[np.array] = lambda ip_, x, *a, **k: Loose()
        ip.contracts[os.path.exists] = lambda ip_, p: bool(cur().choose(2))
        ip.contracts[builtins.float] = float_
        try:
            ip.call(P._calculate_derivatives_autograd, s)
        finally:
            d = difference(before, snapshot(given))
            c.prove('frame: the dictionaries of trained models are not changed' + (f' ({d})' if d else ''), z3.BoolVal(not d))
    FrameCtx(ctx).run(run)


def g_metanet(ctx):
    """training samples for a network are made from the arrays of the problem"""
    prep, tr = need('kd.model.sga.sgapde.metann', 'prepare_training_data', 'train_metanet')
    install()

    def run():
        c = cur()
        n, m = Int('n'), Int('m')
        c.assume(z3.And(n.t >= 2, m.t >= 2), check=False)
        order = [['x', 't'], ['t', 'x'], None][c.choose(3)]
        N = {'x': n, 't': m}
        coords = {'x': SArr.symbolic('x', (n,)), 't': SArr.symbolic('t', (m,))}
        field = SArr.symbolic('u', tuple(N[a] for a in order or coords))
        ip = Ip(ctx.session)
        ip.contracts[np.stack] = ip.contracts[np.where] = ip.contracts[np.array] = lambda ip_, *a, **k: Loose()
        norm = bool(c.choose(2))
        ip.call(prep, coords, field, axis_order=order, normalize=norm)
    FrameCtx(ctx).run(run)


def groups():
    out = [('SGA training', g_metanet), ('SGA context', g_context), ('SGA trained models', g_autograd), ('train', g_train), ('features', g_features), ('DLGA', g_dlga), ('PySR', g_pysr), ('tasks', g_tasks)]
    for mod, sel in REUSED.items():
        m = importlib.import_module('checks.' + mod)
        for g, f in m.groups():
            if sel is None or g in sel:
                out.append(reuse(mod, g, f))
    return out


# ------------------------------------------------------------------ run-time part (bounded): real fits
def deep(x, level=0, seen=None):
    """copy of everything the caller handed over, for comparison by value"""
    seen = seen or ()
    if id(x) in seen or level > 6:
        return None
    seen += (id(x),)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.str, x.tobytes() if x.dtype != object else repr(x))
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [deep(v, level + 1, seen) for v in x]
    if isinstance(x, dict):
        return {repr(k): deep(v, level + 1, seen) for k, v in x.items()}
    if type(x).__module__.startswith('kd.dataset'):
        return {k: deep(v, level + 1, seen) for k, v in vars(x).items()}
    return x if isinstance(x, (int, float, str, bool, type(None))) else id(x)


def different(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{at}: entries {sorted(set(a) ^ set(b))}'
        return next((d for k in a for d in [different(a[k], b[k], f'{at}[{k}]')] if d), None)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((d for i, (x, y) in enumerate(zip(a, b)) for d in [different(x, y, f'{at}[{i}]')] if d), None)
    return None if a == b or (a != a and b != b) else at


@contextlib.contextmanager
def unchanged(what, given):
    before = deep(given)
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
        old = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
    d = different(before, deep(given))
    check(d is None, f'{what} changed what the caller gave: {d}', what)


def dataset(rng, k=None, dims='2d'):
    from . import sga
    PDEDataset = need('kd.dataset', 'PDEDataset')
    f, c, o, ex = sga.problem(rng.randrange(1000) if k is None else k, dims)
    if rng.random() < .3:
        f = {n: v.astype(np.float32) for n, v in f.items()}
    return PDEDataset(equation_name='e', fields_data=f, coords_1d=c, axis_order=o, target_field='u', lhs_axis='t', param_fields=ex.get('param_fields'))


def legacy(rng):
    PDEDataset = need('kd.dataset', 'PDEDataset')
    x, t = np.linspace(0.1, 1.9, rng.randint(12, 16)), np.linspace(0, 1, rng.randint(10, 14))
    u = np.sin(np.outer(x, 1 + t)) + 0.1 * x[:, None]
    if rng.random() < .5:
        u = u.astype(np.float32)
    return PDEDataset(equation_name='e', pde_data=None, x=x, t=t, usol=u, domain=None, epi=0.1)


def rt_dlga(seed):
    import random
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    KD = need('kd.model.kd_dlga', 'KD_DLGA')
    m = KD(operators=['u', 'u_x', 'u_xx', 'u_xxx'], epi=0.1, input_dim=2, verbose=False, max_iter=2)
    m.pop_size, m.n_generations = 4, 1
    dt = rng.choice([np.float32, np.float64])
    n = rng.randint(20, 30)
    X, y = g.normal(size=(n, 2)).astype(dt), g.normal(size=(n, 1)).astype(dt)
    ops, ds = list(m.operators), legacy(rng)
    with unchanged('fitting KD_DLGA', (X, y, ds, m.operators)):
        if rng.random() < .5:
            m.fit(X, y)
        else:
            m.fit_dataset(ds, **rng.choice([{}, {'sample': 30}, {'Xy_from': 'mesh'}]))
        m.predict(X)


def rt_sga(seed):
    import random
    rng = random.Random(seed)
    KD = need('kd.model.kd_sga', 'KD_SGA')
    ds = dataset(rng, dims=rng.choice(['2d', 'multi', '3d']))
    m = KD(sga_run=1, num=3, depth=2, width=2, seed=seed % 100, delete_edges=rng.random() < .5 and len(ds.axis_order) == 2)
    with unchanged('fitting KD_SGA', (ds, ds.fields_data, ds.coords_1d)):
        m.fit_dataset(ds)
        m.context_.u.shape


def rt_networks(seed):
    """derivatives from trained networks: the caller's dictionaries and arrays"""
    import random
    rng = random.Random(seed)
    P, Cfg, Net = need(SGA, 'ProblemContext'), need('kd.model.sga.sgapde.config', 'SolverConfig'), need('kd.model.sga.sgapde.config', 'Net')
    from . import sga
    f, c, o, ex = sga.problem(seed % 50, rng.choice(['2d', 'y', '3d']))
    models = rng.choice([{}, {'u': Net(len(o), 4, 1)}])
    paths = rng.choice([None, {}])
    kw = dict(fields_data=f, coords_1d=c, axis_order=o, target_field='u', lhs_axis='t', use_autograd=True, max_epoch=1, hidden_dim=4, autograd_models=models, seed=1)
    if paths is not None:
        kw['autograd_model_paths'] = paths
    with unchanged('computing derivatives with networks', (f, c, o, models, paths)):
        cfg = Cfg(**{k: v for k, v in kw.items() if k in Cfg.__init__.__code__.co_varnames})
        for k, v in kw.items():
            setattr(cfg, k, v)
        P(cfg)


def rt_discover(seed):
    import random
    rng = random.Random(seed)
    KD = need('kd.model.kd_discover', 'KD_Discover')
    PG = need('kd.model.discover.program', 'Program')
    ds = legacy(rng)
    b, u = ['add', 'mul', 'diff'], ['n2']
    old = KD.__dict__.get('make_gp_aggregator')
    KD.make_gp_aggregator = lambda self: None
    before_task = {k: PG.__dict__.get(k) for k in ('task', 'library', 'execute_function')}
    try:
        with unchanged('fitting KD_Discover', (ds, b, u)) as d:
            m = KD(binary_operators=b, unary_operators=u, n_iterations=1, n_samples_per_batch=8, seed=seed % 100)
            m.import_dataset(ds)
            m.train(n_epochs=1, verbose=False)
    finally:
        if old is None:
            del KD.make_gp_aggregator
        else:
            KD.make_gp_aggregator = old
        PG.clear_cache()


def rt_sparse(seed):
    import random
    rng = random.Random(seed)
    A = need('kd.model.discover.adapter', 'DiscoverSparseAdapter')
    ds = legacy(rng)
    kw = rng.choice([dict(sample=20), dict(sample_ratio=0.3), dict(sample=20, spline_sample=True), dict(sample=20, data_ratio=0.5), dict(sample=10, cut_quantile=0.1), dict(sample=20, noise_level=0.1)])
    with unchanged('preparing sparse data', (ds, kw)):
        a = A(ds, colloc_num=20, random_state=1, **kw)
        a.get_data()


def rt_regression(seed):
    import random
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    KD = need('kd.model.kd_discover_regression', 'KD_Discover_Regression')
    n, p = rng.randint(8, 20), rng.randint(1, 3)
    X, y = g.normal(size=(n, p)), g.normal(size=rng.choice([(n,), (n, 1)]))
    names, b, u = rng.choice([None, [f'v{i}' for i in range(p)]]), ['add', 'mul', 'sub'], ['sin', 'n2']
    with unchanged('fitting KD_Discover_Regression', (X, y, names, b, u)) as d:
        m = KD(n_iterations=1, n_samples_per_batch=8, binary_operators=b, unary_operators=u, out_path=d, seed=seed % 100)
        m.fit(X, y, var_names=names) if names else m.fit(X, y)
        m.predict(X)
    need('kd.model.discover.program', 'Program').clear_cache()


def rt_pysr(seed):
    import random
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    M = need('kd.model.kd_pysr')
    got = {}

    class Backend:
        def __init__(self, **kw): got.update(kw)
        def fit(self, X, y): got.update(X=X, y=y)
        def predict(self, X): return np.zeros(len(X))
        def get_best(self): return {'equation': 'x0'}
        def sympy(self): return None
    n, p = rng.randint(3, 9), rng.randint(1, 3)
    X, y = g.normal(size=(n, p)), g.normal(size=rng.choice([(n,), (n, 1)]))
    b, extra = ['+'], {'maxsize': 9}
    old = M._PySRRegressor
    M._PySRRegressor = Backend
    try:
        with unchanged('fitting KD_PySR', (X, y, b, extra)):
            m = M.KD_PySR(niterations=1, binary_operators=b, extra_model_kwargs=extra)
            m.fit(X, y)
            m.predict(X)
    finally:
        M._PySRRegressor = old


def cases(tier, rng):
    fs = [rt_dlga, rt_sga, rt_networks, rt_discover, rt_sparse, rt_regression, rt_pysr]
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        yield C(fs[i % len(fs)]), dict(seed=s), (fs[i % len(fs)].__name__, s)
        i += 1
