"""Interfaces to simulators: MuJoCo, PyBullet, Gym, DeepMind control suite, Atari.  The simulator itself is a stand-in with arbitrary
(symbolic) state; what is checked is what the interfaces make of it."""
import types
import warnings
from collections import OrderedDict
from props.common import *
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import gym
    import mujoco
    import pybullet
    import cv2
    from dm_control import suite
    import mushroom_rl.environments.mujoco as mjenv
    import mushroom_rl.environments.pybullet as pbenv
    import mushroom_rl.environments.gym_env as gymenv
    import mushroom_rl.environments.dm_control_env as dmenv
    import mushroom_rl.environments.atari as atenv
from mushroom_rl.utils.mujoco import ObservationHelper, ObservationType
from mushroom_rl.utils.pybullet import IndexMap, JointsHelper, PyBulletObservationType
from mushroom_rl.utils.frames import LazyFrames

OT, PT = ObservationType, PyBulletObservationType


class patched(object):
    """module attributes replaced by stand-ins while the scenario runs"""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.old = [(o, k, getattr(o, k)) for o, k, _ in self.items]
        for o, k, v in self.items:
            setattr(o, k, v)

    def __exit__(self, *a):
        for o, k, v in self.old:
            setattr(o, k, v)


# ---- MuJoCo ------------------------------------------------------------------------------------------------------------------

class Named(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Joint(object):
    """a joint of the data: assigning to qpos or qvel writes into the simulation"""

    def __init__(self, q, v):
        self.__dict__['q'], self.__dict__['v'] = q, v

    qpos = property(lambda self: self.q, lambda self, x: self.q.__setitem__(slice(None), x))
    qvel = property(lambda self: self.v, lambda self, x: self.v.__setitem__(slice(None), x))


class Model(object):
    """two hinge joints (one limited), one free joint, three actuators (the last one unlimited)"""

    def __init__(self, ctx, tag='', limits=(-1., 2.)):
        self.ctx, self.tag = ctx, tag
        self.opt = Named(timestep=.25)
        self.joints = {'j1': Named(id=0, limited=True, range=np.array(limits)), 'j2': Named(id=1, limited=False, range=np.array([0., 0.])),
                       'free': Named(id=2, limited=False, range=np.array([0., 0.]))}
        self.actuators = {'m1': Named(id=0), 'm2': Named(id=1), 'm3': Named(id=2)}
        self.actuator_ctrllimited = np.array([True, True, False])
        self.actuator_ctrlrange = np.array([[-1., 1.], [-2., 3.], [0., 0.]])

    def joint(self, name):
        return self.joints[name]

    def actuator(self, name):
        return self.actuators[name]


class Data(object):
    def __init__(self, model):
        self.model, self.ctx = model, model.ctx
        self.log = []
        c, t = self.ctx, model.tag
        self.init = [c.array(t + 'q', (2,), -1, 1), c.array(t + 'v', (2,), -1, 1), c.array(t + 'fq', (7,), -1, 1), c.array(t + 'fv', (6,), -1, 1)]
        self.b = dict(b=Named(id=4, xpos=c.array(t + 'xp', (3,), -1, 1), xquat=c.array(t + 'xq', (4,), -1, 1)))
        self.s = dict(s=Named(xpos=c.array(t + 'sp', (3,), -1, 1), xmat=c.array(t + 'sm', (9,), -1, 1)))
        self.speed = c.array(t + 'sv', (6,), -1, 1)
        self.ncon, self.contact = 0, []
        self.actuator_force = np.zeros(3)
        self.reset()

    def reset(self):
        self.log.append('reset')
        self.q, self.v, self.fq, self.fv = [x + 0. for x in self.init]
        self.ctrl = self.ctx.pack([0., 0., 0.], (3,), 'f')
        self.js = dict(j1=Joint(self.q[0:1], self.v[0:1]), j2=Joint(self.q[1:2], self.v[1:2]), free=Joint(self.fq, self.fv))

    def joint(self, name):
        return self.js[name]

    def body(self, name):
        return self.b[name]

    def site(self, name):
        return self.s[name]

    def step(self, n=1):
        self.log.append(('step', self.ctrl + 0., n))
        for k in range(2):
            self.v[k] = self.v[k] + n * self.ctrl[k]
            self.q[k] = self.q[k] + n * self.v[k]
        self.fq[0] = self.fq[0] + n * self.ctrl[2]


def mujoco_standin(models):
    """every model that is loaded is the next of the given ones"""
    def force(m, d, i, out):
        out[:] = d.forces[i]

    def velocity(m, d, kind, ident, out, local):
        assert kind == mujoco.mjtObj.mjOBJ_XBODY and ident == 4
        out[:] = d.speed * (2. if local else 1.)
    geoms = dict(g0=0, g1=1, g2=2, g3=3)
    return patched((mjenv.MuJoCo, 'load_model', staticmethod(lambda f: models.pop(0))), (mujoco, 'MjData', Data), (mujoco, 'mj_resetData', lambda m, d: d.reset()),
                   (mujoco, 'mj_step', lambda m, d, n=1: d.step(n)), (mujoco, 'mj_objectVelocity', velocity), (mujoco, 'mj_contactForce', force),
                   (mujoco, 'mj_name2id', lambda m, k, name: geoms.get(name, -1)), (mujoco, 'set_mju_user_warning', lambda f: None))


def value_of(d, name, ot):
    return {OT.JOINT_POS: lambda: d.js[name].q, OT.JOINT_VEL: lambda: d.js[name].v, OT.BODY_POS: lambda: d.b[name].xpos, OT.BODY_ROT: lambda: d.b[name].xquat,
            OT.BODY_VEL: lambda: d.speed * 2., OT.BODY_VEL_WORLD: lambda: d.speed, OT.SITE_POS: lambda: d.s[name].xpos, OT.SITE_ROT: lambda: d.s[name].xmat}[ot]()


SPECS = [[('p1', 'j1', OT.JOINT_POS), ('v1', 'j1', OT.JOINT_VEL), ('p2', 'j2', OT.JOINT_POS)],
         [('v2', 'j2', OT.JOINT_VEL), ('body', 'b', OT.BODY_POS), ('v1', 'j1', OT.JOINT_VEL), ('p1', 'j1', OT.JOINT_POS)],
         [('f', 'free', OT.JOINT_POS), ('rot', 'b', OT.BODY_ROT), ('p2', 'j2', OT.JOINT_POS), ('fv', 'free', OT.JOINT_VEL)],
         [('bv', 'b', OT.BODY_VEL), ('p1', 'j1', OT.JOINT_POS), ('bw', 'b', OT.BODY_VEL_WORLD), ('sp', 's', OT.SITE_POS), ('sr', 's', OT.SITE_ROT)]]


@scenario('P33', '4 lists of observed quantities, arbitrary simulator state', quick=[dict(k=i) for i in range(len(SPECS))], tol=1e-6)
def mujoco_observation(ctx, k):
    spec = SPECS[k]
    m = Model(ctx)
    with mujoco_standin([]):
        d = Data(m)
        nv = sum(1 for _, n, t in spec if t == OT.JOINT_VEL and n != 'free')
        vmax = [ctx.real('vm%d' % i, 1, 4) for i in range(nv)] if bool(ctx.bool('limited')) else None
        h = ObservationHelper(spec, m, d, max_joint_velocity=vmax)
        obs = h._build_obs(m, d)
        lo, hi = h.get_obs_limits()
        pos, vel = [], []
        at = 0
        vs = list(vmax or [])
        for key, name, ot in spec:
            want = value_of(d, name, ot)
            n = len(want)
            ctx.eq(obs[at:at + n], want, 'quantities in the order of the specification')
            ctx.eq(h.get_from_obs(obs, key), want, 'a quantity is found under its key')
            one = n == 1
            if one and ot == OT.JOINT_POS:
                pos.append(at)
                lim = (-1., 2.) if name == 'j1' else (-np.inf, np.inf)
            elif one and ot == OT.JOINT_VEL:
                vel.append(at)
                b = vs.pop(0) if vmax is not None else np.inf
                lim = (-b, b)
            else:
                lim = (-np.inf, np.inf)
            for i in range(n):
                for got, w in ((lo[at + i], lim[0]), (hi[at + i], lim[1])):
                    if isinstance(w, float) and abs(w) == np.inf:
                        ctx.check(isinstance(got, (float, np.floating)) and got == w, 'no limit where the simulator has none')
                    else:
                        ctx.eq(got, w, 'limits of joint positions and velocities')
            at += n
        ctx.check(len(obs) == at and len(lo) == at and len(hi) == at, 'length of the observation')
        ctx.check(list(h.get_all_observation_keys()) == [s[0] for s in spec], 'keys in order')
        jp, jv = h.get_joint_pos_from_obs(obs), h.get_joint_vel_from_obs(obs)
        ctx.check(len(jp) == len(pos) and len(jv) == len(vel), 'joint positions and velocities')
        for i, p in enumerate(pos):
            ctx.eq(jp[i], obs[p], 'joint positions in order')
        for i, p in enumerate(vel):
            ctx.eq(jv[i], obs[p], 'joint velocities in order')


@scenario('P33', 'removal of 1-3 components in increasing order, one quantity added; arbitrary simulator state', quick=[dict(k=1), dict(k=2), dict(k=3)], tol=1e-6)
def mujoco_edit(ctx, k):
    spec = SPECS[k]
    m = Model(ctx)
    with mujoco_standin([]):
        d = Data(m)
        h = ObservationHelper(spec, m, d, max_joint_velocity=None)
        vals = OrderedDict((key, list(value_of(d, n, t))) for key, n, t in spec)
        big = [key for key in vals if len(vals[key]) > 2]
        lims = OrderedDict()
        at = 0
        lo, hi = h.get_obs_limits()
        for key in vals:
            lims[key] = [(lo[at + i], hi[at + i]) for i in range(len(vals[key]))]
            at += len(vals[key])
        for key in big:
            gone = ctx.pick('gone_' + key, [[0], [2], [0, 1], [1, 2], [0, 2]] if key == big[0] else [[], [1]])
            for i in gone:
                h.remove_obs(key, i)
            for i in reversed(gone):
                del vals[key][i], lims[key][i]
        if bool(ctx.bool('add')):
            sc = bool(ctx.bool('scalar'))
            h.add_obs('new', 2, *((-1., 1.) if sc else (np.array([-1., -2.]), np.array([1., 2.]))))
            lims['new'] = [(-1., 1.), (-1., 1.)] if sc else [(-1., 1.), (-2., 2.)]
        obs = h._build_obs(m, d)
        flat = [v for key in vals for v in vals[key]]
        ctx.check(len(obs) == len(flat), 'removed components leave the observation')
        for a, b in zip(obs, flat):
            ctx.eq(a, b, 'the other components keep their order')
        ext = ctx.pack(list(flat) + ([7., 8.] if 'new' in lims else []), (len(flat) + (2 if 'new' in lims else 0),), 'f')
        for key in vals:
            got = h.get_from_obs(ext, key)
            ctx.check(len(got) == len(vals[key]), 'a quantity is found under its key')
            for a, b in zip(got, vals[key]):
                ctx.eq(a, b, 'a quantity is found under its key')
        if 'new' in lims:
            ctx.eq(h.get_from_obs(ext, 'new'), np.array([7., 8.]), 'added quantities come last')
        lo, hi = h.get_obs_limits()
        fl = [v for key in lims for v in lims[key]]
        ctx.check([float(x) for x in lo] == [float(a) for a, _ in fl] and [float(x) for x in hi] == [float(b) for _, b in fl], 'limits follow the components')
        jp = h.get_joint_pos_from_obs(ext)
        want = [vals[key][0] for key, n, t in spec if t == OT.JOINT_POS and n != 'free']
        ctx.check(len(jp) == len(want), 'joint positions')
        for a, b in zip(jp, want):
            ctx.eq(a, b, 'joint positions in order')


class Env(mjenv.MuJoCo):
    """every documented extension point notes its arguments"""

    def __init__(self, *a, **k):
        self.calls = []
        super().__init__(*a, **k)

    def note(self, name, *args):
        self.calls.append((name, [x + 0. if isinstance(x, np.ndarray) else x for x in args], len(self._data.log)))

    def _create_observation(self, obs):
        return np.append(obs, [5.])

    def _modify_observation(self, obs):
        return obs * 2.

    def _create_info_dictionary(self, obs):
        return {'o': obs}

    def _preprocess_action(self, action):
        self.note('pre', action)
        return action + 1.

    def _step_init(self, obs, action):
        self.note('init', obs, action)

    def _simulation_pre_step(self):
        self.note('presim')

    def _simulation_post_step(self):
        self.note('postsim')

    def _step_finalize(self):
        self.note('final')

    def reward(self, obs, action, next_obs, absorbing):
        self.note('reward', obs, action, next_obs, absorbing)
        return obs[0] + 2 * next_obs[0] + 4 * action[0]

    def is_absorbing(self, obs):
        self.note('absorbing', obs)
        return self.end


class Recompute(Env):
    def _compute_action(self, obs, action):
        self.note('compute', obs, action)
        return action + obs[0]


@scenario('P33', '1-2 intermediate steps of 1-3 substeps, 1-2 environment steps, 2 actuators of 3; arbitrary state and actions', tol=1e-5, max_paths=2000,
          quick=[dict(ni=1, ns=1, re=False, t=2), dict(ni=2, ns=3, re=False, t=1), dict(ni=2, ns=1, re=True, t=1), dict(ni=1, ns=2, re=True, t=2), dict(ni=3, ns=1, re=True, t=1)],
          thorough=[dict(ni=3, ns=2, re=True, t=2), dict(ni=3, ns=2, re=False, t=2)])
def mujoco_step(ctx, ni, ns, re, t):
    spec = SPECS[0]
    order = ctx.pick('act', [['m2', 'm1'], ['m1', 'm3'], []])
    idx = [int(n[1]) - 1 for n in order] or [0, 1, 2]
    ts = ctx.pick('ts', [None, .125])
    with mujoco_standin([Model(ctx)]):
        env = (Recompute if re else Env)('m.xml', order, spec, .5, 9, timestep=ts, n_substeps=ns, n_intermediate_steps=ni)
        d = env._data
        ctx.eq(env.dt, (ts or .25) * ns * ni, 'duration of a step')
        ctx.eq(env.info.dt, env.dt, 'duration of a step')
        low, high = env.info.action_space.low, env.info.action_space.high
        want = {0: (-1., 1.), 1: (-2., 3.), 2: (-np.inf, np.inf)}
        ctx.check([(float(a), float(b)) for a, b in zip(low, high)] == [want[i] for i in idx], 'limits of the actuators in the order of the specification')
        d.q[0] = 7.
        o, info = env.reset()
        q, v = [d.init[0][i] for i in range(2)], [d.init[1][i] for i in range(2)]

        def obs_of():
            return ctx.pack([q[0], v[0], q[1], 5.], (4,), 'f')
        ctx.check(info == {} and len(o) == 4, 'reset returns an observation and information')
        cur = obs_of()
        ctx.eq(o, cur * 2., 'reset returns the observation of the initial state')
        seen = [(o, cur * 2.)]
        for k in range(t):
            env.end = bool(ctx.bool('end%d' % k))
            env.calls, start = [], len(d.log)
            a = ctx.array('a%d' % k, (len(idx),), -2, 2)
            a0 = a + 0.
            o, r, ab, inf = env.step(a)
            ctx.eq(a, a0, 'the action of the caller is not modified')
            act, prev = a0 + 1., cur
            names, sims = [], []
            for i in range(ni):
                c = act + cur[0] if re else act
                ctrl = [0., 0., 0.]
                for j, p in enumerate(idx):
                    ctrl[p] = c[j]
                if re:
                    names.append(('compute', [cur, act], start + i))
                names += [('presim', [], start + i), ('postsim', [], start + i + 1)]
                sims.append(ctrl)
                for j in range(2):
                    v[j] = v[j] + ns * ctrl[j]
                    q[j] = q[j] + ns * v[j]
                cur = obs_of()
            full = [('pre', [a0], start), ('init', [prev, act], start)] + names + [('final', [], start + ni), ('absorbing', [cur], start + ni),
                                                                                ('reward', [prev, act, cur, env.end], start + ni)]
            steps = d.log[start:]
            ctx.check(len(steps) == ni and all(s[0] == 'step' and s[2] == ns for s in steps), 'the simulator advances once per intermediate step')
            for s, w in zip(steps, sims):
                for j in range(3):
                    ctx.eq(s[1][j], w[j], 'each actuator receives its own control, the others none')
            ctx.check([c[0] for c in env.calls] == [f[0] for f in full], 'extension points are called in the documented order')
            for got, want_ in zip(env.calls, full):
                ctx.check(got[2] == want_[2] and len(got[1]) == len(want_[1]), 'extension points are called at the right time')
                for x, y in zip(got[1], want_[1]):
                    ctx.eq(x, y, 'arguments of the extension points') if isinstance(y, np.ndarray) else ctx.check(x == y, 'arguments of the extension points')
            ctx.eq(o, cur * 2., 'observation after the last intermediate step')
            ctx.eq(r, prev[0] + 2 * cur[0] + 4 * act[0], 'reward of the transition')
            ctx.check(ab == env.end, 'absorbing flag')
            ctx.eq(inf['o'], cur, 'information of the step')
            seen.append((o, cur * 2.))
        for got, want_ in seen:
            ctx.eq(got, want_, 'observations returned earlier do not change')


@scenario('P33', 'reset to an arbitrary observation; reading and writing of named data', tol=1e-6, quick=[dict(k=0), dict(k=2)])
def mujoco_data(ctx, k):
    spec = SPECS[k]

    class E(mjenv.MuJoCo):
        def is_absorbing(self, obs):
            return False

        def reward(self, *a):
            return 0.
    extra = [('fp', 'free', OT.JOINT_POS), ('fw', 'free', OT.JOINT_VEL), ('bp', 'b', OT.BODY_POS)]
    with mujoco_standin([Model(ctx)]):
        env = E('m.xml', [], spec, .5, 9, additional_data_spec=extra)
        d = env._data
        n = env.info.observation_space.shape[0]
        want = ctx.array('o', (n,), -2, 2)
        o, _ = env.reset(want)
        ctx.eq(o, want, 'reset to an observation reaches it')
        which = ctx.pick('which', [0, 1, 2])
        key = extra[which][0]
        val = ctx.array('w', (len(value_of(d, *extra[which][1:])),), -2, 2)
        others = [(e, value_of(d, *e[1:]) + 0.) for i, e in enumerate(extra) if i != which]
        env._write_data(key, val)
        ctx.eq(value_of(d, *extra[which][1:]), val, 'named data is written')
        got = env._read_data(key)
        ctx.eq(got, val, 'named data is read')
        for e, old in others:
            ctx.eq(value_of(d, *e[1:]), old, 'other data is left alone')
        got[0] = 9.
        ctx.eq(value_of(d, *extra[which][1:]), val, 'what is read is a copy')


@scenario('P33', '0-2 contacts between 4 bodies, groups of 1-2 bodies', quick=[{}], tol=1e-6, max_paths=3000)
def mujoco_contacts(ctx):
    class E(mjenv.MuJoCo):
        pass
    with mujoco_standin([Model(ctx)]):
        env = E('m.xml', [], SPECS[0], .5, 9, collision_groups=[('A', ['g0', 'g1']), ('B', ['g2']), ('C', ['g3'])])
        d = env._data
        n = int(ctx.int('n', 0, 2))
        pairs = [ctx.pick('c%d' % i, [(0, 1), (0, 2), (2, 1), (3, 2), (3, 0)]) for i in range(n)]
        d.ncon, d.contact = n, [Named(geom1=a, geom2=b, dist=ctx.real('dist%d' % i, -1, 1)) for i, (a, b) in enumerate(pairs)]
        d.forces = [ctx.array('f%d' % i, (6,), -2, 2) for i in range(n)]
        groups = dict(A={0, 1}, B={2}, C={3})
        g, h = ctx.pick('groups', [('A', 'B'), ('B', 'A'), ('B', 'C'), ('A', 'C')])
        hits = [i for i, (a, b) in enumerate(pairs) if (a in groups[g] and b in groups[h]) or (b in groups[g] and a in groups[h])]
        ctx.check(bool(env._check_collision(g, h)) == bool(hits), 'groups collide when bodies of both are in contact')
        f = env._get_collision_force(g, h)
        ctx.eq(f, d.forces[hits[0]] if hits else np.zeros(6), 'force of a contact between the groups, zero without contact')
        bad = False
        try:
            with mujoco_standin([Model(ctx, 'z')]):
                E('m.xml', [], SPECS[0], .5, 9, collision_groups=[('A', ['none'])])
        except AssertionError:
            bad = True
        ctx.check(bad, 'a body that does not exist is refused')


class Multi(mjenv.MultiMuJoCo):
    end = False

    def is_absorbing(self, obs):
        return self.end

    def reward(self, obs, action, next_obs, absorbing):
        return obs[0]


@scenario('P33', '2-3 models visited in turn or at random, 3 resets, a step after each; arbitrary states', tol=1e-5, max_paths=3000,
          quick=[dict(n=2, rnd=False), dict(n=2, rnd=True), dict(n=3, rnd=False)], thorough=[dict(n=3, rnd=True)])
def multi_mujoco(ctx, n, rnd):
    models = [Model(ctx, 'abc'[i]) for i in range(n)]
    all_models = list(models)
    with mujoco_standin(models):
        env = Multi(['x'] * n, ['m1', 'm2'], SPECS[0], .5, 9, random_env_reset=rnd)
        ctx.check(bool(env.more_than_one_env), 'more than one model')
        last = 0
        for k in range(3):
            o, info = env.reset()
            i = all_models.index(env._model)
            if not rnd:
                ctx.check(i == (last + 1) % n, 'the models are used in turn')
            last = i
            d = env._data
            ctx.check(d.model is env._model, 'the data belongs to the model')
            ctx.check(info == {}, 'reset returns an observation and information')
            want = ctx.pack([d.init[0][0], d.init[1][0], d.init[0][1]], (3,), 'f')
            ctx.eq(o, want, 'the model starts from its initial state')
            a = ctx.array('a%d' % k, (2,), -1, 1)
            nxt, r, ab, _ = env.step(a)
            v = [d.init[1][j] + a[j] for j in range(2)]
            ctx.eq(nxt, ctx.pack([d.init[0][0] + v[0], v[0], d.init[0][1] + v[1]], (3,), 'f'), 'a step moves the model in use')
            ctx.eq(r, want[0], 'reward of the transition')


@scenario('P33', '2 models with different joint limits', quick=[{}])
def multi_limits(ctx):
    same = bool(ctx.bool('same'))
    first = bool(ctx.bool('first'))
    lims = [(-1., 2.), (-1., 2.) if same else (-1., 3.)]
    bad = False
    with mujoco_standin([Model(ctx, 'ab'[i], limits=lims[i if first else 1 - i]) for i in range(2)]):
        try:
            Multi(['x'] * 2, ['m1', 'm2'], SPECS[0], .5, 9)
        except ValueError:
            bad = True
    ctx.check(bad == (not same), 'models with different observation limits are refused')


# ---- PyBullet ----------------------------------------------------------------------------------------------------------------

class Client(object):
    """two models: 3 with joints a, b and a fixed one, 1 with joint c"""

    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.log, self.dyn = [], []
        self.time = 0
        self.j = {}
        names = {3: [('a', 'la', 0), ('fix', 'lf', pybullet.JOINT_FIXED), ('b', 'lb', 1)], 1: [('c', 'lc', 0)]}
        for m in (3, 1):
            for k, (name, link, kind) in enumerate(names[m]):
                t = '%d%d' % (m, k)
                info = [k, name.encode(), kind, 0, 0, 0, 0, 0, ctx.real('lo' + t, -4, 0), ctx.real('hi' + t, 0, 4), ctx.real('f' + t, 0, 4),
                        ctx.real('vm' + t, 0, 4), link.encode()]
                self.j[(m, k)] = dict(info=tuple(info), pos=ctx.real('p' + t, -1, 1), vel=ctx.real('v' + t, -1, 1))
        self.base = {m: (tuple(ctx.reals('t%d' % m, 3, -1, 1)), tuple(ctx.reals('q%d' % m, 4, -1, 1)), tuple(ctx.reals('lv%d' % m, 3, -1, 1)),
                         tuple(ctx.reals('av%d' % m, 3, -1, 1))) for m in (3, 1)}
        self.link = {(3, 2): (tuple(ctx.reals('lt', 3, -1, 1)), tuple(ctx.reals('lq', 4, -1, 1)), 'x', 'x', tuple(ctx.reals('llv', 3, -1, 1)), tuple(ctx.reals('lav', 3, -1, 1)))}
        self.points = []

    def getNumJoints(self, m):
        return sum(1 for k in self.j if k[0] == m)

    def getJointInfo(self, m, k):
        return self.j[(m, k)]['info']

    def getJointState(self, m, k):
        return self.j[(m, k)]['pos'], self.j[(m, k)]['vel'], 'r', 't'

    def getJointStates(self, m, ks):
        return [self.getJointState(m, k) for k in ks]

    def getLinkStates(self, m, ks, **kw):
        return [self.getLinkState(m, k, **kw) for k in ks]

    def getBasePositionAndOrientation(self, m):
        return self.base[m][0], self.base[m][1]

    def getBaseVelocity(self, m):
        return self.base[m][2], self.base[m][3]

    def getLinkState(self, m, k, computeLinkVelocity=False, **kw):
        s = self.link[(m, k)]
        return s if computeLinkVelocity else s[:4]

    def getContactPoints(self, a, b):
        return [(0, a, b, la, lb, 'p') if (ma, mb) == (a, b) else (0, a, b, lb, la, 'p') for ma, mb, la, lb in self.points
                if (ma, mb) in ((a, b), (b, a))]

    def setJointMotorControl2(self, m, k, mode, **kw):
        self.log.append((m, k, mode, kw))

    def stepSimulation(self):
        for m, k, mode, kw in self.log[self.time:]:
            if mode == pybullet.TORQUE_CONTROL:
                self.j[(m, k)]['vel'] = self.j[(m, k)]['vel'] + kw['force']
        for s in self.j.values():
            s['pos'] = s['pos'] + s['vel']
        self.log.append('step')
        self.time = len(self.log)

    def saveState(self):
        self.saved = {k: (s['pos'], s['vel']) for k, s in self.j.items()}
        return 17

    def restoreState(self, ident):
        assert ident == 17
        for k, (p, v) in self.saved.items():
            self.j[k]['pos'], self.j[k]['vel'] = p, v

    def loadURDF(self, name, **kw):
        return 3 if name.startswith('m3') else 1

    def getBodyInfo(self, m):
        return (b'base', ('m%d' % m).encode())

    def setTimeStep(self, t):
        self.dt = t

    def setGravity(self, *a):
        pass

    setAdditionalSearchPath = setGravity

    def changeDynamics(self, m, k, **kw):
        self.dyn.append((m, k, kw))


PSPECS = [[('a', PT.JOINT_POS), ('c', PT.JOINT_VEL), ('m1', PT.BODY_POS), ('b', PT.JOINT_POS)],
          [('m3', PT.BODY_LIN_VEL), ('lb', PT.LINK_POS), ('b', PT.JOINT_VEL), ('m3', PT.BODY_ANG_VEL), ('b', PT.JOINT_POS)],
          [('lb', PT.LINK_LIN_VEL), ('lb', PT.LINK_ANG_VEL), ('la<->m1', PT.CONTACT_FLAG), ('a', PT.JOINT_VEL), ('lc<->lb', PT.CONTACT_FLAG)]]
MODES = [pybullet.POSITION_CONTROL, pybullet.VELOCITY_CONTROL, pybullet.TORQUE_CONTROL]
JOINT = dict(a=(3, 0), b=(3, 2), c=(1, 0))


def pb_value(c, name, t):
    if t in (PT.JOINT_POS, PT.JOINT_VEL):
        return [c.j[JOINT[name]]['pos' if t == PT.JOINT_POS else 'vel']]
    if name in ('m1', 'm3'):
        b = c.base[int(name[1])]
        return list({PT.BODY_POS: b[0] + b[1], PT.BODY_LIN_VEL: b[2], PT.BODY_ANG_VEL: b[3]}[t])
    l = c.link[(3, 2)]
    return list({PT.LINK_POS: l[0] + l[1], PT.LINK_LIN_VEL: l[4], PT.LINK_ANG_VEL: l[5]}[t])


@scenario('P33', '3 lists of observed quantities, two models; arbitrary simulator state and limits; contacts between any bodies', quick=[dict(k=i) for i in range(3)], tol=1e-6, max_paths=2000)
def bullet_observation(ctx, k):
    c = Client(ctx)
    spec = PSPECS[k]
    mm = ctx.pick('order', [OrderedDict([('m3', 3), ('m1', 1)]), OrderedDict([('m1', 1), ('m3', 3)])])
    ix = IndexMap(c, mm, [('a', MODES[0])], spec)
    jh = JointsHelper(c, ix, spec)
    pts = [p for p in [(3, 1, 0, -1), (1, 3, 0, 2), (3, 1, 1, -1), (1, 3, -1, 0)] if bool(ctx.bool('c%d%d%d' % p[1:]))] if k == 2 else []
    for _ in range(2 if k == 2 else 1):
        c.points = pts
        s = ix.create_sim_state()
        lo, hi = ix.observation_limits
        at, pos, vel = 0, [], []
        for name, t in spec:
            if t == PT.CONTACT_FLAG:
                on = {'la<->m1': [(3, 1, 0, -1), (1, 3, -1, 0)], 'lc<->lb': [(1, 3, 0, 2), (3, 1, 2, 0)]}[name]
                want = [1. if any(p in pts for p in on) else 0.]
            else:
                want = pb_value(c, name, t)
            n = len(want)
            ctx.check(list(ix.get_index(name, t)) == list(range(at, at + n)), 'position of each quantity')
            for i in range(n):
                ctx.eq(s[at + i], want[i], 'quantities in the order of the specification')
                if t in (PT.JOINT_POS, PT.JOINT_VEL):
                    info = c.j[JOINT[name]]['info']
                    a, b = (info[8], info[9]) if t == PT.JOINT_POS else (-info[11], info[11])
                    ctx.eq(lo[at + i], a, 'limits of the joints')
                    ctx.eq(hi[at + i], b, 'limits of the joints')
                    (pos if t == PT.JOINT_POS else vel).append((at, info))
                elif t == PT.CONTACT_FLAG:
                    ctx.eq(lo[at + i], 0., 'limits of a contact flag')
                    ctx.eq(hi[at + i], 1., 'limits of a contact flag')
                else:
                    ctx.check(lo[at + i] == -np.inf and hi[at + i] == np.inf, 'no limit where the simulator has none')
            at += n
        ctx.check(len(s) == at and len(lo) == at and len(hi) == at, 'length of the observation')
        P, V = jh.positions(s), jh.velocities(s)
        L, H = jh.limits()
        W = jh.velocity_limits()
        ctx.check(len(P) == len(pos) and len(V) == len(vel) and len(L) == len(pos) and len(W) == len(vel), 'joints of the specification')
        for i, (p, info) in enumerate(pos):
            ctx.eq(P[i], s[p], 'joint positions in order')
            ctx.eq(L[i], info[8], 'joint limits in order')
            ctx.eq(H[i], info[9], 'joint limits in order')
        for i, (p, info) in enumerate(vel):
            ctx.eq(V[i], s[p], 'joint velocities in order')
            ctx.eq(W[i], info[11], 'velocity limits in order')
        pts = pts[:-1]          # contacts that cease are forgotten


@scenario('P33', '3 joints in any control mode; arbitrary actions', quick=[{}], tol=1e-6, max_paths=2000)
def bullet_action(ctx):
    c = Client(ctx)
    order = ctx.pick('order', [['a', 'b', 'c'], ['c', 'a'], ['b']])
    modes = [ctx.pick('mode' + n, MODES) for n in order]
    ix = IndexMap(c, dict(m3=3, m1=1), list(zip(order, modes)), PSPECS[0])
    lo, hi = ix.action_limits
    a = ctx.array('u', (len(order),), -3, 3)
    ix.apply_control(a)
    ctx.check(len(lo) == len(order) and len(c.log) == len(order), 'one command per actuated joint')
    for i, (n, m) in enumerate(zip(order, modes)):
        info = c.j[JOINT[n]]['info']
        want = {MODES[0]: (info[8], info[9]), MODES[1]: (-info[11], info[11]), MODES[2]: (-info[10], info[10])}[m]
        ctx.eq(lo[i], want[0], 'limits follow the control mode')
        ctx.eq(hi[i], want[1], 'limits follow the control mode')
        bm, bj, mode, kw = c.log[i]
        ctx.check((bm, bj) == JOINT[n] and mode == m, 'each joint is driven in its mode')
        if m == MODES[2]:
            ctx.check(set(kw) == {'force'}, 'a torque')
            ctx.eq(kw['force'], a[i], 'each joint receives its own component of the action')
        else:
            key = 'targetPosition' if m == MODES[0] else 'targetVelocity'
            ctx.check(key in kw, 'a target')
            ctx.eq(kw[key], a[i], 'each joint receives its own component of the action')
            ctx.eq(kw['maxVelocity'], info[11], 'the velocity limit of the joint holds')
            ctx.eq(kw['force'], info[10], 'the force limit of the joint holds')


class Bullet(pbenv.PyBullet):
    calls = None

    def note(self, name, *args):
        self.calls.append((name, [x + 0. if isinstance(x, np.ndarray) else x for x in args]))

    def _create_observation(self, state):
        return state * 2.

    def _preprocess_action(self, a):
        return a + 1.

    def _compute_action(self, state, action):
        self.note('compute', state, action)
        return action + state[0]

    def _step_init(self, state, action):
        self.note('init', state, action)

    def _step_finalize(self):
        self.note('final')

    def reward(self, state, action, next_state, absorbing):
        self.note('reward', state, action, next_state, absorbing)
        return state[0] + 2 * next_state[0]

    def is_absorbing(self, state):
        self.note('absorbing', state)
        return self.end

    def setup(self, state):
        self.note('setup', state)
        if state is not None:
            self.sim.j[(3, 2)]['pos'] = state[0]


@scenario('P33', '1-3 intermediate steps, 1-2 environment steps; arbitrary state and actions', quick=[dict(ni=1, t=2), dict(ni=2, t=1)], thorough=[dict(ni=3, t=2)], tol=1e-5)
def bullet_step(ctx, ni, t):
    c = Client(ctx)
    spec = [('b', PT.JOINT_POS), ('b', PT.JOINT_VEL)]

    class Viewer(object):
        def __init__(self, *a, **k):
            pass
    with patched((pbenv, 'BulletClient', lambda **kw: c), (pbenv, 'PyBulletViewer', Viewer)):
        Bullet.calls = []
        enforce = bool(ctx.bool('enforce'))
        env = Bullet(dict([('m3.urdf', {}), ('m1.urdf', {})]), [('b', pybullet.TORQUE_CONTROL)], spec, .5, 9, timestep=.125, n_intermediate_steps=ni,
                     enforce_joint_velocity_limits=enforce)
        if enforce:
            ctx.check(sorted((m, k) for m, k, _ in c.dyn) == sorted(c.j), 'velocity limits of every joint are enforced when asked to')
            for m, k, kw in c.dyn:
                ctx.eq(kw['maxJointVelocity'], c.j[(m, k)]['info'][11], 'velocity limits of every joint are enforced when asked to')
        else:
            ctx.check(c.dyn == [], 'velocity limits are not enforced when not asked to')
        ctx.eq(env.dt, .125 * ni, 'duration of a step')
        ctx.eq(c.dt, .125, 'time step of the simulator')
        c.j[(3, 2)]['pos'] = 9.
        o, info = env.reset()
        p, v = c.saved[(3, 2)]
        cur = ctx.pack([p, v], (2,), 'f')
        ctx.check(info == {} and env.calls == [('setup', [None])], 'reset sets the environment up')
        ctx.eq(o, cur * 2., 'reset returns the observation of the initial state')
        Bullet.sim = c
        start = ctx.array('start', (1,), -2, 2)
        o, info = env.reset(start)
        cur = ctx.pack([start[0], v], (2,), 'f')
        p = start[0]
        ctx.eq(o, cur * 2., 'reset returns the observation of the state that was set up')
        for k in range(t):
            env.calls = []
            env.end = bool(ctx.bool('end%d' % k))
            a = ctx.array('a%d' % k, (1,), -2, 2)
            n0 = sum(1 for x in c.log if x == 'step')
            o, r, ab, info = env.step(a)
            ctx.check(sum(1 for x in c.log if x == 'step') - n0 == ni, 'the simulator advances once per intermediate step')
            prev, act = cur, a + 1.
            want = [('init', [cur, act])]
            for i in range(ni):
                want.append(('compute', [cur, act]))
                v = v + act[0] + cur[0]
                p = p + v
                cur = ctx.pack([p, v], (2,), 'f')
            want += [('final', []), ('absorbing', [cur]), ('reward', [prev, act, cur, env.end])]
            ctx.check([x[0] for x in env.calls] == [x[0] for x in want], 'extension points are called in the documented order')
            for (_, g), (_, w) in zip(env.calls, want):
                for x, y in zip(g, w):
                    ctx.eq(x, y, 'arguments of the extension points') if isinstance(y, np.ndarray) else ctx.check(x == y, 'arguments of the extension points')
            ctx.eq(o, cur * 2., 'observation after the last intermediate step')
            ctx.eq(r, prev[0] + 2 * cur[0], 'reward of the transition')
            ctx.check(ab == env.end, 'absorbing flag')


# ---- Gym, DeepMind control suite, Atari ----------------------------------------------------------------------------------------

class GymBase(gym.Env):
    metadata = {}
    """scalar or vector state moved by the action"""

    def __init__(self, ctx, disc, n):
        self.ctx, self.disc = ctx, disc
        self.action_space = gym.spaces.Discrete(3) if disc else gym.spaces.Box(-1., 1., (2,))
        self.observation_space = gym.spaces.Discrete(5) if n == 0 else gym.spaces.Box(-4., 4., (n,))
        self.n, self.log = n, []

    def reset(self, **kw):
        self.log.append('reset')
        self.state = self.start
        return self.state

    def step(self, a):
        self.log.append(a)
        self.state = self.state + (a if self.disc else a[0])
        return self.state, self.out[0], self.out[1], {'k': 3}

    def render(self, mode='human'):
        return mode

    def close(self):
        self.log.append('close')


class Limit(gym.Wrapper):
    def __init__(self, env, steps):
        super().__init__(env)
        self._max_episode_steps = steps
        self.taken = 0

    def reset(self, **kw):
        self.taken = 0
        return self.env.reset(**kw)

    def step(self, a):
        o, r, d, i = self.env.step(a)
        self.taken += 1
        if self.taken >= self._max_episode_steps:
            d = True
        return o, r, d, i


class Plus(gym.Wrapper):
    """doubles the rewards"""

    def __init__(self, env, scale=2., **kw):
        super().__init__(env)
        self.scale = scale

    def step(self, a):
        o, r, d, i = self.env.step(a)
        return o, r * self.scale, d, i


@scenario('P33', 'discrete and continuous actions, scalar and vector observations, 2 steps, time limit of 1 step; reset to a given state', tol=1e-6,
          quick=[dict(disc=d, n=n, wrap=w) for d in (True, False) for n in (0, 2) for w in (False, True)])
def gym_env(ctx, disc, n, wrap):
    base = GymBase(ctx, disc, n)
    sh = (n,) if n else ()
    base.start = ctx.array('s', (n,), -1, 1) if n else int(ctx.int('s', 0, 3))
    made = []

    def make(name, **kw):
        made.append((name, kw))
        return Limit(base, 1)
    with patched((gym, 'make', make)):
        hor = ctx.pick('hor', [None, 7])
        env = gymenv.Gym('X-v0', horizon=hor, gamma=.5, **(dict(wrappers=[Plus], wrappers_args=[dict(scale=4.)]) if wrap else {}))
    ctx.check(made == [('X-v0', {})], 'the environment of that name')
    ctx.check(env.info.horizon == (1 if hor is None else hor) and env.info.gamma == .5, 'horizon: the given one, or that of the environment')
    acts = env.info.action_space
    ctx.check((acts.n == 3) if disc else (tuple(acts.shape) == (2,) and list(acts.low) == [-1., -1.] and list(acts.high) == [1., 1.]), 'action space')
    obs = env.info.observation_space
    ctx.check((obs.n == 5) if not n else (tuple(obs.shape) == (2,) and list(obs.low) == [-4., -4.]), 'observation space')
    if bool(ctx.bool('given')):
        want = ctx.array('g', (n,), -1, 1) if n else int(ctx.int('g', 0, 3))
        o, info = env.reset(want)
    else:
        want = base.start
        o, info = env.reset()
    ctx.check(info == {} and tuple(np.shape(o)) == (sh or (1,)), 'reset returns an array and information')
    ctx.eq(o if n else o[0], want, 'reset returns the state')
    for k in range(2):
        a = ctx.array('a%d' % k, (2,), -1, 1) if not disc else ctx.iarray('a%d' % k, (1,), 0, 2)
        r, d = ctx.real('r%d' % k, -1, 1), bool(ctx.bool('d%d' % k))
        base.out = (r, d)
        o, rr, ab, info = env.step(a)
        want = want + (a[0])
        ctx.check(tuple(np.shape(o)) == (sh or (1,)), 'observations are arrays')
        ctx.eq(o if n else o[0], want, 'the environment moves from the state it was in')
        ctx.eq(rr, r * 4. if wrap else r, 'reward of the environment')
        ctx.check(bool(ab) == d, 'the time limit of the environment is not an absorbing state')
        ctx.check(info == {'k': 3}, 'information of the step')
        if not disc:
            ctx.eq(base.log[-1], a, 'the action reaches the environment')


class Spec(object):
    def __init__(self, shape, lo=None, hi=None):
        self.shape, self.minimum, self.maximum = shape, lo, hi


@scenario('P33', 'observations of 1-3 parts (scalar, vector, matrix) in any order; 2 steps', tol=1e-6, quick=[{}])
def dm_control(ctx):
    keys = ctx.pick('keys', [['b', 'a'], ['a', 'c', 'b'], ['c']])
    shapes = dict(a=(), b=(2,), c=(2, 2))
    log = []

    def draw(t):
        d = OrderedDict((k, ctx.array('%s%d' % (k, t), shapes[k], -1, 1) if shapes[k] else ctx.real('%s%d' % (k, t), -1, 1)) for k in keys)
        for k in keys:
            seen[(k, t)] = d[k]
        return d
    seen = {}

    class E(object):
        _step_limit = 5

        def action_spec(self):
            return Spec((2,), np.array([-1., -2.]), np.array([1., 3.]))

        def observation_spec(self):
            return OrderedDict((k, Spec(shapes[k])) for k in keys)

        def reset(self):
            return types.SimpleNamespace(observation=draw(0))

        def step(self, a):
            log.append(a)
            t = len(log)
            ob = draw(t)
            rewards.append(ctx.real('r%d' % t, -1, 1))
            ends.append(bool(ctx.bool('end%d' % t)))
            return types.SimpleNamespace(observation=ob, reward=rewards[-1], last=lambda: ends[-1])
    rewards, ends = [], []
    inner = E()
    with patched((suite, 'load', lambda *a, **k: inner)):
        hor = ctx.pick('hor', [None, 7])
        env = dmenv.DMControl('d', 't', horizon=hor, gamma=.5)
    ctx.check(env.info.horizon == (5 if hor is None else hor), 'horizon: the given one, or that of the environment')
    ctx.check(inner._step_limit == np.inf, 'the time limit of the environment is not an absorbing state')
    size = sum(int(np.prod(shapes[k])) for k in keys)
    ctx.check(tuple(env.info.observation_space.shape) == (size,), 'length of the observation')
    ctx.check(all(env.info.observation_space.low == -np.inf) and all(env.info.observation_space.high == np.inf), 'observations are not limited')
    ctx.check(list(env.info.action_space.low) == [-1., -2.] and list(env.info.action_space.high) == [1., 3.], 'limits of the actions')

    def flat(t):
        out = []
        for k in keys:
            x = seen[(k, t)]
            out += [x] if shapes[k] == () else list(x.reshape(-1))
        return out
    o, info = env.reset()
    outs = [(o, 0)]
    ctx.check(info == {}, 'reset returns information')
    for t in (1, 2):
        a = ctx.array('act%d' % t, (2,), -1, 1)
        o, r, ab, info = env.step(a)
        ctx.eq(log[-1], a, 'the action reaches the environment')
        ctx.eq(r, rewards[-1], 'reward of the environment')
        ctx.check(bool(ab) == ends[-1], 'absorbing when the environment ends the episode')
        outs.append((o, t))
    for o, t in outs:
        w = flat(t)
        ctx.check(tuple(o.shape) == (size,), 'length of the observation')
        for x, y in zip(o, w):
            ctx.eq(x, y, 'parts of the observation in order')


class Ale(gym.Env):
    """frames are numbered; rewards, lives and ends are arbitrary"""
    metadata = {}

    def __init__(self, ctx, fire, lives):
        self.ctx, self.fire, self.n_lives = ctx, fire, lives
        self.observation_space = gym.spaces.Box(0, 255, (1, 1, 3), dtype=np.uint8)
        self.action_space = gym.spaces.Discrete(3)
        self.ale = types.SimpleNamespace(lives=lambda: lives)
        self.log, self.rewards, self.ends, self.lives_ = [], [], [], []
        self.frame = 0

    def get_action_meanings(self):
        return ['NOOP', 'FIRE' if self.fire else 'UP', 'DOWN']

    def image(self):
        self.frame += 1
        return np.full((1, 1, 3), (self.frame * 7) % 11 + self.frame, dtype=np.uint8)

    def reset(self, **kw):
        self.log.append('reset')
        return self.image()

    def step(self, a):
        self.log.append(int(a))
        k = len(self.log)
        r, end, lives = self.next(k)
        return self.image(), r, end, {'lives': lives}


def no_cv():
    return patched((cv2, 'cvtColor', lambda o, c, *a, **k: o[..., 0]), (cv2, 'resize', lambda o, s, *a, **k: o))


@scenario('P33', '3 lives; 3 steps with arbitrary rewards, lost lives and ends; 0-1 idle actions after a reset', tol=1e-6, max_paths=4000,
          quick=[dict(fire=f, ends=e) for f in (True, False) for e in (True, False)])
def atari(ctx, fire, ends):
    raw = Ale(ctx, fire, 3)
    H = 2
    state = dict(lives=3)
    with patched((gym, 'make', lambda name, **k: gym.Wrapper(raw))), no_cv():
        env = atenv.Atari('X', width=1, height=1, ends_at_life=ends, history_length=H, max_no_op_actions=1)
        ctx.check(env.info.action_space.n == 3 and tuple(env.info.observation_space.shape) == (H, 1, 1), 'spaces')
        def shown(s):
            a = np.array(s)
            ctx.check(tuple(a.shape) == (H, 1, 1) and tuple(s.shape) == (H, 1, 1), 'a history of frames')
            return [int(v) for v in a[:, 0, 0]]

        def value(i):
            return (i * 7) % 11 + i
        s, info = env.reset()
        hist = [value(raw.frame)] * H
        ctx.check(raw.log == ['reset'] and shown(s) == hist, 'the history starts with the first frame')
        over = lost = was_lost = False
        fresh = True
        for k in range(3):
            if k == 2 or over or (ends and lost):
                n0 = len(raw.log)
                s, info = env.reset()
                if over:
                    ctx.check(raw.log[n0:] == ['reset'], 'a finished game is started again')
                    hist = [value(raw.frame)] * H
                    state['lives'] = 3
                else:
                    ctx.check(raw.log[n0:] == [], 'after a lost life the game goes on')
                ctx.check(shown(s) == hist, 'history after a reset')
                fresh = True
            n0 = len(raw.log)
            a = np.array([ctx.pick('a%d' % k, [2, 0] if k == 0 else [1])])
            r = ctx.real('r%d' % k, -1, 1)
            over = bool(ctx.bool('over%d' % k))
            lost = bool(ctx.bool('lost%d' % k))
            left = state['lives'] - (1 if lost else 0)
            raw.next = lambda j: (r, over, left)
            s, rr, ab, info = env.step(a)
            cmds = raw.log[n0:]
            ctx.check(cmds[-1] == int(a[0]), 'the action of the agent comes last')
            pre = cmds[:-1]
            if fresh:
                if fire:
                    ctx.check(pre[:1] == [1], 'the game is started by the fire button')
                    pre = pre[1:]
                ctx.check(len(pre) <= 1 and all(c == 0 for c in pre), 'at most the allowed number of idle actions')
            else:
                ctx.check(pre == ([1] if fire and was_lost else []), 'only the action of the agent is executed')
            hist = hist[1:] + [value(raw.frame)]
            ctx.check(shown(s) == hist, 'the newest frame enters the history, the oldest leaves')
            ctx.eq(rr, r, 'reward of the environment')
            ctx.check(bool(ab) == (over or (ends and lost)), 'episodes end with the game, or with a life when asked to')
            state['lives'] = left
            fresh, was_lost = False, lost


@scenario('P33', 'skip of 1-4 frames, arbitrary rewards, the game may end at any of them', tol=1e-6, quick=[dict(skip=s, pool=p) for s in (2, 4) for p in (True, False)] + [dict(skip=3, pool=True)])
def frame_skip(ctx, skip, pool):
    raw = Ale(ctx, False, 3)
    out = [(ctx.real('r%d' % i, -1, 1), bool(ctx.bool('e%d' % i))) for i in range(skip)]
    raw.next = lambda j: out[len(raw.log) - 1] + (3,)
    w = atenv.MaxAndSkip(raw, skip, pool)
    f, r, end, info = w.step(2)
    n = next((i + 1 for i in range(skip) if out[i][1]), skip)
    ctx.check(raw.log == [2] * n, 'the action is repeated until the game ends')
    ctx.eq(r, asum([out[i][0] for i in range(n)]), 'rewards of the repeated frames are summed')
    ctx.check(bool(end) == out[n - 1][1], 'end of the game')
    if n == skip:
        v = [(i * 7) % 11 + i for i in (skip - 1, skip)]
        want = max(v) if pool else sum(v) / 2
        ctx.check(abs(float(np.asarray(f).reshape(-1)[0]) - want) < 1e-9, 'the last two frames are pooled')


@scenario('P33', '2-3 frames of arbitrary contents', quick=[dict(n=2), dict(n=3)])
def lazy_frames(ctx, n):
    fs = [ctx.array('f%d' % i, (2, 1), -1, 1) for i in range(n)]
    z = LazyFrames(list(fs), n)
    a = z.__array__()
    ctx.check(tuple(z.shape) == (n, 2, 1) and tuple(a.shape) == (n, 2, 1), 'frames are stacked')
    for i in range(n):
        ctx.eq(a[i], fs[i], 'frames in order')
    c = z.copy()
    ctx.check(tuple(c.shape) == (n, 2, 1), 'copy')
    bad = False
    try:
        LazyFrames(list(fs), n + 1)
    except AssertionError:
        bad = True
    ctx.check(bad, 'a history of the wrong length is refused')
