"""Contracts for the life of the events behind the C interface (cgmfEvents_capi.cpp)."""
from contract import *
from ir import PTR
from driver import ghost, Rec, gget, gset
CAPI = 'libcgmf/src/cgmfEvents_capi.cpp'
def same(p, q): return isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r and tuple(p.path) == tuple(q.path) if hasattr(p, 'path') else isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r
class Life(Contract):
    """what happens to the event held by the interface, if there is one, and to the new one, if one is made"""
    src = CAPI; cls = 'cgmfEvent'; var = 'cgmf_fevent'; held = True; makes = True
    def frame(s, ctx, a): return None
    def pre(s, ctx, a, st): return [('nothing is made or deleted yet', band(*[cmp('eq', st.ld(ghost(ctx, x)), 0) for x in ('made', 'deleted')]))]
    def before(s, ctx, a):
        s.E = OBJ(ctx, s.cls, 'held'); s.made = None
        ctx.store(GLOB(ctx, s.var), s.E if s.held else NULL, PTR, Guard())
    def args(s, a): return []
    def uses(s):
        def ctor(ctx, a, g, ins):
            if len(a) < 4: return
            ctx.oblige('one event is made', cmp('eq', gget(ctx, 'made', g), 0), g, 'pre')
            ctx.oblige('the previous event is deleted before the next one is generated', cmp('eq', gget(ctx, 'deleted', g), 1 if s.held else 0), g, 'pre')
            ctx.oblige('the event is generated for the request', band(*[cmp('eq', x, y) for x, y in zip(a[1:], s.want)]) if len(a) - 1 == len(s.want) else False, g, 'pre')
            s.made = a[0]; gset(ctx, 'made', add(gget(ctx, 'made', g), 1), g)
        def dtor(ctx, a, g, ins):
            ctx.oblige('the event deleted is the one held', s.held and same(a[0], s.E), g, 'pre')
            ctx.oblige('the event is deleted once', cmp('eq', gget(ctx, 'deleted', g), 0), g, 'pre')
            gset(ctx, 'deleted', add(gget(ctx, 'deleted', g), 1), g)
        return [Rec('%s::%s' % (s.cls, s.cls), ctor), Rec('%s::~%s' % (s.cls, s.cls), dtor)]
    def post(s, ctx, a, old, new, ret):
        p = new.ld(GLOB(ctx, s.var)); c = lambda x: new.ld(ghost(ctx, x))
        out = [('the event held before is deleted', cmp('eq', c('deleted'), 1 if s.held else 0)), ('one new event' if s.makes else 'no new event', cmp('eq', c('made'), 1 if s.makes else 0))]
        return out + ([('the new event is the one held', s.made is not None and same(p, s.made))] if s.makes else [('no event is held', p is NULL or p == 0 if not isinstance(p, Ptr) else False)])
class GenFirst(Life):
    """the first event"""
    name = 'cgmf_genfissevent'; held = False
    def make(s, ctx): s.want = [z3.Int('za')] + list(z3.Reals('erg tme tmw')); return list(s.want)
class GenNext(GenFirst):
    """every later event"""
    held = True
class CleanNone(Life):
    """without an event"""
    name = 'cgmf_clean'; held = False; makes = False
    def make(s, ctx): s.want = []; return []
class Clean(CleanNone):
    """with an event"""
    held = True
def iff(a, b): return band(bimp(a, b), bimp(b, a))
# ---------------------------------------------------------------- the arrays of an event
EV = 'libcgmf/src/cgmfEvents.cpp'
NEU = [p + x for p in ('neutron', 'cmNeutron') for x in ('Energies', 'Dircosu', 'Dircosv', 'Dircosw')] + ['neutronAges']
PHO = ['photon' + x for x in ('Energies', 'Dircosu', 'Dircosv', 'Dircosw', 'Ages')]
PREF = ['preFissionNeutron' + x for x in ('Energies', 'Dircosu', 'Dircosv', 'Dircosw', 'Ages')]
class Allocate(Contract):
    """every particle has its place in every array of the event"""
    src = EV; name = 'cgmfEvent::allocateMemory'; cls = 'cgmfEvent'
    groups = [('neutronNu', NEU), ('photonNu', PHO), ('preFissionNeutronNu', PREF)]
    def make(s, ctx): return [OBJ(ctx, s.cls, 'event')]
    def pre(s, ctx, a, st): return [('%s is a small number' % nu, band(cmp('le', 0, st.ld(a[0], nu)), cmp('le', st.ld(a[0], nu), 100000))) for nu, _ in s.groups]
    def frame(s, ctx, a): return None
    def post(s, ctx, a, old, new, ret):
        out = []; seen = []
        for nu, ms in s.groups:
            n = old.ld(a[0], nu); out.append(('%s is kept' % nu, cmp('eq', new.ld(a[0], nu), n)))
            for m in ms:
                p = new.ld(a[0], m); alts = p.alts if isinstance(p, PtrIte) else [(True, p)]
                ok = [c for c, q in alts if isinstance(q, Ptr) and q.r.kind == 'heap' and not any(q.r is x for x in seen)]
                sz = [bimp(band(cmp('lt', 0, n), c), cmp('ge', q.r.bytes, mul(8, n))) for c, q in alts if isinstance(q, Ptr) and q.r.kind == 'heap']
                seen += [q.r for c, q in alts if isinstance(q, Ptr) and q.r.kind == 'heap']
                out.append(('%s is a new array with room for %s numbers, its own' % (m, nu), bimp(cmp('lt', 0, n), band(bor(*ok), *sz))))
        return out
class AllocateCgm(Allocate):
    name = 'cgmEvent::allocateMemory'; cls = 'cgmEvent'
    groups = Allocate.groups[:2]
class Release(Contract):
    """every array of an event is released once, and none that was never made"""
    src = EV; name = 'cgmfEvent::~cgmfEvent'; cls = 'cgmfEvent'; groups = Allocate.groups[2:]
    opts = {'lifetimes': True}
    def make(s, ctx):
        p = OBJ(ctx, s.cls, 'event'); st = State(ctx, Guard()); s.arr = []
        for nu, ms in Allocate.groups[:2] + (Allocate.groups[2:] if s.cls == 'cgmfEvent' else []):
            for m in ms: s.arr.append((nu, m, ctx.pointee(st.at(p, m), DBL, st.ld(p, nu))))
        s.n = {nu: st.ld(p, nu) for nu, _, _ in s.arr}
        return [p]
    def frame(s, ctx, a): return None
    def uses(s): return [Rec('cgmDeleteAllocated', lambda ctx, a, g, ins: gset(ctx, 'work', add(gget(ctx, 'work', g), 1), g))]
    def pre(s, ctx, a, st): return [('nothing is released yet', cmp('eq', st.ld(ghost(ctx, 'work')), 0))]
    def post(s, ctx, a, old, new, ret):
        mine = [nu for nu, _ in s.groups]; out = []
        for nu, m, p in s.arr:
            out.append(('%s is released exactly if it was made' % m, iff(ctx.freed_cond(p.r, Guard()), cmp('lt', 0, s.n[nu]))) if nu in mine or s.whole else ('%s is left to the base' % m, bnot(ctx.freed_cond(p.r, Guard()))))
        return out + [('the work space of the calculation is released once', cmp('eq', new.ld(ghost(ctx, 'work')), 1 if s.whole else 0))]
    whole = True
class ReleaseCgm(Release):
    name = 'cgmEvent::~cgmEvent'; cls = 'cgmEvent'
