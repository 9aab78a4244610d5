"""Properties decided on generated energy systems: what one full optimisation returns."""

from .base import SystemProp

NONE = dict(flow_onoff=0, comp_onoff=0, invest=0, rmin=0, st_invest=0, profile=0)
CONV = dict(Boiler=2, LinearConverter=3, Power2Heat=1, HeatPump=1, CHP=2, CoolingTower=1, HeatPumpWithSource=1)
TXT = ('random small energy systems (random time axis incl. non-equidistant steps, effects with shares, element order, number formats), '
       'optimised by the real code and by an independent MILP; ')


def extra(kind, k=1):
    return tuple((lambda g, kind=kind: g.component(kind)) for _ in range(k))


def must_take(g):
    """feed-in that cannot be curtailed"""
    c = g.c_Source()
    c['flow'] = {'label': c['flow']['label'], 'bus': c['flow']['bus'], 'size': g.num(5, 60), 'profile': g.ts(0, 1)}
    return c


PLAIN = dict(NONE, kinds=dict(Source=1, Sink=1, LinearConverter=1, Boiler=1), eff=0.3)

C01 = SystemProp(
    'C01', 1920, 24000,
    [
        dict(PLAIN, buses=(1, 3), strict=0.15, supply=0.6, demand=0.9, penalty_ts=0.4, comps=(1, 3), _extra=(must_take,)),
        dict(PLAIN, buses=(2, 4), strict=0.4, supply=0.95, demand=0.8, penalty_ts=0.3, comps=(1, 2)),
        dict(PLAIN, buses=(1, 2), strict=0.0, zero_penalty=0.3, supply=0.4, demand=0.9, comps=(0, 2), _extra=(must_take, must_take)),
    ],
    TXT + 'non-trivial: a bus balance with flow through it, or a bus with non-zero excess, was checked',
)

C02 = SystemProp(
    'C02', 1920, 24000,
    [
        dict(NONE, kinds=CONV, comps=(1, 2), conv_ts=0.6, multi_io=0.7, strict=0.05, supply=0.95),
        dict(NONE, kinds=dict(LinearConverter=1), comps=(1, 1), conv_ts=0.6, multi_io=1, neg_factor=0.25, strict=0.0, supply=0.95),
        dict(NONE, kinds=dict(CHP=2, HeatPumpWithSource=2, CoolingTower=1, HeatPump=1, Boiler=1, Power2Heat=1), comps=(1, 2), conv_ts=0.5, strict=0.05, supply=0.95, comp_onoff=0.1),
    ],
    TXT + 'non-trivial: a conversion equation with flow in it was checked',
)

SEG = dict(NONE, kinds=dict(LinearConverter=1), segments=1.0, strict=0.0, supply=0.95, demand=0.95, conv_ts=0.5)
C03 = SystemProp(
    'C03', 1600, 20000,
    [
        dict(SEG, comps=(1, 1), multi_io=0.5),
        dict(SEG, comps=(1, 1), multi_io=0.6, comp_onoff=0.9),
        dict(SEG, comps=(1, 2), multi_io=0.3, comp_onoff=0.5, prev=0.5, flow_onoff=0.2),
    ],
    TXT + 'non-trivial: a step in which a converter with pieces was running was checked for lying on one piece in all flows',
)

STO = dict(NONE, kinds=dict(Storage=3, Boiler=1), strict=0.0, ts_price=0.95, supply=0.95, demand=0.9)
C04 = SystemProp(
    'C04', 1920, 24000,
    [
        dict(STO, comps=(0, 1), buses=(1, 2), _extra=extra('Storage')),
        dict(STO, comps=(0, 1), buses=(1, 1), st_invest=0.6, _extra=extra('Storage')),
        dict(STO, comps=(0, 0), buses=(1, 2), neg_price=0.3, st_cyclic=0.4, st_loss=0.9, st_final=0.1, uneven=0.8, _extra=extra('Storage')),
        dict(STO, comps=(0, 0), buses=(1, 1), st_bounds=1, st_bounds_ts=0.7, st_final=0.6, _extra=extra('Storage')),
    ],
    TXT + 'non-trivial: a storage that charged or discharged was followed over all steps, or a limit of its charge state was binding',
)

LIM = dict(NONE, kinds=dict(Source=2, Sink=2, Boiler=1, LinearConverter=1), strict=0.05, rmax_ts=0.5)
C05 = SystemProp(
    'C05', 2240, 28000,
    [
        dict(LIM, rmin=0.5, wide=0.4, profile=0.35, comps=(1, 3), size_none=0.2),
        dict(LIM, fh_max=0.5, fh_min=0.25, comps=(1, 2), size_none=0.2),
        dict(LIM, lf_max=0.4, lf_min=0.3, comps=(1, 2), size_none=0),
        dict(LIM, invest=0.8, lf_max=0.8, lf_min=0.8, fh_max=0.1, fh_min=0.1, comps=(1, 2), size_none=0, optional=0.3, _loose=0.5),
        dict(LIM, invest=0.5, lf_max=0.3, lf_min=0.2, rmin=0.3, profile=0.2, comps=(1, 2), size_none=0, optional=0.5),
        dict(LIM, flow_onoff=0.5, rmin=0.7, wide=0.4, comps=(1, 2), size_zero=0.1, size_none=0.1),
        dict(LIM, flow_onoff=0.7, invest=0.7, rmin=0.95, wide=0.4, comps=(1, 2), optional=0.4, fixed=0.2, eff=0.7, sw_eff=0.2, neg_price=0.3, kinds=dict(Boiler=1, LinearConverter=1, Source=2)),
    ],
    TXT + 'non-trivial: a limit of a flow (relative minimum or maximum, profile, flow hours, load factor) was binding or met',
)

ONK = dict(NONE, kinds=dict(Boiler=2, LinearConverter=1, CHP=1, Source=1, Storage=1), strict=0.0, rmin=0.6, sw_eff=0.2, run_eff=0.3)
C06 = SystemProp(
    'C06', 2304, 28800,
    [
        dict(ONK, flow_onoff=0.5, comp_onoff=0.4, wide=0.3, onh_max=0.3, onh_min=0.25, run_eff=0.6),
        dict(ONK, comp_onoff=0.9, kinds=dict(CHP=1, LinearConverter=1, Boiler=1), multi_io=0.7, onh_max=0.3, onh_min=0.2, prev=0.5),
        dict(ONK, kinds=dict(Storage=1, SourceAndSink=1), comps=(1, 2), st_prevent=1, neg_price=0.4, tr_bidir=1, eff=0.2),
        dict(ONK, flow_onoff=0.7, invest=0.6, rmin=0.9, wide=0.6, comps=(1, 1), onh_max=0.3, optional=0.6),
        dict(ONK, kinds=dict(Transmission=1), comps=(1, 1), buses=(2, 3), tr_bidir=1, tr_prevent=1, tr_abs=0.2, tr_invest=0),
        dict(ONK, kinds=dict(Transmission=1), comps=(1, 1), buses=(2, 3), tr_bidir=0.4, tr_abs=0.7, tr_invest=0.3, flow_onoff=0.8, onh_max=0.5, onh_min=0.2, run_eff=0.7),
    ],
    TXT + 'non-trivial: an on/off state was compared with its flow, on-hours were counted, or two exclusive flows were both used',
)

SW = dict(NONE, kinds=dict(Boiler=2, LinearConverter=1, CHP=1, Source=1), strict=0.0, rmin=0.7, ts_price=0.9, prev=0.6, dur_ts=0.2)
C07 = SystemProp(
    'C07', 2000, 26000,
    [
        dict(SW, flow_onoff=0.7, sw_eff=0.9, comps=(1, 2)),
        dict(SW, flow_onoff=0.6, sw_max=0.7, sw_eff=0.4, comps=(1, 2), force=0.3),
        dict(SW, comp_onoff=0.9, sw_max=0.5, sw_eff=0.6, comps=(1, 1), multi_io=0.5, force=0.3),
        dict(SW, flow_onoff=0.8, sw_max=0.7, sw_eff=0.3, comps=(1, 1), onh_max=0.6, onh_min=0.3, kinds=dict(Boiler=1, Transmission=1, Source=1), buses=(2, 3), tr_abs=0.6),
    ],
    TXT + 'non-trivial: reported starts and stops were recomputed from an on/off pattern and the state before the horizon',
)

DUR = dict(NONE, kinds=dict(Boiler=2, LinearConverter=1, Source=2), strict=0.0, rmin=0.7, ts_price=0.9, prev=0.6, sw_eff=0.3, n=(4, 8), dur_ts=0.35, uneven=0.6, comps=(1, 1), effects=(1, 2))
C08 = SystemProp(
    'C08', 2240, 28000,
    [
        dict(DUR, flow_onoff=0.7, on_min=0.6, off_min=0.3),
        dict(DUR, flow_onoff=0.7, on_max=0.6, off_max=0.15),
        dict(DUR, flow_onoff=0.6, off_min=0.6, on_max=0.2),
        dict(DUR, flow_onoff=0.5, off_max=0.5, on_min=0.1),
        dict(DUR, flow_onoff=0.7, on_min=0.3, on_max=0.4, off_min=0.6, off_max=0.6, dur_ts=0.5, prev_list=0.5),
        dict(DUR, comp_onoff=0.9, on_min=0.4, on_max=0.25, off_min=0.4, prev_list=0.7, prev_dt=0.4),
    ],
    TXT + 'non-trivial: a run of consecutive on or off steps was measured against a limit (previous history included)',
)

INV = dict(NONE, kinds=dict(Source=2, Boiler=2, LinearConverter=1), strict=0.0, size_none=0.2, comps=(1, 2))
C09 = SystemProp(
    'C09', 1920, 24000,
    [
        dict(INV, invest=0.7, optional=0.6, rmin=0.4, wide=0.4),
        dict(INV, invest=0.7, optional=0.8, inv_min=0.9, profile=0.3, rmin=0.3),
        dict(INV, invest=0.5, flow_onoff=0.5, rmin=0.6, wide=0.4, optional=0.6),
        dict(INV, kinds=dict(Storage=1), st_invest=1, invest=0.3, comps=(1, 1), ts_price=0.95, optional=0.7),
        dict(INV, invest=0.7, inv_max_none=0.5, optional=0.2, inv_min=0.6),
        dict(INV, invest=0.6, inv_seg=0.8, fixed=0.05, optional=0.6, comps=(1, 1)),
    ],
    TXT + 'non-trivial: a size and the decision to invest were compared with the definition',
)

C10 = SystemProp(
    'C10', 1920, 24000,
    [
        dict(INV, invest=0.8, fix=0.8, div=0.6, share_inv=0.5, effects=(1, 3)),
        dict(INV, invest=0.8, inv_seg=0.8, fixed=0.05, effects=(1, 3), div=0.4, share_inv=0.5),
        dict(INV, kinds=dict(Storage=1), st_invest=1, invest=0.4, comps=(1, 2), inv_seg=0.4, div=0.4, effects=(2, 3), share_inv=0.6),
    ],
    TXT + 'non-trivial: the effects of an investment (non-zero) were recomputed from size and decision',
)

C11 = SystemProp(
    'C11', 1920, 24000,
    [
        dict(NONE, effects=(2, 4), share_op=0.6, share_inv=0.4, share_ts=0.5, eff=0.8, strict=0.0, none_key=0.3, uneven=0.7, kinds=dict(Source=1, Sink=1, Boiler=1, LinearConverter=1)),
        dict(NONE, effects=(3, 4), share_op=0.8, share_inv=0.8, share_ts=0.3, eff=0.6, invest=0.4, flow_onoff=0.3, sw_eff=0.6, run_eff=0.6, strict=0.0, comps=(1, 2), kinds=dict(Source=1, Boiler=1)),
        dict(NONE, effects=(1, 3), comp_onoff=0.8, run_eff=0.8, sw_eff=0.6, eff=0.5, strict=0.0, comps=(1, 2), kinds=dict(CHP=1, Boiler=1), uneven=0.8),
    ],
    TXT + 'non-trivial: per-step effects, sums and shares between effects (non-zero) were recomputed from flows, states and sizes',
)

C12 = SystemProp(
    'C12', 1600, 20000,
    [
        dict(NONE, effects=(1, 3), eff=0.6, strict=0.0, share_op=0.4, _effects=0.9, _limits=1, kinds=dict(Source=1, Boiler=1, LinearConverter=1)),
        dict(NONE, effects=(2, 3), eff=0.6, strict=0.0, invest=0.5, share_inv=0.5, _effects=0.9, _limits=2, kinds=dict(Source=1, Boiler=1), comps=(1, 2)),
        dict(NONE, effects=(2, 4), eff=0.5, strict=0.0, flow_onoff=0.2, share_op=0.7, share_ts=0.4, _effects=0.9, _limits=1, kinds=dict(Source=1, Boiler=1), comps=(1, 2), uneven=0.8),
    ],
    TXT + 'limits on effects derived from the unrestricted optimum so that they bind; non-trivial: a limit was binding',
)

C13 = SystemProp(
    'C13', 1920, 24000,
    [
        dict(strict=0.05, comps=(1, 2)),
        dict(strict=0.05, comps=(1, 2), flow_onoff=0.3, invest=0.3, rmin=0.3, kinds=dict(Boiler=2, Storage=2, CHP=1, Transmission=1, HeatPumpWithSource=1, SourceAndSink=1), buses=(2, 3)),
        dict(strict=0.0, comps=(1, 1), segments=0.7, comp_onoff=0.4, kinds=dict(LinearConverter=1)),
        dict(strict=0.0, comps=(1, 2), fh_max=0.2, lf_max=0.1, sw_max=0.2, on_min=0.2, off_min=0.2, flow_onoff=0.4, _effects=0.3),
    ],
    TXT + 'all features mixed; non-trivial: the returned objective was compared with the reference optimum and with the effects it consists of',
    deciding=('objective', 'optimum'),
)

TR = dict(NONE, kinds=dict(Transmission=1), comps=(0, 0), buses=(2, 3), strict=0.0, supply=0.7, demand=0.9, tr_invest=0.3)
C15 = SystemProp(
    'C15', 1920, 24000,
    [
        dict(TR, _extra=extra('Transmission'), tr_abs=0.0, tr_bidir=0.6),
        dict(TR, _extra=extra('Transmission'), tr_abs=0.9, tr_bidir=0.6, tr_invest=0.2),
        dict(TR, _extra=extra('Transmission'), tr_abs=0.3, tr_bidir=1, tr_invest=0.8, optional=0.5),
        dict(TR, _extra=extra('Transmission', 2), tr_abs=0.3, tr_bidir=0.5, comp_onoff=0.3, neg_price=0.3),
    ],
    TXT + 'non-trivial: a transmission with flow through it was checked against its losses',
)

PROPS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C15]
