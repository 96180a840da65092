"""Saturation index and fit ranges"""
from .results_common import *

NOTE = ('Gated value-flow analysis of the saturation search and of the three threshold searches over symbolic arrays of '
        'symbolic length; the backward scan is summarised as a loop term (first position at which the scan condition '
        'fails) and must equal the summary of the reference scan.')
MEMBERS = ('index_start', 'index_sensitivity_min', 'index_sensitivity_max', 'index_linearity_min', 'index_linearity_max')
MIN = 2 * len(MEMBERS) + 2


def run(ck):
    members(ck, MEMBERS)
    for fo in (False, True):
        w = member_where(ck.world, RES, 'index_u_ysat')
        nm = 'Results1288.index_u_ysat' + (' (forced)' if fo else '')

        def go():
            r, obj, idx = make(ck, fo)
            got = read(r, obj, 'index_u_ysat')
            want = spec_of(ck, r, obj, 'r_index_u_ysat', idx)
            ck.equal(nm, got.value, want.value, w, 'scan denotes the reference scan')
        ck.guard(nm, go, w)
    control(ck, 'index_sensitivity_max')
